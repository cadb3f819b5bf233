"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=["unpythonic/" + f for f in files], mech=mech, observe=observe,
                  technique=technique, note=note, state=state))

prop("C01", "Trampolined tail calls: same result as plain calls, in constant stack",
     "A computation whose tail calls are written as `return jump(f, ...)` inside @trampolined functions returns exactly what the same computation with ordinary calls would return (same arguments delivered to each target, same exceptions, same order of side effects), whichever functions in the chain are trampolined. The Python call-stack depth seen by the targets does not grow with the number of tail calls, and ordinary (non-tail) calls nest normally. A jump to a non-callable raises RuntimeError, and a jump object that no trampoline picked up is reported on stderr while one that was performed never is.",
     ["programs", "inputs"], "all call graphs mixing tail and non-tail calls, trampolined or not, with any arguments, chain length and place of failure",
     "tests sample a few fixed recursions; they do not vary call graphs, decorator placement, kwargs or depth",
     ["tco.py"], [("trampoline loop and jump target stripping", "unpythonic/tco.py trampolined, jump")],
     ["return values", "event trace of function entries with arguments and stack depth", "stderr"],
     "reference-interpreter monitor over recorded call traces of random call graphs; stack-depth monitor")

prop("C02", "FP loops deliver the right items, accumulators and results",
     "looped, looped_over, breakably_looped and breakably_looped_over run the body exactly once per iteration with the documented arguments: `loop(...)` rebinds the loop variables (omitted ones take their defaults), the iterable versions feed each element exactly once and in order with the current accumulator, `loop()` without arguments keeps the accumulator, `cnt` continues with the current accumulator, `brk` ends the loop at once with its argument, and exhaustion or a normal return ends the loop with the final value. Nested loops and loops of any length run in constant stack depth and leave the iterable positioned just after the last item delivered. A body whose parameters cannot accept the loop arguments is rejected with ValueError before it runs.",
     ["programs", "inputs"], "all loop bodies (when to continue, break, return, with which values), iterables, nesting and lengths",
     "tests run a handful of fixed loops",
     ["fploop.py", "tco.py", "ec.py"], [("loop/brk/cnt closures over the trampoline", "unpythonic/fploop.py")],
     ["body invocations with their arguments", "loop result", "iterator position"],
     "scripted-loop reference monitor over the trace of body invocations")

prop("C03", "Escape continuations unwind exactly to their own catch point",
     "Invoking an escape continuation from call_ec, at any call depth inside its dynamic extent, makes exactly that call_ec return the given value, running every intervening `finally`, passing through all other catch points, and running nothing else of the abandoned code; outside the extent it raises RuntimeError. `throw` is caught by the dynamically innermost `catch` whose tags/catch_untagged and the throw's tag/allow_catchall match according to the documented table, and by no other. Without an escape the normal return value or exception passes through unchanged.",
     ["programs", "histories"], "all nestings of call_ec/catch points, tags and flags, escape targets and values, and re-entries of the same function",
     "tests exercise single fixed nestings; the tag table and mixed nestings are only sampled",
     ["ec.py"], [("Escape exception filtered by tag", "unpythonic/ec.py catch, call_ec")],
     ["trace of enter/finally/return events", "value returned at each level"],
     "reference-model monitor over traces of random nested catch/call_ec programs")

prop("C04", "Condition handlers and restarts are resolved by dynamic scope",
     "A signal runs, innermost first and in the listed order within a block, exactly the handlers currently bound to the condition's type or a supertype, without unwinding, until one invokes a restart; then exactly the dynamically innermost restart of that name (or the given restart object) is run with the given arguments after unwinding just to its `with restarts`, whose box receives the value. If none does, signal returns the condition instance; find_restart, available_restarts and available_handlers always report what is in scope with shadowing respected. After any exit, normal or not, the scopes in force before the block are in force again, and no thread sees another thread's handlers or restarts.",
     ["programs", "schedules", "histories"], "all nestings of handlers/restarts blocks, condition type hierarchies, handler behaviours (cancel, invoke, raise, re-signal), exits and threads",
     "tests walk a few fixed scenarios",
     ["conditions.py"], [("per-thread stacks of handler and restart scopes", "unpythonic/conditions.py")],
     ["trace of handler/restart executions", "box values", "introspection results"],
     "reference-model monitor over random condition programs, also under controlled thread interleavings")

prop("C05", "Condition protocols: error, cerror, warn, resignal",
     "`error` never returns normally: unless a handler invokes a restart it raises ControlError chained from the condition. `cerror` additionally returns normally when `proceed` is invoked and `warn` returns normally when `muffle` is invoked, and otherwise emits exactly one Python warning for the condition; `use_value`, `invoker(...)`, `proceed` and `muffle` invoke the like-named restart with their arguments and an unknown restart leads to ControlError. `resignal`/`resignal_in` convert exactly the conditions matching the first mapping entry into the mapped condition, with the original as cause and with the original's protocol, and leave the others alone.",
     ["programs", "inputs"], "all combinations of protocol, condition type or instance, handlers present, restarts invoked and resignal mappings, nested",
     "tests check each protocol on one or two conditions",
     ["conditions.py"], [("protocol functions on top of signal", "unpythonic/conditions.py error, cerror, warn, resignal")],
     ["outcome of each protocol call", "warnings emitted", "__cause__ chains"],
     "reference-model monitor over random protocol scenarios")

prop("C06", "Dynamic variables follow dynamic extent, per thread",
     "A dyn variable read anywhere yields the value bound or last assigned in the innermost enclosing `with dyn.let` of that thread's dynamic extent that binds it, else the make_dynvar default, else AttributeError; leaving a block by any route restores the previous bindings exactly. Assignment and `update` change only the innermost binding scope, `update` with any unknown name changes nothing, and membership, subscripting, iteration, len, equality, get, items and asdict live views always agree with attribute reads. Bindings and assignments made in one thread are invisible to the other threads, except that a new thread starts from a copy of the bindings of the main thread.",
     ["programs", "schedules", "histories"], "all nestings of let, update, assignment and exceptions, across threads",
     "tests use fixed nestings and one worker thread",
     ["dynassign.py"], [("thread-local scope stack, _resolve", "unpythonic/dynassign.py")],
     ["every dyn read in the workload", "live views"],
     "shadow-stack reference model checked at every operation; controlled thread interleavings")

prop("C07", "memoize runs the function at most once per distinct argument binding",
     "For a function decorated with @memoize, all calls whose arguments bind to equal values for the same parameters (however passed: positionally, by name, or by default, including *args and, in the same order, **kwargs) run the original once in total, even when made concurrently from many threads; every such call then returns that same result object, or raises that same exception instance if the run raised. Calls binding to different values are independent, and recursive calls work.",
     ["inputs", "schedules", "histories"], "all signatures, call shapes, histories of calls and exceptions, and thread interleavings",
     "tests call a few fixed signatures and one thread race",
     ["fun.py", "arity.py"], [("double-checked lock around the memo table keyed by bound arguments", "unpythonic/fun.py memoize"), ("tuplified argument bindings", "unpythonic/arity.py tuplify_bindings")],
     ["number of executions of the original per binding", "identity of results/exceptions"],
     "exactly-once history checker under a controlled seeded thread scheduler, and call-shape differential")

prop("C08", "Memoized generators compute each item once and replay it to every consumer",
     "All generators obtained from the same gmemoize/imemoize/fimemoize'd source with equal argument bindings see the same sequence of items from the beginning, each item of the underlying iterator is requested at most once in total and only when some consumer first needs it, and an exception (including the end) raised while computing item k is seen by every consumer at position k. This holds for any interleaving of consumers, including concurrent threads and recursive re-entry, and indexing or slicing shows exactly the already computed items without advancing anything.",
     ["schedules", "histories", "inputs"], "all interleavings of consumers, threads, failure positions, argument bindings",
     "tests use one or two consumers in lock step",
     ["gmemo.py"], [("shared memo list and lock per argument binding", "unpythonic/gmemo.py")],
     ["production events of the underlying generator", "items seen per consumer"],
     "exactly-once/ordering history checker under a controlled seeded thread scheduler")

prop("C09", "Currying: any grouping of the arguments gives the same result",
     "Passing the arguments of a curried function in any number of steps, positionally or by name, has the same result and the same single execution as passing them at once, never executes before all required parameters are bound, and never shares or mutates state between partial applications. Surplus positional and named arguments are passed through on the right to a callable (first) return value, or, inside an outer curry context, returned together with the result; at the top level surplus arguments raise TypeError. Type annotations and generic-function signatures are honoured: a partial application that can never match raises TypeError at once.",
     ["inputs", "programs", "histories"], "all signatures (defaults, keyword-only, varargs), argument groupings, return kinds, nestings with compose/generic functions",
     "tests use a few fixed arities and groupings",
     ["fun.py", "arity.py"], [("argument binding analysis", "unpythonic/fun.py curry, _decide_curry_action; unpythonic/arity.py _bind")],
     ["executions of the original with bound arguments", "results", "errors"],
     "differential monitor: curried in random groupings vs. reference reduction rules")

prop("C10", "Function combinators obey their algebraic definitions",
     "composel/composer and their 1-argument, iterable and currying variants equal nested application in the documented direction with Values unpacked as positional and named arguments; flip reverses the positional arguments, rotate(k) rotates them, tokth/to1st/to2nd/tolast/to apply the function to just the k-th of them; apply, identity, const, notf, andf, orf, withself, call, callwith, Values and valuify behave as documented, with andf/orf short-circuiting left to right. Each wrapped function is called exactly as often as the definition says, and keyword arguments reach it unchanged.",
     ["inputs", "programs"], "all function lists, arities, argument values and combinations of combinators",
     "tests check a few fixed compositions",
     ["fun.py", "funutil.py"], [("compose/tokth/rotate etc.", "unpythonic/fun.py"), ("Values, call", "unpythonic/funutil.py")],
     ["trace of calls with arguments", "results"],
     "reference-model monitor with recording functions")

prop("C11", "Multiple dispatch picks the latest matching multimethod, or raises TypeError",
     "Calling a @generic function runs exactly one multimethod: the most recently registered one whose signature accepts the call's arguments and whose every type annotation (including those of *args, **kwargs and defaulted parameters) accepts the values, with methods inherited from ancestors in MRO order tried after the class's own; if there is none, TypeError is raised and nothing runs. @augment adds to an existing generic function seen by all its users; @typed accepts exactly the calls its one signature admits and rejects further registration; methods introspection lists exactly the registered multimethods.",
     ["programs", "inputs", "histories"], "all sets and registration orders of multimethods, type annotations, call shapes, class hierarchies",
     "tests register a few fixed multimethods",
     ["dispatch.py", "typecheck.py", "arity.py"], [("method registry scanned newest first", "unpythonic/dispatch.py")],
     ["which multimethod ran with which arguments", "errors"],
     "reference dispatcher monitor over random registries and calls")

prop("C12", "isoftype decides membership of values in typing specifications",
     "isoftype(value, T) returns True exactly when the value belongs to the type specification: Any, unconstrained and constrained TypeVars, Union/Optional, NewType, Tuple (fixed and homogeneous), List/Set/FrozenSet/Deque/Sequence/... collections with element types, mappings and items views with key and value types, Callable, protocols such as Sized or SupportsInt, str/bytes/ByteString and concrete classes, nested arbitrarily, an empty collection not matching a parametric collection type. Unsupported specifications raise NotImplementedError rather than answering, and the value is never modified.",
     ["inputs"], "all values and nested type specifications",
     "tests check a list of fixed pairs",
     ["typecheck.py"], [("structural recursion over typing objects", "unpythonic/typecheck.py isoftype")],
     ["returned booleans"],
     "independent reference checker over random (value, type) pairs grown together and mutated apart")

prop("C13", "Arity analysis agrees with actually calling the function",
     "arities(f) brackets exactly the numbers of positional arguments with which f can be called, arity_includes(f, n) is True exactly for those, and required_kwargs/optional_kwargs name exactly its keyword-only parameters without/with defaults, for functions, lambdas, bound methods, classmethods, staticmethods, generic functions and known builtins; unknown arity raises UnknownArity. resolve_bindings binds parameters exactly as an actual call would (including failures with TypeError), and tuplify_bindings gives equal hashable keys exactly for equal bindings (with the **kwargs in the same order).",
     ["inputs", "programs"], "all signatures and call shapes",
     "tests check a list of fixed signatures",
     ["arity.py"], [("signature inspection", "unpythonic/arity.py")],
     ["reported arities", "outcome of the real call"],
     "differential monitor against real calls of generated functions")

prop("C14", "Sequence views and functional updates behave like slices of the data",
     "A view or roview (of views, to any depth, with any slices) shows at every moment exactly the elements the composed slices select from the current underlying sequence, writing through a view changes exactly those elements of the underlying sequence and nothing else, and a read-only view never allows writing. fupdate, fup and ShadowedSequence yield exactly the sequence or mapping that in-place assignment on a copy would give, of the same type, leaving the original and the replacement untouched. in_slice and index_in_slice agree with enumerating the slice.",
     ["inputs", "histories"], "all sequences, nested slices (any start/stop/step), write histories, replacement specifications",
     "tests check a few fixed slices",
     ["collections.py", "fup.py", "slicing.py"], [("lazy index mapping", "unpythonic/collections.py view, roview, ShadowedSequence"), ("fupdate", "unpythonic/fup.py")],
     ["elements via index, slice, iteration, len, repr, equality", "underlying data after each write"],
     "shadow-list reference model checked after every operation")

prop("C15", "Boxes, frozendict, Shim and mogrify keep their container contracts",
     "frozendict is an immutable, hashable, picklable mapping equal to the dict built from the same merged inputs (later ones win) and independent of them; box/Some hold exactly the last object set (Some never changes), ThreadLocalBox holds per thread the last object set by that thread, else the default; a Shim reads attributes from the currently boxed object, falling back only for missing ones, and writes to the primary object. mogrify maps a function over all elements of arbitrarily nested containers, in place exactly for the mutable ones (identity kept) and building new containers of the same type for immutable ones, applying it exactly once per leaf.",
     ["inputs", "histories", "schedules"], "all operation histories, nested containers, threads",
     "tests check fixed examples",
     ["collections.py"], [("container classes", "unpythonic/collections.py")],
     ["results of every container operation", "identity/equality after mogrify"],
     "dict/box reference models per operation history; thread interleavings for ThreadLocalBox")

prop("C16", "Linked lists and cons trees",
     "ll/llist build a proper list of exactly the given elements in order; iteration, reversed, lreverse, lappend, lzip, member, TailIterator, the tree iterators and all c[ad]+r accessors agree with the structure built, never change it, and raise TypeError for improper structures where documented. cons cells are immutable, equal exactly when structurally equal, equal cells hash equally, they pickle and copy to equal cells, and nil is a singleton that ends every proper list. Printing round-trips by eval for representable contents.",
     ["inputs"], "all lists and cons trees, including deep and improper ones",
     "tests use small fixed structures",
     ["llist.py"], [("cons, iterators", "unpythonic/llist.py")],
     ["elements delivered", "equality/hash", "errors"],
     "reference-model monitor with nested tuples as model")

prop("C17", "Folds, scans and unfolds equal their recursive definitions",
     "scanl, scanr, foldl, foldr, their 1-input, reduce and right-synced r- variants, with one or several inputs of any lengths, longest/fillvalue, and init given or not, produce exactly the values of their textbook recursive definitions, with the accumulator as last argument and elements in input order, calling the function exactly once per step. unfold/unfold1 yield until the function returns None; prod, minmax and running_minmax agree with their mathematical definitions; scans from the left are lazy, consuming only what is needed, so work on infinite inputs.",
     ["inputs"], "all functions, iterables of any kind and length, inits and options",
     "tests check fixed small inputs",
     ["fold.py"], [("generator-based scans", "unpythonic/fold.py")],
     ["trace of calls to the folded function", "values produced", "input consumption"],
     "differential monitor against textbook definitions with recording functions and iterators")

prop("C18", "Iterator utilities: right items, right order, no over-consumption",
     "Each utility for iterables (rev, map/zip variants and their r/longest forms, flatmap, uniqify, uniq, take, drop, split_at, unpack, tail, butlast, butlastn, first, second, nth, last, lastn, scons, pad, flatten variants, iterate, partition, inn, iindex, find, window, chunked, within, interleave, subset, powerset, allsame, islice, Popper, CountingIterator, slurp) produces exactly the items its documentation defines for every iterable, in order, for iterators and reusable iterables alike. The lazy ones work on infinite inputs and do not consume more items of their input than needed for the items requested so far. Invalid counts raise the documented TypeError or ValueError.",
     ["inputs"], "all iterables (lists, generators, one-shot iterators, infinite), counts and options",
     "tests check fixed small inputs",
     ["it.py", "slicing.py", "misc.py"], [("generator pipelines", "unpythonic/it.py")],
     ["items delivered", "items consumed from the input"],
     "differential monitor against list-based reference definitions, with consumption-counting iterators")

prop("C19", "Mathematical sequences: s(...) and stream arithmetic",
     "s(...) yields exactly the constant, arithmetic, geometric, power, explicit or cyclic sequence specified (finite ones end with the stated element), and raises SyntaxError for specifications that match no or more than one formula consistently. Arithmetic, comparison, bitwise and rounding operations on mathified iterables are lazy and termwise, equal to applying the operator to the corresponding elements (scalars broadcast on either side, ending with the shortest), and cauchyprod/diagonal_reduce equal the diagonal sums. fibonacci, triangular and primes yield the classical sequences.",
     ["inputs"], "all specifications, operand kinds and operator expressions",
     "tests check a few specs and operators",
     ["mathseq.py"], [("spec analysis and termwise stream ops", "unpythonic/mathseq.py")],
     ["elements produced"],
     "differential monitor against exact rational/number-theoretic references")

prop("C20", "let, letrec, do and env: names resolve to exactly their bindings",
     "let/letrec (and dlet/dletrec/blet/bletrec, in both kwargs and lispylet syntax) bind each name once to its value - for letrec after evaluating each callable initializer once with the environment so far, in order - and evaluate the body exactly once in an environment where reads return the latest assignment; nested environments are independent and closures keep theirs. An env behaves as a mapping with attribute access whose bindings can be changed but, once finalized, neither added nor removed; assigning or reading an undefined name, reserved names and non-identifiers are rejected without effect; assignonce forbids rebinding except through set. do/do0 run their items once in order and return the last/first value.",
     ["programs", "histories"], "all binding lists, bodies, nestings and environment operation histories",
     "tests check fixed examples",
     ["let.py", "lispylet.py", "env.py", "assignonce.py", "seq.py"], [("env objects and let drivers", "unpythonic/env.py, let.py, lispylet.py")],
     ["values read", "order of evaluations", "errors"],
     "dict reference model per operation history, trace monitor of evaluation order")

prop("C21", "Pipes and sequencing compose left to right, once",
     "pipe, pipe1, pipec, piped, piped1 and their lazy variants feed the initial value(s) through the functions left to right, each called exactly once, Values unpacking into positional and named arguments between steps and a single positional value being returned bare; pipe objects are immutable (forking one does not affect the other). The lazy variants call nothing until exitpipe, and then see the state at that time, and can be evaluated repeatedly. begin/begin0/lazy_begin/lazy_begin0 return the last/first value, the lazy ones running each thunk once in order.",
     ["inputs", "programs", "histories"], "all pipelines, value kinds, forks and repeated evaluations",
     "tests check fixed pipelines",
     ["seq.py"], [("pipe classes", "unpythonic/seq.py")],
     ["trace of calls", "results"],
     "reference-model monitor over random pipelines with recording functions")

prop("C22", "Symbols and singletons are unique, across threads and pickling",
     "sym(name) is one and the same object for equal names and different for different names in one process, gensym never returns an equal symbol twice whatever its label, and both survive pickling, copying and deep-copying as the identical object, under any interleaving of threads. A Singleton class has at most one live instance: constructing another raises TypeError, subclasses are independent, unpickling yields the live instance with the pickled state, and after the instance is gone a new one can be made.",
     ["schedules", "histories", "inputs"], "all names, thread interleavings, pickle/copy round trips and object lifetimes",
     "tests check one name and one thread",
     ["symbol.py", "singleton.py"], [("weak registries with locks", "unpythonic/symbol.py, singleton.py")],
     ["object identities over time"],
     "identity-history checker under a controlled seeded thread scheduler and random lifetimes")

prop("C23", "Promises are evaluated at most once and only when needed",
     "A Lazy promise does not run its thunk until forced, runs it at most once however often it is forced, and every force returns that same value or raises that same exception. force forces all promises inside nested containers and passes other values through unchanged; force1 only the promise itself. Calling through maybe_force_args, and the lazy-aware library functions, passes promises unforced exactly to functions marked to take lazy arguments and forces them for all others.",
     ["inputs", "histories"], "all nested containers of promises, failing thunks, force orders and callees",
     "tests check fixed cases",
     ["lazyutil.py", "collections.py"], [("Lazy, force, mogrify", "unpythonic/lazyutil.py")],
     ["thunk executions", "values"],
     "exactly-once monitor on thunk executions over random nested data and call chains")

prop("C24", "forall explores exactly the specified choices, in order",
     "forall (function and macro forms) returns exactly the tuple of final values that the corresponding nested for-loops with if-guards would produce, in the same order, each choice ranging over its iterable with the earlier names visible, insist/deny keeping exactly the satisfying branches. Names are visible only to later lines, and the monadic list type satisfies the monad laws.",
     ["programs", "inputs"], "all lists of choices, guards and bodies",
     "tests check pythagorean triples and a few more",
     ["amb.py", "syntax/forall.py"], [("list monad bind chain", "unpythonic/amb.py forall")],
     ["returned tuple", "trace of evaluations"],
     "differential monitor against generated nested loops")

prop("C25", "fix breaks infinite recursion exactly when a cycle occurs",
     "A @fix (or @fixtco) decorated function returns the same value as the undecorated one whenever no call re-enters itself with equal argument bindings; when a call is re-entered with equal bindings before it has returned, that inner call yields the bottom value (or bottom called with the function name and arguments) instead of recursing. Mutual recursion, exceptions and several threads do not disturb each other: after any call ends, normally or not, no trace of it affects later calls (except memoized results, unless memo=False).",
     ["programs", "inputs", "histories", "schedules"], "all call graphs, arguments, bottoms, memo settings, exceptions and threads",
     "tests check a few recursions",
     ["fix.py"], [("thread-local visited set", "unpythonic/fix.py")],
     ["return values", "trace of calls"],
     "reference interpreter over random recursive call graphs")

prop("C26", "Exception utilities behave like the statements they replace",
     "raisef, tryf, reraise and reraise_in behave as the corresponding raise/try/except/else/finally statements would: tryf runs the first matching handler (with the exception if it accepts an argument), the else-branch only without an exception, the finally-branch always once, and lets unmatched exceptions propagate; reraise converts exactly the exceptions matching the first mapping entry, chaining the original, and passes others through. equip_with_traceback attaches the caller's stack, and async_raise delivers the exception to the target thread only, refusing dead or invalid threads.",
     ["inputs", "programs"], "all exception types, handler lists, mappings and nestings",
     "tests check fixed cases",
     ["excutil.py"], [("tryf, reraise", "unpythonic/excutil.py")],
     ["outcomes and side-effect order", "exception chains", "traceback frames"],
     "differential monitor against real try statements over random exception programs")

prop("C27", "Message protocol: every sent message is received once, intact and in order",
     "For any sequence of byte strings encoded with encodemsg and concatenated, with arbitrary junk free of the sync byte (or false message starts) in between, MessageDecoder/decodemsg return exactly those byte strings in order and then None at end of data, however the byte stream is cut into chunks and whatever the message sizes. A message cut short by the end of data is never returned, data after the last message remains available in the receive buffer, no more is read than the message needs, and malformed headers are skipped rather than raising. The byte, stream and socket sources deliver all data in order in chunks of at most the requested size, and recvall returns exactly the bytes asked for, or None if the peer closes first.",
     ["inputs", "fault_sequences"], "all message contents and sizes, junk, chunkings and truncation points, from bytes, streams and sockets",
     "tests decode a few short messages in fixed chunks",
     ["net/msg.py", "net/util.py"], [("synchronize/read_header/read_body over a receive buffer", "unpythonic/net/msg.py")],
     ["decoded messages", "remaining buffer"],
     "no-loss/ordering history checker over random chunkings and injected junk/truncation")

prop("C28", "REPL server: sessions are independent and commands are answered correctly",
     "Each REPL session connected to the server executes the lines its client sends, in order, in the shared namespace, and its client - and no other - receives the printed output; stdout/stderr of other threads and of the server stay untouched, and disconnecting one session leaves the others and the server running. On the control channel each request gets exactly one reply of the documented form: descriptions, pairing, tab completions equal to the standard completer, remote Ctrl+C interrupting just the paired session, and an error reply for anything invalid. After stop(), the standard streams and prompts are restored and the ports are free; the server program ends after halt() when, and only when, its last session has ended, unless halt(False) cancelled it.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of sessions, commands, disconnects",
     "no test starts the REPL server",
     ["net/server.py", "net/ptyproxy.py", "net/common.py", "net/util.py"], [("session threads with thread-local standard streams", "unpythonic/net/server.py")],
     ["bytes received per client", "control replies", "sys.stdout identity"],
     "online trace checker over concurrent scripted TCP sessions with unique payloads")

prop("C29", "Numeric, naming and timing helpers are correct for all inputs",
     "almosteq, ulp, fixpoint, and the partition_int family agree with their mathematical definitions (all partitions, each exactly once, respecting the bounds); namelambda sets the names of a copy without touching the original, getattrrec/setattrrec follow the attribute chain to its end, seconds_to_human and format_human_time preserve the total, and ETAEstimator reports remaining tasks times the average of the kept durations.",
     ["inputs"], "all numeric inputs, attribute chains, durations",
     "tests check fixed values",
     ["numutil.py", "misc.py", "timeutil.py"], [("helpers", "unpythonic/numutil.py, misc.py, timeutil.py")],
     ["returned values"],
     "differential monitor against exact references")

prop("C30", "let and do macros: lexical scoping and evaluation order",
     "Code using the let, letseq, letrec expression and decorator macros (in every documented surface syntax, with multiple body expressions) and do/do0/local/delete computes the same values and performs side effects in the same order as the equivalent code with ordinary nested functions and local variables: each binding visible exactly in its documented scope, shadowing and closures lexical, assignment by << or := affecting the innermost binding, initializers and bodies evaluated once and in order. Names not bound by the construct resolve as if it were not there.",
     ["programs", "inputs"], "all nestings of binding constructs, assignments, closures and shadowing",
     "tests check fixed programs",
     ["syntax/letdo.py", "syntax/letdoutil.py", "syntax/scopeanalyzer.py"], [("AST rewriting of names into env references", "unpythonic/syntax/letdo.py")],
     ["values and event traces of generated programs"],
     "translation monitor: generated macro programs vs. equivalent plain-Python programs, traces compared")

prop("C31", "tco and autoreturn macros preserve meaning and eliminate tail calls",
     "Code in `with autoreturn` behaves as if `return` were written before every tail-position expression (through if, try and with branches, where a function or class definition in tail position gives that function or class), and nowhere else. Code in `with tco` returns the same values, raises the same exceptions and performs the same effects as without it, for functions, methods and lambdas with tail calls in any tail position (and/or, if-expressions, do, let bodies, nested; an `and` with a tail call gives False instead of a falsey operand, and a call returned from inside a try or with block is made after leaving it), while tail-call chains of any length run in constant stack depth.",
     ["programs", "inputs"], "all function bodies, nested tail positions, chain lengths",
     "tests check fixed functions",
     ["syntax/tailtools.py", "tco.py"], [("tail-position AST transformation", "unpythonic/syntax/tailtools.py")],
     ["values, effects and stack depth of generated programs"],
     "translation monitor: generated programs with and without the macro, traces compared")

prop("C32", "continuations: call_cc captures the rest of the body, multi-shot",
     "In `with continuations`, `x = call_cc[f(...)]` makes the remainder of the enclosing function the continuation passed to f: calling it any number of times, at any later time, runs that remainder afresh with the given value(s) and with the surrounding variables as documented, and when f returns normally its value continues there. Programs not using call_cc compute what they compute without the macro; multiple, conditional, nested and sequential captures, starred and multiple targets, and escaping by replacing the continuation behave like the equivalent explicit continuation-passing program.",
     ["programs", "histories"], "all placements of captures and histories of continuation invocations",
     "tests check fixed generator/backtracking examples",
     ["syntax/tailtools.py"], [("CPS transformation", "unpythonic/syntax/tailtools.py")],
     ["values and traces of generated programs"],
     "translation monitor: generated call_cc programs vs. explicit-CPS reference programs")

prop("C33", "lazify: call-by-need evaluation",
     "In `with lazify`, a function argument or let binding is evaluated at most once and only if its value is used, results equal those of strict evaluation whenever strict evaluation succeeds without side effects, and an erroring or nonterminating argument that is never used does no harm. Values passed through several lazy functions, containers, varargs and keyword arguments keep this property, and strict code called from lazy code receives forced values.",
     ["programs", "inputs"], "all expression and function graphs mixing used and unused arguments",
     "tests check fixed functions",
     ["syntax/lazify.py", "lazyutil.py"], [("promise insertion and forcing", "unpythonic/syntax/lazify.py")],
     ["evaluation events per argument expression", "results"],
     "evaluate-at-most-once monitor on generated programs, reference need analysis by call-by-need interpreter")

prop("C34", "autocurry, prefix and call macros preserve call semantics",
     "In `with autocurry` every call behaves as a curried call of the same function: calls with all arguments give the plain result and partial calls give functions that complete it. In `with prefix`, tuples in load position are calls of their first element with the rest as arguments (with q, u and kw forms as documented) and everything else is unchanged.",
     ["programs", "inputs"], "all call expressions and nestings",
     "tests check fixed programs",
     ["syntax/autocurry.py", "syntax/prefix.py", "fun.py"], [("call rewriting", "unpythonic/syntax/autocurry.py, prefix.py")],
     ["values and call traces of generated programs"],
     "translation monitor: generated programs vs. plain equivalents")

prop("C35", "let_syntax and abbrev substitute code exactly",
     "let_syntax and abbrev, as expressions and as blocks, substitute exactly the bound names (plain names and templates with arguments) by the bound code in the body, at every use and only there (inner let_syntax definitions shadow outer ones; a block definition is active from the next statement on), each use getting a fresh copy with all formal parameters replaced by the arguments of that use, first templates and then bare names, in definition order; the result evaluates as the hand-substituted program does, and malformed definitions or uses are rejected at expansion time. Substitutions whose code refers to themselves are out of scope.",
     ["programs"], "all bindings, templates and uses",
     "tests check fixed programs",
     ["syntax/letsyntax.py"], [("AST substitution", "unpythonic/syntax/letsyntax.py")],
     ["values of generated programs"],
     "translation monitor: generated programs vs. hand-substituted equivalents")

prop("C36", "cond, aif, autoref, dbg, nb and lambda tools mean what they abbreviate",
     "cond[] and aif[] evaluate like the equivalent if-elif chain (tests in order, only the chosen branch, `it` bound to the test value); multilambda, namedlambda, fn/quicklambda and envify lambdas compute what the equivalent ordinary functions compute, with namedlambda naming each lambda after its assignment target; inside with autoref(o) each name that is read gives o's attribute of that name if o has it at that moment, else the ordinary variable (nested blocks: the innermost object first), and writes are not redirected; dbg[] returns the value unchanged and prints its source, line and value; nb assigns each top-level expression to _ and prints it unless None.",
     ["programs", "inputs"], "all expressions and nestings",
     "tests check fixed programs",
     ["syntax/ifexprs.py", "syntax/lambdatools.py", "syntax/autoref.py", "syntax/dbg.py", "syntax/nb.py"], [("expression macros", "unpythonic/syntax/")],
     ["values, names and printed output of generated programs"],
     "translation monitor: generated programs vs. plain equivalents")

prop("C37", "Test framework counts and reports every outcome",
     "In unpythonic.test.fixtures, every executed test[], test_raises[], test_signals[] (expression or block, with `the[]` captures) that should pass counts as a pass, each that should fail as a failure and each that errors as an error; the totals equal the numbers of passes, failures, errors and warnings of all nested testsets; one failing test does not stop the following ones, and an escaping exception ends just its testset; terminate() ends the session; postproc sees each failure, error and warning once, with its origin, line, mode, result and captured values. A failing assertion is never reported as passed.",
     ["programs", "histories"], "all nestings of testsets and outcomes",
     "the framework tests itself on fixed cases only",
     ["test/fixtures.py", "syntax/testingtools.py"], [("counters and condition signalling", "unpythonic/test/fixtures.py, syntax/testingtools.py")],
     ["counter values", "printed summary"],
     "conservation monitor: generated test modules with known verdicts vs. counters")

prop("C38", "Dialects give programs the documented semantics",
     "A module in the Lispython, Pytkell or Listhell dialect computes the same results as the program written with the corresponding combination of macros (Lispython: autoreturn, tco, multilambda, namedlambda and quick lambdas; Pytkell: autocurry and lazify; Listhell: prefix and autocurry), with the documented builtins available without import.",
     ["programs"], "all programs in the dialects' domain",
     "tests have one module per dialect",
     ["dialects/lispython.py", "dialects/listhell.py", "dialects/pytkell.py"], [("AST dialect templates", "unpythonic/dialects/")],
     ["values and traces of generated programs"],
     "translation monitor: generated dialect modules vs. plain equivalents")

prop("C39", "Trampolined generators chain tail calls into one flat stream",
     "A generator returning another iterable from gtco or from a @gtrampolined generator yields exactly its own items followed by those of the returned generator or iterable, recursively, in order, with bounded stack depth for chains of any length; a non-iterable return value ends the stream and becomes the StopIteration value; values sent and exceptions thrown in reach the currently running generator.",
     ["programs", "inputs"], "all chains of generators and iterables of any length",
     "tests check two chains",
     ["gtco.py"], [("gtco loop", "unpythonic/gtco.py")],
     ["items delivered", "stack depth"],
     "reference-model monitor over random generator chains")

prop("C40", "Macro combinations keep each macro's meaning",
     "When the block macros are combined in the documented order (prefix, autoreturn, quicklambda, multilambda, envify, namedlambda, autoref, autocurry, tco/continuations, lazify), the program has the meaning obtained by applying each macro's documented semantics together: results and effect order equal the plain equivalent program, decorators of the library being applied in the documented order.",
     ["programs"], "all programs under all documented macro combinations",
     "tests combine a few macros on fixed programs",
     ["syntax/tailtools.py", "syntax/lazify.py", "syntax/autocurry.py", "syntax/lambdatools.py", "syntax/letdo.py", "syntax/util.py", "regutil.py"], [("coordination of block macros, decorator sorting", "unpythonic/syntax/util.py, regutil.py")],
     ["values and traces of generated programs"],
     "translation monitor: generated programs under random macro stacks vs. plain equivalents")

LEVEL_NOTE = ("Held on the executions this run produced (seeded cases counted in the evidence file); not a proof. "
              "Trusts CPython, mcpyrate and the reference model in the check module.")

def main():
    built = {f[:3].upper() for f in os.listdir(os.path.join(HERE, "vp", "checks")) if f[0] == "c" and f[1:3].isdigit()}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
           "notes": "No hooks in /repo: all monitors attach from outside (public API, sys.monitoring, sys.settrace scheduler). Replay: python3 run.py <ID> --replay <path>."}
    for p in P:
        if p["id"] in built:
            man["checks"].append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']}",
                                  "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                                  "technique": "runtime monitoring: " + p["technique"],
                                  "level": "exploration", "level_note": p["note"] or LEVEL_NOTE})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        n = p["statement"].count(". ") + 1
        if n > 3:
            print("long statement", p["id"], n)
main()
