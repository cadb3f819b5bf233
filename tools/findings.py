"""Writes known_findings.json (kept as a script so that hashes can be refreshed): python3 tools/findings.py"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
 ("C37", "terminate-nested-testset", "terminate(), called in a testset nested in a session or used as its postproc, ends just that testset; the documentation says that the session exits immediately (the repair is one line, `raise` instead of `pass` in testset, but unpythonic/test/fixtures.py counts as a test file, which may not be changed here)"),
 ("C30", "dletseq-parameter-shadowing", "@dletseq[c := 1] def main(c): return c -- main(4) returns 1, although the documentation says that formal parameters shadow the names of the let environment (dlet and dletrec do this)"),
 ("C28", "disconnect-in-block", "REPL server: a client that disconnects in the middle of a multi-line block (or of a pending input()) leaves its session active for ever, because the quit() which the server injects becomes part of the block"),
 ("C29", "namelambda-mutates-original", "namelambda('foo')(f) renames f itself and returns it, although doc/features.md says that the result is a modified copy and the original is not mutated (not repaired: the documented example namelambda('inner')(withself(lambda self: self)) relies on the in-place renaming)"),
 ("C26", "async-raise-instance", "async_raise(thread, instance): the docstring allows an exception instance, but the target thread gets a SystemError from CPython's PyThreadState_SetAsyncExc, which takes only a class"),
 ("C07", "mutual-recursion-abba-deadlock", "two memoized functions f, g where f calls g and g calls f: thread 1 inside f waits for g's lock while thread 2 inside g waits for f's lock (one RLock per memoize site is held during the call), so both hang"),
 ("C08", "mutual-recursion-abba-deadlock", "two gmemoized sequences each consuming the other: thread 1 computing an item of A waits for B's lock while thread 2 computing an item of B waits for A's lock, so both hang"),
 ("C06", "thread-snapshot-at-first-use", "a thread started inside `with dyn.let(x=42)` of the main thread, which first uses dyn after that block has ended, does not see x (documented: a newly spawned thread copies the then-current bindings)"),
 ("C36", "envify-local-variable-shadows-parameter", "in with envify, a comprehension variable, or a variable assigned in an inner function or class, which has the name of a parameter of an enclosing function, overwrites that parameter: def f(n): l = [n for n in range(3)]; return n gives 2 for f(7)"),
 ("C18", "flatten1-without-pred-non-list-item", "flatten1([1, [2]]) raises TypeError although its documentation says that non-list items are passed through (flatten and flatten_in do pass them through)"),
]
# subject of the fix commit -> (property, what failed)
FIXED = {
 "fix: let bindings may be named": ("C20", "let(mode=1, body=...) and dlet(body=1) raised TypeError"),
 "fix: initialize an env only once": ("C20", "assignonce(x=1) raised AttributeError"),
 "fix: env.update and setdefault": ("C20", "env.update and setdefault accepted reserved names and non-identifiers; update of a finalized env with pairs was refused"),
 "fix: assignonce.update": ("C20", "assignonce.update rebound existing names"),
 "fix: names of the env methods": ("C20", "let(items=1, body=lambda e: e.items) returned a bound method"),
 "fix: a pipe may end": ("C21", "pipe(1, lambda x: Values()) raised IndexError"),
 "fix: forall no longer swallows": ("C24", "forall(choice(x=[1]), lambda e: 1 + 'a') returned ()"),
 "fix: forall evaluates": ("C24", "forall evaluated lines after a failed insist; an inner choice of the same name leaked into other branches; names such as e or names failed"),
 "fix: within no longer": ("C18", "within dropped the last item of a finite input that does not converge (and the only item of a one-item input)"),
 "fix: interleave of no": ("C18", "interleave() looped forever"),
 "fix: negative islice": ("C18", "islice(xs)[k] with negative k past the beginning returned the first item"),
 "fix: s accepts the final": ("C19", "s(1, -3, 9, ..., -243) was refused"),
 "fix: s raises SyntaxError, not": ("C19", "s(1, 2, 4, ..., 0) raised ValueError, s(1, -1, 1, ..., 1) ZeroDivisionError"),
 "fix: s no longer accepts": ("C19", "s(2, -4, 16, ...) was accepted and yielded 2, 4, 16; s(0, 1, 5, ...) raised ValueError"),
 "fix: s raises SyntaxError for a specification with several": ("C19", "s(1, ..., 2, ...) raised TypeError"),
 "fix: gmemoize creates": ("C08", "concurrent first calls of a gmemoized generator function created several underlying generators"),
 "fix: memoized generator instance": ("C08", "a memoized generator instance shared by threads handed out an item twice"),
 "fix: end of a memoized generator": ("C08", "the end of a memoized generator was counted/shown as an item by len and indexing"),
 "fix: decodemsg crashed": ("C27", "decodemsg raised UnboundLocalError when 4096 or more bytes were already buffered"),
 "fix: decodemsg re-synchronizes": ("C27", "decodemsg raised ValueError on a malformed length field"),
 "fix: streamsource honours": ("C27", "streamsource ignored its chunksize"),
 "fix: gtco no longer swallows": ("C39", "gtco swallowed a TypeError raised while iterating over the last iterable"),
 "fix: jump into a trampolined": ("C01", "jump into a trampolined bound method lost its self"),
 "fix: resignal applies only": ("C05", "with the signal protocol, resignal also applied the later matching entries of the mapping"),
 "fix: warn, when given": ("C05", "warn(SomeWarning) (a class) emitted a generic Warning with the text of the class instead of SomeWarning"),
 "fix: a condition handler may": ("C04", "a declining handler which uses `with handlers` itself made signal raise RuntimeError: deque mutated during iteration"),
 "fix: rebinding a dynvar in a thread": ("C06", "assignment to an inherited dynvar in a thread changed it in the main thread and in other threads"),
 "fix: live views of dyn": ("C06", "each len/iteration/items/asdict of dyn was kept alive forever"),
 "fix: _bind no longer binds": ("C09", "curry/partial bound surplus positional arguments to keyword-only parameters"),
 "fix: curry raises TypeError at the top level": ("C09", "arguments left over after a chained passthrough call were silently returned at the top level"),
 "fix: curry keeps surplus": ("C09", "surplus arguments given before all parameters were bound were lost"),
 "fix: partial type-checks the arguments of a further": ("C09", "a further partial application was type-checked against the wrong parameters"),
 "fix: curry and partial work for any number": ("C09", "on Python 3.12 currying in four or more steps failed"),
 "fix: a dispatch or type mismatch raises TypeError also": ("C11", "a dispatch or type mismatch raised OSError when the source code of the function was not available"),
 "fix: a type mismatch in a further partial": ("C09", "a type mismatch in a further partial application raised AttributeError"),
 "fix: curry of a generic function accepts": ("C09", "a partial application matching only another than the newest multimethod was refused"),
 "fix: composing a single": ("C10", "composing a single function marked the original as lazy and failed for builtins"),
 "fix: tolast and tokth": ("C10", "tokth(-n) with n arguments raised"),
 "fix: composerc of three": ("C10", "composerc of three or more functions lost surplus arguments"),
 "fix: isoftype supports NewType": ("C12", "isoftype failed on a NewType of a parametric type"),
 "fix: isoftype no longer accepts non-empty": ("C12", "isoftype((1,), Tuple[()]) was True"),
 "fix: isoftype delegates": ("C12", "isoftype raised NotImplementedError or answered wrongly for some concrete classes"),
 "fix: isoftype recognizes tuples": ("C12", "isoftype((1, 2), Reversible[int]) was False"),
 "fix: generic methods of an instance": ("C11", "a generic method called on a falsy instance did not find inherited multimethods"),
 "fix: inherited multimethods": ("C11", "in a diamond, inherited multimethods were tried repeatedly and not in MRO order"),
 "fix: list_methods": ("C11", "list_methods of an inherited generic method listed a multimethod several times"),
 "fix: required_kwargs": ("C13", "required_kwargs/optional_kwargs crashed for generic functions"),
 "fix: arity of bound generic": ("C13", "arity of a bound generic method counted self"),
 "fix: arities of a bound": ("C13", "arities of a bound method with an optional self was negative"),
 "fix: curry and partial work for bound generic": ("C09", "curry of a bound generic method failed"),
 "fix: a view of a view": ("C14", "a view of a view did not follow length changes of the underlying sequence"),
 "fix: assigning to a slice of a view": ("C14", "assigning to a slice of a view from an overlapping view garbled the data"),
 "fix: slice bounds": ("C14", "in_slice, index_in_slice, fup and fupdate misinterpreted some slice bounds (negative, out of range)"),
 "fix: fupdate raises IndexError also": ("C14", "fupdate leaked StopIteration/RuntimeError if a replacement iterator was too short"),
 "fix: islice with a negative start": ("C18", "islice with a negative start and a stop before it raised AssertionError"),
 "fix: fupdate raises IndexError for": ("C14", "fupdate with an index just past the end silently extended or ignored"),
 "fix: repr and str of a view": ("C14", "repr of a view into a str or range raised or showed something else"),
 "fix: mogrify and force": ("C23", "mogrify/force rebuilt containers with no changed element, e.g. curry(sum)(d.values()) lost duplicates"),
 "fix: Shim uses": ("C15", "Shim ignored a falsy fallback object"),
 "fix: calling a subclass of frozendict": ("C15", "calling a subclass of frozendict without arguments gave an instance of another class"),
 "fix: a ShadowedSequence of": ("C14", "slicing a ShadowedSequence of a ShadowedSequence raised"),
 "fix: the tree iterators": ("C16", "tree iterators of cons structures yielded a leaf in the cdr before the subtree in the car"),
 "fix: member works": ("C16", "member raised for the empty list"),
 "fix: llist of a partially": ("C16", "llist of a partially consumed reversed linked list contained the consumed items, too"),
 "fix: the fields of a cons": ("C16", "the fields of an immutable cons cell could be deleted"),
 "fix: lispyrepr": ("C16", "lispyrepr did not print nested linked lists in Lisp notation"),
 "fix: reversed works": ("C16", "reversed(nil) raised"),
 "fix: unpickling a singleton gives": ("C22", "unpickling a singleton with pickle protocol 0 or 1 raised"),
 "fix: unpickling a symbol": ("C22", "unpickling a symbol with pickle protocol 0 or 1 gave a second instance"),
 "fix: str of a symbol": ("C22", "str of a symbol whose name is not a string raised"),
 "fix: sym no longer": ("C22", "sym raised KeyError if another thread dropped the symbol meanwhile"),
 "fix: unpickling a singleton no longer": ("C22", "unpickling a singleton raised KeyError if another thread dropped the instance meanwhile"),
 "fix: fixtco forgets": ("C25", "after a tail call chain under fixtco ended in an exception, later equal calls were taken for cycles"),
 "fix: fixtco passes": ("C25", "fixtco called bottom with the arguments of the caller, not with those of the offending call"),
 "fix: fixtco detects": ("C25", "fixtco ran the first function of a tail call cycle twice before it noticed the cycle"),
 "fix: tryf lets": ("C26", "tryf swallowed an exception that matched no handler"),
 "fix: raisef no longer": ("C26", "raisef ignored a falsy cause"),
 "fix: async_raise refuses": ("C26", "async_raise on an ended thread hit another thread that got its ident"),
 "fix: REPL server job control": ("C28", "fg(thread) always raised TypeError; results of background jobs were keyed by the recyclable thread ident"),
 "fix: REPL control server: answer": ("C28", "an empty control request was not answered; the control session ended"),
 "fix: REPL server: a failed start": ("C28", "server.start with a busy control port left sys.stdout etc. replaced and the REPL port served"),
 "fix: REPL server: flush": ("C28", "output without a newline before quit() was lost"),
 "fix: PTYSocketProxy": ("C28", "output still in the PTY when the session ends was lost (60000 bytes printed, 45000 arrived); a broken pipe killed the forwarder, so the session never ended"),
 "fix: ulp was": ("C29", "ulp(math.nextafter(8.0, 0)) was twice the unit in the last place; 0, inf and subnormals failed"),
 "fix: do: a nested let": ("C30", "do[local[x := 3], let[x := 5][x]] failed at macro expansion, because the nested let was transformed before it was expanded; local[] in a multiple-expression let body inside a do was reported as stray"),
 "fix: scope analyzer: the parameters": ("C30", "@dlet(x := 1) def f(): def g(x): ...; return x -- NameError, parameters of a nested def were taken to be in scope in the rest of f"),
 "fix: scope analyzer: default values": ("C30", "let[x := 1][(lambda x=x: x)()] and let[x := (1, 2)][[x for x in x]] raised NameError"),
 "fix: scope analyzer: a nested function": ("C30", "nonlocal x in a dlet function was forgotten inside its nested functions"),
 "fix: scope analyzer: import": ("C30", "import os.path in a function did not make os a local variable"),
 "fix: reraise can": ("C26", "reraise to StopIteration gave RuntimeError"),
 "fix: do: expand the macros": ("C31", "do[1, aif[5, do[1, it], 0]] was rejected (introduced by an earlier repair of do)"),
 "fix: tco, continuations: in an `or`": ("C31", "with tco: def m(it): return None or g(it) -- g got None"),
 "fix: autoreturn: a function or class": ("C31", "a def or class in tail position inside an if, with or try made the program fail to compile"),
 "fix: tco: a return in a generator": ("C31", "in with tco, the value returned by a generator or async function by return f(x) was a jump record"),
 "fix: tco: the trampoline goes inside": ("C31", "in with tco, a property gave a bound method and a static method got the instance as an argument"),
 "fix: continuations: call_cc[None]": ("C32", "in a function called by call_cc, y = call_cc[None] ran the continuation of the caller twice"),
 "fix: continuations: keep the whole": ("C32", "a function with two call_cc, itself called by call_cc, forgot the continuation of its caller; a composed continuation could not be captured again (TypeError) or called by the user (gave a jump record)"),
 "fix: lazify: force promises in default": ("C33", "in with lazify, def f(x): def g(y=x + 1) with x a promise raised TypeError at definition time"),
 "fix: lazify: force the target": ("C33", "in with lazify, x += 1 and d[k] += 1 with a promise as current value raised TypeError"),
 "fix: lazify: starred items": ("C33", "in with lazify, f([*xs, y]) with xs a promise raised TypeError"),
 "fix: lazify: f(*args)": ("C33", "in with lazify, f(*args) and f(**kw) with args, kw a promise raised TypeError"),
 "fix: lazify: calls with an argument named f": ("C33", "in with lazify, calling a function with a keyword argument named f raised TypeError"),
 "fix: lazify: super()": ("C33", "in with lazify, super() without arguments raised RuntimeError"),
 "fix: lazify: trampoline of a nested": ("C33", "in with lazify, tco, a lazy function nested in another one got a strict trampoline, which forced its arguments"),
 "fix: lazify: explicit lazy[]": ("C33", "in with lazify, autocurry, f(lazy[e]) passed a promise of a promise"),
 "fix: curry, partial, apply, call": ("C34", "in with autocurry, a named argument called f (or func, thunk) raised TypeError: multiple values for argument"),
 "fix: autocurry: super()": ("C34", "in with autocurry, super() without arguments raised RuntimeError"),
 "fix: prefix: empty tuple": ("C34", "in with prefix, () made the macro fail with IndexError"),
 "fix: prefix: let whose body": ("C34", "in with prefix, a let whose body is a subscript or an attribute failed to expand"),
 "fix: autocurry: lambdas inside": ("C34", "in with autocurry, a lambda in a manually curried lambda, or in default values of a lambda, was not curried"),
 "fix: let_syntax, abbrev: arguments": ("C35", "f[b, 1] with f[a, b] << (a, b) gave (1, 1), f[a * 2] with f[a] << a + 1 never ended, f[f[3]] with f[x] << x kept the inner f"),
 "fix: let_syntax, abbrev: templates in": ("C35", "let_syntax[[f[a] << a + 1] in f[2]] and let_syntax[f[2], where[f[a] << a + 1]] raised SyntaxError"),
 "fix: let_syntax: lexical scoping": ("C35", "in with let_syntax, a let_syntax nested in an if, or in an expression, that redefines a name raised SyntaxError, as the outer substitution was applied first"),
 "fix: let_syntax, abbrev: template whose": ("C35", "f[f[1]] with f[a] << (a, a) raised SyntaxError (introduced by the fix of the arguments of templates)"),
 "fix: namedlambda: lambda as a value": ("C36", "in with namedlambda, {1: lambda: 0} raised TypeError"),
 "fix: namedlambda: lambdas in": ("C36", "in with namedlambda, K(f=lambda: 1).m(g=lambda: 2) did not name f; lambdas in default values of a lambda kept no name"),
 "fix: envify: default values": ("C36", "in with envify, def f(n, m=n) raised NameError, and functions with parameters lost the docstring"),
 "fix: do: local[] in the body": ("C36", "in with multilambda, lambda z: [1, (lambda p: [local[y << p], y])(2)] raised SyntaxError"),
 "fix: aif: local[] in the body": ("C36", "in with multilambda, aif[1, (lambda p: [local[y << p], y])(2), 2] raised SyntaxError"),
 "fix: namedlambda: leave the bodies": ("C40", "with lazify, namedlambda, autocurry: let[x << v][x] failed to expand with AttributeError"),
 "fix: continuations: let/do assignment": ("C40", "in with continuations, let[x << v][x << 2] or do[local[x << v], x << 2] in tail position raised TypeError"),
 "fix: autocurry: partial application": ("C40", "with autocurry, tco: f = lambda x, y: g(x + y); f(1)(2) returned a jump object instead of the result"),
 "fix: namedlambda, lazify, autoref: let decorators": ("C38", "@dlet, @blet etc. inside with namedlambda, lazify or autoref, hence in Lispython and Pytkell modules, failed to expand with TypeError"),
 "fix: flip, rotate of": ("C10", "flip(curry(f)), rotate(k)(curry(f)) called in steps and flip(trampolined(f)) as a target of a tail call did not reorder the arguments"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
left = dict(FIXED)
for line in reversed(log):
    h, subj = line.split(" ", 1)
    if subj.startswith("fix:"):
        k = [k for k in left if subj.startswith(k)]
        if not k:
            print("no entry for", line); continue
        p, what = left.pop(k[0])
        fixed.append(f"fixed: property={p} {h} {what}")
for k in left:
    print("no commit for", k)
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"findings": [dict(property=p, key=k, what=w) for p, k, w in FINDINGS], "fixed": fixed}, f, indent=1)
