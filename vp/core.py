"""Case runner shared by all checks (runs inside the worker process).

A check module defines one-case functions decorated with ``@section``. Each case gets its own
``random.Random`` seeded from (VERIF_SEED, section, index), so every single case is replayable.
A case drives the real code from /repo and hands what it observed to an oracle; a disagreement is
reported with ``ctx.violate`` (or ``ctx.check`` / ``ctx.same``).
"""
import contextlib
import faulthandler
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import threading
import time
import traceback

REPO = os.environ.get("VP_REPO", "/repo")
PKG = os.path.join(REPO, "unpythonic") + os.sep


class Violation(Exception):
    """The oracle refutes the property."""
    def __init__(self, msg, key=None, witness=None):
        super().__init__(msg)
        self.msg, self.key, self.witness = msg, key, witness


class Inconclusive(Exception):
    """The monitor could not decide (environment trouble)."""


class CaseTimeout(BaseException):
    """Generous per-case progress watchdog."""


class Section:
    def __init__(self, name, fn, quick, thorough, deadline, require):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.deadline, self.require = deadline, require or {}


def section(name=None, *, quick, thorough=None, deadline=60, require=None):
    """Register a one-case function. `require`: events which must be observed at least that often."""
    def deco(fn):
        mod = sys.modules[fn.__module__]
        lst = mod.__dict__.setdefault("SECTIONS", [])
        lst.append(Section(name or fn.__name__, fn, quick, thorough or quick * 20, deadline, require))
        return fn
    return deco


def short(x, n=600):
    try:
        r = repr(x)
    except BaseException as e:  # noqa
        r = f"<unreprable {type(x).__name__}: {type(e).__name__}>"
    return r if len(r) <= n else r[:n] + "..."


class Ctx:
    def __init__(self, prop, seed, tier, shard, nshards):
        self.prop, self.seed, self.tier, self.shard, self.nshards = prop, seed, tier, shard, nshards
        self.events = {}
        self.distinct = set()
        self.samples = {}
        self.evals = {}
        self.violations = []
        self.known = {}
        self.section = None
        self._notes = []
        self._lock = threading.Lock()

    # -- reporting -------------------------------------------------------
    def event(self, name, n=1):
        with self._lock:
            k = f"{self.section}.{name}"
            self.events[k] = self.events.get(k, 0) + n

    def seen(self, *key):
        """Record a distinct non-trivial case shape (hashed)."""
        h = hashlib.blake2b((self.section + short(key, 4000)).encode("utf-8", "replace"), digest_size=8).digest()
        with self._lock:
            self.distinct.add(h)

    def sample(self, x):
        lst = self.samples.setdefault(self.section, [])
        if len(lst) < 2:
            lst.append(short(x, 400))

    def note(self, **kw):
        """Attach witness information to the current case (shown if it fails)."""
        self._notes.append(kw)

    def violate(self, msg, key=None, **witness):
        raise Violation(msg, key, witness)

    def check(self, cond, msg, key=None, **witness):
        if not cond:
            raise Violation(msg, key, witness)

    def same(self, got, want, msg, key=None, **witness):
        if not (type(got) is type(want) and got == want):
            witness.update(got=got, want=want)
            raise Violation(msg, key, witness)


# -- line monitor (what of the code under test was actually executed) --------------------
class LineMonitor:
    def __init__(self):
        self.hit = set()

    def start(self):
        mon = sys.monitoring
        self.tool = mon.COVERAGE_ID
        mon.use_tool_id(self.tool, "vp-lines")
        hit = self.hit
        def on_line(code, line):
            if code.co_filename.startswith(PKG):
                hit.add((code.co_filename, line))
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.LINE, on_line)
        mon.set_events(self.tool, mon.events.LINE)

    def report(self):
        out = {}
        for fn, line in self.hit:
            out.setdefault(os.path.relpath(fn, REPO), []).append(line)
        return {k: sorted(v) for k, v in sorted(out.items())}


@contextlib.contextmanager
def deadline(seconds):
    """Raise CaseTimeout in the main thread after `seconds` (main thread only)."""
    def onalarm(signum, frame):
        raise CaseTimeout("".join(traceback.format_stack(frame, limit=12)))
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def outcome(f, *args, **kwargs):
    """Run f; return ("ok", value) or ("exc", type name) (what a caller can observe)."""
    try:
        return ("ok", f(*args, **kwargs))
    except (CaseTimeout, KeyboardInterrupt, Violation):
        raise
    except BaseException as e:  # noqa
        return ("exc", type(e))


def load_known(prop):
    try:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {e["key"]: e["what"] for e in data.get("findings", []) if e["property"] == prop}


def run_case(ctx, sec, idx, known):
    rng = random.Random(f"{ctx.seed}/{ctx.prop}/{sec.name}/{idx}")
    ctx.section = sec.name
    ctx._notes = []
    ctx.evals[sec.name] = ctx.evals.get(sec.name, 0) + 1
    rec = None
    try:
        with deadline(sec.deadline):
            sec.fn(ctx, rng)
    except Violation as v:
        if v.key is not None and v.key in known:
            ctx.known[v.key] = ctx.known.get(v.key, 0) + 1
            return
        rec = {"kind": "oracle", "msg": v.msg, "key": v.key,
               "witness": {k: short(x, 3000) for k, x in (v.witness or {}).items()}}
    except CaseTimeout as t:
        rec = {"kind": "no-progress", "msg": f"no progress within {sec.deadline} s on a case that takes milliseconds",
               "witness": {"stack": str(t)}}
    except (Inconclusive, MemoryError, OSError) as e:
        raise Inconclusive(f"{sec.name}#{idx}: {type(e).__name__}: {e}") from e
    except BaseException as e:  # noqa
        # The case has no business raising: on a correct tree it never does.
        rec = {"kind": "unexpected-exception", "msg": f"{type(e).__name__}: {short(str(e), 500)}",
               "witness": {"traceback": "".join(traceback.format_exception(e))[-4000:]}}
    if rec is not None:
        rec.update(section=sec.name, index=idx, seed=ctx.seed, tier=ctx.tier, property=ctx.prop,
                   notes=[{k: short(x, 1500) for k, x in n.items()} for n in ctx._notes[-6:]])
        ctx.violations.append(rec)


def load_check(prop):
    pkgdir = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")
    for f in sorted(os.listdir(pkgdir)):
        if f.lower().startswith(prop.lower() + "_") and f.endswith(".py"):
            return importlib.import_module("vp.checks." + f[:-3])
    raise SystemExit(f"no check module for {prop}")


def stop(ctx):
    return len(ctx.violations) >= 3 or any(v["kind"] == "no-progress" for v in ctx.violations)


def worker_main(argv):
    prop, seed, tier, shard, nshards, out, budget = argv[:7]
    only = argv[7] if len(argv) > 7 else None  # "section:index" for replay
    seed, shard, nshards, budget = int(seed), int(shard), int(nshards), float(budget)
    faulthandler.enable()
    ctx = Ctx(prop, seed, tier, shard, nshards)
    lines = LineMonitor()
    lines.start()
    t0 = time.monotonic()
    status, why, truncated = "ok", None, []
    known = load_known(prop)
    try:
        mod = load_check(prop)
        for sec in mod.SECTIONS:
            ctx.section = sec.name
            ctx.evals.setdefault(sec.name, 0)
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        if only:
            sname, idx = only.rsplit(":", 1)
            for sec in mod.SECTIONS:
                if sec.name == sname:
                    run_case(ctx, sec, int(idx), known)
        else:
            counts = [(s, s.quick if tier == "quick" else s.thorough) for s in mod.SECTIONS]
            # Sections run one after another; when time is short, later ones still get their share.
            for k, (sec, n) in enumerate(counts):
                left = budget - (time.monotonic() - t0)
                share = left / (len(counts) - k) * 1.5 if k < len(counts) - 1 else left
                tend = time.monotonic() + max(share, 1.0)
                mine = range(shard, n, nshards)
                for done, idx in enumerate(mine):
                    if done and time.monotonic() > tend:
                        truncated.append(f"{sec.name}: {done}/{len(mine)}")
                        break
                    run_case(ctx, sec, idx, known)
                    if stop(ctx):
                        break
                if stop(ctx):
                    break
    except Inconclusive as e:
        status, why = "inconclusive", str(e)
    except BaseException as e:  # noqa
        status, why = "inconclusive", "".join(traceback.format_exception(e))[-4000:]
    res = {"status": status, "why": why, "events": ctx.events, "distinct": [h.hex() for h in ctx.distinct],
           "samples": ctx.samples, "evals": ctx.evals, "violations": ctx.violations, "known": ctx.known,
           "lines": lines.report(), "truncated": truncated, "wall": time.monotonic() - t0}
    try:
        req = {}
        for s in mod.SECTIONS:
            for k, v in s.require.items():
                req[f"{s.name}.{k}"] = v
        res["require"] = req
    except NameError:
        pass
    with open(out, "w") as f:
        json.dump(res, f)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)  # leftover threads of a broken tree must not keep us here
