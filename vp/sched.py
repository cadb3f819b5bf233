"""A seeded, controlled thread scheduler (real threads, one running at a time).

Switch points: every source line (or every opcode) of the package under test executed by a task,
every operation on a `threading.Lock`/`RLock` created while the scheduler is installed, and explicit
`point()` calls made by workload code. Which task runs next is decided by a `random.Random`, so an
interleaving is replayable from its seed. If a task blocks on something the scheduler does not
control, the token is handed on after a grace period, so that foreign blocking never hangs a run.
A state in which every live task waits for a controlled lock is a deadlock, found logically.
"""
import _thread
import gc
import sys
import threading
import time

from .core import PKG

_RealLock = _thread.allocate_lock
_RealRLock = _thread.RLock
_active = None  # the running Sched
_tasks = {}     # thread ident -> task


class Deadlock(Exception):
    pass


class NoProgress(Exception):
    pass


class _Killed(BaseException):
    pass


def _me():
    return _tasks.get(_thread.get_ident())


class _LockBase:
    _reentrant = False

    def __init__(self):
        self._real = _RealRLock() if self._reentrant else _RealLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        t = _me()
        if t is None:
            return self._real.acquire(blocking, timeout)
        t.sched._step(t)
        while self._owner is not None and not (self._reentrant and self._owner is t):
            if not blocking:
                return False
            t.waiting = self
            t.sched._block(t)
            t.waiting = None
        self._owner = t
        self._count += 1
        t.sched.lock_events += 1
        return True

    def release(self):
        t = _me()
        if t is None or self._owner is None:
            return self._real.release()
        if self._reentrant and self._owner is not t:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
        t.sched._step(t)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def locked(self):
        if self._owner is not None:
            return True
        return self._real.locked() if not self._reentrant else False

    # Condition protocol
    def _is_owned(self):
        t = _me()
        if t is not None and self._owner is t:
            return True
        if self._reentrant:
            return self._real._is_owned()
        if self._real.acquire(False):
            self._real.release()
            return False
        return True

    def _release_save(self):
        if self._reentrant:
            t = _me()
            if t is not None and self._owner is t:
                c, self._count, self._owner = self._count, 0, None
                return ("s", c)
            return ("r", self._real._release_save())
        self.release()

    def _acquire_restore(self, st):
        if self._reentrant:
            if st[0] == "s":
                self.acquire()
                self._count = st[1]
            else:
                self._real._acquire_restore(st[1])
            return
        self.acquire()

    def _at_fork_reinit(self):
        self._real._at_fork_reinit()


class SLock(_LockBase):
    _reentrant = False


class SRLock(_LockBase):
    _reentrant = True


_installed = False
def install():
    """Call before importing the package under test."""
    global _installed
    if not _installed:
        assert "unpythonic" not in sys.modules or True
        threading.Lock = SLock
        threading.RLock = SRLock
        _installed = True


class _Task:
    def __init__(self, sched, name, fn, args):
        self.sched, self.name, self.fn, self.args = sched, name, fn, args
        self.go = _RealLock()
        self.go.acquire()
        self.done = False
        self.started = False
        self.foreign = False   # blocked outside the scheduler's control
        self.busy = False
        self.waiting = None
        self.result = None
        self.exc = None


class Sched:
    def __init__(self, rng, *, opcodes=False, p=0.3, max_steps=400000, extra_files=(), grace=1.5, limit=45.0):
        self.rng, self.opcodes, self.p, self.max_steps = rng, opcodes, p, max_steps
        self.files = (PKG,) + tuple(extra_files)
        self.grace, self.limit = grace, limit
        self.tasks = []
        self.current = None
        self.steps = 0
        self.switches = 0
        self.lock_events = 0
        self.trace = []        # schedule: sequence of task indices at switches
        self.failure = None
        self.foreign_blocks = 0
        self._mx = _RealLock()
        self._finished = _RealLock()
        self._finished.acquire()

    def spawn(self, fn, *args, name=None):
        t = _Task(self, name or f"t{len(self.tasks)}", fn, args)
        self.tasks.append(t)
        return t

    # -- inside tasks ------------------------------------------------------
    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.files):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local
    def _local(self, frame, event, arg):
        if event in ("line", "opcode"):
            t = _me()
            if t is not None:
                self._step(t)
        return self._local

    def _step(self, t):
        """A switch point."""
        if t.busy:  # finalizer run by the interpreter inside the scheduler itself
            return
        t.busy = True
        try:
            self._step2(t)
        finally:
            t.busy = False

    def _step2(self, t):
        if self.failure is not None:
            raise _Killed
        self.steps += 1
        if t.foreign:  # came back after the token was handed on: wait for our turn
            with self._mx:
                t.foreign = False
                free = self.current is None or self.current.done
                if free:
                    self.current = t
            if not free:
                t.go.acquire()
            if self.failure is not None:
                raise _Killed
            return
        if self.steps > self.max_steps:
            self._fail(NoProgress(f"more than {self.max_steps} scheduling steps"))
            raise _Killed
        if self.rng.random() < self.p:
            self._switch(t)

    def _runnable(self):
        return [x for x in self.tasks if not x.done and not x.foreign and
                (x.waiting is None or x.waiting._owner is None or (x.waiting._reentrant and x.waiting._owner is x))]

    def _switch(self, t):
        with self._mx:
            cand = self._runnable()
            nxt = self.rng.choice(cand) if cand else t
            if nxt is t:
                return
            self.current = nxt
            self.switches += 1
            if len(self.trace) < 3000:
                self.trace.append(self.tasks.index(nxt))
        nxt.go.release()
        t.go.acquire()
        if self.failure is not None:
            raise _Killed

    def _block(self, t):
        t.busy = True
        try:
            self._block2(t)
        finally:
            t.busy = False

    def _block2(self, t):
        with self._mx:
            cand = [x for x in self._runnable() if x is not t]
            if not cand:
                if any(x.foreign and not x.done for x in self.tasks):
                    # someone is blocked outside our control: let the supervisor sort it out
                    self.current = None
                    nxt = None
                else:
                    nxt = "dead"
            else:
                nxt = self.rng.choice(cand)
                self.current = nxt
                self.switches += 1
                if len(self.trace) < 3000:
                    self.trace.append(self.tasks.index(nxt))
        if nxt == "dead":
            self._fail(Deadlock("every live task waits for a lock: " +
                                ", ".join(f"{x.name}<-{x.waiting._owner.name if x.waiting and x.waiting._owner else None}" for x in self.tasks if not x.done)))
            raise _Killed
        if nxt is not None:
            nxt.go.release()
        t.go.acquire()
        if self.failure is not None:
            raise _Killed

    def _fail(self, exc):
        with self._mx:
            if self.failure is None:
                self.failure = exc
        for x in self.tasks:
            if not x.done:
                try:
                    x.go.release()
                except RuntimeError:
                    pass
        try:
            self._finished.release()
        except RuntimeError:
            pass

    def _body(self, t):
        t.go.acquire()
        _tasks[_thread.get_ident()] = t
        try:
            if self.failure is None:
                sys.settrace(self._tracer)
                try:
                    t.result = t.fn(*t.args)
                finally:
                    sys.settrace(None)
        except _Killed:
            pass
        except BaseException as e:  # noqa
            t.exc = e
        finally:
            sys.settrace(None)
            _tasks.pop(_thread.get_ident(), None)
            with self._mx:
                t.done = True
                live = [x for x in self.tasks if not x.done]
                cand = self._runnable()
                nxt = None
                if t.foreign:
                    pass  # token is elsewhere
                elif cand:
                    nxt = self.rng.choice(cand)
                    self.current = nxt
                    self.switches += 1
                    if len(self.trace) < 3000:
                        self.trace.append(self.tasks.index(nxt))
                elif live:
                    self.current = None
                    if not any(x.foreign for x in live) and self.failure is None:
                        nxt = "dead"
            if nxt == "dead":
                self._fail(Deadlock("remaining tasks wait for a lock never released"))
            elif nxt is not None:
                nxt.go.release()
            if not live:
                try:
                    self._finished.release()
                except RuntimeError:
                    pass

    # -- from the controlling thread ----------------------------------------
    def run(self):
        """Run all tasks to completion. Raises Deadlock / NoProgress."""
        gcwas = gc.isenabled()
        gc.disable()  # finalizers at random moments would make schedules irreproducible
        try:
            return self._run()
        finally:
            if gcwas:
                gc.enable()

    def _run(self):
        threads = []
        for t in self.tasks:
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread = th
            th.start()
            threads.append(th)
        first = self.rng.choice(self.tasks)
        self.current = first
        first.go.release()
        t0 = time.monotonic()
        last, lastt = -1, t0
        while not self._finished.acquire(timeout=0.25):
            now = time.monotonic()
            if self.steps != last:
                last, lastt = self.steps, now
            elif now - lastt > self.grace:
                with self._mx:
                    cur = self.current
                    if cur is not None and not cur.done and not cur.foreign:
                        cur.foreign = True
                        self.foreign_blocks += 1
                    cand = self._runnable()
                    nxt = cand[0] if cand else None
                    self.current = nxt
                if nxt is not None:
                    nxt.go.release()
                lastt = now
            if now - t0 > self.limit:
                self._fail(NoProgress(f"tasks did not finish within {self.limit} s"))
                break
        for th in threads:
            th.join(timeout=2.0)
        if self.failure is not None:
            raise self.failure
        return [(t.result, t.exc) for t in self.tasks]


def point():
    """Explicit switch point for workload code."""
    t = _me()
    if t is not None:
        t.sched._step(t)
