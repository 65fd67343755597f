"""Deterministic thread simulator.

Simulated threads are real threads of which exactly one runs at a time; a
baton is handed over only at intercepted synchronisation points (and, when
asked, at chosen source lines of chosen files).  Which runnable thread gets the
baton, and when a line-level preemption happens, is drawn from the run's
`Choices`; time is virtual and only advances when nothing is runnable or a
thread asks for it.  `install()` replaces the standard library primitives, so
code that creates threads, locks, queues, events or timers in any style runs
under the simulator.
"""
import _thread
import queue as _queue
import sys
import threading as _threading
import time as _time

from dst.core import HarnessError, Violation


class Killed(BaseException):
    """Unwinds a simulated thread that is being torn down (process death)."""


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class TimeLimit(Exception):
    pass


class T:
    def __init__(self, sim, name, fn, daemon):
        self.sim, self.name, self.fn, self.daemon = sim, name, fn, daemon
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.alive = False
        self.done = False
        self.waiting = None      # predicate or None when runnable
        self.deadline = None
        self.error = None
        self.id = len(sim.threads) + 1
        self.lines_left = None


class Sim:
    def __init__(self, ctx, start_time=1_000_000.0, max_steps=60000, max_time=None):
        self.ctx, self.c = ctx, ctx.c
        self.now = start_time
        self.t0 = start_time
        self.threads = []
        self.current = None
        self.steps = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self.dead = False
        self.stop_error = None
        self.main_gate = _thread.allocate_lock()
        self.main_gate.acquire()
        self.switches = 0
        self.sched_hash = 0
        self.line_files = ()
        self.preempt_budget = 0
        self.preempt_in = 0
        self.wall_skew = 0.0     # what the wall clock shows beyond the monotonic one

    # -------------------------------------------------------- thread control
    def spawn(self, name, fn, daemon=True):
        t = T(self, name, fn, daemon)
        self.threads.append(t)

        def boot():
            t.gate.acquire()
            try:
                if not self.dead:
                    if self.line_files:
                        sys.settrace(self._trace)
                    fn()
            except Killed:
                pass
            except BaseException as e:  # noqa: B902
                t.error = e
            finally:
                sys.settrace(None)
                t.done = True
                t.alive = False
                self._exit(t)
        t.alive = True
        _thread.start_new_thread(boot, ())
        return t

    def run(self, main):
        """Run `main` as thread 0 until it ends (process exit)."""
        t = self.spawn("main", main, daemon=False)
        self.main_thread = t
        self.current = t
        t.gate.release()
        self.main_gate.acquire()
        self._teardown()
        if self.stop_error is not None:
            raise self.stop_error
        return t

    def _teardown(self):
        self.dead = True
        for t in list(self.threads):
            if not t.done:
                self.current = t
                t.gate.release()
                # wait for it to unwind
                for _ in range(20000):
                    if t.done:
                        break
                    self.real_sleep(0.0005)
        self.ctx.sim_time += self.now - self.t0

    real_sleep = staticmethod(_time.sleep)

    def _exit(self, t):
        if self.dead:
            return
        if t is self.main_thread or self.stop_error is not None:
            # process ends when the main thread ends and no non-daemon remain
            rest = [x for x in self.threads if not x.done and not x.daemon]
            if self.stop_error is None and rest and t is self.main_thread:
                self.ctx.log("main ended; waiting for", *[x.name for x in rest])
                self._dispatch(t, leaving=True)
                return
            self.main_gate.release()
            return
        if self.main_thread.done and not [x for x in self.threads if not x.done and not x.daemon]:
            self.main_gate.release()
            return
        self._dispatch(t, leaving=True)

    def fail(self, exc):
        """Stop the whole simulation with `exc` (from the running thread)."""
        if self.stop_error is None:
            self.stop_error = exc
        raise Killed()

    # -------------------------------------------------------- scheduling
    def _runnable(self):
        out = []
        for t in self.threads:
            if t.done:
                continue
            if t.waiting is None or t.waiting():
                out.append(t)
            elif t.deadline is not None and t.deadline <= self.now:
                out.append(t)
        return out

    def _pick(self):
        while True:
            r = self._runnable()
            if r:
                break
            ds = [t.deadline for t in self.threads if not t.done and t.deadline is not None]
            if not ds:
                return None
            self.now = min(ds)
            if self.max_time is not None and self.now - self.t0 > self.max_time:
                return "time"
        i = self.c.draw(len(r)) if len(r) > 1 else 0
        return r[i]

    def _dispatch(self, me, leaving=False):
        self.steps += 1
        if self.stop_error is None:
            if self.steps > self.max_steps:
                self.stop_error = StepLimit(f"more than {self.max_steps} scheduling steps")
            else:
                nxt = self._pick()
                if nxt is None:
                    self.stop_error = Deadlock(self.describe())
                elif nxt == "time":
                    self.stop_error = TimeLimit(f"more than {self.max_time} simulated seconds; " + self.describe())
        if self.stop_error is not None:
            if leaving:
                self.main_gate.release()
                return
            raise Killed()
        if nxt is not me:
            self.switches += 1
            self.sched_hash = hash((self.sched_hash, nxt.id)) & 0xFFFFFFFF
        self.current = nxt
        if nxt is me and not leaving:
            return
        nxt.gate.release()
        if not leaving:
            me.gate.acquire()
            if self.dead or self.stop_error is not None:
                raise Killed()

    def describe(self):
        return "; ".join(f"{t.name}: {'done' if t.done else 'waiting' if t.waiting else 'runnable'}" for t in self.threads)

    def me(self):
        return self.current

    def yield_(self):
        if self.dead:
            raise Killed()
        if self.current is None or _thread.get_ident() is None:
            return
        self._dispatch(self.current)

    def wait(self, pred, timeout=None):
        """Block until pred() or timeout; True when pred() holds."""
        if self.dead:
            raise Killed()
        me = self.current
        self.yield_()
        if pred():
            return True
        if timeout is not None and timeout <= 0:
            return False
        me.waiting = pred
        me.deadline = None if timeout is None else self.now + timeout
        try:
            while True:
                self._dispatch(me)
                if pred():
                    return True
                if me.deadline is not None and self.now >= me.deadline:
                    return False
        finally:
            me.waiting = None
            me.deadline = None

    def sleep(self, d):
        self.wait(lambda: False, max(0.0, float(d)) or 1e-9)

    # -------------------------------------------------------- line preemption
    def enable_line_preemption(self, suffixes, budget, horizon):
        self.line_files = tuple(suffixes)
        self.preempt_budget = budget
        self.horizon = horizon
        if budget:
            self.preempt_in = self.c.int(1, horizon)

    def _trace(self, frame, event, arg):
        if self.preempt_budget <= 0 or self.dead:
            return None
        if not frame.f_code.co_filename.endswith(self.line_files):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line" and self.preempt_budget > 0 and not self.dead:
            self.preempt_in -= 1
            if self.preempt_in <= 0:
                self.preempt_budget -= 1
                self.preempt_in = self.c.int(1, self.horizon)
                self.ctx.probe("line_preemption")
                self.ctx.log("preempt", self.current.name, frame.f_code.co_name)
                self._dispatch(self.current)
        return self._line


SIM = None


def sim():
    if SIM is None:
        raise HarnessError("no simulation running")
    return SIM


# ------------------------------------------------------------ primitives
class SimLock:
    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        if SIM is None:
            return True
        s = sim()
        if not blocking:
            s.yield_()
            if self.owner is None:
                self.owner = s.me()
                return True
            return False
        ok = s.wait(lambda: self.owner is None, None if timeout is None or timeout < 0 else timeout)
        if ok:
            self.owner = s.me()
        return ok

    def release(self):
        if SIM is None:
            self.owner = None
            return
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None
        if SIM is not None and not SIM.dead:
            SIM.yield_()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        if SIM is None:
            return True
        s = sim()
        if self.owner is s.me() and self.owner is not None:
            self.count += 1
            return True
        if not blocking:
            s.yield_()
            if self.owner is None:
                self.owner, self.count = s.me(), 1
                return True
            return False
        ok = s.wait(lambda: self.owner is None, None if timeout is None or timeout < 0 else timeout)
        if ok:
            self.owner, self.count = s.me(), 1
        return ok

    def release(self):
        if SIM is None:
            self.owner, self.count = None, 0
            return
        if self.owner is None:
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if SIM is not None and not SIM.dead:
                SIM.yield_()

    def _is_owned(self):
        return self.owner is sim().me()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimCondition:
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else SimRLock()
        self.waiters = []
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        s = sim()
        tok = [False]
        self.waiters.append(tok)
        saved = getattr(self.lock, "count", None)
        self.lock.owner = None
        if saved is not None:
            self.lock.count = 0
        got = False
        try:
            got = s.wait(lambda: tok[0], timeout)
            return got
        finally:
            if tok in self.waiters:
                self.waiters.remove(tok)
            if not s.dead and s.stop_error is None:
                s.wait(lambda: self.lock.owner is None)
            self.lock.owner = s.me()
            if saved is not None:
                self.lock.count = saved

    def wait_for(self, predicate, timeout=None):
        s = sim()
        end = None if timeout is None else s.now + timeout
        r = predicate()
        while not r:
            left = None if end is None else end - s.now
            if left is not None and left <= 0:
                break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        # which waiter wakes is the scheduler's choice
        for _ in range(n):
            ws = [w for w in self.waiters if not w[0]]
            if not ws:
                return
            ws[sim().c.draw(len(ws)) if len(ws) > 1 else 0][0] = True

    def notify_all(self):
        for w in self.waiters:
            w[0] = True

    notifyAll = notify_all


class SimEvent:
    def __init__(self):
        self.flag = False

    def is_set(self):
        if SIM is not None and not SIM.dead:
            SIM.yield_()
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True
        if SIM is not None and not SIM.dead:
            SIM.yield_()

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        return sim().wait(lambda: self.flag, timeout) or self.flag


class SimSemaphore:
    def __init__(self, value=1):
        self.value = value

    def acquire(self, blocking=True, timeout=None):
        s = sim()
        if not blocking:
            timeout = 0
        ok = s.wait(lambda: self.value > 0, timeout)
        if ok:
            self.value -= 1
        return ok

    def release(self, n=1):
        self.value += n

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimThread:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        SimThread._n += 1
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or f"Thread-{SimThread._n}"
        self.daemon = bool(daemon)
        self._t = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = sim()
        self._t = s.spawn(self.name, self.run, self.daemon)
        self._t.handle = self
        s.ctx.log("thread start", self.name, "daemon" if self.daemon else "non-daemon")
        s.yield_()

    def join(self, timeout=None):
        sim().wait(lambda: self._t.done, timeout)

    def is_alive(self):
        return self._t is not None and not self._t.done

    isAlive = is_alive

    @property
    def ident(self):
        return self._t.id if self._t else None

    native_id = ident

    def setDaemon(self, d):
        self.daemon = d

    def getName(self):
        return self.name


class SimTimer(SimThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__()
        self.interval, self.function = interval, function
        self.fargs, self.fkwargs = args or [], kwargs or {}
        self.finished = SimEvent()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.flag:
            self.function(*self.fargs, **self.fkwargs)
        self.finished.set()


def _sleep(d):
    s = sim()
    s.sleep(d)


_real_now, _real_sleep = _time.monotonic, _time.sleep


def _now():
    return SIM.now if SIM is not None else _real_now()


def _wall():
    return SIM.now + SIM.wall_skew if SIM is not None else _real_now()


class SimSimpleQueue:
    def __init__(self):
        self.q = []

    def put(self, item, block=True, timeout=None):
        self.q.append(item)
        sim().yield_()

    put_nowait = put

    def get(self, block=True, timeout=None):
        if not block:
            timeout = 0
        if not sim().wait(lambda: bool(self.q), timeout):
            raise _queue.Empty
        return self.q.pop(0)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self.q

    def qsize(self):
        return len(self.q)


class _Anonymous:
    """A thread the code under test did not start."""
    name, daemon, ident, native_id = "MainThread", False, 0, 0
    getName = lambda self: self.name  # noqa: E731
    is_alive = lambda self: True  # noqa: E731


def _current_thread():
    t = SIM.current if SIM is not None else None
    return getattr(t, "handle", None) or _Anonymous()


_installed = False


def install():
    """Replace the standard primitives for the rest of this process."""
    global _installed
    if _installed:
        return
    _installed = True
    _threading.Thread = SimThread
    _threading.Timer = SimTimer
    _threading.current_thread = _threading.currentThread = _current_thread
    _threading.Lock = SimLock
    _threading.RLock = SimRLock
    _threading.Condition = SimCondition
    _threading.Event = SimEvent
    _threading.Semaphore = SimSemaphore
    _threading.BoundedSemaphore = SimSemaphore
    _time.sleep = _sleep
    _time.monotonic = _now
    _time.time = _wall
    _time.perf_counter = _now
    _queue.time = _now
    _queue.SimpleQueue = SimSimpleQueue


def start(ctx, **kw):
    global SIM
    SIM = Sim(ctx, **kw)
    return SIM


def finish():
    global SIM
    SIM = None


__all__ = ["Sim", "start", "finish", "install", "Deadlock", "StepLimit", "TimeLimit", "Killed", "Violation"]
