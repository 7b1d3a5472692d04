"""Deterministic cooperative scheduler.

Real OS threads are parked on private semaphores and released one at a time:
exactly one simulated thread runs at any moment and *who* runs next is decided
by the simulator alone (from the run's PRNG, or from a recorded decision list).
The module also provides drop-in replacements for the blocking primitives of
`threading`, `queue` and `concurrent.futures`; the latter runs the unmodified
standard library code on top of the replaced primitives.
"""
import sys, types, importlib.util, threading as _rt, queue as _rq, _thread, time as _rtime, heapq, itertools, collections

READY, BLOCKED, DONE = "ready", "blocked", "done"


class SimKilled(BaseException):
    """Unwinds a parked thread at the end of a run."""


class SimDeadlock(BaseException):
    """No thread can make progress."""


class SimThreadState:
    def __init__(self, tid, name):
        self.tid, self.name = tid, name
        self.status = READY
        self.wake = None            # predicate while BLOCKED
        self.deadline = None        # virtual-time deadline while BLOCKED
        self.timed_out = False
        self.gate = _rt.Semaphore(0)
        self.ident = None
        self.role = None            # free slot for harness bookkeeping
        self.pending_exc = None     # delivered at the next resume (interrupt while blocked)


class Decider:
    """Scheduling decisions. Default: seeded PRNG with a per-run strategy;
    replay: a fixed dict {decision number: thread id}, everything else runs on."""

    def __init__(self, rng=None, preempt_p=0.0, strategy="random", fixed=None):
        self.rng, self.p, self.strategy, self.fixed = rng, preempt_p, strategy, fixed
        self.n = 0
        self.taken = {}             # decision number -> chosen tid (only switches)
        self.prio = {}
        self.changes = set()
        self.stall = {}             # thread id -> number of further decisions during which it is starved
        self.quiet = False          # sequential reference phase: no preemption, nothing counted

    def choose(self, cur, cands, forced):
        """cands: list of runnable thread states (cur first if runnable)."""
        if self.quiet:
            return cands[0]
        self.n += 1
        if self.fixed is not None:
            want = self.fixed.get(self.n)
            if want is not None:
                for c in cands:
                    if c.tid == want:
                        if c is not cur:
                            self.taken[self.n] = c.tid
                        return c
            return cands[0]
        orig = cands
        if self.stall and len(cands) > 1:
            live = [c for c in cands if self.stall.get(c.tid, 0) <= 0]
            for c in cands:
                if self.stall.get(c.tid, 0) > 0:
                    self.stall[c.tid] -= 1
            cands = live or cands
        pick = cands[0]
        if self.rng is not None and len(cands) > 1:
            if self.strategy == "pct":
                for c in cands:
                    if c.tid not in self.prio:
                        self.prio[c.tid] = self.rng.random()
                if self.rng.random() < self.p * 0.25:
                    self.prio[cands[0].tid] = self.rng.random() * 0.5
                pick = max(cands, key=lambda c: (self.prio[c.tid], -c.tid))
            else:
                if forced or self.rng.random() < self.p:
                    pick = cands[self.rng.randrange(len(cands))]
        if pick is not orig[0]:
            self.taken[self.n] = pick.tid
        return pick


class Sim:
    def __init__(self, decider=None):
        self.dec = decider or Decider()
        self.threads = []
        self.by_ident = {}
        self.now = 0.0
        self.dead = False
        self.switches = 0
        self.trace_hash = 0
        self.deadlock = None
        self.fail_thread_start = 0    # number of next Thread.start calls to fail
        self.thread_start_failures = 0
        self.on_block = None          # harness hook: called when the main thread waits for a result
        self.in_cond_wait = False
        self.main = self._new("main")
        self.main.ident = _thread.get_ident()
        self.by_ident[self.main.ident] = self.main
        self.cur = self.main

    def _new(self, name):
        t = SimThreadState(len(self.threads), name)
        self.threads.append(t)
        return t

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def mine(self):
        """the calling thread's state if it is the running simulated thread"""
        if self.dead:
            return None
        t = self.by_ident.get(_thread.get_ident())
        return t if t is self.cur else None

    # -- running ---------------------------------------------------------
    def _runnable(self, cur):
        out = []
        if cur is not None and cur.status == READY:
            out.append(cur)
        for t in self.threads:
            if t is cur or t.status == DONE:
                continue
            if t.status == BLOCKED:
                if t.wake():
                    t.status = READY
                    t.timed_out = False
            if t.status == READY:
                out.append(t)
        return out

    def _pick(self, cur, forced):
        while True:
            if cur is not None and cur.status == BLOCKED and cur.wake():
                cur.status = READY
                cur.timed_out = False
            cands = self._runnable(cur)
            if cands:
                return self.dec.choose(cur if cur in cands else None, cands, forced)
            waiting = [t for t in self.threads if t.status == BLOCKED and t.deadline is not None]
            if not waiting:
                return None
            t = min(waiting, key=lambda t: (t.deadline, t.tid))
            self.now = max(self.now, t.deadline)
            t.status = READY
            t.timed_out = True

    def _transfer(self, me, nxt):
        if nxt is me:
            return
        self.switches += 1
        self.trace_hash = (self.trace_hash * 1000003 + nxt.tid * 7919 + self.dec.n) & 0xFFFFFFFFFFFF
        self.cur = nxt
        nxt.gate.release()
        if me is not None and me.status != DONE:
            me.gate.acquire()
            if self.dead:
                raise SimKilled()

    def yield_point(self, tag=None):
        me = self.mine()
        if me is None or me.status != READY:
            return
        nxt = self._pick(me, False)
        if nxt is not me:
            self._transfer(me, nxt)
            self._deliver(me)

    def _deliver(self, me):
        if me.pending_exc is not None:
            e, me.pending_exc = me.pending_exc, None
            raise e

    def block(self, pred, timeout=None):
        """Block the calling thread until pred(); returns False on time-out."""
        me = self.mine()
        if me is None:
            if self.dead:
                raise SimKilled()
            raise RuntimeError("simulated blocking call from an unmanaged thread")
        if pred():
            self.yield_point("acq")
            if pred():
                return True
        if timeout is not None and timeout <= 0:
            return False
        me.status, me.wake = BLOCKED, pred
        me.deadline = None if timeout is None else self.now + timeout
        me.timed_out = False
        if self.on_block is not None and me is self.main and self.in_cond_wait:
            self.on_block(self)
        nxt = self._pick(me, True)
        if nxt is None:
            me.status = READY
            self.deadlock = [(t.name, t.status) for t in self.threads if t.status == BLOCKED or t is me]
            # nobody can run: report in the main thread
            if me is self.main:
                raise SimDeadlock(repr(self.deadlock))
            self.main.status = READY
            self.main.pending_exc = SimDeadlock(repr(self.deadlock))
            me.status = BLOCKED
            me.wake = lambda: False
            me.deadline = None
            nxt = self.main
        if nxt is not me:
            self._transfer(me, nxt)
        me.status = READY
        self._deliver(me)
        return not me.timed_out

    def run_others(self, steps=100000):
        """Let every other runnable thread run until all are blocked or done."""
        me = self.mine()
        for _ in range(steps):
            others = [t for t in self._runnable(me) if t is not me]
            if not others:
                return True
            done = {"v": False}
            me.status, me.wake, me.deadline = BLOCKED, (lambda: not any(
                t.status == READY or (t.status == BLOCKED and t.wake()) for t in self.threads if t is not me)), None
            nxt = others[0]
            self._transfer(me, nxt)
            me.status = READY
            self._deliver(me)
        return False

    # -- threads ---------------------------------------------------------
    def spawn(self, fn, name):
        t = self._new(name)

        def body():
            t.ident = _thread.get_ident()
            self.by_ident[t.ident] = t
            t.gate.acquire()
            try:
                if not self.dead:
                    fn()
            except SimKilled:
                pass
            except BaseException:
                if not self.dead:
                    sys.excepthook(*sys.exc_info())
            finally:
                t.status = DONE
                self.by_ident.pop(t.ident, None)
                if not self.dead:
                    nxt = self._pick(None, True)
                    if nxt is None:
                        self.deadlock = [(x.name, x.status) for x in self.threads if x.status == BLOCKED]
                        self.main.status = READY
                        self.main.pending_exc = SimDeadlock(repr(self.deadlock))
                        nxt = self.main
                    self.cur = nxt
                    self.switches += 1
                    nxt.gate.release()
        t.real = _rt.Thread(target=body, daemon=True, name="sim-" + name)
        t.real.start()
        return t

    def finish(self):
        """End of run: unwind every parked thread."""
        self.dead = True
        for t in self.threads:
            if t is not self.main and t.status != DONE:
                t.gate.release()
        for t in self.threads:
            if t is not self.main:
                t.real.join(10)


SIM = None          # the current simulation (one per process at a time)


def set_sim(s):
    global SIM
    SIM = s


def _active():
    s = SIM
    return s if s is not None and not s.dead and s.mine() is not None else None


# ---------------------------------------------------------------------------
# replacements for threading / queue
# ---------------------------------------------------------------------------
class SimLock:
    def __init__(self):
        self._locked = False
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = _active()
        if s is None:
            if SIM is not None and SIM.dead:
                self._locked = True
                return True
            assert not self._locked, "simulated lock used outside a simulation"
            self._locked = True
            return True
        if not blocking:
            if self._locked:
                return False
            self._locked = True
            return True
        ok = True
        while self._locked:
            ok = s.block(lambda: not self._locked, None if timeout is None or timeout < 0 else timeout)
            if not ok:
                return False
        self._locked = True
        self._owner = s.cur.tid
        return True

    def release(self):
        if not self._locked and not (SIM is not None and SIM.dead):
            raise RuntimeError("release unlocked lock")
        self._locked = False
        s = _active()
        if s is not None:
            s.yield_point("release")

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._l = SimLock()
        self._o, self._n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._o == me:
            self._n += 1
            return True
        r = self._l.acquire(blocking, timeout)
        if r:
            self._o, self._n = me, 1
        return r

    def release(self):
        self._n -= 1
        if self._n == 0:
            self._o = None
            self._l.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._o == _thread.get_ident()


class SimCondition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SimRLock()
        self._waiters = collections.deque()
        self.acquire, self.release = self._lock.acquire, self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        s = _active()
        if s is None:
            raise SimKilled()
        tok = {"n": False}
        self._waiters.append(tok)
        saved = None
        if isinstance(self._lock, SimRLock):
            saved = (self._lock._o, self._lock._n)
            self._lock._o, self._lock._n = None, 0
            self._lock._l._locked = False
        else:
            self._lock._locked = False
        s.in_cond_wait = s.mine() is s.main
        try:
            ok = s.block(lambda: tok["n"], timeout)
        finally:
            if s.mine() is s.main:
                s.in_cond_wait = False
            if tok in self._waiters:
                self._waiters.remove(tok)
            low = self._lock._l if saved else self._lock
            while low._locked:
                if s.dead:
                    break
                s.block(lambda: not low._locked)
            low._locked = True
            if saved:
                self._lock._o, self._lock._n = saved
        return ok

    def wait_for(self, predicate, timeout=None):
        s = _active()
        end = None if timeout is None else s.now + timeout
        r = predicate()
        while not r:
            left = None if end is None else end - s.now
            if left is not None and left <= 0:
                break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        while n > 0 and self._waiters:
            self._waiters.popleft()["n"] = True
            n -= 1

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class SimEvent:
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True
        s = _active()
        if s is not None:
            s.yield_point("event.set")

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        if self._flag:
            return True
        s = _active()
        if s is None:
            raise SimKilled()
        s.block(lambda: self._flag, timeout)
        return self._flag


class SimSemaphore:
    def __init__(self, value=1):
        if value < 0:
            raise ValueError("semaphore initial value must be >= 0")
        self._v = value

    def acquire(self, blocking=True, timeout=None):
        if self._v > 0:
            self._v -= 1
            return True
        if not blocking or (timeout is not None and timeout <= 0):
            return False
        s = _active()
        if s is None:
            raise SimKilled()
        while self._v <= 0:
            if not s.block(lambda: self._v > 0, timeout):
                return False
        self._v -= 1
        return True

    def release(self, n=1):
        self._v += n

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimBoundedSemaphore(SimSemaphore):
    def __init__(self, value=1):
        super().__init__(value)
        self._init = value

    def release(self, n=1):
        if self._v + n > self._init:
            raise ValueError("Semaphore released too many times")
        super().release(n)


class SimBarrier:
    def __init__(self, parties, action=None, timeout=None):
        self._p, self._n, self._gen, self._a = parties, 0, 0, action

    def wait(self, timeout=None):
        s = _active()
        g = self._gen
        i = self._n
        self._n += 1
        if self._n == self._p:
            if self._a:
                self._a()
            self._n = 0
            self._gen += 1
            return i
        s.block(lambda: self._gen != g, timeout)
        return i


class SimQueue:
    """SimpleQueue / Queue / LifoQueue subset."""
    lifo = False

    def __init__(self, maxsize=0):
        self._q = collections.deque()
        self._max = maxsize
        self._unfinished = 0

    def put(self, item, block=True, timeout=None):
        s = _active()
        if self._max > 0 and s is not None:
            while len(self._q) >= self._max:
                if not block:
                    raise _rq.Full
                if not s.block(lambda: len(self._q) < self._max, timeout):
                    raise _rq.Full
        self._q.append(item)
        self._unfinished += 1
        if s is not None:
            s.yield_point("put")

    def put_nowait(self, item):
        self.put(item, False)

    def get(self, block=True, timeout=None):
        s = _active()
        if not self._q:
            if not block:
                raise _rq.Empty
            if s is None:
                raise SimKilled()
            while not self._q:
                if not s.block(lambda: bool(self._q), timeout):
                    raise _rq.Empty
        return self._q.pop() if self.lifo else self._q.popleft()

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self._q

    def full(self):
        return self._max > 0 and len(self._q) >= self._max

    def qsize(self):
        return len(self._q)

    def task_done(self):
        self._unfinished -= 1

    def join(self):
        s = _active()
        if s is not None:
            s.block(lambda: self._unfinished <= 0)


class SimLifoQueue(SimQueue):
    lifo = True


class SimThread:
    _c = itertools.count(1)

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "Thread-%d" % next(self._c)
        self.daemon = bool(daemon)
        self._st = None
        self._sim = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = _active()
        if s is None:
            raise RuntimeError("simulated thread started outside a simulation")
        if s.fail_thread_start > 0:
            s.fail_thread_start -= 1
            s.thread_start_failures += 1
            raise RuntimeError("can't start new thread")
        self._sim = s
        self._st = s.spawn(self.run, self.name)
        self._st.role = getattr(s.cur, "role", None)
        s.yield_point("start")

    def is_alive(self):
        return self._st is not None and self._st.status != DONE

    @property
    def ident(self):
        return None if self._st is None else self._st.ident

    def join(self, timeout=None):
        s = _active()
        if s is None or self._st is None or s is not self._sim:
            return
        s.block(lambda: self._st.status == DONE, timeout)


class SimTimer(SimThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__(target=self._go)
        self._i, self._f, self._a, self._k = interval, function, args or [], kwargs or {}
        self._cancel = SimEvent()

    def cancel(self):
        self._cancel.set()

    def _go(self):
        self._cancel.wait(self._i)
        if not self._cancel.is_set():
            self._f(*self._a, **self._k)


def sim_sleep(sec):
    s = _active()
    if s is None:
        return
    s.block(lambda: False, max(sec, 0.0)) if sec > 0 else s.yield_point("sleep")


class ClockSeam:
    """perf_counter/time/monotonic seen by the package: virtual, with jumps."""

    def __init__(self):
        self.t = 0.0
        self.jumps = []            # amounts added at successive reads
        self.reads = 0

    def read(self):
        self.reads += 1
        if self.jumps:
            self.t += self.jumps.pop(0)
        else:
            self.t += 0.001
        return self.t


CLOCK = ClockSeam()


def make_modules():
    """Simulated `threading`, `queue`, `time` modules and copies of
    `concurrent.futures` that run on them."""
    th = types.ModuleType("threading")
    th.__dict__.update({k: v for k, v in _rt.__dict__.items() if not k.startswith("__")})
    th.__dict__.update(Thread=SimThread, Lock=SimLock, RLock=SimRLock, Condition=SimCondition, Event=SimEvent,
                       Semaphore=SimSemaphore, BoundedSemaphore=SimBoundedSemaphore, Barrier=SimBarrier,
                       Timer=SimTimer, _register_atexit=lambda *a, **k: None)
    qu = types.ModuleType("queue")
    qu.__dict__.update({k: v for k, v in _rq.__dict__.items() if not k.startswith("__")})
    qu.__dict__.update(SimpleQueue=SimQueue, Queue=SimQueue, LifoQueue=SimLifoQueue)
    tm = types.ModuleType("time")
    tm.__dict__.update({k: v for k, v in _rtime.__dict__.items() if not k.startswith("__")})
    tm.__dict__.update(perf_counter=lambda: CLOCK.read(), time=lambda: CLOCK.read(), monotonic=lambda: CLOCK.read(),
                       process_time=lambda: CLOCK.read(), perf_counter_ns=lambda: int(CLOCK.read() * 1e9),
                       time_ns=lambda: int(CLOCK.read() * 1e9), monotonic_ns=lambda: int(CLOCK.read() * 1e9),
                       sleep=sim_sleep)

    import concurrent.futures as cf
    import concurrent.futures._base as cb
    import concurrent.futures.thread as ct

    def copy(mod, name, repl):
        src = open(mod.__file__).read()
        m = types.ModuleType(name)
        m.__file__ = mod.__file__
        code = compile(src, mod.__file__, "exec")
        saved = {}
        for k, v in repl.items():
            saved[k] = sys.modules.get(k)
            sys.modules[k] = v
        import os
        real_raf = getattr(os, "register_at_fork", None)
        if real_raf:
            del os.register_at_fork
        try:
            exec(code, m.__dict__)
        finally:
            if real_raf:
                os.register_at_fork = real_raf
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
        return m

    class _Pkg(types.ModuleType):
        pass
    b = copy(cb, "sim_cf_base", {"threading": th, "time": tm})
    # exceptions stay the real classes, so that user code can catch them
    for n in ("CancelledError", "InvalidStateError", "BrokenExecutor"):
        if hasattr(cb, n):
            setattr(b, n, getattr(cb, n))
    pkg = types.ModuleType("concurrent.futures")
    pkg.__dict__.update({k: v for k, v in cf.__dict__.items() if not k.startswith("__")})
    pkg._base = b
    t = copy(ct, "sim_cf_thread", {"threading": th, "queue": qu, "concurrent.futures": pkg})
    t._base = b
    for n in ("Future", "Executor", "wait", "as_completed", "ALL_COMPLETED", "FIRST_COMPLETED", "FIRST_EXCEPTION"):
        setattr(pkg, n, getattr(b, n))
    pkg.ThreadPoolExecutor = t.ThreadPoolExecutor
    pkg.thread = t
    conc = types.ModuleType("concurrent")
    conc.futures = pkg
    import logging
    logging.getLogger("concurrent.futures").setLevel(logging.CRITICAL + 10)
    return dict(threading=th, queue=qu, time=tm, cf=pkg, conc=conc, cf_thread=t, cf_base=b)
