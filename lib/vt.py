"""Deterministic scheduler with virtual time for real Python threads.

Import this module before anything that uses threading/time (the driver does it
first thing).  It replaces the primitives of the `threading` and `time` modules
by versions that, inside Sched.run(), hand a single baton between threads: one
thread runs at a time, and control moves only at scheduling points, which are
  * every lock operation (Condition/Event/Semaphore/Queue are built on them),
  * sleep, thread start and join,
  * the points where CPython itself may switch threads (function entry, return
    from a C call, backward jump) inside the code under test.
Outside Sched.run() everything behaves as usual (real time, real blocking).
No schedule is explored that CPython 3.12 could not produce.
"""
import _thread, sys, random as _random, os
import time as _time

_alloc = _thread.allocate_lock
_ident = _thread.get_ident
_real_sleep = _time.sleep
_real_mono = _time.monotonic

class Killed(BaseException):
    pass

CUR = None          # the active scheduler

class _TCB:
    __slots__ = ("go", "name", "ident", "state", "wait", "deadline", "timedout", "kill", "prio", "done", "tid", "exc", "fakes")
    def __init__(self, name, tid):
        self.go = _alloc(); self.go.acquire()
        self.name = name; self.tid = tid; self.ident = None
        self.state = "R"; self.wait = None; self.deadline = None
        self.timedout = False; self.kill = False; self.prio = 0.0; self.done = False; self.exc = None; self.fakes = 0

EPOCH = 1_700_000_000_000_000_000

class Sched:
    def __init__(self, seed=0, strategy=None, step_limit=400_000, tick=1_000, early_timer=None, wall_limit=60.0):
        self.rng = _random.Random(seed)
        self.now = EPOCH              # ns
        self.threads = {}
        self.tcbs = []
        self.cur = None
        self.steps = 0
        self.step_limit = step_limit
        self.tick = tick
        self.log = []
        self.errors = []
        self.aborted = None
        self.killing = False
        self.finished = _alloc(); self.finished.acquire()
        self.switches = 0
        self.wall_limit = wall_limit
        r = self.rng
        if strategy is None:
            strategy = r.choice(["rw", "rw", "rwhot", "pct", "pct", "sync", "seq", "rr"])
        self.strategy = strategy
        self.p = {"rw": r.choice([0.02, 0.08, 0.2]), "rwhot": 0.5, "pct": 0.0, "sync": 0.0, "seq": 0.0, "rr": 0.0}[strategy]
        self.psync = {"rw": 0.3, "rwhot": 0.6, "pct": 0.0, "sync": r.choice([0.2, 0.5]), "seq": 0.0, "rr": 0.0}[strategy]
        if early_timer is None:
            early_timer = r.choice([0.0, 0.0, 0.0, 0.01])
        self.early_timer = early_timer
        self.change = set()
        if strategy == "pct":
            d = r.randint(1, 5)
            horizon = r.choice([60, 250, 1000, 4000])
            self.change = {r.randint(1, horizon) for _ in range(d)}
        self.lowprio = 0.0
        self.quantum = r.choice([1, 1, 2, 3, 7])    # rr: the threads advance side by side, this many points at a time
        self.left = self.quantum
        self.together = r.random() < 0.6            # equal deadlines pass at the same moment

    # -- threads ---------------------------------------------------------
    def me(self):
        return self.threads.get(_ident())

    def spawn(self, fn, name, on_exit=None):
        t = _TCB(name, len(self.tcbs))
        t.prio = self.rng.random()
        self.tcbs.append(t)
        def boot():
            t.ident = _ident()
            t.go.acquire()
            try:
                if not t.kill:
                    fn()
            except Killed:
                pass
            except SystemExit:
                pass
            except BaseException as e:      # noqa: the thread died
                t.exc = e
                self.errors.append((t.name, e))
            finally:
                t.done = True
                t.state = "D"
                if on_exit is not None:
                    on_exit()
                self._thread_end(t)
        started = _alloc(); started.acquire()
        def boot0():
            self.threads[_ident()] = t
            started.release()
            boot()
        _thread.start_new_thread(boot0, ())
        started.acquire()
        return t

    def _thread_end(self, t):
        self.threads.pop(_ident(), None)
        self.wake(t)
        if t.tid == 0:                      # scenario finished
            self._kill_next()
            return
        if self.killing:
            self._kill_next()
            return
        nxt = self._pick_blocking(t)
        if nxt is None:
            self.abort_from_dead("deadlock")
            return
        self.cur = nxt
        self.switches += 1
        nxt.go.release()

    def abort_from_dead(self, why):
        if not self.aborted:
            self.aborted = why
            self.log_blocked()
        self._kill_next()

    def log_blocked(self):
        self.blocked = [(x.name, type(x.wait).__name__) for x in self.tcbs if not x.done]

    def _kill_next(self):
        self.killing = True
        for x in self.tcbs:
            if not x.done:
                x.kill = True
                self.cur = x
                x.go.release()
                return
        self.finished.release()

    # -- choosing ---------------------------------------------------------
    def runnable(self):
        return [x for x in self.tcbs if x.state == "R"]

    def _choose(self, cands):
        if len(cands) == 1:
            return cands[0]
        if self.strategy == "pct":
            return max(cands, key=lambda x: x.prio)
        if self.strategy == "seq":
            return min(cands, key=lambda x: x.tid)
        return self.rng.choice(cands)

    def _fire_timer(self):
        best = None
        for x in self.tcbs:
            if x.state == "B" and x.deadline is not None and (best is None or x.deadline < best.deadline):
                best = x
        if best is None:
            return None
        if best.deadline > self.now:
            self.now = best.deadline
        best.state = "R"; best.timedout = True; best.wait = None
        if self.together:
            for x in self.tcbs:
                if x.state == "B" and x.deadline is not None and x.deadline <= self.now:
                    x.state = "R"; x.timedout = True; x.wait = None
        return best

    def _pick_blocking(self, t):
        c = self.runnable()
        if c:
            return self._choose(c)
        return self._fire_timer()

    # -- points -----------------------------------------------------------
    def point(self, sync):
        t = self.threads.get(_ident())
        if t is None or self.killing:
            if t is not None and t.kill and not t.done:
                pass
            return
        self.steps += 1
        if self.steps > self.step_limit:
            self._abort(t, "steplimit")
        r = self.rng
        if self.early_timer and r.random() < self.early_timer:
            self._fire_timer()
        st = self.strategy
        if st == "pct":
            if self.steps in self.change:
                self.lowprio -= 1.0
                t.prio = self.lowprio
            c = self.runnable()
            n = max(c, key=lambda x: x.prio)
        elif st == "seq":
            return
        elif st == "rr":
            self.left -= 1
            if self.left > 0:
                return
            self.left = self.quantum
            c = self.runnable()
            n = min((x for x in c if x.tid > t.tid), key=lambda x: x.tid, default=None) or min(c, key=lambda x: x.tid)
        else:
            if r.random() >= (self.psync if sync else self.p):
                return
            n = r.choice(self.runnable())
        if n is not t:
            self._switch(t, n)

    def _switch(self, t, n):
        self.cur = n
        self.switches += 1
        n.go.release()
        t.go.acquire()
        if t.kill:
            raise Killed()

    def _abort(self, t, why):
        if not self.aborted:
            self.aborted = why
            self.log_blocked()
        self.killing = True
        t.kill = True
        raise Killed()

    def block(self, on, deadline):
        """Block the calling thread until wake(on) or the deadline. True if woken."""
        t = self.threads[_ident()]
        if self.killing:
            raise Killed()
        t.state = "B"; t.wait = on; t.deadline = deadline; t.timedout = False
        n = self._pick_blocking(t)
        if n is None:
            self._abort_block(t, "deadlock")
        if n is not t:
            self._switch(t, n)
        t.deadline = None
        return not t.timedout

    def _abort_block(self, t, why):
        t.state = "R"
        self._abort(t, why)

    def wake(self, on):
        for x in self.tcbs:
            if x.state == "B" and x.wait is on:
                x.state = "R"; x.wait = None

    def sleep(self, secs):
        if secs <= 0:
            self.point(True)
            return
        self.block(object(), self.now + int(secs * 1e9))

    def advance(self, ns):
        self.now += ns

    # -- run --------------------------------------------------------------
    def run(self, main):
        global CUR
        assert CUR is None
        CUR = self
        try:
            t = self.spawn(main, "main")
            self.cur = t
            t.go.release()
            if not self.finished.acquire(True, self.wall_limit):
                self.aborted = self.aborted or "wall"
                return False
        finally:
            CUR = None
        return True

    def event(self, **kw):
        kw["t"] = (self.now - EPOCH) // 1000
        self.log.append(kw)
        return kw

def _ctl():
    s = CUR
    if s is not None and _ident() in s.threads:
        return s
    return None

# ---------------------------------------------------------------- primitives
class VLock:
    __slots__ = ("_l", "__weakref__")
    def __init__(self):
        self._l = False
    def acquire(self, blocking=True, timeout=-1):
        s = _ctl()
        if s is None:
            if self._l:
                if not blocking:
                    return False
                end = None if timeout is None or timeout < 0 else _real_mono() + timeout
                while self._l:
                    if end is not None and _real_mono() >= end:
                        return False
                    _real_sleep(0.0002)
            self._l = True
            return True
        s.point(True)
        if s.killing:
            t = s.threads[_ident()]
            if t.kill and self._l and blocking and (timeout is None or timeout < 0):
                t.fakes += 1
                if t.fakes > 100:      # library code that swallowed Killed and goes on
                    raise Killed()
                self._l = True
                return True
        if not self._l:
            self._l = True
            return True
        if not blocking:
            return False
        dl = None if timeout is None or timeout < 0 else s.now + int(timeout * 1e9)
        while self._l:
            if not s.block(self, dl) and self._l:
                return False
        self._l = True
        return True
    def release(self):
        if not self._l:
            raise RuntimeError("release unlocked lock")
        self._l = False
        s = CUR
        if s is not None:
            s.wake(self)
            if _ident() in s.threads:
                s.point(True)
    def locked(self):
        return self._l
    def __enter__(self):
        self.acquire()
        return True
    def __exit__(self, *a):
        self.release()
    def _at_fork_reinit(self):
        self._l = False
    acquire_lock = acquire
    release_lock = release

class VRLock:
    __slots__ = ("_o", "_c", "__weakref__")
    def __init__(self):
        self._o = None; self._c = 0
    def acquire(self, blocking=True, timeout=-1):
        me = _ident()
        if self._o == me:
            self._c += 1
            return True
        s = _ctl()
        if s is None:
            if self._o is not None:
                if not blocking:
                    return False
                end = None if timeout is None or timeout < 0 else _real_mono() + timeout
                while self._o is not None:
                    if end is not None and _real_mono() >= end:
                        return False
                    _real_sleep(0.0002)
            self._o = me; self._c = 1
            return True
        s.point(True)
        if s.killing and s.threads[_ident()].kill:
            self._o = me; self._c = 1
            return True
        if self._o is not None and not blocking:
            return False
        dl = None if timeout is None or timeout < 0 else s.now + int(timeout * 1e9)
        while self._o is not None:
            if not s.block(self, dl) and self._o is not None:
                return False
        self._o = me; self._c = 1
        return True
    def release(self):
        if self._o != _ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._c -= 1
        if self._c == 0:
            self._o = None
            s = CUR
            if s is not None:
                s.wake(self)
                if _ident() in s.threads:
                    s.point(True)
    def __enter__(self):
        self.acquire()
        return True
    def __exit__(self, *a):
        self.release()
    def _is_owned(self):
        return self._o == _ident()
    def _release_save(self):
        c = self._c
        self._c = 1
        self.release()
        return (c, _ident())
    def _acquire_restore(self, st):
        self.acquire()
        self._c = st[0]
    def _recursion_count(self):
        return self._c if self._o == _ident() else 0
    def _at_fork_reinit(self):
        self._o = None; self._c = 0

# ---------------------------------------------------------------- time
def _mk(real, scale):
    def f():
        s = _ctl()
        if s is None:
            return real()
        s.now += s.tick
        return s.now if scale is None else s.now / scale
    return f

def _vsleep(secs):
    s = _ctl()
    if s is None:
        return _real_sleep(secs)
    s.sleep(secs)

REAL = {n: getattr(_time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "sleep")}

_installed = False
REPO = "/repo/"

def install(preempt=True):
    """Patch threading/time and start instrumenting code under /repo."""
    global _installed
    if _installed:
        return
    _installed = True
    _time.time = _mk(REAL["time"], 1e9)
    _time.time_ns = _mk(REAL["time_ns"], None)
    _time.monotonic = _mk(REAL["monotonic"], 1e9)
    _time.monotonic_ns = _mk(REAL["monotonic_ns"], None)
    _time.perf_counter = _mk(REAL["perf_counter"], 1e9)
    _time.perf_counter_ns = _mk(REAL["perf_counter_ns"], None)
    _time.sleep = _vsleep
    import threading
    threading.Lock = VLock
    threading._allocate_lock = VLock
    threading.RLock = VRLock
    threading._time = _time.monotonic
    Orig = threading.Thread

    class VThread(Orig):
        def start(self):
            s = _ctl()
            if s is None:
                return self._real_start()
            self._vt_sched = s
            me = self
            def body():
                import threading as th
                me._ident = _ident()
                th._active[me._ident] = me
                me._started.set()
                me.run()
            def fin():
                import threading as th
                me._is_stopped = True
                th._active.pop(me._ident, None)
            self._vt = s.spawn(body, self._name, fin)
            s.point(True)
        def _real_start(self):
            # an uncontrolled thread: run natively
            me = self
            self._vt_done = _alloc(); self._vt_done.acquire()
            def boot():
                import threading as th
                me._ident = _ident()
                th._active[me._ident] = me
                me._started.set()
                try:
                    me.run()
                except SystemExit:
                    pass
                except BaseException:
                    import traceback; traceback.print_exc()
                finally:
                    me._is_stopped = True
                    th._active.pop(me._ident, None)
                    me._vt_done.release()
            _thread.start_new_thread(boot, ())
        def join(self, timeout=None):
            if not self._started._flag and not hasattr(self, "_vt") and not hasattr(self, "_vt_done"):
                raise RuntimeError("cannot join thread before it is started")
            vt = getattr(self, "_vt", None)
            if vt is None:
                d = getattr(self, "_vt_done", None)
                if d is None:
                    return
                if d.acquire(True, -1 if timeout is None else max(timeout, 0)):
                    d.release()
                return
            s = _ctl()
            if s is None:
                end = None if timeout is None else _real_mono() + timeout
                while not vt.done and (end is None or _real_mono() < end):
                    _real_sleep(0.0005)
                return
            if s.me() is vt:
                raise RuntimeError("cannot join current thread")
            s.point(True)
            dl = None if timeout is None else s.now + int(max(timeout, 0) * 1e9)
            while not vt.done:
                if not s.block(vt, dl) and not vt.done:
                    return
        def is_alive(self):
            vt = getattr(self, "_vt", None)
            if vt is not None:
                return not vt.done
            return hasattr(self, "_vt_done") and not self._is_stopped
        def _set_tstate_lock(self):
            pass
    VThread.__name__ = VThread.__qualname__ = "Thread"
    threading.Thread = VThread
    import queue
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = _time.monotonic
    if preempt:
        mon = sys.monitoring
        TOOL = 3
        mon.use_tool_id(TOOL, "vt")
        E = mon.events
        DIS = mon.DISABLE
        repo = REPO
        threads_get = None
        cache = {}
        def watched(code):
            r = cache.get(code)
            if r is None:
                r = cache[code] = code.co_filename.startswith(repo)
            return r
        def on_start(code, off):
            if not watched(code):
                return DIS
            s = CUR
            if s is not None:
                s.point(False)
        def on_call(code, off, fn, arg):
            if not watched(code):
                return DIS
        def on_cret(code, off, fn, arg):
            s = CUR
            if s is not None and watched(code):
                s.point(False)
        def on_jump(code, off, dst):
            if not watched(code):
                return DIS
            if dst > off:
                return DIS
            s = CUR
            if s is not None:
                s.point(False)
        mon.register_callback(TOOL, E.PY_START, on_start)
        mon.register_callback(TOOL, E.PY_RESUME, on_start)
        mon.register_callback(TOOL, E.CALL, on_call)
        mon.register_callback(TOOL, E.C_RETURN, on_cret)
        mon.register_callback(TOOL, E.JUMP, on_jump)
        mon.set_events(TOOL, E.PY_START | E.PY_RESUME | E.CALL | E.JUMP)
