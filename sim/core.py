"""Deterministic simulator: one seed (or one recorded choice sequence) decides one execution.

* Chooser      every nondeterministic decision is a bounded integer drawn here and recorded
* Sim          real OS threads, parked and released one at a time; virtual clock; event heap
* SimLock ...  stand-ins for the threading primitives, built on the scheduler
* preemption   sys.monitoring events of code under /repo (bytecode or line granularity)
"""
from __future__ import annotations

import _thread
import datetime
import heapq
import os
import random
import sys
import threading
import time
import uuid  # noqa: F401  (imported before urandom is replaced)

REPO = os.environ.get("VERIF_REPO", "/repo").rstrip("/") + "/"

_real_lock = _thread.allocate_lock
_get_ident = _thread.get_ident
real_monotonic = time.monotonic
real_time = time.time
real_sleep = time.sleep
real_perf = time.perf_counter

EPOCH = 1_700_000_000.0
PID = 4242
TICK = 0.0               # simulated seconds that pass at every look at a clock
MONO0 = 5_000.0


class SimAbort(BaseException):
    """Unwinds a simulated thread at the end of a run."""


class SimCrash(BaseException):
    """The simulated process dies here."""


class Injected(Exception):
    """An injected failure (not a bug of the code under test)."""


class StubMissing(Exception):
    """The code uses something of a third-party stand-in that the stand-in does not have."""


class HarnessError(Exception):
    """The harness itself is wrong or cannot proceed."""


class Violation(Exception):
    def __init__(self, sig, msg, known=None):
        super().__init__(f"{sig}: {msg}")
        self.sig = sig
        self.msg = msg
        self.known = known


# --------------------------------------------------------------------------- choices
class Chooser:
    """Source of all decisions.  Value 0 is always the simplest decision."""

    def __init__(self, seed=None, replay=None):
        self.seed = seed
        self.replay = None if replay is None else list(replay)
        self.rng = random.Random(seed) if replay is None else None
        self.rec = []

    def draw(self, n, weights=None):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.replay is not None:
            i = len(self.rec)
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = v % n
        elif weights is None:
            v = int(self.rng.random() * n)
        else:
            v = self.rng.choices(range(n), weights)[0]
        self.rec.append(v)
        return v

    def chance(self, p):
        """True with probability p (0 = False)."""
        if p <= 0:
            return False
        return self.draw(2, (1 - p, p)) == 1

    def pick(self, seq, weights=None):
        return seq[self.draw(len(seq), weights)]

    def between(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def subseed(self):
        return self.draw(1 << 20)


# --------------------------------------------------------------------------- scheduler
RUN, BLK, DONE = "run", "blocked", "done"
_BUDGETS = [0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233, 377, 610, 987, 1597, 4181]

ACTIVE: "Sim | None" = None


class SThread:
    __slots__ = ("id", "name", "fn", "sem", "state", "ident", "token", "timed_out", "daemon",
                 "exc", "result", "abort", "started", "stall", "steps", "crash_at", "crash_exc", "joiners", "noevents", "obj")

    def __init__(self, id, name, fn, daemon):
        self.id, self.name, self.fn, self.daemon = id, name, fn, daemon
        self.sem = _real_lock()
        self.sem.acquire()
        self.state = RUN
        self.ident = None
        self.token = 0
        self.timed_out = False
        self.exc = None
        self.result = None
        self.abort = False
        self.started = False
        self.stall = 0.0
        self.steps = 0
        self.crash_at = -1
        self.crash_exc = None
        self.joiners = []
        self.noevents = 0
        self.obj = None


class Sim:
    def __init__(self, ch: Chooser, max_steps=400_000, max_time=100_000.0):
        self.ch = ch
        self.now = 0.0
        self.wall_skew = 0.0
        self.heap = []
        self.seq = 0
        self.threads: list[SThread] = []
        self.cur: SThread | None = None
        self.main_sem = _real_lock()
        self.main_sem.acquire()
        self.ended = False
        self.preempt = None            # None | 'line' | 'instr'
        self.budget_weights = None
        self.budget = 0                # 0: no preemption until the thread blocks
        self.looked = 0.0
        self.slow = 0.0                # weight of "time passes while threads are runnable"
        self.steps = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self.in_timer = False
        self.deadlock = False
        self.hang = None
        self.trace = []
        self.sched_hash = 0
        self.switches = 0
        self.preemptions = 0
        self.counts = {}
        self.probes = {}
        self.where = None
        self.frozen = False            # after a simulated crash: no more durable effects

    # -- bookkeeping
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def probe(self, k):
        self.probes[k] = self.probes.get(k, 0) + 1

    def log(self, *what):
        if len(self.trace) < 2000:
            self.trace.append((round(self.now, 6), self.cur.name if self.cur else "-", *what))
        self.mix(what)

    def mix(self, what):
        h = self.sched_hash
        for ch in repr(what):
            h = ((h ^ ord(ch)) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
        self.sched_hash = h

    # -- swarm configuration
    def configure(self, modes=(None, "line", "instr"), weights=None, slow=(0.0,)):
        self.preempt = self.ch.pick(modes, weights)
        if self.preempt:
            m = self.ch.draw(4)
            n = len(_BUDGETS)
            if m == 0:
                w = [2.0] + [1.0] * (n - 1)
            elif m == 1:       # mostly long stretches
                w = [4.0] + [0.2] * 7 + [1.0] * (n - 8)
            elif m == 2:       # very fine
                w = [0.3] + [3.0] * 4 + [0.5] * (n - 5)
            else:
                w = [1.0] + [0.5] * (n - 1)
            self.budget_weights = w
        self.slow = self.ch.pick(slow)

    # -- events
    def at(self, t, fn, label=""):
        self.seq += 1
        heapq.heappush(self.heap, (t, self.seq, fn, label))

    def after(self, dt, fn, label=""):
        self.at(self.now + dt, fn, label)

    # -- threads
    def spawn(self, fn, name, daemon=False):
        th = SThread(len(self.threads), name, fn, daemon)
        self.threads.append(th)
        return th

    def _boot(self, th):
        th.ident = _get_ident()
        try:
            if th.abort:
                raise SimAbort
            th.result = th.fn()
        except SimAbort as e:
            th.exc = th.exc or e
        except BaseException as e:  # noqa: BLE001
            th.exc = e
        th.state = DONE
        for j in th.joiners:
            self.wake(j)
        th.joiners = []
        if th.abort:
            self.main_sem.release()
        else:
            self._next(None)

    def is_sim_thread(self):
        c = self.cur
        return c is not None and c.ident == _get_ident()

    def wake(self, th):
        if th.state is BLK:
            th.state = RUN
            th.token += 1

    def _fire(self):
        """Run the next event of the heap, moving the clock."""
        t, _, fn, label = heapq.heappop(self.heap)
        if t > self.now:
            dt = t - self.now
            for th in self.threads:
                if th.state is RUN:
                    th.stall += dt
            self.now = t
        self.in_timer = True
        try:
            fn()
        finally:
            self.in_timer = False

    def _end(self):
        self.ended = True
        self.cur = None
        self.main_sem.release()

    def _next(self, me):
        """Pick who runs next; called by the thread that holds the baton (me), or a dying one (None)."""
        while True:
            while self.heap and self.heap[0][0] <= self.now:
                self._fire()
            if all(t.state is DONE or t.daemon for t in self.threads) or self.hang:
                return self._switch(me, None)
            cand = [t for t in self.threads if t.state is RUN]
            if not cand:
                if not self.heap:
                    self.deadlock = True
                    return self._switch(me, None)
                if self.heap[0][0] > self.max_time:
                    self.hang = "time limit"
                    return self._switch(me, None)
                self._fire()
                continue
            if me is not None and me.state is RUN:
                cand.remove(me)
                cand.insert(0, me)
            n = len(cand)
            if self.slow and self.heap:
                w = [1.0] * n + [self.slow * n]
                i = self.ch.draw(n + 1, w)
                if i == n:
                    self.count("slow_step")
                    self._fire()
                    continue
            else:
                i = self.ch.draw(n)
            nxt = cand[i]
            if self.preempt:
                self.budget = _BUDGETS[self.ch.draw(len(_BUDGETS), self.budget_weights)]
            return self._switch(me, nxt)

    def _switch(self, me, nxt):
        if nxt is me and me is not None:
            return
        if nxt is None:
            self._end()
        else:
            self.switches += 1
            self.mix((nxt.id, self.where))
            self.cur = nxt
            if not nxt.started:
                nxt.started = True
                _thread.start_new_thread(self._boot, (nxt,))
            else:
                nxt.sem.release()
        if me is not None:
            me.sem.acquire()
            if me.abort:
                raise SimAbort

    # -- called by the running simulated thread
    def block(self, deadline=None):
        """Park the running thread until woken; False if the deadline passed first."""
        me = self.cur
        if self.in_timer:
            raise HarnessError("blocking inside an event handler")
        if me.abort or self.ended:
            raise SimAbort
        me.state = BLK
        me.timed_out = False
        if deadline is not None:
            tok = me.token

            def expire():
                if me.state is BLK and me.token == tok:
                    me.timed_out = True
                    self.wake(me)
            self.at(max(deadline, self.now), expire, "deadline")
        self.where = "block"
        self._next(me)
        return not me.timed_out

    def yield_(self):
        self._next(self.cur)

    def point(self, where):
        """A synchronisation point: may preempt."""
        if self.in_timer or self.ended or not self.is_sim_thread():
            return
        if self.cur.abort:
            raise SimAbort
        if self.preempt:
            self.where = where
            if self.ch.chance(0.3):
                self._next(self.cur)

    def step(self, code, pos):
        """One monitored step of /repo code in the running thread."""
        c = self.cur
        if c is None or self.in_timer or c.ident != _get_ident() or c.noevents:
            return
        if c.abort:
            raise SimAbort
        self.steps += 1
        c.steps += 1
        if self.steps > self.max_steps:
            self.hang = f"step limit in {code.co_name}"
            self.max_steps = 1 << 60
            c.noevents = 1
            self._next(c)
            raise SimAbort
        if c.crash_at >= 0:
            c.crash_at -= 1
            if c.crash_at < 0:
                self.log("inject", type(c.crash_exc).__name__, code.co_name)
                e = c.crash_exc
                c.crash_exc = None
                if isinstance(e, SimCrash):
                    self.frozen = True
                self.probe("injected_in:" + code.co_name)
                raise e
        if self.budget:
            self.budget -= 1
            if self.budget == 0:
                self.preemptions += 1
                self.where = (code.co_name, pos)
                self._next(c)

    # -- harness side
    def run(self):
        global ACTIVE
        if ACTIVE is not None:
            raise HarnessError("nested simulation")
        ACTIVE = self
        _monitor(self.preempt or self.want_events())
        try:
            self._next(None)
            self.main_sem.acquire()
            for th in self.threads:
                if th.state is DONE:
                    continue
                th.abort = True
                if not th.started:
                    th.state = DONE
                    continue
                self.cur = th
                th.sem.release()
                self.main_sem.acquire()
            self.cur = None
        finally:
            ACTIVE = None
            _monitor(None)

    def want_events(self):
        """Granularity needed for crash points / step limits when there is no preemption."""
        return "line"


def step_limit_thread_guard():
    pass


# --------------------------------------------------------------------------- sys.monitoring
_mon = sys.monitoring
_TOOL = 4
_DIS = _mon.DISABLE
_tool_on = False


def _cb(code, pos):
    if not code.co_filename.startswith(REPO):
        return _DIS
    s = ACTIVE
    if s is not None:
        s.step(code, pos)


def _monitor(gran):
    global _tool_on
    if not _tool_on:
        _mon.use_tool_id(_TOOL, "verif-sim")
        _mon.register_callback(_TOOL, _mon.events.LINE, _cb)
        _mon.register_callback(_TOOL, _mon.events.INSTRUCTION, _cb)
        _tool_on = True
    if gran is None:
        _mon.set_events(_TOOL, 0)
    elif gran == "line":
        _mon.set_events(_TOOL, _mon.events.LINE)
    else:
        _mon.set_events(_TOOL, _mon.events.INSTRUCTION)


# --------------------------------------------------------------------------- primitives
def _sim():
    s = ACTIVE
    if s is not None and not s.ended and s.is_sim_thread():
        return s
    return None


class SimLock:
    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = _sim()
        if s is None:
            if self._locked:
                if not blocking:
                    return False
                if ACTIVE is not None:      # unwinding after the end of the run
                    raise SimAbort
                raise HarnessError("lock would block outside the simulation")
            self._locked = True
            return True
        if s.cur.abort:
            raise SimAbort
        s.point("acquire")
        if not blocking and timeout not in (-1, None):
            raise ValueError("can't specify a timeout for a non-blocking call")
        deadline = None if timeout is None or timeout < 0 else s.now + timeout
        while self._locked:
            if not blocking:
                return False
            me = s.cur
            self._waiters.append(me)
            try:
                ok = s.block(deadline)
            finally:
                if me in self._waiters:
                    self._waiters.remove(me)
            if not ok and self._locked:
                return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        s = ACTIVE
        if s is not None and not s.ended:
            for w in self._waiters:
                s.wake(w)
            self._waiters = []
            if _sim() is not None:
                s.point("release")

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self.__init__()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._owner == me:
            self._count += 1
            return 1
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._owner != _get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *a):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        if self._count == 0:
            raise RuntimeError("cannot release un-acquired lock")
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner == _get_ident()

    def _at_fork_reinit(self):
        self.__init__()


_RealThread = threading.Thread


class SimThread:
    """threading.Thread for code that runs under the simulator."""

    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        SimThread._n += 1
        self._target, self._args, self._kwargs = target, args, dict(kwargs or {})
        self.name = name or f"Thread-{SimThread._n}"
        self.daemon = bool(daemon)
        self._th = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = ACTIVE
        if s is None:
            raise HarnessError("thread started outside the simulation")
        if self._th is not None:
            raise RuntimeError("threads can only be started once")
        self._th = s.spawn(self.run, self.name, self.daemon)
        self._th.obj = self
        s.point("start")

    def join(self, timeout=None):
        s = _sim()
        if self._th is None:
            raise RuntimeError("cannot join thread before it is started")
        if s is None:
            return
        deadline = None if timeout is None else s.now + max(timeout, 0)
        while self._th.state is not DONE:
            self._th.joiners.append(s.cur)
            if not s.block(deadline):
                return

    def is_alive(self):
        return self._th is not None and self._th.state is not DONE

    @property
    def ident(self):
        return None if self._th is None else self._th.id + 1

    native_id = ident

    def setDaemon(self, d):
        self.daemon = d

    def isDaemon(self):
        return self.daemon

    def getName(self):
        return self.name

    def setName(self, name):
        self.name = name


_real_current_thread, _real_enumerate = threading.current_thread, threading.enumerate


def _thread_object(th):
    if th.obj is None:
        th.obj = SimThread(name=th.name, daemon=th.daemon)
        th.obj._th = th
    return th.obj


def _v_current_thread():
    s = ACTIVE
    return _thread_object(s.cur) if s is not None and s.is_sim_thread() else _real_current_thread()


def _v_enumerate():
    s = ACTIVE
    if s is None or not s.is_sim_thread():
        return _real_enumerate()
    return [_thread_object(t) for t in s.threads if t.started and t.state is not DONE or t is s.cur]


# --------------------------------------------------------------------------- clock
def _look(s):
    if TICK:
        s.looked += TICK
    return s.now + s.looked


def _v_time():
    s = ACTIVE
    return real_time() if s is None else EPOCH + _look(s) + s.wall_skew


def _v_mono():
    s = ACTIVE
    return real_monotonic() if s is None else MONO0 + _look(s)


def _v_sleep(d):
    s = _sim()
    if s is None:
        if ACTIVE is None:
            raise HarnessError("sleep outside the simulation")
        return
    if d < 0:
        raise ValueError("sleep length must be non-negative")
    s.block(s.now + d)


_ur = random.Random(1)


def _v_urandom(n):
    return _ur.randbytes(n)


def seed_entropy(k):
    _ur.seed(k)


class _VRandom(random.Random):
    """A generator without a seed takes it from the entropy of the simulated system."""

    def __init__(self, x=None):
        super().__init__(_v_urandom(16) if x is None else x)

    def seed(self, a=None, version=2):
        super().seed(_v_urandom(16) if a is None else a, version)


class _VDatetime(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(_v_time(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(_v_time(), datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


class _VDate(datetime.date):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(_v_time())


_installed = False


def install():
    """Put the seams in place (process wide; done once, before /repo is imported)."""
    global _installed
    if _installed:
        return
    _installed = True
    import concurrent.futures.thread  # noqa: F401
    import queue
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._time = _v_mono
    threading.Thread = SimThread
    threading.current_thread = threading.currentThread = _v_current_thread
    threading.enumerate = _v_enumerate
    threading.active_count = lambda: len(_v_enumerate())
    queue.time = _v_mono
    queue.SimpleQueue = queue._PySimpleQueue
    time.time = _v_time
    time.monotonic = _v_mono
    time.perf_counter = _v_mono
    time.time_ns = lambda: int(_v_time() * 1e9)
    time.monotonic_ns = lambda: int(_v_mono() * 1e9)
    time.perf_counter_ns = lambda: int(_v_mono() * 1e9)
    time.process_time = _v_mono
    time.sleep = _v_sleep
    os.urandom = _v_urandom
    real_pid = os.getpid

    def _v_pid():
        return PID if ACTIVE is not None and ACTIVE.is_sim_thread() else real_pid()
    os.getpid = _v_pid
    random._urandom = _v_urandom
    random.Random = _VRandom
    concurrent.futures.thread._global_shutdown_lock = SimLock()
    datetime.datetime = _VDatetime
    datetime.date = _VDate
