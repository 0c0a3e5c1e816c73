"""The simulator's core: virtual clocks, a total order of events, and a scheduler that decides which thread runs.

Every thread of the simulated process is a real thread that only runs while it holds the baton. The scheduler passes
the baton at blocking operations and, when a plan asks for it, at lines of the code under test. All choices come from
one seeded generator and are recorded sparsely (only non-default ones), so that a run can be replayed and minimised.
"""

from __future__ import annotations

import _thread
import contextvars
import heapq
import random
import sys
import threading
import time
from typing import Any, Callable, Dict, List, Optional, Tuple

CURRENT: contextvars.ContextVar = contextvars.ContextVar("sim_request", default=None)

real_alloc = _thread.allocate_lock
real_ident = _thread.get_ident
real_monotonic = time.monotonic
real_sleep = time.sleep
WALL_BASE = 1_700_000_000.0
TICK = 1e-7


class SimDeadlock(BaseException):
    """No thread can run and no timer is left."""


class Task:
    """One simulated thread."""

    def __init__(self, number: int, name: str):
        self.number, self.name = number, name
        self.baton = real_alloc()
        self.baton.acquire()
        self.cond: Optional[Callable[[], bool]] = None
        self.deadline: Optional[float] = None
        self.done = False


class Sim:
    """State of one simulated run."""

    def __init__(self, seed: Any, forced: Optional[Dict[str, int]] = None, preempt: float = 0.0):
        self.rng = random.Random(f"sched/{seed}")
        self.forced = None if forced is None else {int(k): v for k, v in forced.items()}
        self.preempt = preempt
        self.choices = 0
        self.taken: Dict[int, int] = {}
        self.now = 1000.0
        self.wall_offset = 0.0
        self.busy = 0.0  # simulated processor time of the process
        self.heap: List[Tuple[float, int, Callable[[], None]]] = []
        self.seq = 0
        self.tasks: List[Task] = []
        self.history: List[Any] = []
        self.switches = 0
        self.next_preempt = self._gap() if forced is None else -1
        self.on_deadlock: Callable[[str], None] = lambda text: (_ for _ in ()).throw(SimDeadlock(text))
        main = Task(0, "main")
        self.cur = main
        self.tasks.append(main)
        self.counter = 1
        self.steps = 0
        self.max_steps = 3_000_000  # without time passing (code that polls is slow, not stuck)
        self.seen = -1.0
        self.line_hook: Optional[Callable[[Any], None]] = None

    # records and choices ------------------------------------------------------
    def log(self, kind: str, **data: Any):
        self.history.append((len(self.history), round(self.now, 6), kind, data))

    def _gap(self) -> int:
        if self.preempt <= 0:
            return -1
        return self.choices + 1 + int(self.rng.expovariate(self.preempt))

    def choose(self, n: int) -> int:
        """One of n alternatives; 0 is the default."""
        self.choices += 1
        if self.forced is not None:
            val = self.forced.get(self.choices, 0) % n
        else:
            val = self.rng.randrange(n)
        if val:
            self.taken[self.choices] = val
        return val

    # events -------------------------------------------------------------------
    def at(self, when: float, func: Callable[[], None]):
        self.seq += 1
        heapq.heappush(self.heap, (max(when, self.now), self.seq, func))

    def after(self, delay: float, func: Callable[[], None]):
        self.at(self.now + delay, func)

    def wall(self) -> float:
        return WALL_BASE + self.now + self.wall_offset

    # scheduling ---------------------------------------------------------------
    def _ready(self, task: Task) -> bool:
        if task.cond is None or task.cond():
            return True
        return task.deadline is not None and self.now >= task.deadline

    def _pick(self) -> Task:
        while True:
            self.steps += 1
            if self.now > self.seen + 0.001:
                self.seen, self.steps = self.now, 0
            if self.steps > self.max_steps:
                self.on_deadlock("step limit reached: the process makes no progress")
            ready = [t for t in self.tasks if self._ready(t)]
            if ready:
                return ready[0] if len(ready) == 1 else ready[self.choose(len(ready))]
            times = [t.deadline for t in self.tasks if t.deadline is not None]
            if self.heap:
                times.append(self.heap[0][0])
            if not times:
                self.on_deadlock("deadlock: " + ", ".join(t.name for t in self.tasks))
            self.now = max(self.now, min(times))
            while self.heap and self.heap[0][0] <= self.now:
                heapq.heappop(self.heap)[2]()

    def _switch(self):
        """Let the scheduler decide who runs; return when the current task runs again."""
        me = self.cur
        nxt = self._pick()
        if nxt is me:
            return
        self.switches += 1
        self.cur = nxt
        nxt.baton.release()
        me.baton.acquire()

    def block(self, cond: Callable[[], bool], deadline: Optional[float] = None) -> bool:
        """Block the current thread until cond() or the deadline; tell whether cond() holds."""
        me = self.cur
        while True:
            if cond():
                return True
            if deadline is not None and self.now >= deadline:
                return False
            me.cond, me.deadline = cond, deadline
            try:
                self._switch()
            finally:
                me.cond = me.deadline = None

    def preempt_point(self):
        """Maybe let another thread run here."""
        if len(self.tasks) == 1:
            return
        self.choices += 1
        if self.forced is not None:
            if not self.forced.get(self.choices, 0):
                return
        elif self.next_preempt < 0 or self.choices < self.next_preempt:
            return
        self.taken[self.choices] = 1
        if self.forced is None:
            self.next_preempt = self._gap()
        self.now += 1e-6
        while self.heap and self.heap[0][0] <= self.now:
            heapq.heappop(self.heap)[2]()
        me = self.cur
        others = [t for t in self.tasks if t is not me and self._ready(t)]
        if not others:
            return
        nxt = others[0] if len(others) == 1 else others[self.choose(len(others))]
        self.switches += 1
        self.cur = nxt
        nxt.baton.release()
        me.baton.acquire()

    def spawn(self, func: Callable[[], None], name: str, before: Optional[Callable[[], None]] = None) -> Task:
        """Start a simulated thread."""
        task = Task(self.counter, f"{name}#{self.counter}")
        self.counter += 1

        def boot():
            task.baton.acquire()
            self.trace_here()
            try:
                if before:
                    before()
                func()
            except SimDeadlock:
                raise
            except BaseException as err:  # the thread dies, like a real one
                self.log("thread_died", name=task.name, error=repr(err)[:200])
            finally:
                sys.settrace(None)
                task.done = True
                self.tasks.remove(task)
                nxt = self._pick()
                self.cur = nxt
                nxt.baton.release()

        self.tasks.append(task)
        _thread.start_new_thread(boot, ())
        return task

    # tracing ------------------------------------------------------------------
    def trace_here(self):
        """Trace the lines of the code under test in this thread, if this run needs it."""
        if self.preempt > 0 or self.forced or self.line_hook:
            sys.settrace(self._trace)

    def _trace(self, frame, event, _arg):
        if event == "call" and frame.f_code.co_filename.startswith(PREFIXES):
            return self._trace_line
        return None

    def _trace_line(self, frame, event, _arg):
        if event == "line":
            if self.line_hook:
                self.line_hook(frame)
            self.preempt_point()
        return self._trace_line


PREFIXES: Tuple[str, ...] = ("/repo/",)
SIM: Optional[Sim] = None


def active() -> bool:
    return SIM is not None


# synchronisation primitives ---------------------------------------------------
class SimLock:
    """threading.Lock under the scheduler."""

    def __init__(self):
        self._locked = False

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        if self._locked:
            if not blocking:
                return False
            if SIM is None:
                raise RuntimeError("lock contended outside a simulated run")
            deadline = None if timeout is None or timeout < 0 else SIM.now + timeout
            while self._locked:
                if not SIM.block(lambda: not self._locked, deadline):
                    return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False

    def locked(self) -> bool:
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()


class SimRLock:
    """threading.RLock under the scheduler."""

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        me = real_ident()
        if self._owner is not None and self._owner != me:
            if not blocking:
                return False
            if SIM is None:
                raise RuntimeError("lock contended outside a simulated run")
            deadline = None if timeout is None or timeout < 0 else SIM.now + timeout
            while self._owner is not None:
                if not SIM.block(lambda: self._owner is None, deadline):
                    return False
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner != real_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    def _is_owned(self) -> bool:
        return self._owner == real_ident()

    def _release_save(self):
        saved = (self._owner, self._count)
        self._owner, self._count = None, 0
        return saved

    def _acquire_restore(self, saved):
        self.acquire()
        self._owner, self._count = saved

    def _recursion_count(self) -> int:
        return self._count if self._owner == real_ident() else 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()


def _thread_start(self):
    if SIM is None:
        raise RuntimeError("thread started outside a simulated run")
    if getattr(self, "_sim_task", None) is not None:
        raise RuntimeError("threads can only be started once")

    def before():
        self._set_ident()
        self._started.set()
        threading._active[real_ident()] = self

    def run():
        try:
            self.run()
        except SystemExit:
            pass
        finally:
            self._is_stopped = True
            threading._active.pop(real_ident(), None)

    self._sim_task = SIM.spawn(run, f"thread {self.name}", before)


def _thread_join(self, timeout=None):
    task = getattr(self, "_sim_task", None)
    if task is None:
        raise RuntimeError("cannot join thread before it is started")
    SIM.block(lambda: task.done, None if timeout is None else SIM.now + max(timeout, 0))


def _thread_alive(self) -> bool:
    task = getattr(self, "_sim_task", None)
    if task is None:
        return self is threading.main_thread()
    return not task.done


def _sleep(secs):
    if SIM is None:
        return real_sleep(secs)
    SIM.block(lambda: False, SIM.now + max(0.0, secs))
    return None


def _busy() -> float:
    return SIM.busy if SIM else 0.0


def install():
    """Replace clocks, locks and threads. Must run before the code under test and its libraries are imported."""

    def mono():
        if SIM is None:
            return 1000.0
        SIM.now += TICK  # reading the clock takes time, so that no two moments are equal
        return SIM.now

    wall = lambda: SIM.wall() if SIM else WALL_BASE + 1000.0  # noqa: E731
    time.monotonic = time.perf_counter = mono
    time.time = wall
    time.monotonic_ns = time.perf_counter_ns = lambda: int(mono() * 1e9)
    time.time_ns = lambda: int(wall() * 1e9)
    time.process_time = time.thread_time = _busy
    time.sleep = _sleep
    import queue

    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._time = mono
    queue.time = mono
    queue.SimpleQueue = queue._PySimpleQueue
    threading.Thread.start = _thread_start
    threading.Thread.join = _thread_join
    threading.Thread.is_alive = _thread_alive
    import concurrent.futures.thread as cft

    submit = cft.ThreadPoolExecutor.submit

    def submit_in_context(self, fn, /, *args, **kwargs):
        return submit(self, contextvars.copy_context().run, fn, *args, **kwargs)

    cft.ThreadPoolExecutor.submit = submit_in_context
