"""Simulation kernel: virtual clock, event heap, seeded scheduler, trace.

Two modes share one API:
  * inline: a single client task runs in the calling thread; block() drives the event loop itself;
  * tasks:  several client threads; exactly one runs at a time and the seeded scheduler picks the next.
"""
from __future__ import annotations

import collections
import hashlib
import heapq
import random
import sys
import threading
import traceback
import typing as t


class SimAbort(BaseException):
    """Unwinds client code; never caught by `except Exception`."""


class StepBudget(SimAbort):
    """The run took more simulator steps than any correct execution could need (livelock)."""


class Deadlock(SimAbort):
    """Nothing is scheduled and every client task waits without a deadline."""


class WallGuard(SimAbort):
    """Client code spun without entering the simulator for a long real time."""


class ModelError(SimAbort):
    """The model server could not digest what the client sent it."""


class HarnessError(BaseException):
    """The simulator or a model met something it cannot represent: never a verdict."""


CURRENT: t.Optional["Sim"] = None
EPOCH = 1_700_000_000.0


class Task:
    __slots__ = ("name", "fn", "thread", "go", "done", "exc", "result", "ready", "deadline", "woke", "started")

    def __init__(self, name: str, fn: t.Callable[[], t.Any]) -> None:
        self.name = name
        self.fn = fn
        self.go = threading.Semaphore(0)
        self.thread: t.Optional[threading.Thread] = None
        self.done = False
        self.exc: t.Optional[BaseException] = None
        self.result: t.Any = None
        self.ready: t.Optional[t.Callable[[], bool]] = None
        self.deadline: t.Optional[float] = None
        self.woke = True
        self.started = False


class Sim:
    def __init__(self, seed: t.Any, max_steps: int = 200_000) -> None:
        self.seed = seed
        self.now = 0.0
        self.rng = random.Random("net/%s" % (seed,))
        self.rng_sched = random.Random("sched/%s" % (seed,))
        self.rng_bytes = random.Random("bytes/%s" % (seed,))
        self.heap: t.List = []
        self._seq = 0
        self.steps = 0
        self.max_steps = max_steps
        self.fired: t.Counter[str] = collections.Counter()
        self.trace: t.List[t.Tuple] = []
        self._digest = hashlib.sha256()
        self.sleeps: t.List[t.Tuple[float, float]] = []
        self.tasks: t.List[Task] = []
        self.cur: t.Optional[Task] = None
        self._back = threading.Semaphore(0)
        self.aborting: t.Optional[BaseException] = None
        self.preempt_p = 0.0
        self.switches = 0
        self.sched_trace: t.List[str] = []

    # -- trace
    def log(self, *rec: t.Any) -> None:
        self.trace.append((round(self.now, 6),) + rec)
        self._digest.update(repr(rec).encode())
        self._digest.update(b"%.6f" % self.now)

    def digest(self) -> str:
        return self._digest.hexdigest()[:16]

    # -- time
    def wall(self) -> float:
        return EPOCH + self.now

    def sleep(self, secs: float) -> None:
        secs = max(0.0, float(secs))
        self.sleeps.append((self.now, secs))
        self.log("sleep", round(secs, 6))
        self.block(None, secs)

    def at(self, when: float, fn: t.Callable[[], None]) -> None:
        self._seq += 1
        heapq.heappush(self.heap, (max(when, self.now), self._seq, fn))

    def after(self, delay: float, fn: t.Callable[[], None]) -> None:
        self.at(self.now + delay, fn)

    def randbytes(self, n: int) -> bytes:
        return self.rng_bytes.randbytes(n)

    def _step(self) -> None:
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepBudget("more than %d simulator steps" % self.max_steps)

    def _next_event(self) -> None:
        when, _, fn = heapq.heappop(self.heap)
        if when > self.now:
            self.now = when
        try:
            fn()
        except Exception as e:  # simulator code must not leak into the client under test
            raise ModelError("%s" % "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:])

    # -- blocking
    def block(self, ready: t.Optional[t.Callable[[], bool]], timeout: t.Optional[float]) -> bool:
        """Block the calling client task until ready() or the timeout. True when ready."""
        if self.aborting is not None:
            raise self.aborting
        deadline = None if timeout is None else self.now + timeout
        if not self.tasks:
            while True:
                self._step()
                if ready is not None and ready():
                    return True
                if deadline is not None and self.now >= deadline:
                    return False
                when = self.heap[0][0] if self.heap else None
                if when is None and deadline is None:
                    raise Deadlock("client waits for ever and nothing is scheduled")
                if when is None or (deadline is not None and deadline < when):
                    self.now = deadline  # type: ignore[assignment]
                    continue
                self._next_event()
        task = self.cur
        assert task is not None
        task.ready = ready
        task.deadline = deadline
        self._switch_out(task)
        return task.woke

    def yield_point(self) -> None:
        """A possible preemption (threaded mode only)."""
        if self.tasks and self.cur is not None and self.aborting is None and self.preempt_p:
            if threading.current_thread() is self.cur.thread and self.rng_sched.random() < self.preempt_p:
                task = self.cur
                task.ready = None
                task.deadline = self.now
                self._switch_out(task)

    def _switch_out(self, task: Task) -> None:
        self._back.release()
        task.go.acquire()
        if self.aborting is not None:
            raise self.aborting

    # -- threaded mode
    def spawn(self, name: str, fn: t.Callable[[], t.Any], trace: t.Optional[t.Callable[[t.Any], bool]] = None) -> Task:
        task = Task(name, fn)

        def tracer(frame, event, arg):  # line-level preemption inside the code under test
            return local if trace(frame.f_code) else None  # type: ignore[misc]

        def local(frame, event, arg):
            if event == "line":
                self.yield_point()
            return local

        def body() -> None:
            task.go.acquire()
            try:
                if self.aborting is None:
                    if trace:
                        sys.settrace(tracer)
                    try:
                        task.result = fn()
                    finally:
                        if trace:
                            sys.settrace(None)
            except BaseException as e:  # recorded, judged by the check
                task.exc = e
            finally:
                task.done = True
                self._back.release()

        task.thread = threading.Thread(target=body, name="sim-" + name, daemon=True)
        self.tasks.append(task)
        return task

    def run_tasks(self, wall_limit: float = 60.0) -> None:
        for task in self.tasks:
            task.thread.start()  # type: ignore[union-attr]
        try:
            while True:
                live = [x for x in self.tasks if not x.done]
                if not live:
                    break
                try:
                    self._step()
                    runnable = [
                        x
                        for x in live
                        if (x.ready is None and x.deadline is None)
                        or (x.ready is not None and x.ready())
                        or (x.deadline is not None and self.now >= x.deadline)
                    ]
                    if not runnable:
                        deadlines = [x.deadline for x in live if x.deadline is not None]
                        dl = min(deadlines) if deadlines else None
                        when = self.heap[0][0] if self.heap else None
                        if when is None and dl is None:
                            raise Deadlock("all client tasks wait for ever")
                        if when is None or (dl is not None and dl < when):
                            self.now = dl  # type: ignore[assignment]
                        else:
                            self._next_event()
                        continue
                except SimAbort as e:
                    self.aborting = e
                    for x in live:
                        x.go.release()
                        if not self._back.acquire(timeout=wall_limit):
                            raise WallGuard("task %s does not stop" % x.name)
                    raise
                task = runnable[self.rng_sched.randrange(len(runnable))] if len(runnable) > 1 else runnable[0]
                if self.cur is not task:
                    self.switches += 1
                self.sched_trace.append(task.name)
                task.woke = bool(task.ready is not None and task.ready())
                task.ready = None
                task.deadline = None
                self.cur = task
                task.go.release()
                if not self._back.acquire(timeout=wall_limit):
                    raise WallGuard("task %s ran %.0f s without entering the simulator" % (task.name, wall_limit))
        finally:
            self.cur = None


class active:
    """Context manager that makes a Sim the current one."""

    def __init__(self, sim: Sim) -> None:
        self.sim = sim

    def __enter__(self) -> Sim:
        global CURRENT
        if CURRENT is not None:
            raise HarnessError("nested simulations")
        CURRENT = self.sim
        return self.sim

    def __exit__(self, *a: t.Any) -> None:
        global CURRENT
        CURRENT = None
