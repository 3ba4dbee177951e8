"""A deterministic event loop, stepped from outside, on a virtual clock.

The real asyncio machinery (tasks, futures, conditions, timer handles) is used; only the
driving of the loop is replaced: the harness decides when the next handle runs, so that
it can act (start or cancel an operation, close a channel...) between any two handles.
Handles run in the order asyncio would run them: FIFO, in iterations, with timers
becoming ready only at the beginning of an iteration.
"""

import asyncio
import heapq
import logging
import signal
import sys
import weakref
from asyncio import events

logging.disable(logging.CRITICAL)


HUNG = False
PATIENCE = 10  # seconds for a step; less in a process where one did hang already


class Hang(BaseException):
    """The code under test did not come back."""


class VLoop(asyncio.BaseEventLoop):
    """An event loop that is run one handle at a time, in virtual time (microseconds)."""

    def __init__(self, *, resolution_us: int = 0) -> None:
        super().__init__()
        self.now_us = 0
        # A coarse clock: timers up to this much in the future run early.
        self.resolution_us = resolution_us
        # A clock that goes on while code runs: by this much whenever it is read.
        self.tick_us = 0
        self.on_read = None
        self.before_step = []
        self._left_in_iteration = 0
        self.tasks: "weakref.WeakSet[asyncio.Task]" = weakref.WeakSet()
        self.operations: "weakref.WeakSet[asyncio.Task]" = weakref.WeakSet()
        self.errors: list[dict] = []
        self.steps = 0

    # -- what BaseEventLoop needs --------------------------------------------------
    def time(self) -> float:
        now = self.now_us
        if self.tick_us:
            if self.on_read is not None:
                self.on_read()
            self.now_us += self.tick_us
        return now / 1_000_000

    def _process_events(self, event_list):  # pragma: no cover
        pass

    def _write_to_self(self):
        pass

    def call_exception_handler(self, context):
        self.errors.append(context)

    def create_task(self, coro, *, name=None, context=None):
        task = super().create_task(coro, name=name, context=context)
        self.tasks.add(task)
        return task

    # -- session -------------------------------------------------------------------
    def enter(self) -> None:
        import threading

        self._thread_id = threading.get_ident()
        self._old_hooks = sys.get_asyncgen_hooks()
        sys.set_asyncgen_hooks(
            firstiter=self._asyncgen_firstiter_hook,
            finalizer=self._asyncgen_finalizer_hook,
        )
        events._set_running_loop(self)
        signal.signal(signal.SIGALRM, _on_alarm)

    def leave(self) -> None:
        signal.setitimer(signal.ITIMER_REAL, 0)
        events._set_running_loop(None)
        self._thread_id = None
        sys.set_asyncgen_hooks(*self._old_hooks)
        self._ready.clear()
        self._scheduled.clear()
        self.close()

    # -- stepping ------------------------------------------------------------------
    def _begin_iteration(self) -> None:
        while self._scheduled:
            handle = self._scheduled[0]
            if handle._cancelled:
                heapq.heappop(self._scheduled)
                handle._scheduled = False
                continue
            # deadlines are sums of floats: compare in whole microseconds
            if round(handle._when * 1_000_000) > self.now_us + self.resolution_us:
                break
            heapq.heappop(self._scheduled)
            handle._scheduled = False
            self._ready.append(handle)
        self._left_in_iteration = len(self._ready)

    @property
    def idle(self) -> bool:
        """Nothing can happen without an external action or the passing of time."""
        if any(not h._cancelled for h in self._ready):
            return False
        return not any(
            not h._cancelled
            and round(h._when * 1_000_000) <= self.now_us + self.resolution_us
            for h in self._scheduled
        )

    def next_deadline(self) -> "int | None":
        """When the next timer handle is due, in microseconds."""
        times = [round(h._when * 1_000_000) for h in self._scheduled if not h._cancelled]
        return min(times) if times else None

    def step(self) -> bool:
        """Run the next handle. Returns whether there was one."""
        while True:
            if self._left_in_iteration == 0:
                self._begin_iteration()
                if self._left_in_iteration == 0:
                    return False
            self._left_in_iteration -= 1
            handle = self._ready.popleft()
            if not handle._cancelled:
                break
        self.steps += 1
        for f in self.before_step:
            f()
        signal.setitimer(signal.ITIMER_REAL, PATIENCE)
        try:
            handle._run()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return True

    def settle(self) -> None:
        """Run until nothing is left to do at the current time."""
        # waking everyone for everyone is slow, but does end
        tasks = sum(not t.done() for t in [*self.tasks, *self.operations])
        limit = 2000 + 50 * tasks * tasks
        for _ in range(limit):
            if not self.step():
                return
        raise Hang("the loop does not come to rest")


def _on_alarm(signum, frame):
    global HUNG, PATIENCE
    HUNG = True
    PATIENCE = 1
    raise Hang("a step does not return")


def eager(loop: VLoop, coro) -> asyncio.Task:
    """Run a coroutine until it suspends for the first time, then as a task."""
    signal.setitimer(signal.ITIMER_REAL, PATIENCE)
    try:
        task = asyncio.Task(coro, loop=loop, eager_start=True)
        loop.operations.add(task)
        return task
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
