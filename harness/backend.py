"""A stand-in for the file system notifications that watchfiles gets from its Rust part.

watchfiles.awatch() itself is the real one; only the thread that waits for the system's
notifications is replaced.
"""

import asyncio
import weakref
from collections import deque

import anyio.to_thread
import watchfiles.main


class Backend:
    """What reports changes, in the next watch() to ask for them."""

    known: "dict[frozenset[str], weakref.ref[Backend]]" = {}

    def __init__(self, paths):
        Backend.known[frozenset(str(p) for p in paths)] = weakref.ref(self)
        self.reports = deque()
        self.stopped = False
        self.stop_event = None
        self.recursive = True
        self.waiter = None
        self.watching = 0

    def report(self, changes):
        self.reports.append({(int(t), str(p)) for t, p in changes})
        self.poke()

    def stop(self):
        self.stopped = True
        self.poke()

    def poke(self):
        if self.waiter is not None and not self.waiter.done():
            self.waiter.set_result(None)

    def tick(self):
        """The thread looks at the stop event from time to time."""
        if self.stop_event is not None and self.stop_event.is_set():
            self.poke()


class FakeNotify:
    """Stands for watchfiles' RustNotify."""

    def __init__(self, paths, debug, force_polling, poll_delay_ms, recursive, ignore_permission_denied):
        # of paths that nobody asked for nothing is known
        self.backend = Backend.known.get(frozenset(paths), lambda: None)() or Backend(())
        self.backend.recursive = recursive

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def watch(self, *args):
        raise NotImplementedError


async def fake_run_sync(func, *args, **kwargs):
    backend = func.__self__.backend
    backend.stop_event = args[-1]
    while True:
        if backend.reports:
            report = backend.reports.popleft()
            return report if backend.recursive else {c for c in report if c[1].count("/") < 3}
        if backend.stopped or backend.stop_event.is_set():
            return "stop"
        backend.waiter = asyncio.get_running_loop().create_future()
        backend.watching += 1
        try:
            await backend.waiter
        finally:
            backend.waiter = None
            backend.watching -= 1


def install():
    watchfiles.main.RustNotify = FakeNotify
    anyio.to_thread.run_sync = fake_run_sync
