"""Receivers of every kind, behind one interface: messages offered, stopped, encoded."""

import asyncio
import itertools
import pathlib
from collections import deque
from datetime import timedelta

import backend

from frequenz.channels import (
    Anycast,
    Broadcast,
    Merger,
    Receiver,
    ReceiverError,
    ReceiverStoppedError,
    merge,
)
from frequenz.channels.event import Event
from frequenz.channels.file_watcher import Event as FileEvent
from frequenz.channels.file_watcher import EventType, FileWatcher
from frequenz.channels.timer import SkipMissedAndDrift, SkipMissedAndResync, Timer, TriggerAllMissed

INTERVAL = timedelta(microseconds=1000)


class SourceError(Exception):
    pass


class Gone(ReceiverStoppedError):
    """The stop error of a receiver that says more than usual."""


class FakeReceiver(Receiver):
    """A minimal receiver that can also fail. Not under test, but its base class is."""

    stop_error = ReceiverStoppedError

    def __init__(self):
        self.items = deque()
        self.stopped = False
        self.waiters = []
        self.failure = None  # what ready() raises

    def wake(self):
        waiters, self.waiters = self.waiters, []
        for w in waiters:
            if not w.done():
                w.set_result(None)

    async def ready(self):
        while not self.items and not self.stopped and self.failure is None:
            w = asyncio.get_running_loop().create_future()
            self.waiters.append(w)
            await w
        if self.failure is not None:
            raise self.failure
        return bool(self.items)

    def consume(self):
        if not self.items:
            assert self.stopped
            raise self.stop_error(self)
        ok, item = self.items.popleft()
        if ok:
            return item
        raise item

    def __len__(self):
        return len(self.items)


class Source:
    """A receiver and its environment. Offers are numbered messages."""

    coalesces = False
    cuts = False  # stopping it may discard messages
    errors = False  # offers can be errors
    own_tasks = False  # the receiver has background tasks

    def __init__(self, driver):
        self.driver = driver
        self.stopped = False

    def encode(self, obj):
        return self.driver.values.num(obj)

    def left(self):
        """How many messages are still in the source, None if unknown."""
        return None

    def parts(self):
        """The receiver and what it is made of."""
        return [self.receiver, getattr(self, "fake", self.receiver)]

    def release(self):
        """Keep no reference to the receiver."""
        self.receiver = None


class BroadcastSource(Source):
    def __init__(self, driver):
        super().__init__(driver)
        self.channel = Broadcast(name="source")
        self.receiver = self.channel.new_receiver(limit=200)
        self.sender = self.channel.new_sender()

    def offer(self, n, bad):
        self.driver.env(self.sender.send(self.driver.values.obj(n)))

    def stop(self):
        self.driver.env(self.channel.close())

    def left(self):
        return len(self.receiver)


class AnycastSource(BroadcastSource):
    def __init__(self, driver):
        Source.__init__(self, driver)
        self.channel = Anycast(name="source", limit=200)
        self.receiver = self.channel.new_receiver()
        self.sender = self.channel.new_sender()

    def left(self):
        return None


class FakeSource(Source):
    errors = True

    def __init__(self, driver):
        super().__init__(driver)
        self.receiver = FakeReceiver()
        driver.fakes = getattr(driver, "fakes", len(driver.cfg["srcs"])) + 1
        if driver.fakes % 2:
            self.receiver.stop_error = Gone

    def offer(self, n, bad):
        if bad:
            exc = self.driver.error(n, ReceiverError("x", self.receiver) if n % 2 else SourceError(n))
            self.receiver.items.append((False, exc))
        else:
            self.receiver.items.append((True, self.driver.values.obj(n)))
        self.receiver.wake()

    def stop(self):
        self.receiver.stopped = True
        self.receiver.wake()

    def left(self):
        return len(self.receiver.items)


class CollidingReceiver(FakeReceiver):
    """Receivers that can't be told apart by comparing them."""

    def __hash__(self):
        return 7

    def __str__(self):
        return "receiver"

    __repr__ = __str__

    def __eq__(self, other):
        return isinstance(other, CollidingReceiver)


class UnhashableReceiver(FakeReceiver):
    __hash__ = None

    def __str__(self):
        return "receiver"

    __repr__ = __str__

    def __eq__(self, other):
        return isinstance(other, UnhashableReceiver)


class CollidingSource(FakeSource):
    def __init__(self, driver):
        super().__init__(driver)
        self.receiver = CollidingReceiver()


class UnhashableSource(FakeSource):
    def __init__(self, driver):
        super().__init__(driver)
        self.receiver = UnhashableReceiver()


class MappedSource(FakeSource):
    """Errors are those of the mapping function."""

    def __init__(self, driver):
        super().__init__(driver)
        self.fake = self.receiver
        self.failed = {}
        self.receiver = self.fake.map(self.mapping)

    def mapping(self, message):
        if id(message) in self.failed:
            raise self.failed[id(message)]
        return message

    def offer(self, n, bad):
        message = self.driver.values.obj(n)
        if bad:
            self.failed[id(message)] = self.driver.error(n, SourceError(n))
        self.fake.items.append((True, message))
        self.fake.wake()

    def stop(self):
        self.fake.stopped = True
        self.fake.wake()


class MergedSource(FakeSource):
    """A merged receiver, of one source so that the order is known."""

    own_tasks = True

    def __init__(self, driver):
        super().__init__(driver)
        self.fake = self.receiver
        self.receiver = merge(self.fake)

    def offer(self, n, bad):
        receiver, self.receiver = self.receiver, self.fake
        super().offer(n, bad)
        self.receiver = receiver

    def stop(self):
        self.fake.stopped = True
        self.fake.wake()


class EventSource(Source):
    coalesces = True

    def __init__(self, driver):
        super().__init__(driver)
        self.receiver = Event(name="source")

    def offer(self, n, bad):
        self.receiver.set()

    def stop(self):
        self.receiver.stop()

    def encode(self, obj):
        return 0 if obj is None else -1


class TimerSource(Source):
    """A timer: time passes in offers only."""

    cuts = True

    def __init__(self, driver):
        super().__init__(driver)
        self.receiver = Timer(INTERVAL, TriggerAllMissed())
        self.due = driver.loop.now_us

    def offer(self, n, bad):
        self.due += 1000
        self.driver.loop.now_us = max(self.driver.loop.now_us, self.due)

    def stop(self):
        self.receiver.stop()

    def encode(self, obj):
        return 0 if isinstance(obj, timedelta) else -1


TYPES = [EventType.CREATE, EventType.MODIFY, EventType.DELETE]


NUMBERS = itertools.count()


def file_number(kind, path):
    return 3 * path + kind


# No two are equal, but some are easily confused.
PATHS = ["/nowhere/f0", "/nowhere/f1 ", "/nowhere/F0", "/nowhere/../f3", "rel/\u00fc\n", " /nowhere/f0.d/f0"]
# Some that are often ignored
PATHS += ["/nowhere/.git/f", "/nowhere/f.pyc", "/nowhere/f~", "/nowhere/node_modules/a/b/c/f.swp"]
PATHS += [f"/nowhere/d{i // 10}/f{i}" for i in range(600)]
BY_PATH = {pathlib.Path(p): i for i, p in enumerate(PATHS)}


class WatcherSource(Source):
    """Offers are whole reports of the watch backend, see WatcherDriver."""

    own_tasks = True

    def __init__(self, driver):
        super().__init__(driver)
        kinds = driver.cfg.get("types")
        n = next(NUMBERS)
        paths = [f"/nowhere{n}"] if kinds is None else [f"/nowhere{n}", pathlib.Path("/else")]
        self.backend = backend.Backend(paths)
        if kinds is None:
            self.selected = [1, 2, 3]
            self.receiver = FileWatcher(paths=paths)
        else:
            self.selected = kinds
            types = (TYPES[k - 1] for k in kinds)  # any iterable will do
            self.receiver = FileWatcher(paths=paths, event_types=types if len(kinds) == 2 else list(types))

    def report(self, changes):
        self.backend.report((k, PATHS[p]) for k, p in changes)

    def offer(self, n, bad):
        raise NotImplementedError

    def stop(self):
        self.backend.stop()

    def encode(self, obj):
        if not isinstance(obj, FileEvent):
            return -1
        for k in (1, 2, 3):
            if obj.type is TYPES[k - 1] and isinstance(obj.path, pathlib.Path) and obj.path in BY_PATH:
                return file_number(k, BY_PATH[obj.path])
        return -1


SOURCES = {
    "broadcast": BroadcastSource,
    "anycast": AnycastSource,
    "fake": FakeSource,
    "colliding": CollidingSource,
    "unhashable": UnhashableSource,
    "mapped": MappedSource,
    "merged": MergedSource,
    "event": EventSource,
    "timer": TimerSource,
    "watcher": WatcherSource,
}
