"""What all drivers share: operations run as tasks, recorded as histories."""

import asyncio
import contextvars
import gc
import sys
import traceback

from vloop import Hang, VLoop, eager
import vloop

from frequenz.channels import (
    Anycast,
    Broadcast,
    ChannelClosedError,
    Receiver,
    ReceiverStoppedError,
    Selected,
    Sender,
    SenderError,
)


# the driver on whose behalf code runs
OWNER = contextvars.ContextVar("OWNER", default=None)


class Weird:
    """A message that compares and converts in inconvenient ways."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1

    def __bool__(self):
        return False

    def __len__(self):
        return 0


# Messages are identified by identity: each history uses each object once.
ODD = [None, 0, False, "", (), Weird(), 0.0, StopAsyncIteration(), NotImplemented, ReceiverStoppedError,
       [], Weird(), {}, b"", set(), ..., True, 1, frozenset([1]), range(0), object, type, Weird(), int]  # fmt: skip


class Values:
    """The messages of a run: numbers 1, 2... to objects and back."""

    def __init__(self, mode):
        self._mode = mode
        self._objs = {}
        self._nums = {}
        self._seen = {}

    def obj(self, n):
        if self._mode == "same":
            # all are the same object, known as 0
            self._nums[id(self)] = 0
            return self
        if self._mode == "pairs" and n % 2 == 0:
            # every object is sent twice
            self._nums[id(self.obj(n - 1))] = n - 1
            return self.obj(n - 1)
        if n not in self._objs:
            if self._mode == "odd" and n <= len(ODD):
                o = ODD[n - 1]
            elif self._mode == "odd":
                o = Weird()
            else:
                o = f"m{n}"
            self._objs[n] = o
            self._nums[id(o)] = n
        return self._objs[n]

    def num(self, obj, where=0):
        n = self._nums.get(id(obj), -1)
        if self._mode != "pairs" or n < 0:
            return n
        # those received twice in one place are received in order
        seen = self._seen.get((n, where), 0)
        self._seen[(n, where)] = seen + 1
        return n + seen


class Driver:
    """Runs operations on a virtual loop and records what is observable."""

    def __init__(self, cfg, peer=None):
        self.cfg = cfg
        self.peer = peer  # another one that uses the same loop
        self.loop = peer.loop if peer else VLoop(resolution_us=cfg.get("resolution", 0))
        self.events = []
        self.ops = {}  # pending operations: id -> (task, kind, object index)
        self.cancelled = set()
        self.values = Values(cfg.get("values", "plain"))
        self.hung = False

    # -- life cycle ------------------------------------------------------------------
    def __enter__(self):
        OWNER.set(self)
        if self.peer:
            self.setup()
            return self
        vloop.HUNG = False
        self.loop.enter()
        try:
            self.setup()
        except BaseException:
            self.loop.leave()
            raise
        return self

    def __exit__(self, *exc):
        try:
            for task, _, _ in list(self.ops.values()):
                task.cancel()
            self.ops_closed = True
            if not self.peer:
                for task in list(self.loop.tasks):
                    task.cancel()
                for _ in range(200):
                    if not self.loop.step():
                        break
        except Hang:
            pass
        OWNER.set(None)
        self.teardown()
        if not self.peer:
            self.loop.leave()

    def setup(self):
        raise NotImplementedError

    def teardown(self):
        pass

    # -- recording -------------------------------------------------------------------
    def log(self, *event):
        if not getattr(self, "ops_closed", False):
            self.events.append(list(event))

    def free_id(self):
        i = 1
        while i in self.ops:
            i += 1
        return i

    def start(self, kind, obj, arg, func, outcome, after=None):
        """Start an operation: func() -> awaitable; outcome(result or exception) -> event."""
        opid = self.free_id()
        self.log("call", opid, kind, obj, arg)
        self.cancelled.discard(opid)

        async def run():
            try:
                result = await func()
                res = outcome(result, None)
            except asyncio.CancelledError as exc:
                if opid in self.cancelled:
                    res = ("cancelled", 0)
                else:
                    res = outcome(None, exc)
            except Hang:
                self.hung = True
                res = ("hang", 0)
            except BaseException as exc:  # pylint: disable=broad-except
                res = outcome(None, exc)
            self.ops.pop(opid, None)
            self.cancelled.discard(opid)
            self.log("ret", opid, *res)
            if after is not None:
                after()

        self.ops[opid] = (None, kind, obj)
        task = eager(self.loop, run())
        if opid in self.ops:
            self.ops[opid] = (task, kind, obj)
        return opid

    def cancel(self, opid):
        if opid in self.ops and not (self.ops[opid][1] == "send" and self.cfg.get("values") == "pairs"):
            self.cancelled.add(opid)
            self.ops[opid][0].cancel()

    def step(self):
        self.loop.step()
        if vloop.HUNG:
            raise Hang()

    def settle(self):
        self.loop.settle()
        if vloop.HUNG:
            raise Hang()

    def pending(self, *kinds):
        return sorted(i for i, (_, k, _) in self.ops.items() if not kinds or k in kinds)

    def tasks_left(self):
        """How many tasks of the code under test were started for this driver and run still."""
        tasks = [t for t in self.loop.tasks if not t.done()]
        return sum(t.get_context().get(OWNER) in (self, None) for t in tasks)

    # -- outcomes --------------------------------------------------------------------
    def recv_outcome(self, receiver, channel=None, encode=None):
        """The event of a receive()."""
        encode = encode or self.values.num

        def outcome(result, exc):
            if exc is None:
                return ("val", encode(result))
            if isinstance(exc, ReceiverStoppedError):
                ok = exc.receiver is receiver
                if channel is not None:
                    ok = ok and self.closed_cause(exc, channel)
                return ("stopped" if ok else "stopped?", 0)
            return ("other", 0)

        return outcome

    def anext_outcome(self, encode=None):
        encode = encode or self.values.num

        def outcome(result, exc):
            if exc is None:
                return ("val", encode(result))
            if isinstance(exc, StopAsyncIteration):
                return ("end", 0)
            return ("other", 0)

        return outcome

    @staticmethod
    def ready_outcome(result, exc):
        if exc is None and result is True:
            return ("true", 0)
        if exc is None and result is False:
            return ("false", 0)
        return ("other", 0)

    @staticmethod
    def send_outcome(sender, channel):
        def outcome(result, exc):
            if exc is None:
                return ("ok", 0)
            if isinstance(exc, SenderError):
                ok = exc.sender is sender and Driver.closed_cause(exc, channel)
                return ("closed" if ok else "closed?", 0)
            return ("other", 0)

        return outcome

    @staticmethod
    def plain_outcome(result, exc):
        return ("ok", 0) if exc is None else ("other", 0)

    @staticmethod
    def closed_cause(exc, channel):
        while exc is not None:
            if isinstance(exc, ChannelClosedError):
                return exc.channel is channel
            exc = exc.__cause__
        return False

    def consume(self, receiver, channel=None, encode=None):
        """The outcome of a consume()."""
        outcome = self.recv_outcome(receiver, channel, encode)
        try:
            return outcome(receiver.consume(), None)
        except Exception as exc:  # pylint: disable=broad-except
            return outcome(None, exc)

    # -- running ---------------------------------------------------------------------
    def act(self, action):
        """Do one action of a schedule; unknown or impossible ones do nothing."""
        raise NotImplementedError

    def random_action(self, rng):
        raise NotImplementedError

    def epilogue(self, variant):
        pass

    def do(self, action):
        OWNER.set(self)
        self.act(action)

    def finish(self, variant):
        OWNER.set(self)
        self.epilogue(variant)


def _guarded(cls, cfg, body):
    """Run body(drivers); a crash of the code under test becomes an event of the history.

    Returns the histories.
    """
    gc.freeze()  # collections during a run should look at that run only
    twin = cfg.get("twin")
    driver = cls({k: v for k, v in cfg.items() if k != "twin"})
    drivers = [driver]
    try:
        with driver:
            try:
                if twin is None:
                    body(drivers)
                else:
                    # another one at the same time: they have nothing to do with each other
                    drivers.append(cls(dict(driver.cfg, **twin), driver))
                    with drivers[1]:
                        body(drivers)
            except Hang:
                driver.log("hang")
            except Exception:  # pylint: disable=broad-except
                if not _from_library():
                    raise
                driver.log("crash")
    except Exception:  # pylint: disable=broad-except
        # from setup()
        if driver.events and driver.events[-1] == ["crash"] or not _from_library():
            raise
        driver.log("crash")
    finally:
        OWNER.set(None)
    return [d.events for d in drivers]


def _from_library():
    """Whether the current exception came through the code under test, or its lack of something."""
    _, exc, tb = sys.exc_info()
    if isinstance(exc, AttributeError) and isinstance(exc.obj, Receiver | Sender | Anycast | Broadcast | Selected):
        return True
    return any("frequenz/channels/" in frame.filename for frame in traceback.extract_tb(tb))


def run_schedule(cls, cfg, schedule, variant=0):
    """Run a schedule on the real code. Returns (histories, schedule).

    Actions beginning with "twin" are those of the second driver.
    """

    def body(drivers):
        for action in schedule:
            if action[0] == "twin":
                drivers[1].do(action[1:])
            else:
                drivers[0].do(action)
        for d in drivers:
            d.finish(variant)

    return _guarded(cls, cfg, body), schedule


def run_random(cls, cfg, rng, length, variant=0):
    schedule = []

    def body(drivers):
        for _ in range(length):
            i = rng.randrange(len(drivers))
            action = list(drivers[i].random_action(rng))
            schedule.append(["twin"] * i + action)
            drivers[i].do(action)
        for d in drivers:
            d.finish(variant)

    return _guarded(cls, cfg, body), schedule


def quiesce_gc():
    """Collect now, and keep the collector out of the runs."""
    gc.unfreeze()
    gc.collect()
    gc.freeze()
    gc.disable()
