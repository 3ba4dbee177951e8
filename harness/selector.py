"""select(): driver of the real iterations, and what is explored for S01..S06."""

import asyncio
import copy
import gc
import weakref

import backend
from ops import Driver
from sources import INTERVAL, SOURCES, SourceError, file_number
from vloop import Hang, VLoop, eager

from frequenz.channels import (
    ReceiverError,
    ReceiverStoppedError,
    SelectError,
    UnhandledSelectedError,
    select,
    selected_from,
)
from frequenz.channels.timer import Timer, TriggerAllMissed

backend.install()


class Stranger(ReceiverStoppedError):
    """Nothing select() knows."""


class SelectDriver(Driver):
    """cfg: srcs, bad (every bad-th message raises), twice (a receiver is given twice)."""

    def setup(self):
        self.env_tasks = []
        self.errors = {}
        self.nmsg = 0
        self.srcs = [SOURCES[k](self) for k in self.cfg["srcs"]]
        self.failures = [None] * len(self.srcs)
        self.it = None
        self.sel = None
        self.cur = None
        self.st = "none"
        self.op = None  # the task of a pending anext() or aclose()
        self.cancelling = False
        self.log("new", [s.coalesces for s in self.srcs])

    # the environment is that of the receivers
    from receiver import ReceiverDriver as _R

    env, is_bad, error = _R.env, _R.is_bad, _R.error
    del _R

    def offer(self, i):
        src = self.srcs[i - 1]
        if src.stopped:
            return
        if hasattr(src, "report"):
            self.nmsg += 1
            changes = [(k, self.nmsg % 4) for k in (1, 2, 3)][: 1 + self.nmsg % 3]
            self.log("offer", i, sorted(file_number(k, p) for k, p in changes), False)
            src.report(changes)
            return
        self.nmsg += 1
        bad = self.is_bad(self.nmsg) and src.errors
        anonymous = src.encode(self.values.obj(self.nmsg)) <= 0
        self.log("offer", i, [0 if anonymous else self.nmsg], bad)
        src.offer(self.nmsg, bad)

    def stop_source(self, i):
        src = self.srcs[i - 1]
        if not src.stopped:
            src.stopped = True
            self.log("stop", i, src.cuts)
            src.stop()

    def fail(self, i):
        """From now on ready() raises."""
        src = self.srcs[i - 1]
        if getattr(src.receiver, "failure", 0) is None and i not in [o for _, _, o in self.ops.values()]:
            error = SourceError(-i)
            error.__cause__ = SourceError("the reason") if self.nmsg % 2 else None
            self.failures[i - 1] = src.receiver.failure = error
            self.log("fail", i)
            src.receiver.wake()

    def heal(self):
        if any(self.failures) and self.st in ("none", "over") and self.op is None:
            self.rest()
            self.log("heal")
            for i, src in enumerate(self.srcs):
                if self.failures[i] is not None:
                    self.failures[i] = src.receiver.failure = None

    # -- the iteration ---------------------------------------------------------------
    def open(self, which):
        if self.st not in ("none", "over") or self.op is not None or any(o == "recv" for o in self.pending_kinds()):
            return
        which = which or list(range(1, len(self.srcs) + 1))
        if self.cfg.get("twice"):
            which = which + [which[0]]
        self.sel = self.cur = None
        self.log("open", which)
        self.it = select(*[self.srcs[i - 1].receiver for i in which])
        self.st = "body"

    def pending_kinds(self):
        return [k for _, k, _ in self.ops.values()]

    def operate(self, func, kind):
        """Run an operation on the iterator as the program's task."""
        self.st = kind
        self.cancelling = False

        async def run():
            try:
                event = await func()
            except asyncio.CancelledError:
                event = ("cancelled",) if self.cancelling else ("other",)
            except Hang:
                event = ("hang",)
            except StopAsyncIteration:
                event = ("end",)
            except UnhandledSelectedError as exc:
                event = ("unhandled", list(self.cur) if self.cur and exc.selected is self.sel else [0, "", 0])
            except SelectError as exc:
                causes = [i for i, f in enumerate(self.failures, 1) if f is not None and f is exc.__cause__]
                event = ("error", causes[0]) if causes else ("other",)
            except BaseExceptionGroup as exc:
                known = all(any(e is f for f in self.failures) for e in exc.exceptions)
                event = ("group",) if known else ("other",)
            except BaseException:  # pylint: disable=broad-except
                event = ("other",)
            self.op = None
            self.st = {"got": "body", "closed": "none"}.get(event[0], "over")
            self.log(*event)

        self.op = False
        task = eager(self.loop, run())
        if self.op is False:
            self.op = task

    def next(self):
        if self.st != "body" or self.op is not None:
            return
        self.log("next")

        async def func():
            self.sel = await anext(self.it)
            self.cur = self.evaluate(self.cfg.get("blind"))
            return ("got", *self.cur)

        self.operate(func, "wait")

    def evaluate(self, blind=False):
        """What the program sees of the current selection, if it looks."""
        sel = self.sel
        # a copy, as asking is how selections are handled
        which = [i for i, s in enumerate(self.srcs, 1) if selected_from(copy.copy(sel), s.receiver)]
        if len(which) != 1:
            return (0, "odd", 0)
        (i,) = which
        if blind:
            return (i, "some", 0)
        src = self.srcs[i - 1]
        try:
            message = sel.message
        except Exception as exc:  # pylint: disable=broad-except
            if sel.exception is not exc:
                return (i, "odd", 0)
            if id(exc) in self.errors:
                return (i, "odd" if sel.was_stopped else "raised", self.errors[id(exc)][0])
            if isinstance(exc, ReceiverStoppedError) and any(exc.receiver is r for r in src.parts()) and sel.was_stopped:
                return (i, "stopped", 0)
            return (i, "odd", 0)
        if sel.exception is not None or sel.was_stopped:
            return (i, "odd", 0)
        return (i, "val", src.encode(message))

    def match(self, i):
        if self.st == "body" and self.sel is not None and self.cur is not None:
            if not self.cfg.get("blind"):
                self.look()
            self.log("match", i, selected_from(self.sel, self.srcs[i - 1].receiver) is True)

    def look(self):
        if self.st == "body" and self.sel is not None and self.cur is not None:
            self.log("still", list(self.evaluate()))

    def leave(self, how):
        if self.st != "body" or self.op is not None:
            if self.st == "over" and self.op is None:
                self.it = None
            return
        if how == "drop":
            # the program may keep the selection
            it, self.it = weakref.ref(self.it), None
            self.st = "none"
            self.log("leave")
            if it() is not None:
                gc.collect()
            return
        self.log("close")
        it = self.it

        async def func():
            await it.aclose()
            return ("closed",)

        self.operate(func, "close")

    # -- actions ---------------------------------------------------------------------
    def act(self, a):
        kind = a[0]
        if kind == "step":
            self.step()
        elif kind == "settle":
            self.rest()
        elif kind == "offer":
            self.offer((a[1] - 1) % len(self.srcs) + 1)
        elif kind == "stop":
            self.stop_source((a[1] - 1) % len(self.srcs) + 1)
        elif kind == "fail":
            self.fail((a[1] - 1) % len(self.srcs) + 1)
        elif kind == "heal":
            self.heal()
        elif kind == "look":
            self.look()
        elif kind == "open":
            self.open([i for i in a[1:] if i <= len(self.srcs)])
        elif kind == "next":
            if self.cur is not None and self.cur[0]:
                for i in a[1:]:
                    self.match(i)
                self.match(self.cur[0])
            self.next()
        elif kind == "badnext":
            for i in range(1, len(self.srcs) + 1):
                if self.cur is not None and i != self.cur[0]:
                    self.match(i)
            self.next()
        elif kind == "match":
            self.match((a[1] - 1) % len(self.srcs) + 1)
        elif kind == "cancel":
            if self.op:
                self.cancelling = True
                self.op.cancel()
        elif kind in ("drop", "close"):
            self.leave(kind)
        elif kind == "direct":
            self.direct((a[1] - 1) % len(self.srcs) + 1)

    def direct(self, i):
        src = self.srcs[i - 1]
        if self.st not in ("none", "over") or self.op is not None or self.failures[i - 1] is not None:
            return
        if any(o == i for _, _, o in self.ops.values()):
            return

        def outcome(result, exc):
            if exc is not None and id(exc) in self.errors:
                return ("raised", self.errors[id(exc)][0])
            return self.recv_outcome(src.receiver, None, src.encode)(result, exc)

        self.start("recv", 0, i, src.receiver.receive, outcome)

    def start(self, kind, obj, arg, func, outcome):
        opid = super().start(kind, obj, arg, func, outcome)
        if opid in self.ops:
            self.ops[opid] = (self.ops[opid][0], kind, arg)
        return opid

    # -- rest ------------------------------------------------------------------------
    def rest(self):
        self.settle()
        for src in self.srcs:
            if hasattr(src, "backend"):
                src.backend.tick()
                self.settle()
        if any(s.cuts and s.stopped for s in self.srcs):
            for _ in range(100):
                when = self.loop.next_deadline()
                if when is None:
                    break
                self.loop.now_us = max(self.loop.now_us, when)
                self.settle()
        self.log("quiet")
        if not any(s.own_tasks for s in self.srcs):
            self.log("tasks", self.tasks_left())

    def iterate(self, limit=60):
        """Go on with the iteration until nothing comes anymore."""
        for _ in range(limit):
            self.act(["next"])
            self.rest()
            if self.st != "body":
                break

    def drain(self):
        for i in range(1, len(self.srcs) + 1):
            for _ in range(60):
                mark = len(self.events)
                self.direct(i)
                self.rest()
                if not any(e[0] == "ret" and e[2] in ("val", "raised") for e in self.events[mark:]):
                    break

    def cancel_all(self):
        for opid in list(self.pending()):
            self.cancel(opid)
        self.rest()

    def epilogue(self, variant):
        """Leave, and see that nothing was lost; then stop, and see that it ends."""
        if variant % 3:
            self.rest()
        if self.st == "wait" and variant % 2:
            self.act(["cancel"])
        elif self.st == "wait":
            self.rest()
            self.act(["cancel"])
        self.act(["drop" if variant % 4 < 2 else "close"])
        if self.st not in ("none", "over") or self.op is not None:
            self.rest()
        if variant % 8 < 4:
            self.act(["open"])
            self.iterate()
            self.act(["cancel"])
            self.rest()
            self.act(["close"])
            self.rest()
        self.heal()
        self.drain()
        if self.pending():
            self.cancel_all()
        for i in range(1, len(self.srcs) + 1):
            if (variant + i) % 3:
                self.act(["offer", i])
        self.act(["open"])
        if variant % 5 == 0:
            self.act(["next"])
            self.rest()
        for i in range(1, len(self.srcs) + 1):
            self.act(["stop", i])
        self.iterate()
        if variant % 16 == 9:
            self.act(["open"])
            self.iterate()

    def random_action(self, rng):
        cfg = self.cfg
        n = len(self.srcs)
        w = {"step": 30, "settle": 4, "offer": 22, "next": 22, "badnext": 0, "match": 2, "cancel": 0, "drop": 1,
             "close": 1, "open": 6, "stop": 1, "fail": 0, "heal": 1, "direct": 0, "look": 3 * self.cfg.get("blind", 0)}  # fmt: skip
        w.update(cfg.get("weights", {}))
        kind = rng.choices(list(w), list(w.values()))[0]
        if kind == "next" and rng.random() < 0.3:
            return ["next"] + [rng.randint(1, n)]
        if kind in ("offer", "stop", "fail", "match", "direct"):
            return [kind, rng.randint(1, n)]
        if kind == "open" and rng.random() < 0.3:
            return ["open"] + sorted(rng.sample(range(1, n + 1), rng.randint(1, n)))
        return [kind]

    def teardown(self):
        self.it = self.sel = None
        for src in self.srcs:
            src.release()
        for t in self.env_tasks:
            t.cancel()


PROPS = ["S01", "S02", "S03", "S04", "S05", "S06"]
TRACE = "SelectTrace"
DRIVER = SelectDriver
DESIGN_INVARIANTS = ["Implements", "Rests", "NoneBlocked", "NoTasksLeft"]


def trace_constants(prop):
    return {"Check": {prop}}


def models(prop, tier):
    def model(nr, ng, msgs, acts, keep, stops=True, leaves=True, cancels=True, fails=False, unhandles=False, cfgs=None):
        return {
            "module": "SelectImpl",
            "constants": dict(
                Check=set(PROPS), NR=nr, NG=ng, MaxMsgs=msgs, MaxActs=acts, Fails=fails, Stops_=stops, Leaves=leaves,
                Cancels=cancels, Unhandles=unhandles, Cleanup=True, Rearm=True, Emit=True,
            ),  # fmt: skip
            "invariants": DESIGN_INVARIANTS,
            "cfgs": cfgs or [
                dict(srcs=["fake"] * nr, bad=2),
                dict(srcs=["broadcast", "anycast", "mapped"][:nr], bad=2, values="odd"),
                dict(srcs=["colliding"] * nr, bad=2, values="odd"),
            ],
            "keep": keep,
        }  # fmt: skip

    fakes = [dict(srcs=["fake"] * 2, bad=2), dict(srcs=["unhashable"] * 2, bad=2)]
    if tier == "quick":
        out = [
            model(2, 1, 3, 8, 4000, unhandles=prop == "S03"),
            model(2, 2, 2, 9, 3500, stops=False),
        ]
        if prop in ("S04", "S06"):
            out.append(model(2, 1, 2, 8, 3000, fails=True, stops=False, cfgs=fakes))
        return out
    return [
        model(2, 2, 3, 8, 40000, unhandles=prop == "S03"),
        model(3, 1, 3, 7, 40000, unhandles=prop == "S03"),
        model(2, 2, 3, 7, 40000, fails=True, cfgs=fakes),
    ]


KINDS = [
    dict(srcs=["fake", "fake"]),
    dict(srcs=["broadcast", "anycast", "fake"], values="odd"),
    dict(srcs=["event", "broadcast"]),
    dict(srcs=["timer", "anycast", "event"]),
    dict(srcs=["watcher", "broadcast"]),
    dict(srcs=["merged", "fake", "mapped"]),
    dict(srcs=["colliding", "colliding", "unhashable", "unhashable"]),
    dict(srcs=["anycast", "broadcast"], twice=True),
    dict(srcs=["anycast", "anycast", "broadcast", "broadcast"]),
    dict(srcs=["fake"] * 6, values="odd"),
]


def randoms(prop, tier):
    n = 1 if tier == "quick" else 30
    out = []
    for k in KINDS:
        if prop == "S04" and any(SOURCES[x].own_tasks for x in k["srcs"]):
            continue
        bad = {"S06": 3}.get(prop, 5)
        w = {"cancel": 1, "stop": 0.5}
        if prop == "S03":
            w.update(badnext=3, match=8)
        if prop in ("S04", "S06"):
            w.update(fail=0.6, badnext=0.5)
        if prop in ("S01", "S04"):
            w.update(cancel=2, drop=3, close=2, open=12, direct=2, badnext=0.5)
        out.append((dict(k, bad=bad, weights=w), 50, 110 * n))
        out.append((dict(k, bad=bad, weights=dict(w, step=60, offer=30, next=40, direct=1)), 100, 60 * n))
        # bodies that don't look at what was selected, or do so later
        out.append((dict(k, bad=bad, weights=w, blind=True), 60, 30 * n))
        if "timer" not in k["srcs"]:  # the time of a timer is the offers of its own driver
            out.append((dict(k, bad=bad, weights=w, twin={}), 100, 30 * n))
    return out


def scripted(prop, tier):
    """One receiver always has messages, the others get theirs now and then."""
    out = []
    for nr in (2, 3, 5):
        for busy in range(1, nr + 1):
            s = [["offer", busy]] * 40 + [["open"], ["next"], ["settle"]]
            s += [["offer", i] for i in range(1, nr + 1) if i != busy]
            s += [["stop", busy % nr + 1]] + [["next"], ["settle"]] * 38
            out.append((dict(srcs=["fake"] * nr), s))
            out.append((dict(srcs=["broadcast"] * nr), s))
    # crowds
    for nr in (7, 9, 17, 33):
        everyone = range(1, nr + 1)
        every = [["offer", i] for i in everyone]
        turn = [["next"], ["settle"]]
        for srcs in (["fake"] * nr, ["broadcast", "anycast", "fake"] * (nr // 3) or ["event"]):
            cfg = dict(srcs=srcs)
            out.append((cfg, [["open"]] + turn + every + turn * (nr + 2) + every + turn * nr))
            out.append((cfg, every * 2 + [["open"]] + turn * (nr // 2) + [["drop"], ["settle"], ["open"]] + turn * 2 * nr))
            out.append((cfg, [["open"]] + turn + [["stop", i] for i in everyone] + turn * (nr + 2)))
            out.append((cfg, [["open"]] + turn + [["stop", i] for i in everyone[::2]] + every + turn * (2 * nr + 2)))
            out.append((cfg, every + [["open"], ["next"], ["cancel"], ["settle"], ["open"]] + turn * nr))
        for busy in ([i for i in everyone if i % 4 != 1], range(1, nr), range(2, nr + 1)):
            s = [["offer", i] for i in busy] * 8 + [["open"]] + turn + [["offer", i] for i in everyone if i not in busy]
            out.append((dict(srcs=["fake"] * nr), s + turn * (6 * nr)))
    # again and again
    for srcs in (["fake"] * 2, ["broadcast", "anycast"], ["event", "watcher"]):
        if prop == "S04" and any(SOURCES[x].own_tasks for x in srcs):
            continue
        cfg = dict(srcs=srcs)
        turn = [["next"], ["settle"]]
        for leave in ([["drop"]], [["close"]], [["cancel"]], [["next"], ["settle"], ["cancel"], ["settle"]]):
            s = ([["open"], ["next"], ["offer", 1]] + turn[1:] + leave + [["settle"]]) * 80
            out.append((cfg, s + [["offer", 1], ["offer", 2], ["open"]] + turn * 5))
        out.append((cfg, [["open"]] + ([["offer", 1]] + turn + [["offer", 2]] + turn) * 300))
    return out


def reset_in_body(stop):
    """Two timers fire, or stop, together; the body of the loop resets the other one.

    Returns whether the iteration reports the other one although it has nothing.
    """
    loop = VLoop()
    loop.enter()
    errors = []
    try:

        async def run():
            timers = [Timer(INTERVAL, TriggerAllMissed()) for _ in range(2)]
            if stop:
                timers[0].stop()
                timers[1].stop()
            async for selected in select(*timers):
                (mine,) = (i for i in (0, 1) if selected_from(copy.copy(selected), timers[i]))
                selected_from(selected, timers[mine])
                if isinstance(selected.exception, AssertionError):
                    errors.append(selected.exception)
                timers[1 - mine].reset()

        task = loop.create_task(run())
        loop.settle()
        loop.now_us += 1000
        loop.settle()
        task.cancel()
        loop.settle()
    except (Hang, Exception):  # pylint: disable=broad-except
        pass  # something else, which is for the histories to tell
    finally:
        loop.leave()
    return bool(errors)


def findings(prop):
    """Histories that are tried besides those of the specification: what fails in them."""
    if prop != "S01":
        return []
    found = []
    if reset_in_body(False):
        found.append("a timer reset by the body of the loop after it fired is reported with an AssertionError")
    if reset_in_body(True):
        found.append("a stopped timer restarted by the body of the loop is reported with an AssertionError")
    return found
