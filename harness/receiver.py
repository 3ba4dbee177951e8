"""Receivers of every kind: driver, and what is explored for R01..R03."""

import asyncio
import gc
import weakref

import backend
from ops import Driver
from sources import SOURCES, TYPES, SourceError, file_number
from vloop import eager

from frequenz.channels import Merger, ReceiverStoppedError, merge

backend.install()


class MapError(Exception):
    pass


class Mapped:
    """What the mapping functions return."""


class ReceiverDriver(Driver):
    """cfg: srcs, merged ("", "merge", "Merger", "nested"), maps, bad, values, types.

    bad: every bad-th message is an error of the source, or of the mapping function
    """

    def setup(self):
        cfg = self.cfg
        self.env_tasks = []
        self.errors = {}
        self.nmsg = 0
        self.rdy = False
        self.gone = False
        self.cut_called = False
        self.was_mapped = {}
        self.srcs = [SOURCES[k](self) for k in cfg["srcs"]]
        merged = cfg.get("merged", "")
        rs = [s.receiver for s in self.srcs]
        if merged == "merge":
            recv = merge(*rs)
        elif merged == "Merger":
            recv = Merger(*rs, name="merger")
        elif merged == "nested":
            recv = merge(merge(*rs[:-1]), rs[-1])
        elif merged == "mapped":
            recv = merge(*[r.map(lambda m: m) for r in rs])
        else:
            (recv,) = rs
        self.merger = recv if merged else None
        for level in range(1, cfg.get("maps", 0) + 1):
            recv = recv.map(self.mapping(level))
        self.recv = recv
        if merged:
            for s in self.srcs:
                if s.left() is None:
                    s.receiver = None
        self.log("new", len(self.srcs), self.srcs[0].coalesces, cfg.get("maps", 0))

    def mapping(self, level):
        def function(msg):
            n = self.srcs[0].encode(msg) if level == 1 else self.values.num(msg)
            self.log("apply", level, n)
            if self.is_bad(n) and not any(s.errors for s in self.srcs) and level == self.cfg["maps"]:
                raise self.error(n, MapError(n))
            out = Mapped()
            self.was_mapped[id(out)] = (level, out)
            self.values._nums[id(out)] = n
            return out

        return function

    def is_bad(self, n):
        bad = self.cfg.get("bad", 0)
        return bool(bad) and n > 0 and n % bad == 0 and not hasattr(self.srcs[0], "report")

    def error(self, n, exc):
        self.errors[id(exc)] = (n, exc)
        return exc

    # -- environment -----------------------------------------------------------------
    def env(self, coro):
        """Something the environment does: complete before anything else, if possible."""

        async def run():
            try:
                await coro
            except asyncio.CancelledError:
                pass
            except Exception:  # pylint: disable=broad-except
                self.log("crash")

        task = eager(self.loop, run())
        for _ in range(20):
            if task.done():
                return
            self.step()
        self.env_tasks.append(task)

    def offer(self, s):
        src = self.srcs[s - 1]
        if src.stopped and not self.cfg.get("late") or self.cut_called and src.cuts or not self.reachable(src):
            return
        if hasattr(src, "report"):
            if not src.selected:
                return
            self.nmsg += 1
            k, p = src.selected[self.nmsg % len(src.selected)], self.nmsg % 4
            self.report(s, [(k, p)])
            return
        self.nmsg += 1
        bad = self.is_bad(self.nmsg) and (src.errors or self.cfg.get("maps", 0) > 0)
        anonymous = src.encode(self.values.obj(self.nmsg)) <= 0
        self.log("offer", s, [0 if anonymous else self.nmsg], bad and not anonymous)
        src.offer(self.nmsg, bad)

    def reachable(self, src):
        """Whether a source can be used when the receiver was dropped."""
        return not self.gone or src.receiver is not None or hasattr(src, "channel") or hasattr(src, "backend")

    def report(self, s, changes):
        """A report of the watch backend, of which the selected changes are offered."""
        src = self.srcs[s - 1]
        if src.stopped:
            return
        seen = sorted({file_number(k, p) for k, p in changes if k in src.selected})
        if seen:
            self.log("offer", s, seen, False)
        src.report(changes)

    def stop_source(self, s):
        src = self.srcs[s - 1]
        if not src.stopped and not (src.cuts and self.cut_called) and self.reachable(src):
            if src.cuts:
                self.cut_called = True
                self.log("cut")
            else:
                src.stopped = True
                self.log("stop", s)
            src.stop()

    def stopped(self):
        """A stop() of the merger has returned."""
        if self.all_ended:
            self.log("tasks", self.tasks_left())

    # -- actions ---------------------------------------------------------------------
    def act(self, a):
        kind = a[0]
        if kind == "step":
            self.step()
        elif kind == "settle":
            self.rest()
        elif kind == "cancel":
            self.cancel(a[1])
        elif kind == "offer":
            self.offer((a[1] - 1) % len(self.srcs) + 1)
        elif kind == "report":
            self.report(1, a[1])
        elif kind == "stop":
            self.stop_source((a[1] - 1) % len(self.srcs) + 1)
        elif self.gone:
            pass
        elif kind == "consume":
            if self.rdy:
                self.rdy = False
                self.log("consume", *self.consume(self.recv))
        elif kind == "cut":
            # the inner one of nested mergers would go on
            if self.merger is not None and self.cfg["merged"] != "nested":
                first = not self.cut_called
                self.cut_called = True

                def outcome(result, exc):
                    # the others may return while the first one is at it
                    self.all_ended = first and exc is None
                    return self.plain_outcome(result, exc)

                self.all_ended = False
                self.start("stop", 0, 0, self.merger.stop, outcome, self.stopped)
        elif kind == "drop":
            self.drop()
        elif kind == "flags":
            if self.cfg["srcs"] == ["event"] and not self.cfg.get("maps"):
                self.log("flags", bool(self.recv.is_set), bool(self.recv.is_stopped))
        elif kind == "start" and a[1] == "ready":

            def outcome(result, exc):
                if exc is None:
                    self.rdy = True
                return self.ready_outcome(result, exc)

            self.start("ready", 0, 0, self.recv.ready, outcome)
        elif kind == "start" and a[1] in ("recv", "anext"):
            recv = self.recv
            inner = self.recv_outcome(recv) if a[1] == "recv" else self.anext_outcome()

            def outcome(result, exc):
                if exc is None:
                    self.rdy = False
                return inner(result, exc)

            self.start(a[1], 0, 0, recv.receive if a[1] == "recv" else recv.__anext__, outcome)

    def drop(self):
        if self.pending():
            return
        for src in self.srcs:
            if self.merger is None:
                src.release()
        self.dropped = weakref.ref(self.recv)
        self.recv = self.merger = None
        self.gone = True
        gc.collect()
        self.log("gone")

    # -- outcomes --------------------------------------------------------------------
    def message(self, obj):
        if self.cfg.get("maps", 0):
            level, kept = self.was_mapped.get(id(obj), (0, None))
            return self.values.num(obj) if level == self.cfg["maps"] else -1
        return self.srcs[0].encode(obj)

    def raised(self, inner):
        def outcome(result, exc):
            if exc is not None and id(exc) in self.errors:
                self.rdy = False
                exc.__traceback__ = None  # it refers to the receiver
                return ("raised", self.errors[id(exc)][0])
            return inner(result, exc)

        return outcome

    def recv_outcome(self, receiver, channel=None, encode=None):
        return self.raised(super().recv_outcome(receiver, channel, self.message))

    def anext_outcome(self, encode=None):
        return self.raised(super().anext_outcome(self.message))

    # -- rest ------------------------------------------------------------------------
    def rest(self):
        self.settle()
        for _ in range(3 if self.gone else 1):  # what was dropped may have to be found out step by step
            if self.gone:
                # what we remember must not keep the receivers alive
                for _, exc in self.errors.values():
                    exc.__traceback__ = exc.__context__ = None
                gc.collect()
                self.settle()
            for src in self.srcs:
                if hasattr(src, "backend"):
                    src.backend.tick()
                    self.settle()
        if self.cut_called and any(s.cuts for s in self.srcs):
            self.log("quiet", False)
            for _ in range(100):
                when = self.loop.next_deadline()
                if when is None:
                    break
                self.loop.now_us = max(self.loop.now_us, when)
                self.settle()
        self.log("quiet", True)
        watches = sum(src.backend.watching for src in self.srcs if hasattr(src, "backend"))
        self.log("tasks", max(watches, self.tasks_left()))
        if self.gone:
            if self.dropped() is not None:
                gc.collect()
            self.log("alive", self.dropped() is not None)
        if self.cut_called and self.merger is not None:
            for s, src in enumerate(self.srcs, 1):
                if src.left() is not None:
                    self.log("left", s, src.left())
        self.act(["flags"])

    def drain(self):
        for _ in range(80):
            if self.pending() or self.gone:
                break
            mark = len(self.events)
            self.act(["start", ["recv", "anext"][len(self.events) % 2], 0, 0])
            if self.pending():
                self.rest()
            if not any(e[0] == "ret" and e[2] in ("val", "raised") for e in self.events[mark:]):
                break

    def teardown(self):
        self.recv = self.merger = None
        for src in self.srcs:
            src.release()
        for t in self.env_tasks:
            t.cancel()

    def epilogue(self, variant):
        """Come to rest, get what is there, stop, and use it stopped."""
        self.rest()
        if variant % 4 != 3:
            self.drain()
            self.rest()
        if variant % 2:
            for s in range(len(self.srcs)):
                self.act(["offer", s + 1])
        if variant % 8 == 6 and self.merger is not None:
            self.act(["cut"])
        for s in range(len(self.srcs)):
            self.act(["stop", s + 1])
            if variant % 4 == 2 and s + 1 < len(self.srcs):
                self.rest()
                self.act(["offer", s + 2])
                self.drain()
        if variant % 8 == 5 and self.merger is not None:
            self.act(["start", "ready", 0, 0])
            self.act(["cut"])
            self.act(["consume"])
        self.rest()
        self.drain()
        for kind in ("ready", "recv", "anext"):
            self.act(["start", kind, 0, 0])
            if kind == "ready":
                self.act(["consume"])
        self.rest()
        if variant % 16 == 7:
            self.act(["drop"])
            self.rest()

    def random_action(self, rng):
        cfg = self.cfg
        w = {"step": 22, "settle": 6, "cancel": 6, "consume": 8, "offer": 25, "ready": 8, "recv": 10,
             "anext": 4, "stop": 1, "cut": 0, "drop": 0, "report": 0, "flags": 0}  # fmt: skip
        w.update(cfg.get("weights", {}))
        pend = self.pending()
        if len(pend) >= cfg.get("maxpend", 4):
            w.update(ready=0, recv=0, anext=0)
        if not pend:
            w.update(cancel=0)
        kind = rng.choices(list(w), list(w.values()))[0]
        if kind in ("offer", "stop"):
            return [kind, rng.randint(1, len(self.srcs))]
        if kind == "cancel":
            return [kind, rng.choice(pend)]
        if kind in ("ready", "recv", "anext"):
            return ["start", kind, 0, 0]
        if kind == "report":
            n = rng.choice([1, 1, 2, 3, 5])
            most = rng.choice([1, 3, 3, 12])
            return ["report", sorted({(rng.randint(1, 3), rng.randint(0, most)) for _ in range(n)})]
        return [kind]


PROPS = ["R01", "R02", "R03", "R04"]
TRACE = "ReceiverTrace"
DRIVER = ReceiverDriver

KINDS = [
    dict(srcs=["anycast"], values="odd"),
    dict(srcs=["broadcast"], values="odd"),
    dict(srcs=["event"]),
    dict(srcs=["timer"]),
    dict(srcs=["watcher"]),
    dict(srcs=["broadcast", "anycast"], merged="merge", values="odd"),
    dict(srcs=["fake", "fake"], merged="Merger", bad=3),
    dict(srcs=["broadcast", "anycast", "fake"], merged="nested"),
    dict(srcs=["broadcast"], maps=1, bad=3),
    dict(srcs=["anycast"], maps=2, values="odd"),
    dict(srcs=["event"], maps=1),
    dict(srcs=["watcher"], maps=1),
    dict(srcs=["timer"], maps=1),
    dict(srcs=["anycast", "broadcast"], merged="merge", maps=1, bad=4),
    dict(srcs=["broadcast", "anycast"], merged="mapped"),
    dict(srcs=["fake"], maps=1, bad=5),
    dict(srcs=["broadcast"], maps=6, bad=5),
    dict(srcs=["broadcast"], maps=1, values="same"),
    dict(srcs=["anycast"], values="same"),
]
DESIGN_INVARIANTS = ["Implements", "Rests", "NoneBlocked", "StaysReady"]


def trace_constants(prop):
    return {"Check": {prop}}


def model(prop, coalesce, mapped, msgs, pend, acts, kinds, cfgs, keep):
    return {
        "module": "ReceiverImpl",
        "constants": dict(
            Check=set(PROPS), Coalesce=coalesce, Map=mapped, MaxMsgs=msgs, MaxPend=pend,
            MaxActs=acts, Kinds=set(kinds), Recheck=True, WakeAll=True, Emit=True,
        ),  # fmt: skip
        "invariants": DESIGN_INVARIANTS,
        "properties": ["Final"],
        "cfgs": cfgs,
        "keep": keep,
    }


def models(prop, tier):
    queues = [dict(k, bad=2) for k in KINDS if k["srcs"][0] not in ("event",)]
    mapped = [dict(k, bad=2) for k in KINDS if k.get("maps")]
    events = [k for k in KINDS if k["srcs"][0] == "event"]
    if prop == "R04":
        return dropping(tier)
    if prop == "R03":
        if tier == "quick":
            return [model(prop, False, True, 2, 3, 6, ["recv", "ready"], mapped, 6000)]
        return [model(prop, False, True, 3, 3, 8, ["recv", "ready", "anext"], mapped, 80000)]
    if tier == "quick":
        return [
            model(prop, False, False, 2, 3, 6, ["recv", "ready"], queues, 5000),
            model(prop, True, False, 3, 2, 6, ["anext", "ready"], events, 1000),
        ]
    return [
        model(prop, False, False, 3, 3, 7, ["recv", "ready"], queues, 80000),
        model(prop, False, False, 2, 4, 7, ["anext", "recv"], queues, 40000),
        model(prop, True, False, 3, 3, 7, ["anext", "ready"], events, 10000),
    ]


def dropping(tier):
    """The designs that have background tasks, dropped."""
    import merger
    import watcher

    (merge_model, *_) = merger.models("M03", tier)
    (watch_model, *_) = watcher.models("F02", tier)
    merge_model["constants"]["Drops"] = watch_model["constants"]["Drops"] = True
    for m, component in ((merge_model, merger), (watch_model, watcher)):
        m["constants"]["Check"] = set(component.PROPS)
        m["constants"]["MaxActs"] -= tier == "quick"
    watch_model["cfgs"] = [dict(srcs=["watcher"]), dict(srcs=["watcher"], maps=1), dict(srcs=["watcher"], merged="merge")]
    return [merge_model, watch_model]


def scripted(prop, tier):
    """Found ready, then stopped or cut."""
    if prop == "R04":
        return dropped(tier)
    out = []
    for k in KINDS:
        for how in ("stop", "cut"):
            for before in (0, 1):
                for after in (0, 1):
                    for n in (1, 2):
                        s = [["offer", 1], ["offer", 2]][:n] + [["start", "ready", 0, 0], ["settle"], [how, 1]]
                        s += [["settle"]] * before + [["consume"]] + [["settle"]] * after
                        s += [["start", "recv", 0, 0], ["settle"], ["start", "ready", 0, 0]]
                        out.append((k, s))
        # crowds, floods, and waiting again and again
        get = [["start", "recv", 0, 0], ["settle"]]
        ends = [["stop", i + 1] for i in range(len(k["srcs"]))] + [["settle"]]
        for count in (7, 20, 45):
            waits = [["start", ("recv", "ready", "anext")[i % 3], 0, 0] for i in range(count)] + [["settle"]]
            cancels = [["cancel", i + 1] for i in range(0, count, 3)]
            more = [x for i in range(count) for x in (["offer", i % len(k["srcs"]) + 1], ["settle"])]
            again = [["start", "ready", 0, 0], ["settle"], ["cancel", 1], ["step"]] * count
            out += [(k, waits + ends), (k, waits + cancels + more + ends), (k, more + waits + more), (k, again + more[:2] + get)]
    return out


def dropped(tier):
    """Dropped after having been used in some ways."""
    out = []
    wait = [["start", "recv", 0, 0], ["settle"]]
    for k in KINDS:
        for used in ([], wait + [["cancel", 1], ["settle"]], wait * 3 + [["cancel", i] for i in (1, 2, 3)],
                     [["offer", 1]] + wait, [["offer", 1], ["start", "ready", 0, 0], ["settle"]],
                     wait + [["offer", 1], ["offer", 1], ["settle"]], wait + [["stop", 1], ["settle"]],
                     [["start", "ready", 0, 0], ["cancel", 1], ["step"], ["offer", 1]]):  # fmt: skip
            for more in ([], [["offer", 1]], [["settle"], ["stop", 1]]):
                out.append((k, used + [["drop"]] + more + [["settle"], ["offer", 1], ["settle"]]))
    return out


def randoms(prop, tier):
    n = 1 if tier == "quick" else 30
    out = []
    if prop == "R04":
        for k in KINDS + [dict(srcs=["watcher", "watcher"], merged="merge"), dict(srcs=["watcher"], types=[2], maps=2)]:
            w = {"drop": 2, "cancel": 12, "stop": 0.3, "settle": 8, "step": 25}
            out += [(dict(k, weights=w), 20, 80 * n), (dict(k, weights=dict(w, ready=20)), 30, 40 * n)]
            if "timer" not in k["srcs"]:
                out.append((dict(k, weights=w, twin={}), 50, 20 * n))
        return out
    for k in KINDS:
        if prop != "R03" or k.get("maps"):
            m = n * (1 if prop != "R03" else 2)
            out += [(dict(k, weights={"cut": 0.5}), 30, 60 * m),
                    (dict(k, weights={"offer": 12, "cancel": 10, "cut": 0.3}, maxpend=6), 50, 40 * m),
                    (dict(k, weights={"cut": 0, "stop": 0}), 600, 1 * n)]
            if "timer" not in k["srcs"]:  # the time of a timer is the offers of its own driver
                out.append((dict(k, weights={"cut": 0.5}, twin={}), 60, 25 * m))
    return out
