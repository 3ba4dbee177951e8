"""Timer: driver of the real timers in virtual time, and what is explored."""

import itertools
import random
from datetime import timedelta

from ops import Driver

from frequenz.channels.timer import (
    MissedTickPolicy,
    SkipMissedAndDrift,
    SkipMissedAndResync,
    Timer,
    TriggerAllMissed,
)

# Intervals, delays and uptimes that are awkward in binary floating point
LONG = [1, 2, 3, 7, 10, 100, 333, 1000, 99_999, 100_001, 300_000, 700_001, 1_000_000, 3_333_333, 60_000_001]
UPTIMES = [0, 1, 300_000, 1_234_567_891, 86_400_000_000 + 7, 31_536_000_000_001]


TOO_MUCH = 2_000_000_000  # see TimerContract


def td(us):
    return timedelta(microseconds=us)


class Custom(MissedTickPolicy):
    """A policy of a user: the next tick comes arg after this one fired, or as in answers.

    Each of the answers is a pair: after this tick ("fired", "due" or "interval", which is
    an interval after it was due), and how much after it.
    """

    def __init__(self, driver, arg, answers=None):
        self.driver = driver
        self.answers = itertools.cycle(answers or [("fired", arg)])

    def calculate_next_tick_time(self, *, now, scheduled_tick_time, interval):
        base = self.driver.base
        ok = all(type(x) is int for x in (now, scheduled_tick_time, interval))
        t = self.driver.t
        after, by = next(self.answers)
        answer = {"fired": now, "due": scheduled_tick_time, "interval": scheduled_tick_time + interval}[after] + by
        self.driver.log("asked", t(interval) if ok else -1, t(scheduled_tick_time - base) if ok else -1,
                        t(now - base) if ok else -1, t(answer - base))  # fmt: skip
        return answer


def policy(driver, pol, arg):
    if pol == "all":
        return TriggerAllMissed()
    if pol == "resync":
        return SkipMissedAndResync()
    if pol == "drift":
        return SkipMissedAndDrift(delay_tolerance=td(arg)) if arg else SkipMissedAndDrift()
    return Custom(driver, arg, driver.cfg.get("answers"))


class TimerDriver(Driver):
    """cfg: int, pol, arg, auto, delay, base (uptime), unit, resolution, explicit (loop), scaled.

    Times are recorded in microseconds, or in units if these are scaled.
    """

    def setup(self):
        cfg = self.cfg
        self.unit = cfg.get("unit", 1)
        if self.peer is None:
            self.loop.now_us = cfg.get("base", 0)
        self.loop.before_step.append(self.tick)
        self.base = self.loop.now_us
        self.seen = self.base
        self.rdy = False
        self.int = cfg["int"] * self.unit
        self.started = cfg.get("auto", True)
        delay = cfg.get("delay", 0) * self.unit if self.started else 0
        arg = cfg.get("arg", 0) * self.unit
        kw = dict(auto_start=self.started)
        if delay:
            kw["start_delay"] = td(delay)
        if cfg.get("explicit"):
            kw["loop"] = self.loop
        # the clock goes on while code runs
        self.loop.tick_us = cfg.get("ticking", 0)
        self.loop.on_read = self.tick
        self.policy = self.peer.policy if self.peer and cfg["pol"] != "custom" else policy(self, cfg["pol"], arg)
        self.timer = Timer(td(self.int), self.policy, **kw)
        # a new timer reads the clock once; until it wakes up it is read some times more
        self.log("new", self.t(self.int), cfg["pol"], self.t(arg), self.started, self.t(delay), 6 * cfg.get("ticking", 0))

    def t(self, us):
        """A time as it is recorded."""
        if self.cfg.get("scaled"):
            us = us // self.unit if us % self.unit == 0 else -TOO_MUCH
        return max(-TOO_MUCH, min(us, TOO_MUCH))

    def may_pass(self, us):
        """Let the time pass until then, unless this is more than can be recorded."""
        if us - self.base <= 1_800_000_000 * (self.unit if self.cfg.get("scaled") else 1):
            self.loop.now_us = max(self.loop.now_us, us)

    # -- time ------------------------------------------------------------------------
    def tick(self):
        """Code is about to run: record the time."""
        if self.loop.now_us != self.seen:
            self.seen = self.loop.now_us
            self.log("now", self.t(self.seen - self.base))

    # -- actions ---------------------------------------------------------------------
    def act(self, a):
        kind = a[0]
        if kind == "pass":
            self.may_pass(self.loop.now_us + a[1] * self.unit)
            return
        if kind == "wait":
            self.wait(a[1])
            return
        self.tick()
        if kind == "step":
            self.step()
        elif kind == "settle":
            self.rest()
        elif kind == "cancel":
            self.cancel(a[1])
        elif kind == "reset":
            self.rdy = False
            d = a[1] * self.unit
            self.log("reset", self.t(d))
            if d or a[1:] == [0, 0]:
                self.timer.reset(start_delay=td(d))
            else:
                self.timer.reset()
        elif kind == "stop":
            self.log("stop")
            self.timer.stop()
        elif kind == "refused":
            self.refused()
        elif kind == "running":
            self.log("running", self.timer.is_running is True)
        elif kind == "consume":
            if self.rdy:
                self.rdy = False
                self.log("consume", *self.consume(self.timer, encode=self.drift))
        elif kind == "calc":
            _, pol, arg, interval, sched, late = a
            got = policy(self, pol, arg).calculate_next_tick_time(
                interval=interval, scheduled_tick_time=sched, now=sched + late
            )
            self.log(*a[:5], sched + late, self.t(got) if type(got) is int else -1)
        elif kind == "start":
            self.receive(a[1])

    def refused(self):
        """Invalid arguments are refused, and change nothing."""
        for f in (
            lambda: self.timer.reset(start_delay=td(-1)),
            lambda: self.timer.reset(start_delay=timedelta(days=-1)),
            lambda: Timer(td(0), TriggerAllMissed()),
            lambda: Timer(td(-1), TriggerAllMissed()),
            lambda: Timer(td(5), TriggerAllMissed(), start_delay=td(-1)),
            lambda: Timer(td(5), TriggerAllMissed(), auto_start=False, start_delay=td(1)),
            lambda: SkipMissedAndDrift(delay_tolerance=td(-1)),
        ):
            try:
                f()
                self.log("refused", False)
            except ValueError:
                self.log("refused", True)

    def receive(self, kind):
        timer = self.timer
        if kind == "ready":

            def outcome(result, exc):
                if exc is None:
                    self.rdy = True
                return self.ready_outcome(result, exc)

            self.start("ready", 0, 0, timer.ready, outcome)
            return
        inner = self.recv_outcome(timer, None, self.drift) if kind == "recv" else self.anext_outcome(self.drift)

        def outcome(result, exc):
            if exc is None:
                self.rdy = False
            return inner(result, exc)

        self.start(kind, 0, 0, timer.receive if kind == "recv" else timer.__anext__, outcome)

    def drift(self, result):
        if not isinstance(result, timedelta):
            return -(10**9)
        return self.t(result // td(1))

    # -- rest ------------------------------------------------------------------------
    def rest(self):
        self.tick()
        res, self.loop.resolution_us = self.loop.resolution_us, 0
        self.settle()
        self.loop.resolution_us = res
        when = self.loop.next_deadline()
        self.log("quiet", -1 if when is None else self.t(when - self.base))

    def wait(self, late):
        """Let the time pass to the next deadline, and late more."""
        self.rest()
        when = self.loop.next_deadline()
        if when is not None:
            self.may_pass(when + late * (self.unit if self.cfg.get("scaled") else 1))
            self.rest()

    def random_action(self, rng):
        cfg = self.cfg
        w = {"step": 25, "settle": 8, "wait": 10, "pass": 16, "recv": 14, "anext": 4, "ready": 8,
             "consume": 10, "cancel": 4, "reset": 0, "stop": 0, "running": 0, "refused": 0}  # fmt: skip
        w.update(cfg.get("weights", {}))
        pend = self.pending()
        if len(pend) >= cfg.get("maxpend", 3):
            w.update(recv=0, anext=0, ready=0)
        if not pend:
            w.update(cancel=0)
        if self.loop.now_us - self.base > 1_500_000_000 * (self.unit if cfg.get("scaled") else 1):
            w.update({"pass": 0})
        kind = rng.choices(list(w), list(w.values()))[0]
        i = cfg["int"]
        around = [0, 1, 2, i - 1, i, i + 1, i // 2, 2 * i, 2 * i + 1, 3 * i - 1, cfg.get("arg", 0), cfg.get("arg", 0) + 1,
                  rng.randint(0, i), rng.randint(0, 4 * i)]  # fmt: skip
        if kind == "cancel":
            return [kind, rng.choice(pend)]
        if kind == "pass":
            return [kind, max(0, rng.choice(around))]
        if kind == "wait":
            return [kind, rng.choice([0, 0, 0, 1, rng.randint(0, i)])]
        if kind == "reset":
            return [kind, rng.choice([0, 0, 0, 1, i, rng.randint(0, 2 * i)])]
        if kind in ("recv", "anext", "ready"):
            return ["start", kind, 0, 0]
        return [kind]

    def epilogue(self, variant):
        """Take some ticks, on time and late."""
        self.rest()
        i = self.cfg["int"]
        for late in ([0, 0, i + 1, 0, 0], [1, 0, 3 * i, 0, 0])[variant % 2]:
            if not self.pending():
                self.act(["start", ["recv", "anext", "ready"][(variant // 2) % 3], 0, 0])
            self.act(["wait", late])
            self.act(["consume"])
        if self.cfg.get("weights", {}).get("stop") or self.cfg.get("stops"):
            self.act(["running"])
            self.act(["stop"])
            self.act(["running"])
            self.rest()
            for kind in ("ready", "recv", "anext"):
                self.act(["start", kind, 0, 0])
                self.act(["consume"])
            for _ in range(3):
                self.act(["wait", 0])
            self.act(["reset", variant % 3])
            self.act(["running"])
            self.act(["start", "recv", 0, 0])
            self.act(["wait", 0])
            self.act(["wait", 0])


PROPS = ["T01", "T02", "T03", "T04", "T05", "T06"]
TRACE = "TimerTrace"
DRIVER = TimerDriver
DESIGN_INVARIANTS = ["Implements", "Rests", "NoneLate", "NotNegative", "OnGrid"]
POLICIES = {
    "T01": [("all", 0), ("resync", 0), ("drift", 0), ("drift", 1)],
    "T02": [("all", 0)],
    "T03": [("resync", 0)],
    "T04": [("drift", 0), ("drift", 1), ("drift", 2)],
    "T05": [("all", 0), ("resync", 0), ("drift", 1)],
    "T06": [("custom", 2), ("custom", 3)],
}


def trace_constants(prop):
    return {"Check": {prop}}


def cfgs_for(interval, pol, arg, auto, **kw):
    """The same schedule in different units, uptimes and on explicit loops."""
    out = []
    for unit, base, explicit in ((1, 0, False), (1000, 300_000, True), (333_333, 86_400_000_007, False),
                                 (10_000_000, 1_234_567_891, False)):  # fmt: skip
        out.append(dict(int=interval, pol=pol, arg=arg, auto=auto, unit=unit, base=base, explicit=explicit, **kw))
    return out


def models(prop, tier):
    def model(pol, arg, interval, kinds, keep, auto=True, res=0, delays=(), passes=(1, 2, 5), maxnow=12,
              pend=2, acts=7, stops=False):  # fmt: skip
        return {
            "module": "TimerImpl",
            "constants": dict(
                Check=set(PROPS), Every=interval, Pol=pol, Arg=arg, Auto=auto, Res=res, Delays=set(delays),
                Passes=set(passes), MaxNow=maxnow, MaxPend=pend, MaxActs=acts, Kinds=set(kinds),
                Stopping=stops, Recheck=True, KeepTick=True, ResetWakes=True, Emit=True,
            ),  # fmt: skip
            "invariants": DESIGN_INVARIANTS,
            "properties": ["NoBurst"],
            "cfgs": [dict(c, resolution=res * c["unit"]) for c in cfgs_for(interval, pol, arg, auto, stops=stops)],
            "keep": keep,
        }

    quick = tier == "quick"
    out = []
    for i, (pol, arg) in enumerate(POLICIES[prop]):
        n = len(POLICIES[prop])
        if prop == "T05":
            out.append(model(pol, arg, 2, ["recv", "ready"], 6000 // n if quick else 30000, auto=i != 1,
                             delays=(0, 1), passes=(1, 3), acts=6 if quick else 7, stops=True))  # fmt: skip
        else:
            out.append(model(pol, arg, 2 + i % 2, ["recv", "ready"], 5000 // n if quick else 40000, passes=(1, 2, 5),
                             acts=6 if quick else 8, maxnow=16))  # fmt: skip
            if prop == "T01":
                out.append(model(pol, arg, 3, ["recv"], 2000 // n if quick else 20000, res=1, passes=(1, 2),
                                 acts=6 if quick else 8))  # fmt: skip
    return out


def scripted(prop, tier):
    """The policies by themselves."""
    out = []
    rng = random.Random(prop)
    for pol, _ in POLICIES[prop] if prop in ("T02", "T03", "T04") else []:
        for interval in LONG:
            calls = []
            for arg in (0, 1, interval - 1, interval, interval + 1, 3 * interval) if pol == "drift" else (0,):
                lates = {0, 1, arg, arg + 1, max(0, arg - 1), interval - 1, interval, interval + 1, 2 * interval,
                         7 * interval + 3, rng.randint(0, 9 * interval), rng.randint(0, interval)}  # fmt: skip
                calls += [["calc", pol, arg, interval, rng.choice([0, 5, 777_777_777]), late] for late in sorted(lates)]
            out.append((dict(int=1, pol=pol, arg=0), calls))
    # floods of missed ticks, long lives, crowds
    get = [["start", "recv", 0, 0], ["settle"]]
    for pol, arg in POLICIES[prop]:
        for interval in (1000, 99_999, 1_000_000):
            by = arg * interval // 2
            for count in (5, 50, 400):
                cfg = dict(int=interval, pol=pol, arg=by)
                for late in (0, 1, interval - 1):
                    missed = [["pass", count * interval + late], ["settle"]]
                    out.append((cfg, get + missed + get * (count + 2 if pol == "all" else 4) + [["wait", 0]] + get))
                if count < 100:
                    waits = [["start", ("recv", "ready", "anext")[i % 3], 0, 0] for i in range(count)]
                    cancels = [["cancel", i + 1] for i in range(0, count, 3)]
                    ticks = [["wait", i % 5] for i in range(count + 2)]
                    out += [(cfg, waits + ticks), (cfg, waits + [["wait", 0]] + cancels + ticks)]
                    if prop == "T05":
                        out += [(cfg, waits + ticks[:2] + [["reset", 0], ["stop"], ["wait", 0], ["wait", 0]] + get),
                                (cfg, waits + [["stop"], ["wait", 0], ["reset", 1]] + ticks)]  # fmt: skip
            out.append((cfg, [["start", "recv", 0, 0], ["wait", 0]] * 500 + [["pass", 3 * interval]] + get * 4))
            again = [["start", "ready", 0, 0], ["settle"], ["cancel", 1], ["step"]]
            out.append((cfg, again * 200 + get + [["wait", 0]] + again * 100 + get))
            if prop == "T05":
                out.append((cfg, ([["reset", 0]] + get + [["wait", 0]]) * 100))
                out.append((cfg, ([["start", "recv", 0, 0], ["stop"], ["wait", 0], ["reset", 1], ["wait", 0]]) * 100))
    return out


def randoms(prop, tier):
    n = 1 if tier == "quick" else 20
    out = []
    pols = POLICIES[prop]
    for j, interval in enumerate(LONG):
        pol, arg = pols[j % len(pols)]
        tol = {0: 0, 1: 1, 2: interval // 3, 3: interval}[arg if pol != "custom" else arg] or arg
        cfg = dict(int=interval, pol=pol, arg=tol, base=UPTIMES[j % len(UPTIMES)], explicit=j % 3 == 1,
                   delay=[0, 0, 1, interval][j % 4])  # fmt: skip
        if prop == "T05":
            cfg.update(auto=j % 4 != 3, weights={"reset": 7, "stop": 3, "running": 3, "refused": 0.5})
        elif prop in ("T02", "T03", "T04", "T06"):
            cfg.update(weights={"reset": 1})
        else:
            cfg.update(resolution=[0, 1, interval // 2][j % 3])
        if j % 3 == 0:
            out.append((dict(cfg, ticking=[1, 7, 1000][j // 3 % 3], resolution=0), 40, 40 * n))
        out.append((cfg, 40, 60 * n))
        if not cfg.get("resolution"):
            # two timers with the same policy object
            out.append((dict(cfg, twin={"int": max(1, interval + (j % 3 - 1) * 3), "delay": j % 2 * interval}), 80, 25 * n))
        out.append((dict(cfg, maxpend=6, weights=dict(cfg.get("weights", {}), cancel=10)), 60, 20 * n))
    if prop == "T06":
        # policies that answer times that passed already, are not after the tick itself, or vary
        for j, interval in enumerate((2, 7, 1000, 300_000, 3_333_333)):
            for answers in ([("due", 0)], [("due", -interval), ("fired", 2 * interval)], [("due", 1)], [("fired", 0)],
                            [("interval", 0), ("due", 0), ("fired", 3 * interval), ("due", 1 - interval)],
                            [("interval", -1), ("interval", 1), ("fired", 1)], [("interval", 5 * interval)]):  # fmt: skip
                cfg = dict(int=interval, pol="custom", arg=0, answers=answers, base=UPTIMES[j])
                out.append((dict(cfg, weights={"reset": 1}), 40, 12 * n))
    # intervals, delays and tolerances of days
    for j, (count, unit) in enumerate(((1, 86_400), (3, 28_800), (2, 43_200), (1, 366 * 86_400), (7, 3_600), (36, 3_601))):
        pol, arg = pols[j % len(pols)]
        cfg = dict(int=count, pol=pol, arg=arg * count // 2 if pol == "drift" else arg, unit=unit * 1_000_000, scaled=True,
                   base=UPTIMES[j], delay=[0, 5, 1][j % 3])  # fmt: skip
        if prop == "T05":
            cfg.update(weights={"reset": 7, "stop": 2, "running": 3})
        elif prop != "T01":
            cfg.update(weights={"reset": 1})
        out.append((cfg, 40, 40 * n))
    return out
