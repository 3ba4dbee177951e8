"""Broadcast: driver of the real channel, and what is explored."""

import gc
import random
import weakref

from frequenz.channels import Broadcast

from ops import Driver


class BroadcastDriver(Driver):
    """cfg: resend, ns, limits, values."""

    def setup(self):
        cfg = self.cfg
        self.channel = Broadcast(name="broadcast", resend_latest=cfg["resend"])
        self.senders = [self.channel.new_sender() for _ in range(cfg.get("ns", 2))]
        self.receivers = {}  # living ones
        self.created = 0
        self.nmsg = 0
        self.rdy = set()
        self.dropped = {}
        self.log("new", bool(cfg["resend"]))

    def act(self, a):
        kind = a[0]
        if kind == "step":
            self.step()
        elif kind == "settle":
            self.rest()
        elif kind == "cancel":
            self.cancel(a[1])
        elif kind == "newr":
            if len(self.pending("send")) > 3:
                self.settle()  # it might get each of them or not: too many cases
            self.created += 1
            r = self.created
            if a[1] is None:
                self.receivers[r] = self.channel.new_receiver()
            else:
                # names mean nothing
                name = ("receiver", None, "receiver", f"r{r}")[r % 4]
                self.receivers[r] = self.channel.new_receiver(name=name, limit=a[1])
            # the default limit is 50
            self.log("newr", r, a[1] or 50, len(self.receivers[r]))
        elif kind == "drop":
            self.drop(a[1])
        elif kind == "alive":
            self.alive()
        elif kind == "len":
            for r in sorted(self.receivers):
                self.log("len", r, len(self.receivers[r]))
        elif kind == "attr":
            self.log("is_closed", bool(self.channel.is_closed))
        elif kind == "resend":
            self.channel.resend_latest = a[1]
            self.log("resend", a[1])
        elif kind == "consume":
            self.do_consume(a[1])
        elif kind == "start" and a[1] == "send":
            self.nmsg += 1
            n = self.nmsg
            sender = self.senders[(a[2] - 1) % len(self.senders)]
            self.start("send", a[2], n, lambda: sender.send(self.values.obj(n)),
                       self.send_outcome(sender, self.channel))  # fmt: skip
        elif kind == "start" and a[1] == "close":
            self.start("close", 0, 0, self.channel.close, self.plain_outcome)
        elif kind == "start":
            self.do_receive(a[1], a[2])

    def do_receive(self, kind, r):
        recv = self.receivers.get(r)
        if recv is None:
            return
        rdy = self.rdy
        values = self.values

        def encode(obj):
            return values.num(obj, r)

        if kind == "ready":

            def outcome(result, exc):
                if exc is None:
                    rdy.add(r)
                return Driver.ready_outcome(result, exc)

            self.start("ready", r, 0, recv.ready, outcome)
            return
        inner = self.recv_outcome(recv, self.channel, encode) if kind == "recv" else self.anext_outcome(encode)

        def outcome(result, exc):
            if exc is None:
                rdy.discard(r)
            return inner(result, exc)

        self.start(kind, r, 0, recv.receive if kind == "recv" else recv.__anext__, outcome)

    def do_consume(self, r):
        if r in self.rdy and r in self.receivers:
            self.rdy.discard(r)
            self.log("consume", r, *self.consume(self.receivers[r], self.channel, lambda obj: self.values.num(obj, r)))

    def busy(self, r):
        return any(o == r and k in ("recv", "anext", "ready") for _, k, o in self.ops.values())

    def drop(self, r):
        if r in self.receivers and not self.busy(r):
            self.dropped[r] = weakref.ref(self.receivers.pop(r))
            self.log("drop", r)
            self.alive()

    def alive(self):
        if any(ref() is not None for ref in self.dropped.values()):
            gc.collect()  # released unless something still refers to it
        for r in sorted(self.dropped):
            self.log("alive", r, self.dropped[r]() is not None)

    def rest(self):
        self.settle()
        self.act(["len"])
        self.log("quiet")

    def teardown(self):
        self.receivers.clear()

    def random_action(self, rng):
        cfg = self.cfg
        x = rng.random()
        pend = self.pending()
        rs = sorted(self.receivers)
        more = self.created < cfg.get("maxrecv", 4)
        if cfg.get("many"):  # many receivers that may or may not get a message are too many cases
            more = more and x < 0.4 and "send" not in [k for _, k, _ in self.ops.values()]
        else:
            more = more and x < 0.06
        if not rs or more:
            return ["newr", rng.choice(cfg["limits"])]
        if x < 0.28:
            return ["step"]
        if x < 0.36:
            return ["settle"]
        if x < 0.42 and pend:
            return ["cancel", rng.choice(pend)]
        if x < 0.48:
            return ["consume", rng.choice(rs)]
        if x < 0.50:
            return ["len"]
        if x < 0.51:
            return ["attr"]
        if rng.random() < cfg.get("switches", 0):
            return ["resend", rng.random() < 0.5]
        if x < 0.51 + cfg.get("drops", 0.02):
            return ["drop", rng.choice(rs)]
        if x < 0.60 and x > 0.60 - 0.02 * cfg.get("closes", 1):
            return ["start", "close", 0, 0]
        if x < 0.60 + 0.40 * cfg.get("sendbias", 0.5) or len(pend) >= 6:
            return ["start", "send", rng.randint(1, cfg.get("ns", 2)), 0]
        return ["start", rng.choice(["recv", "recv", "anext", "ready"]), rng.choice(rs), 0]

    def epilogue(self, variant):
        """Come to rest; then drain and close, or close and drain; then use it closed."""
        self.rest()
        if self.cfg.get("values") != "pairs":  # it could get only the second one
            self.act(["newr", 2])
        if variant % 2 == 0:
            self.act(["start", "send", 1, 0])
            self.drain(once=variant % 4 == 0)
        self.act(["start", "close", 0, 0])
        self.rest()
        self.act(["attr"])
        self.act(["newr", 1])
        self.drain()
        for r in sorted(self.receivers)[:1]:
            for kind in ("recv", "ready", "anext"):
                self.act(["start", kind, r, 0])
            self.act(["consume", r])
        self.act(["start", "send", 1, 0])
        if self.dropped:
            self.alive()
        self.rest()

    def drain(self, once=False):
        for r in sorted(self.receivers):
            for _ in range(12):
                if self.busy(r):
                    break
                mark = len(self.events)
                self.act(["start", "recv", r, 0])
                if not any(e[0] == "ret" and e[2] == "val" for e in self.events[mark:]) or once:
                    break
        self.rest()


PROPS = ["B01", "B02", "B03", "B04", "B05", "B06"]
TRACE = "BroadcastTrace"
DRIVER = BroadcastDriver
DESIGN_INVARIANTS = ["Implements", "Rests", "Bounded", "Newest", "NoneBlocked"]


def trace_constants(prop):
    return {"Check": {prop}}


def models(prop, tier):
    def model(resend, limits, recvs, msgs, pend, acts, kinds, drops, keep, switches=False):
        values = ("odd", "plain") if prop in ("B01", "B03") else ("plain",)
        return {
            "module": "BroadcastImpl",
            "constants": dict(
                Check=set(PROPS), Resend=resend, Limits=set(limits), MaxRecv=recvs,
                MaxMsgs=msgs, MaxPend=pend, MaxActs=acts, Kinds=set(kinds), Drops=drops, Switches=switches,
                ResendNone=True, WakeAll=True, Emit=True,
            ),  # fmt: skip
            "invariants": DESIGN_INVARIANTS,
            "properties": ["FrozenWhenClosed"],
            "cfgs": [dict(resend=resend, ns=2, limits=list(limits), values=v) for v in values],
            "keep": keep,
        }

    resend = prop == "B03"
    drops = prop == "B06"
    if tier == "quick":
        return [
            model(resend, [1, 2], 2, 2, 3, 6, ["recv"], drops, 3000),
            model(True, [2], 3, 3, 2, 6, ["ready"], drops, 3000, prop == "B03"),
        ]
    return [
        model(resend, [1, 2], 2, 3, 3, 7, ["recv", "ready"], drops, 60000),
        model(True, [2], 3, 3, 4, 7, ["recv", "ready"], drops, 60000),
        model(False, [1, 2], 3, 3, 3, 7, ["anext"], True, 60000),
    ]


def randoms(prop, tier):
    n = 1 if tier == "quick" else 30
    v = "odd" if prop in ("B01", "B03", "B04") else "plain"
    drops = 0.06 if prop == "B06" else 0.01
    resend = prop == "B03"
    return [
        (dict(resend=resend, limits=[1, 2, 3], values=v, drops=drops), 30, 500 * n),
        (dict(resend=True, limits=[2, 4], values=v, drops=drops, sendbias=0.7, closes=0), 50, 300 * n),
        (dict(resend=resend, limits=[1, 3, 5], values=v, drops=drops, sendbias=0.3, maxrecv=6), 50, 300 * n),
        (dict(resend=False, limits=[2, 5], values=v, drops=drops, sendbias=0.6, closes=0), 70, 200 * n),
        (dict(resend=resend, limits=[2, 5], values=v, drops=drops, switches=0.1), 40, 200 * n),
        (dict(resend=resend, limits=[1, 5, 50], values=v, drops=drops, maxrecv=300, many=True), 300, 12 * n),
        # long lives
        (dict(resend=resend, limits=[2, 20], values="plain", sendbias=0.4, closes=0, drops=0.001, maxrecv=3), 2500, 2 * n),
        (dict(resend=resend, limits=[40, 50], values="plain", sendbias=0.6, closes=0, drops=0, maxrecv=2), 1200, 2 * n),
        # two channels of the same name
        (dict(resend=resend, limits=[1, 3], values=v, drops=drops, twin={}), 80, 150 * n),
        (dict(resend=True, limits=[2], values=v, drops=drops, closes=0, twin={"resend": False, "closes": 1}), 80, 100 * n),
    ]


def scripted(prop, tier):
    """Many receivers; several sends and closes at once."""
    out = []
    for count in (9, 40, 130):
        for sends in (1, 2, 3):
            for close in (False, True):
                for drop in (False, True):
                    s = [["newr", (1, 3, 50)[i % 3]] for i in range(count)]
                    s += [["drop", i] for i in range(2, count, 3)] * drop
                    s += [["start", "recv", i, 0] for i in range(1, count, 7)]
                    s += [["start", "send", i, 0] for i in range(sends)]
                    s += [["start", "close", 0, 0]] * close
                    s += [["newr", 3], ["start", "send", 1, 0], ["settle"], ["start", "send", 2, 0], ["settle"]]
                    out.append((dict(resend=sends == 2, limits=[1], ns=3), s))
    rng = random.Random(prop)
    for _ in range(60 if tier == "quick" else 600):
        s = [["newr", 50]] * 3
        for _ in range(40):
            s.append(rng.choice([["start", "send", 1, 0], ["start", rng.choice(["recv", "ready"]), rng.randint(1, 3), 0],
                                 ["step"], ["consume", rng.randint(1, 3)], ["cancel", rng.randint(1, 4)]]))
        out.append((dict(resend=False, limits=[50], values="pairs"), s))
    for count in (3, 9, 17, 33, 65):  # operations waiting at one receiver
        kinds = ["recv", "ready", "anext"]
        waits = [["start", kinds[i % 3], 1, 0] for i in range(count)]
        cancels = [["cancel", i + 1] for i in range(0, count, 4)]
        sends = [["start", "send", 1, 0]] * (count // 2)
        more = [x for _ in range(count) for x in (["start", "send", 1, 0], ["settle"])]
        for limit in (1, 50):
            cfg = dict(resend=False, limits=[limit], ns=1)
            s = [["newr", limit], ["newr", 3]] + waits + [["settle"]]
            out += [(cfg, s + [["start", "close", 0, 0], ["settle"]]), (cfg, s + cancels + sends + [["settle"]] + more),
                    (cfg, s + more)]  # fmt: skip
    for limit in (16, 17, 50, 64, 129):
        for extra in (0, 1, 2, limit):
            s = [["newr", limit], ["newr", None], ["newr", 2]]
            s += [["start", "send", 1, 0]] * (limit // 2) + [["newr", limit]]
            s += [["start", "send", 1, 0]] * (limit + extra - limit // 2) + [["len"], ["settle"]]
            s += [["start", "recv", r, 0] for r in (1, 2, 4) for _ in range(limit)] + [["settle"]]
            out.append((dict(resend=extra == 2, limits=[1], ns=2), s))
    return out
