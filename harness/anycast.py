"""Anycast: driver of the real channel, and what is explored."""

from frequenz.channels import Anycast

from ops import Driver


class AnycastDriver(Driver):
    """cfg: limit, ns, nr, values."""

    def setup(self):
        cfg = self.cfg
        self.channel = Anycast(name="anycast", limit=cfg["limit"])
        self.senders = [self.channel.new_sender() for _ in range(cfg["ns"])]
        self.receivers = [self.channel.new_receiver() for _ in range(cfg["nr"])]
        self.nmsg = 0
        self.rdy = [False] * cfg["nr"]
        self.log("new", cfg["limit"], cfg["nr"])

    def act(self, a):
        kind = a[0]
        if kind == "step":
            self.step()
        elif kind == "settle":
            self.rest()
        elif kind == "cancel":
            self.cancel(a[1])
        elif kind == "consume":
            self.do_consume(a[1])
        elif kind == "attr":
            self.log("is_closed", bool(self.channel.is_closed))
            limit = self.channel.limit
            self.log("limit", limit if type(limit) is int else -1)
        elif kind == "start" and a[1] == "send":
            self.nmsg += 1
            sender = self.senders[a[2] - 1]
            n = self.nmsg
            self.start("send", a[2], n, lambda: sender.send(self.values.obj(n)),
                       self.send_outcome(sender, self.channel))  # fmt: skip
        elif kind == "start" and a[1] == "close":
            self.start("close", 0, 0, self.channel.close, self.plain_outcome)
        elif kind == "start":
            self.do_receive(a[1], a[2])

    def do_receive(self, kind, r):
        recv = self.receivers[r - 1]
        if kind == "ready":

            def outcome(result, exc):
                if exc is None:
                    self.rdy[r - 1] = True
                return self.ready_outcome(result, exc)

            return self.start("ready", r, 0, recv.ready, outcome)
        inner = self.recv_outcome(recv, self.channel) if kind == "recv" else self.anext_outcome()

        def outcome(result, exc):
            if exc is None:
                self.rdy[r - 1] = False
            return inner(result, exc)

        return self.start(kind, r, 0, recv.receive if kind == "recv" else recv.__anext__, outcome)

    def do_consume(self, r):
        # only after a ready() that was not followed by a consumption
        if self.rdy[r - 1]:
            self.rdy[r - 1] = False
            self.log("consume", r, *self.consume(self.receivers[r - 1], self.channel))

    def rest(self):
        self.settle()
        self.log("quiet")

    def random_action(self, rng):
        cfg = self.cfg
        x = rng.random()
        pend = self.pending()
        full = len(pend) >= cfg.get("maxpend", 5)
        if x < 0.30:
            return ["step"]
        if x < 0.38:
            return ["settle"]
        if cfg["values"] == "pairs" and (x < 0.46 and pend or 0.52 <= x < 0.55):
            # which one of a pair is received depends on whether both are sent
            return ["step"]
        if x < 0.46 and pend:
            return ["cancel", rng.choice(pend)]
        if x < 0.52:
            return ["consume", rng.randint(1, cfg["nr"])]
        if x < 0.53 + 0.02 * cfg.get("closes", 1):
            return ["start", "close", 0, 0]
        if x < 0.56:
            return ["attr"]
        if full:
            return ["step"]
        if x < 0.56 + 0.44 * cfg.get("sendbias", 0.5):
            return ["start", "send", rng.randint(1, cfg["ns"]), 0]
        return ["start", rng.choice(["recv", "recv", "anext", "ready"]), rng.randint(1, cfg["nr"]), 0]

    def epilogue(self, variant):
        """Come to rest; then drain and close, or close and drain; then use it closed."""
        self.rest()
        self.act(["attr"])
        if variant % 2 == 0 or self.cfg.get("values") == "pairs":
            self.drain()
            self.act(["start", "close", 0, 0])
            self.rest()
        else:
            self.act(["start", "close", 0, 0])
            if variant % 4 == 1:
                self.rest()
            self.drain()
        self.act(["attr"])
        if not self.pending():
            for kind in ("recv", "ready", "anext"):
                self.act(["start", kind, 1, 0])
                self.rest()
            self.act(["consume", 1])
            self.act(["start", "send", 1, 0])
            self.rest()

    def drain(self):
        """Receive until nothing comes out anymore, with every receiver."""
        for _ in range(100):
            before = sum(1 for e in self.events if e[0] == "ret" and e[2] == "val")
            for r in range(1, self.cfg["nr"] + 1):
                if not any(k != "send" and o == r for _, k, o in self.ops.values()):
                    self.act(["start", "recv", r, 0])
            self.rest()
            if sum(1 for e in self.events if e[0] == "ret" and e[2] == "val") == before:
                break


PROPS = ["A01", "A02", "A03", "A04", "A05"]
TRACE = "AnycastTrace"
DRIVER = AnycastDriver
DESIGN_INVARIANTS = ["Implements", "Rests", "Bounded", "Ordered", "Once", "NoneBlocked"]


def trace_constants(prop):
    return {"Check": {prop}}


def models(prop, tier):
    """The bounds of the design, by number of actions besides running the loop."""

    def model(limit, nr, msgs, pend, acts, kinds, keep, values=("plain",)):
        return {
            "module": "AnycastImpl",
            "constants": dict(
                Check=set(PROPS), Limit=limit, NS=2, NR=nr, MaxMsgs=msgs, MaxPend=pend,
                MaxActs=acts, Kinds=set(kinds), WakeAll=True, FailBlocked=True,
                KeepNext=True, Emit=True,
            ),  # fmt: skip
            "invariants": DESIGN_INVARIANTS,
            "properties": ["FrozenWhenClosed"],
            "cfgs": [dict(limit=limit, ns=2, nr=nr, values=v) for v in values],
            "keep": keep,
        }

    both = ("plain", "odd") if prop == "A01" else ("plain",)
    if tier == "quick":
        return [
            model(1, 2, 2, 3, 5, ["recv", "ready"], 3500, both),
            model(1, 1, 3, 3, 6, ["recv"], 2500, both),
            model(2, 1, 3, 3, 5, ["ready", "anext"], 1500, both),
        ]
    return [
        model(1, 2, 3, 4, 7, ["recv", "ready"], 60000, both),
        model(2, 2, 4, 4, 7, ["recv", "ready"], 60000, both),
        model(1, 1, 3, 3, 8, ["recv", "ready", "anext"], 40000, both),
    ]


def randoms(prop, tier):
    n = 1 if tier == "quick" else 30
    values = "odd" if prop in ("A01", "A05") else "plain"
    return [
        (dict(limit=1, ns=2, nr=2, values=values), 30, 500 * n),
        (dict(limit=2, ns=3, nr=3, values=values, sendbias=0.7, maxpend=7, closes=0), 50, 400 * n),
        (dict(limit=1, ns=2, nr=3, values=values, sendbias=0.3, maxpend=7), 40, 400 * n),
        (dict(limit=3, ns=2, nr=1, values=values, sendbias=0.6, closes=0), 60, 200 * n),
        # which of a pair sent at the same time is first is not known
        (dict(limit=3, ns=2, nr=2, values="pairs" if prop == "A01" else values, maxpend=6), 50, 200 * n),
        (dict(limit=50, ns=2, nr=2, values="plain", sendbias=0.7, closes=0.2, maxpend=6), 200, 20 * n),
        # crowds, and long lives
        (dict(limit=3, ns=6, nr=17, values="plain", sendbias=0.5, closes=0.2, maxpend=40), 200, 12 * n),
        (dict(limit=2, ns=20, nr=3, values="plain", sendbias=0.8, closes=0.1, maxpend=40), 200, 8 * n),
        (dict(limit=2, ns=3, nr=20, values="plain", sendbias=0.25, closes=0.1, maxpend=40), 200, 8 * n),
        (dict(limit=2, ns=2, nr=3, values="plain", closes=0), 2500, 2 * n),
        (dict(limit=9, ns=2, nr=2, values="plain", sendbias=0.6, closes=0), 2500, 2 * n),
        # two channels of the same name
        (dict(limit=1, ns=2, nr=2, values=values, twin={}), 60, 200 * n),
        (dict(limit=3, ns=2, nr=2, values=values, closes=0, twin={"limit": 2, "closes": 1}), 80, 100 * n),
    ]


def scripted(prop, tier):
    """Crowds that wait: of receivers for messages, of senders for room."""
    out = []
    for count in (3, 8, 12, 17, 33, 65):
        for limit in (1, 2, 7):
            cfg = dict(limit=limit, ns=count, nr=count)
            waits = [["start", ("recv", "ready", "anext")[i % 3], i + 1, 0] for i in range(count)]
            sends = [["start", "send", i + 1, 0] for i in range(count)]
            takes = [["start", "recv", i + 1, 0] for i in range(count)]
            cancels = [["cancel", i + 1] for i in range(0, count, 3)]
            attr, settle, close = [["attr"]], [["settle"]], [["start", "close", 0, 0]]
            out += [
                (cfg, waits + settle + sends + settle),
                (cfg, waits + settle + cancels + sends[: count // 2] + settle + close + settle),
                (cfg, waits + settle + close + attr + settle),
                (cfg, sends + settle + takes[: count // 2] + settle + takes[count // 2 :] + settle),
                (cfg, sends + settle + cancels + takes[:limit] + [["step"], ["cancel", 2]] + settle),
                (cfg, sends + settle + takes[:1] + close + attr + settle),
                (cfg, sends + settle + [x for t in takes for x in ([t, ["settle"]])]),
            ]
    return out
