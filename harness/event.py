"""Event: what is explored for E01. The driver and the design are those of all receivers."""

from receiver import ReceiverDriver, model

PROPS = ["E01"]
TRACE = "ReceiverTrace"
DRIVER = ReceiverDriver


def trace_constants(prop):
    return {"Check": {prop}}


def models(prop, tier):
    cfgs = [dict(srcs=["event"])]
    if tier == "quick":
        return [
            model(prop, True, False, 3, 3, 6, ["recv", "ready"], cfgs, 6000),
            model(prop, True, False, 4, 2, 7, ["anext"], cfgs, 3000),
        ]
    return [
        model(prop, True, False, 4, 4, 7, ["recv", "ready", "anext"], cfgs, 60000),
        model(prop, True, False, 5, 3, 8, ["recv", "ready"], cfgs, 60000),
    ]


def randoms(prop, tier):
    n = 1 if tier == "quick" else 30
    cfg = dict(srcs=["event"], weights={"flags": 8})
    return [
        (cfg, 30, 500 * n),
        (dict(cfg, weights={"flags": 8, "cancel": 10, "offer": 12}, maxpend=6), 60, 300 * n),
        (dict(cfg, weights={"flags": 4, "stop": 4}), 15, 300 * n),
        (dict(cfg, late=True, weights={"flags": 4, "stop": 4}), 25, 300 * n),
        (dict(cfg, maxpend=40, weights={"flags": 4, "stop": 0, "offer": 4}), 300, 8 * n),
        (dict(cfg, weights={"flags": 8, "stop": 0}), 2500, 3 * n),
        (dict(cfg, weights={"flags": 8}, twin={}), 60, 200 * n),
    ]


def scripted(prop, tier):
    """Crowds that wait, and floods of sets."""
    out = []
    get = [["start", "recv", 0, 0], ["settle"]]
    for count in (2, 5, 9, 17, 40, 130, 300):
        for late in (False, True):
            cfg = dict(srcs=["event"], late=late)
            sets = [["offer", 1]] * count
            out += [
                (cfg, sets + get + [["flags"]] + get + [["offer", 1], ["settle"]] + get),
                (cfg, (sets + get) * 3 + [["stop", 1]] + sets[:2] + get),
                (cfg, (get + [["offer", 1], ["settle"]]) * count),
                (cfg, [["start", "ready", 0, 0], ["settle"], ["cancel", 1]] * count + [["offer", 1]] + get),
            ]
            if count < 100:
                waits = [["start", ("recv", "ready", "anext")[i % 3], 0, 0] for i in range(count)]
                cancels = [["cancel", i + 1] for i in range(0, count, 3)]
                ends = [["stop", 1], ["settle"], ["flags"]]
                more = [x for _ in range(count) for x in (["offer", 1], ["settle"])]
                out += [(cfg, waits + ends), (cfg, waits + [["settle"]] + cancels + more + ends),
                        (cfg, waits + more + ends), (cfg, waits + [["settle"], ["offer", 1], ["stop", 1], ["settle"]])]  # fmt: skip
    return out
