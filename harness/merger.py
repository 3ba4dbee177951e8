"""Merged receivers: what is explored for M01..M05. The driver is that of all receivers."""

from receiver import ReceiverDriver

PROPS = ["M01", "M02", "M03", "M04", "M05"]
TRACE = "ReceiverTrace"
DRIVER = ReceiverDriver
DESIGN_INVARIANTS = ["Implements", "Rests", "NoneBlocked", "NoTasksLeft", "RoomForAll"]


def trace_constants(prop):
    return {"Check": {prop}}


def models(prop, tier):
    def model(ns, msgs, pend, acts, kinds, cuts, drops, cancels, keep):
        cfgs = [
            dict(srcs=["fake"] * ns, merged="merge", bad=2 if prop == "M04" else 0, values="odd"),
            dict(srcs=["fake"] * ns, merged="Merger", bad=2),
            dict(srcs=["broadcast", "anycast", "fake"][:ns], merged="merge", bad=2),
            dict(srcs=["anycast"] * ns, merged="merge"),
        ]
        return {
            "module": "MergeImpl",
            "constants": dict(
                Check=set(PROPS), NS=ns, MaxMsgs=msgs, MaxPend=pend, MaxActs=acts, Kinds=set(kinds),
                Stops_=cuts, Drops=drops, Cancels=cancels, Recheck=True, TakePending=True, Rearm=True,
                OnlyPending=True, Emit=True,
            ),  # fmt: skip
            "invariants": DESIGN_INVARIANTS,
            "cfgs": cfgs if ns > 1 else cfgs[:2],
            "keep": keep,
        }

    if tier == "quick":
        if prop == "M03":
            return [
                model(2, 2, 2, 5, ["recv", "ready"], True, True, False, 4000),
                model(1, 2, 3, 5, ["anext", "ready"], True, True, True, 2000),
            ]
        return [
            model(2, 3, 2, 5, ["recv", "ready"], False, False, False, 4000),
            model(2, 2, 2, 5, ["recv"], False, False, True, 2000),
        ]
    return [
        model(2, 3, 2, 6, ["recv", "ready"], True, prop == "M03", True, 40000),
        model(3, 3, 2, 6, ["recv", "ready"], prop == "M03", False, True, 40000),
        model(1, 3, 3, 6, ["anext", "ready"], True, prop == "M03", True, 40000),
    ]


def randoms(prop, tier):
    n = 1 if tier == "quick" else 30
    cut = {"cut": 2, "drop": 1} if prop == "M03" else {"cut": 0}
    bad = 3 if prop == "M04" else 0
    few = dict(cut, cancel=3, stop=2)
    many = dict(cut, offer=50, recv=30, cancel=2)
    return [
        (dict(srcs=["fake", "fake"], merged="merge", bad=bad, weights=cut), 40, 300 * n),
        (dict(srcs=["broadcast", "anycast"], merged="merge", values="odd", weights=few), 40, 300 * n),
        (dict(srcs=["fake", "broadcast", "fake"], merged="Merger", bad=3, weights=many), 60, 200 * n),
        (dict(srcs=["fake"] * 5, merged="merge", bad=bad, values="odd", weights=few, maxpend=6), 60, 200 * n),
        (dict(srcs=["broadcast"] * 3, merged="merge", weights=few), 40, 100 * n),
        (dict(srcs=["colliding"] * 3, merged="Merger", bad=bad, weights=few), 40, 100 * n),
        (dict(srcs=["unhashable"] * 2, merged="merge", bad=bad, weights=cut), 40, 100 * n),
        (dict(srcs=["fake", "fake", "fake"], merged="nested", bad=5, weights=cut), 60, 100 * n),
        (dict(srcs=["fake"], merged="merge", bad=4, weights=cut), 40, 100 * n),
        (dict(srcs=["fake"] * 20, merged="merge", bad=bad, weights=dict(many, step=60)), 150, 10 * n),
        (dict(srcs=["broadcast"] * 12, merged="Merger", weights=few), 80, 20 * n),
        (dict(srcs=["fake", "broadcast"], merged="merge", bad=bad, weights=dict(few, stop=0, cut=0, drop=0)), 2000, 2 * n),
        (dict(srcs=["fake"] * 6, merged="merge", weights=dict(few, stop=0, cut=0, drop=0), maxpend=20), 400, 6 * n),
        (dict(srcs=["fake", "broadcast"], merged="merge", bad=bad, weights=few, twin={}), 80, 150 * n),
        (dict(srcs=["colliding"] * 2, merged="Merger", bad=bad, weights=few, twin={"srcs": ["colliding"] * 3}), 80, 60 * n),
    ]


def scripted(prop, tier):
    """One source always has messages, the others get theirs now and then."""
    out = []
    for ns in (2, 3, 5):
        for busy in range(1, ns + 1):
            for kind in ("recv", "ready"):
                s = [["offer", busy]] * 40 + [["offer", i] for i in range(1, ns + 1) if i != busy]
                take = [["start", "recv", 0, 0]] if kind == "recv" else [["start", "ready", 0, 0], ["settle"], ["consume"]]
                s = s + [["settle"]] + (take + [["settle"]]) * 38
                out.append((dict(srcs=["fake"] * ns, merged="merge"), s))
    for count in (5, 17, 40):  # operations waiting at once
        waits = [["start", ("recv", "ready", "anext")[i % 3], 0, 0] for i in range(count)] + [["settle"]]
        cancels = [["cancel", i + 1] for i in range(0, count, 3)]
        stops = [["stop", 1], ["stop", 2], ["settle"]]
        offers = [x for i in range(count) for x in (["offer", i % 2 + 1], ["settle"])]
        for srcs in (["fake", "fake"], ["broadcast", "anycast"]):
            cfg = dict(srcs=srcs, merged="merge")
            out += [(cfg, waits + stops), (cfg, waits + [["cut"], ["settle"]]), (cfg, waits + cancels + offers + stops),
                    (cfg, waits + offers + stops)]  # fmt: skip
    for count in (20, 150):  # waiting again and again
        s = [["start", "ready", 0, 0], ["settle"], ["cancel", 1], ["step"]] * count + [["offer", 1], ["settle"]]
        out.append((dict(srcs=["fake", "fake"], merged="merge"), s + [["start", "recv", 0, 0], ["settle"]]))
    for ns in (9, 17, 20, 40):
        every = [["offer", i] for i in range(1, ns + 1)]
        out.append((dict(srcs=["fake"] * ns, merged="merge"), every + [["start", "ready", 0, 0]] + every + [["settle"]]))
        if ns < 40:
            for busy in ([i for i in range(1, ns + 1) if i % 4 != 1], range(1, ns), range(2, ns + 1)):
                s = [["offer", i] for i in busy] * 8 + [["offer", i] for i in range(1, ns + 1) if i not in busy]
                s += [["settle"]] + [["start", "recv", 0, 0], ["settle"]] * (5 * ns + 5)
                out.append((dict(srcs=["fake"] * ns, merged="merge"), s))
    return out
