"""File watcher: what is explored for F01 and F02. The driver is that of all receivers."""

from receiver import ReceiverDriver

PROPS = ["F01", "F02"]
TRACE = "ReceiverTrace"
DRIVER = ReceiverDriver
DESIGN_INVARIANTS = ["Implements", "Rests", "NoneBlocked", "OnlySelected", "EndsOnlyIfStopped",
                     "NoTasksLeft"]  # fmt: skip


def trace_constants(prop):
    return {"Check": {prop}}


def models(prop, tier):
    def model(reports, nrep, pend, acts, kinds, keep):
        return {
            "module": "WatcherImpl",
            "constants": dict(
                Check=set(PROPS), Reports=reports, MaxReports=nrep, MaxPend=pend, MaxActs=acts,
                Kinds=set(kinds), Drops=False, Shared=True, Filter=True, Ends=True, Emit=True,
            ),  # fmt: skip
            "invariants": DESIGN_INVARIANTS,
            "cfgs": [dict(srcs=["watcher"], types=[1, 2])],
            "keep": keep,
        }

    if tier == "quick":
        if prop == "F01":
            return [model([[1], [1, 2], [3], [2, 3]], 3, 2, 6, ["recv"], 5000)]
        return [model([[1], [1, 2]], 2, 3, 6, ["recv", "ready"], 5000)]
    return [
        model([[1], [1, 2], [3], [2, 3]], 3, 2, 7, ["recv", "ready"], 60000),
        model([[1], [1, 2]], 3, 4, 7, ["recv", "anext"], 60000),
    ]


def randoms(prop, tier):
    n = 1 if tier == "quick" else 30
    w = {"offer": 0, "report": 20, "stop": 0.5}
    out = []
    for types in (None, [1], [2], [3], [1, 2], [2, 3], [1, 3], [1, 2, 3], []):
        cfg = dict(srcs=["watcher"], types=types, weights=w)
        out += [(cfg, 30, 60 * n), (dict(cfg, weights=dict(w, cancel=15, report=12)), 40, 60 * n)]
    out += [(dict(srcs=["watcher"], types=[1, 2], maps=1, weights=w), 40, 60 * n)]
    out += [(dict(srcs=["watcher"], types=[1, 2], weights=w), 1500, 2 * n)]
    w = dict(w, cancel=10)
    out += [(dict(srcs=["watcher"], types=[1, 2], weights=w, twin={"types": t}), 60, 80 * n) for t in ([3], [1], None)]
    return out


def scripted(prop, tier):
    """A flood of reports, larger than anything the schedules have."""
    out = []
    for types in (None, [2]):
        s = [["start", "ready", 0, 0], ["settle"]]
        for i in range(6):
            s.append(["report", [[k, p] for k in (1, 2, 3) for p in range(6)]])
            if i % 2:
                s += [["settle"], ["start", "recv", 0, 0], ["cancel", 1]]
        out.append((dict(srcs=["watcher"], types=types), s))
    for types in (None, [3], [1, 2]):
        for size in (30, 70, 130, 300):
            cfg = dict(srcs=["watcher"], types=types)
            big = [["report", [[i % 3 + 1, p] for i, p in enumerate(range(10, 10 + size))]]]
            small = [["report", [[k, k]]] for k in (1, 2, 3)]
            get = [["start", "recv", 0, 0], ["settle"]]
            out += [
                (cfg, big + get + small + get * (size + 3)),
                (cfg, get[:1] + [["settle"]] + big + small + get * (size // 2) + big + get * size),
                # many reports, nobody there to receive them
                (cfg, (small + [["start", "ready", 0, 0], ["settle"]]) * (size // 3) + get * size),
            ]
    waits = [["start", ("recv", "ready", "anext")[i % 3], 0, 0] for i in range(40)]
    cancels = [["cancel", i + 1] for i in range(0, 40, 3)]
    for s in (waits, waits + cancels):
        out.append((dict(srcs=["watcher"], types=[1, 2]), s + [["settle"]] + small * 30 + [["settle"]]))
    # waiting again and again
    for cut in (["cancel", 1], ["settle"]):
        s = [["start", "ready", 0, 0], ["settle"], cut] * 150 + small + [["settle"]] + get * 3
        out.append((dict(srcs=["watcher"], types=[1, 2]), s))
    return out
