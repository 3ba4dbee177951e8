#!/opt/venv/bin/python
"""Show that the trace specifications bind: corrupted histories must be rejected.

corruptions.py [ID...]: for each property, histories recorded from the real code are
corrupted in one place, in one of several ways, and validated.  Prints how many of each
are rejected.  Not every corrupted history is a wrong one, but every property must reject
some, and those of a kind that contradicts it.
"""

import copy
import importlib
import json
import pathlib
import random
import sys

sys.dont_write_bytecode = True
VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(VERIF / "harness"), "/repo/src"]

import check
import common
import ops


def indices(h, pred):
    return [i for i, e in enumerate(h) if pred(e)]


def out(e):
    return e[0] == "ret" and e[2] or e[0] == "consume" and (e[2] if isinstance(e[2], str) else e[1])


def change(pred, new):
    """Replace an event by others."""

    def f(h, rng):
        at = indices(h, pred)
        if not at:
            return None
        i = rng.choice(at)
        news = new(h, i, rng)
        return None if news is None else h[:i] + news + h[i + 1 :]

    return f


def is_ret(*res):
    return lambda e: e[0] == "ret" and e[2] in res


def is_val(e):
    return e[0] == "ret" and e[2] == "val"


def other_value(h, i, rng):
    vals = [e[3] for e in h if is_val(e) and e[3] != h[i][3]]
    return [h[i][:3] + [rng.choice(vals)] + h[i][4:]] if vals else None


def swapped(h, rng):
    at = indices(h, is_val)
    if len(at) < 2:
        return None
    k = rng.randrange(len(at) - 1)
    i, j = at[k], at[k + 1]
    h[i][3], h[j][3] = h[j][3], h[i][3]
    return h


CORRUPTIONS = {
    "swapped": swapped,
    "invented": change(is_val, lambda h, i, rng: [h[i][:3] + [9999] + h[i][4:]]),
    "another's": change(is_val, other_value),
    "lost": change(is_val, lambda h, i, rng: [["ret", h[i][1], "cancelled", 0]]),
    "stopped": change(is_val, lambda h, i, rng: [["ret", h[i][1], "stopped", 0]]),
    "not stopped": change(is_ret("stopped", "end", "false"), lambda h, i, rng: [h[i][:2] + ["cancelled"] + h[i][3:]]),
    "wrong stop": change(is_ret("stopped"), lambda h, i, rng: [h[i][:2] + ["stopped?"] + h[i][3:]]),
    "wrong closed": change(is_ret("closed"), lambda h, i, rng: [h[i][:2] + ["closed?"] + h[i][3:]]),
    "sent": change(is_ret("closed"), lambda h, i, rng: [h[i][:2] + ["ok"] + h[i][3:]]),
    "not sent": change(is_ret("ok"), lambda h, i, rng: [h[i][:2] + ["closed"] + h[i][3:]]),
    "not ready": change(is_ret("true"), lambda h, i, rng: [h[i][:2] + ["false"] + h[i][3:]]),
    "ready": change(is_ret("false"), lambda h, i, rng: [h[i][:2] + ["true"] + h[i][3:]]),
    "exception": change(lambda e: e[0] == "ret", lambda h, i, rng: [h[i][:2] + ["other"] + h[i][3:]]),
    "hang": change(lambda e: e[0] == "quiet", lambda h, i, rng: [["hang"]]),
    "at rest": change(lambda e: e[0] == "call", lambda h, i, rng: [h[i]] + [e for e in h if e[0] == "quiet"][-1:]),
    "removed": change(lambda e: e[0] not in ("new", "newr", "call"), lambda h, i, rng: []),
    "repeated": change(lambda e: e[0] not in ("new", "newr", "call", "quiet"), lambda h, i, rng: [h[i], h[i]]),
    "number": change(
        lambda e: e[0] not in ("new", "newr", "call", "ret", "len") and any(type(x) is int for x in e[1:]),
        lambda h, i, rng: [[x + 1 if type(x) is int and k == max(j for j, y in enumerate(h[i]) if type(y) is int) else x for k, x in enumerate(h[i])]],
    ),
    "flag": change(
        lambda e: e[0] not in ("new", "call", "quiet") and any(type(x) is bool for x in e[1:]),
        lambda h, i, rng: [[not x if type(x) is bool else x for x in h[i]]],
    ),
}


def main():
    ids = sys.argv[1:] or [json.loads(x)["id"] for x in (VERIF / "properties.jsonl").read_text().splitlines()]
    weak = []
    for prop in ids:
        component = importlib.import_module(check.COMPONENTS[prop[0]])
        rng = random.Random(prop)
        jobs = []
        for cfg, length, count in component.randoms(prop, "quick"):
            if len(cfg.get("srcs", ())) > 5 or cfg.get("many"):
                continue
            for i in range(max(3, count // 20)):
                jobs.append(("random", cfg, (rng.getrandbits(32), min(length, 30)), i))
        check._JOB["driver"] = component.DRIVER
        results = check._replay_chunk(jobs)
        histories = []
        for name, f in CORRUPTIONS.items():
            made = 0
            for events, _ in results * 3:
                bad = f(copy.deepcopy(events), rng)
                if bad is not None and bad != events and made < 60:
                    made += 1
                    histories.append((bad, name))
        total = {}
        for _, name in histories:
            total[name] = total.get(name, 0) + 1
        rejected = {}
        with common.Scratch() as wd:
            # each alone: equal events of two histories are one in the tree
            try:
                rejections, _ = common.validate(wd, component.TRACE, histories, component.trace_constants(prop))
            except common.MachineryError as exc:
                print(prop, exc, flush=True)
                weak.append(prop)
                continue
        paths = {json.dumps(p) for p, _ in rejections}
        for h, name in histories:
            if any(json.dumps(h[: k + 1]) in paths for k in range(len(h))):
                rejected[name] = rejected.get(name, 0) + 1
        print(prop, " ".join(f"{n}:{rejected.get(n, 0)}/{t}" for n, t in total.items()), flush=True)
        if not rejected:
            weak.append(prop)
    if weak:
        print("failed:", weak)
    return 1 if weak else 0


sys.exit(main())
