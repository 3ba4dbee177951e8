#!/opt/venv/bin/python
"""Decide one property: check.py <ID> [--replay FILE]

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: the
check itself failed.
"""

import sys

sys.dont_write_bytecode = True

import argparse
import hashlib
import importlib
import json
import os
import pathlib
import random
import shutil
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
# the code under test is the working tree, wherever the environment installed it from
REPO_SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
sys.path.insert(0, REPO_SRC)

import common
from common import MachineryError, Scratch

COMPONENTS = {
    "A": "anycast", "B": "broadcast", "R": "receiver", "M": "merger",
    "S": "selector", "E": "event", "T": "timers", "F": "watcher",
}  # fmt: skip

_JOB = {}


def _replay_chunk(items):
    """Worker: run schedules and random runs on the real code."""
    import ops

    ops.quiesce_gc()
    out = []
    hangs = 0
    driver = _JOB["driver"]
    for kind, cfg, arg, variant in items:
        try:
            if kind == "schedule":
                histories, schedule = ops.run_schedule(driver, cfg, arg, variant)
            else:
                seed, length = arg
                histories, schedule = ops.run_random(
                    driver, cfg, random.Random(seed), length, variant
                )
        except Exception as exc:
            raise MachineryError(
                f"driver failed on {cfg} {kind} {arg} {variant}:\n{traceback.format_exc()}"
            ) from exc
        owner = {"kind": kind, "cfg": cfg, "schedule": schedule, "variant": variant, "arg": arg}
        out += [(events, owner) for events in histories]
        hangs += any("hang" in event for events in histories for event in events[-8:])
        if hangs > 2:
            break  # a violation already, and each takes seconds
    return out


def explore_models(component, prop, tier, wd):
    """Check the designs of a component; returns the jobs they yield and statistics."""
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    models = component.models(prop, tier)

    def one(im):
        i, m = im
        return m, common.explore(
            wd / f"model{i}", m["module"], m["constants"], m["invariants"],
            properties=m.get("properties", ()), extra=m.get("extra", ()),
        )  # fmt: skip

    jobs, stats = [], {"states": 0, "transitions": 0, "designs": [], "schedules": 0}
    with ThreadPoolExecutor(common.CPUS) as pool:
        for m, (schedules, (transitions, states)) in pool.map(one, enumerate(models)):
            stats["states"] += states
            stats["transitions"] += transitions
            stats["schedules"] += len(schedules)
            stats["designs"].append(
                {"module": m["module"], "states": states, "transitions": transitions,
                 "schedules": len(schedules),
                 "constants": {k: repr(v) for k, v in m["constants"].items() if k not in ("Check", "Emit")}}
            )  # fmt: skip
            keep = m.get("keep")
            if keep is not None and len(schedules) > keep:
                schedules = rng.sample(schedules, keep)
            cfgs = m["cfgs"]
            for i, s in enumerate(schedules):
                jobs.append(("schedule", cfgs[i % len(cfgs)], s, i // len(cfgs)))
    return jobs, stats


def run(prop, tier, seed):
    start = time.monotonic()
    import ops
    import frequenz.channels

    if not frequenz.channels.__file__.startswith(REPO_SRC):
        raise MachineryError(f"imported {frequenz.channels.__file__}, not {REPO_SRC}")

    component = importlib.import_module(COMPONENTS[prop[0]])
    with Scratch() as wd:
        t0 = time.monotonic()
        jobs, model_stats = explore_models(component, prop, tier, wd)
        t_model = time.monotonic() - t0
        rng = random.Random(seed)
        n_model = len(jobs)
        for cfg, length, count in component.randoms(prop, tier):
            for i in range(count):
                jobs.append(("random", cfg, (rng.getrandbits(32), length), i))
        for cfg, schedule in getattr(component, "scripted", lambda p, t: [])(prop, tier):
            jobs += [("schedule", cfg, schedule, v) for v in range(2)]
        _JOB["driver"] = component.DRIVER
        ops.quiesce_gc()
        t0 = time.monotonic()
        rng.shuffle(jobs)
        results = common.pmap(_replay_chunk, jobs)
        t_replay = time.monotonic() - t0
        t0 = time.monotonic()
        rejections, trace_stats = common.validate(
            wd / "traces", component.TRACE, results, component.trace_constants(prop),
            timeout=400 if tier == "quick" else 4000,
        )  # fmt: skip
        t_trace = time.monotonic() - t0

        listed = json.loads((common.VERIF / "known_findings.json").read_text())["known"]
        listed = {k["fails"] for k in listed if k["property"] == prop}
        new, known, extra = rejections, [], {}
        for text in getattr(component, "findings", lambda p: [])(prop):
            if text in listed:
                known.append(text)
            else:
                owner = {"kind": "finding", "cfg": {}, "schedule": [], "variant": 0}
                new = new + [([[text]], owner)]
        report(prop, tier, component, new, known)
        write_evidence(
            prop, tier, seed, start, jobs, n_model, results, model_stats, trace_stats, new, extra,
            {"model": round(t_model, 1), "replay": round(t_replay, 1), "validation": round(t_trace, 1)},
        )  # fmt: skip
        return 1 if new else 0


def report(prop, tier, component, new, known):
    for text in known:
        print(f"KNOWN-FINDING: property={prop} {text}")
    seen = set()
    replays = common.VERIF / "replays"
    for path, owner in new:
        key = json.dumps(path[-1])
        if key in seen or len(seen) >= 5:
            continue
        seen.add(key)
        replays.mkdir(exist_ok=True)
        content = {
            "property": prop,
            "component": component.__name__,
            "driver_cfg": owner["cfg"],
            "schedule": owner["schedule"],
            "variant": owner["variant"],
            "explained_events": path[:-1],
            "rejected_event": path[-1],
        }
        text = json.dumps(content, indent=1)
        name = f"{prop}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json"
        (replays / name).write_text(text)
        print(f"VIOLATION property={prop} replay={replays / name}")
        print(f"  not allowed by {component.TRACE} after {len(path) - 1} events: {path[-1]}")
    if new:
        print(f"  {len(new)} histories rejected")


def write_evidence(prop, tier, seed, start, jobs, n_model, results, ms, ts, new, extra, times):
    evidence = common.VERIF / "evidence"
    evidence.mkdir(exist_ok=True)
    samples = []
    for want in ("schedule", "random"):
        for events, owner in results:
            if owner["kind"] == want and len(events) > 12:
                samples.append({"cfg": owner["cfg"], "schedule": owner["schedule"][:40], "history": events[:60]})
                break
    kinds = {}
    for events, _ in results:
        for e in events:
            k = e[0] if e[0] != "ret" else f"ret:{e[2]}"
            kinds[k] = kinds.get(k, 0) + 1
    content = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": ms["states"],
            "transitions": ms["transitions"],
            "traces_validated_against_impl": ts["histories"],
            "samples": samples,
            "designs": ms["designs"],
            "schedules_from_the_specification_replayed": n_model,
            "random_schedules_replayed": len(jobs) - n_model,
            "trace_validation_states": ts["states"],
            "trace_events_validated": ts["events"],
            "events_by_kind": dict(sorted(kinds.items())),
            "seconds_by_phase": times,
            **extra,
        },
        "assumptions": [
            "single event loop, API used from its thread, as documented (channels are not thread-safe)",
            "exhaustive only within the constants listed under designs; random schedules beyond",
        ],
        "wall_s": round(time.monotonic() - start, 2),
        "violations": len(new),
    }
    (evidence / f"{prop}.json").write_text(json.dumps(content, indent=1))


def replay(filename):
    import ops

    data = json.loads(pathlib.Path(filename).read_text())
    component = importlib.import_module(data["component"])
    histories, _ = ops.run_schedule(component.DRIVER, data["driver_cfg"], data["schedule"], data["variant"])
    for events in histories:
        for e in events:
            print(e)
    with Scratch() as wd:
        rejections, _ = common.validate(
            wd, component.TRACE, [(events, None) for events in histories], component.trace_constants(data["property"])
        )
    if rejections:
        path = rejections[0][0]
        print(f"VIOLATION property={data['property']} replay={filename}")
        print(f"  not allowed after {len(path) - 1} events: {path[-1]}")
        return 1
    return 0


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--replay")
    parser.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    args = parser.parse_args()
    try:
        if args.replay:
            return replay(args.replay)
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return run(args.property, args.tier, seed)
    except MachineryError as exc:
        print(f"ERROR: {exc}", file=sys.stderr)
        return 2
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
