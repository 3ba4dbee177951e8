#!/opt/venv/bin/python
"""Check that the specifications can fail.

For each design: with one of its switches off, which gives back a defect, TLC must find a
violation; and every invariant must be checked on a design that reaches its actions.
"""

import importlib
import pathlib
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "harness"))
sys.path.insert(0, "/repo/src")
import common

SWITCHES = {
    "anycast": ("A01", ["WakeAll", "FailBlocked", "KeepNext"]),
    "broadcast": ("B03", ["ResendNone", "WakeAll"]),
    "receiver": ("R01", ["Recheck", "WakeAll"]),
    "merger": ("M03", ["Recheck", "TakePending", "Rearm", "OnlyPending"]),
    "timers": ("T01", ["Recheck", "KeepTick"]),
    "timers:T05": ("T05", ["ResetWakes"]),
    "selector": ("S01", ["Cleanup", "Rearm"]),
    "watcher": ("F02", ["Shared"]),
    "receiver:R04": ("R04", ["Ends"]),
    "watcher:F01": ("F01", ["Filter"]),
}


def main():
    only = sys.argv[1:]
    jobs = []
    for name, (prop, switches) in SWITCHES.items():
        if only and name not in only:
            continue
        component = importlib.import_module(name.split(":")[0])
        for switch in switches:
            for tier in ("quick",):
                jobs.append((name, prop, switch, component.models(prop, tier)))
    with common.Scratch() as wd, ThreadPoolExecutor(4) as pool:

        def one(ij):
            i, (name, prop, switch, models) = ij
            found = []
            for k, m in enumerate(models):
                if switch not in m["constants"]:
                    continue
                constants = dict(m["constants"], Emit=False, **{switch: False})
                out = common.run_tlc(
                    wd / f"{i}-{k}", m["module"], constants=constants,
                    lines=["INIT Init", "NEXT Next", "VIEW View"] + [f"INVARIANT {x}" for x in m["invariants"]],
                )
                found += [x for x in out.splitlines() if "is violated" in x]
            return name, switch, found

        bad = 0
        for name, switch, found in pool.map(one, enumerate(jobs)):
            print(f"{name}: without {switch}: {found or 'NOT DETECTED'}", flush=True)
            bad += not found
    return 1 if bad else 0


sys.exit(main())
