#!/opt/venv/bin/python
"""Evaluate planted bugs: seeds.py [ID...] [--no-tests] [--all-of-component].

For each: the demonstration passes without and fails with the change, the stable tests
pass with it (in a copy), and what the check of its property says.
"""

import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

VERIF = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"


def run(cmd, d, **kw):
    env = dict(os.environ, PYTHONPATH=f"{d}/src", PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=str(d))
    env["PATH"] = "/opt/venv/bin:" + env["PATH"]
    return subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, **kw)


def stable_tests(d):
    wanted = json.loads(pathlib.Path("/opt/vp/BASELINE.json").read_text())
    r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "--hypothesis-seed=0",
             "-x", "tests"], d)  # fmt: skip
    return r.returncode == 0, r.stdout.strip().splitlines()[-1:]


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(p.name for p in (VERIF / "seeded").iterdir())
    for i in ids:
        seed = VERIF / "seeded" / i
        meta = json.loads((seed / "meta.json").read_text())
        d = pathlib.Path(tempfile.mkdtemp(prefix="seed-"))
        try:
            shutil.copytree("/repo", d / "repo", ignore=shutil.ignore_patterns(".git", "__pycache__"))
            d1 = d / "repo"
            demo = ["timeout", "300", "sh", str(seed / "demo.sh")]
            clean = run(demo, d1)
            subprocess.run(["git", "apply", str(seed / "patch.diff")], cwd=d1, check=True)
            broken = run(demo, d1)
            line = f"{i} ({meta['property']}): demo {clean.returncode}/{broken.returncode}"
            if clean.returncode or not broken.returncode:
                print(line, "BAD DEMO", clean.stdout[-300:], clean.stderr[-300:], broken.stdout[-300:], flush=True)
                continue
            if "--no-tests" not in sys.argv:
                ok, last = stable_tests(d1)
                line += f", tests {'pass' if ok else 'FAIL'} {last}"
                if not ok:
                    print(line, flush=True)
                    continue
            props = [meta["property"]]
            if "--all-of-component" in sys.argv:
                props = [json.loads(x)["id"] for x in (VERIF / "properties.jsonl").read_text().splitlines()]
                props = [p for p in props if p[0] == meta["property"][0]]
            for p in props:
                r = run([PY, str(VERIF / "harness/check.py"), p], d1)
                flag = {0: "missed", 1: "CAUGHT" if "VIOLATION" in r.stdout else "ERROR"}.get(r.returncode, "ERROR")
                line += f", {p} {flag}"
                if flag == "CAUGHT":
                    line += str([x.strip()[:90] for x in r.stdout.splitlines() if "VIOLATION" not in x][:1])
            print(line, flush=True)
        finally:
            shutil.rmtree(d)


main()
