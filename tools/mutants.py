#!/opt/venv/bin/python
"""Run checks against small changes of the code: mutants.py LIST.py [NAME_PREFIX] [-a].

A list is a Python file defining MUTANTS = [(name, file, old, new, [properties])]; each
change is made in a copy of /repo's sources, given to the checks by VERIF_REPO.
-a: run all the component's checks, not only the ones listed.
"""

import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent


def main():
    args = [a for a in sys.argv[1:] if a != "-a"]
    mutants = runpy.run_path(args[0])["MUTANTS"]
    prefix = args[1] if len(args) > 1 else ""
    for name, file, old, new, props in mutants:
        if not name.startswith(prefix):
            continue
        d = pathlib.Path(tempfile.mkdtemp(prefix="mutant-"))
        try:
            shutil.copytree("/repo/src", d / "src")
            p = d / "src/frequenz/channels" / file
            s = p.read_text()
            edits = [(old, new)] if isinstance(old, str) else list(zip(old, new))
            for o, n in edits:
                if o not in s:
                    print(f"{name}: text not found: {o!r}")
                    raise SystemExit(2)
                s = s.replace(o, n)
            p.write_text(s)
            for q in props:
                r = subprocess.run(
                    ["/opt/venv/bin/python", str(VERIF / "harness/check.py"), q],
                    capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=str(d)),
                )  # fmt: skip
                lines = [x.strip()[:110] for x in (r.stdout + r.stderr).splitlines() if "VIOLATION" not in x]
                flag = {0: "MISSED", 1: "caught" if "VIOLATION" in r.stdout else "ERROR"}.get(r.returncode, "ERROR")
                print(f"{name}: {q} {flag} {lines[:1] + lines[-1:]}", flush=True)
        finally:
            shutil.rmtree(d)


main()
