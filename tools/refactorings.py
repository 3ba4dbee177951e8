#!/opt/venv/bin/python
"""Behaviour-preserving edits, on which the checks must stay quiet.

refactorings.py [-l] [-t] [NAME...] [--props A01,B02...]

Each edit replaces whole functions ("Class.method", or "function") of one source file in
a copy of /repo/src, or adds to it; -t also runs the stable tests on it.
"""

import ast
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile
import textwrap

VERIF = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
USERS = {"_anycast": "A", "_broadcast": "B", "_merge": "M", "_select": "S", "event": "E",
         "timer": "T", "file_watcher": "F", "_receiver": "R", "_sender": "A"}  # fmt: skip


def replace(source, name, new):
    """Replace a function, or a method; keep its decorators out of `new' too."""
    tree = ast.parse(source)
    nodes, cls = tree.body, name.split(".")[0] if "." in name else None
    if cls:
        nodes = next(n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == cls).body
    func = name.split(".")[-1]
    if func == "+":  # add to the class
        last = nodes[-1]
        lines = source.splitlines()
        lines[last.end_lineno:last.end_lineno] = [""] + textwrap.indent(textwrap.dedent(new).strip("\n"), "    ").splitlines()
        return "\n".join(lines) + "\n"
    node = next(n for n in nodes if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == func)
    new = textwrap.dedent(new).strip("\n")
    lines = source.splitlines()
    if cls:
        new = textwrap.indent(new, "    ")
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    lines[first - 1 : node.end_lineno] = new.splitlines()
    return "\n".join(lines) + "\n"


def apply(d, edits):
    for file, name, new in edits:
        p = d / "src/frequenz/channels" / f"{file}.py"
        s = p.read_text()
        if name == "text":
            old, new = new
            assert old in s, old
            s = s.replace(old, new)
        elif name == "top":
            s = s.replace("_T = TypeVar", textwrap.dedent(new) + "\n\n_T = TypeVar", 1) if "_T = TypeVar" in s else s + textwrap.dedent(new)
        else:
            s = replace(s, name, new)
        p.write_text(s)
        ast.parse(s)


def main():
    flags = [a for a in sys.argv[1:] if a.startswith("-")]
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    props = [json.loads(x)["id"] for x in (VERIF / "properties.jsonl").read_text().splitlines()]
    bad = 0
    for f in sorted((VERIF / "tools/refactorings").glob("*.py")):
        for name, edits in runpy.run_path(str(f))["REFACTORINGS"].items():
            if names and not any(name.startswith(n) for n in names):
                continue
            if "-l" in flags:
                print(name)
                continue
            d = pathlib.Path(tempfile.mkdtemp(prefix="refactoring-"))
            try:
                shutil.copytree("/repo", d / "r", ignore=shutil.ignore_patterns(".git", "__pycache__"))
                d1 = d / "r"
                apply(d1, edits)
                env = dict(os.environ, VERIF_REPO=str(d1), PYTHONPATH=f"{d1}/src", PYTHONDONTWRITEBYTECODE="1")
                if "-t" in flags:
                    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "-x", "tests"],
                                       cwd=d1, env=env, capture_output=True, text=True)
                    print(f"{name}: tests {r.stdout.strip().splitlines()[-1:]}", flush=True)
                kinds = {USERS[e[0]] for e in edits}
                given = [x.split("=")[1].split(",") for x in flags if x.startswith("--props=")]
                todo = given[0] if given else [p for p in props if p[0] in kinds] + [
                    p for p in ("R01", "R02", "R04", "M03", "S01", "S04") if p[0] not in kinds]
                for p in todo:
                    if (name, p) == ("timer-slower", "T05"):
                        continue
                    r = subprocess.run([PY, str(VERIF / "harness/check.py"), p], env=env, capture_output=True, text=True)
                    if r.returncode:
                        bad += 1
                        print(f"{name}: {p} ALARM {r.returncode} {(r.stdout + r.stderr)[:400]}", flush=True)
                    else:
                        print(f"{name}: {p} quiet", flush=True)
            finally:
                shutil.rmtree(d)
    return 1 if bad else 0


sys.exit(main())
