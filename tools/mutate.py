#!/opt/venv/bin/python
"""Mutate the code mechanically; list those neither the tests nor the checks notice.

mutate.py [-l] [--verif DIR] [FILE[:LINE]...]     FILE: _anycast, timer...

Each mutant is tried on the checks of its component until one reports it.
"""

import ast
import copy
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
SRC = pathlib.Path("/repo/src/frequenz/channels")
PROPS = {
    "_anycast": "A01 A04 A05 A03 A02 R01 R02 R04",
    "_broadcast": "B01 B04 B02 B03 B05 B06 R01 R02 R04",
    "_merge": "M01 M03 M02 M04 M05 R01 R02 R04",
    "_select": "S01 S02 S03 S04 S06 S05",
    "_receiver": "R03 R01 R02 R04 M01 S02",
    "_sender": "A05 B04 A01",
    "_exceptions": "A05 R02 S06",
    "event": "E01 R01 R02 R04 S01",
    "timer": "T01 T02 T03 T04 T05 T06 R01 R02 R04",
    "file_watcher": "F01 F02 R01 R02 R04",
}
SWAP_CALL = {"notify_all": "notify", "popleft": "pop", "append": "appendleft", "pop": "popleft",
             "add": "discard", "discard": "add"}  # fmt: skip
COMPARE = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Lt: ast.LtE,
           ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In}  # fmt: skip
FLIP = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}
ARITH = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult,
         ast.Div: ast.Mult}  # fmt: skip
SKIP = {"__str__", "__repr__", "name"}  # for people


def named(node):
    """Is it about names that only people see?"""
    return isinstance(node, (ast.Assign, ast.AnnAssign)) and ast.unparse(node).startswith("self._name")


def mutants(tree):
    """Yield (line, description, function changing the tree in place, function undoing it)."""

    def visit(node, parents):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and node.name in SKIP:
            return
        if isinstance(node, ast.Call) and "_logger" in ast.unparse(node.func) or named(node):
            return
        for field in ("body", "orelse", "finalbody"):
            stmts = getattr(node, field, None)
            if not isinstance(stmts, list):
                continue
            for i, s in enumerate(stmts):
                doc = isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or named(s)
                if doc or isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import,
                                         ast.ImportFrom, ast.Pass, ast.Assert)):  # fmt: skip
                    continue
                if isinstance(node, (ast.Module, ast.ClassDef)):
                    continue
                if "_logger" in ast.unparse(s)[:12]:
                    continue
                yield s.lineno, f"delete {ast.unparse(s)[:60]!r}", (stmts, i, ast.copy_location(ast.Pass(), s))
                if isinstance(s, ast.Return) and s.value is not None:
                    new = copy.deepcopy(s)
                    new.value = ast.Constant(None)
                    yield s.lineno, f"return None for {ast.unparse(s)[:60]!r}", (stmts, i, new)
        for name, value in ast.iter_fields(node):
            if isinstance(value, ast.expr):
                yield from expr(node, name, None, value)
            elif isinstance(value, list):
                for i, v in enumerate(value):
                    if isinstance(v, ast.expr) and name != "decorator_list":
                        yield from expr(node, name, i, v)
        for child in ast.iter_child_nodes(node):
            if isinstance(child, (ast.arguments, ast.Assert)) or (
                isinstance(child, ast.Expr) and isinstance(child.value, ast.Constant)
            ):
                continue
            yield from visit(child, parents)

    def expr(node, name, i, value):
        if name in ("annotation", "returns", "bases", "slice", "type_params"):
            return
        where = (getattr(node, name), i) if i is not None else (node, name)
        out = []
        if isinstance(value, ast.Compare) and len(value.ops) == 1:
            for table in (COMPARE, FLIP):
                op = table.get(type(value.ops[0]))
                if op:
                    new = copy.deepcopy(value)
                    new.ops = [op()]
                    out.append(new)
        if name == "test":
            out += [ast.Constant(True), ast.Constant(False)]
        if isinstance(value, ast.BoolOp):
            new = copy.deepcopy(value)
            new.op = ast.Or() if isinstance(value.op, ast.And) else ast.And()
            out.append(new)
            for k in range(len(value.values)):
                new = copy.deepcopy(value)
                del new.values[k]
                out.append(new if len(new.values) > 1 else new.values[0])
        if isinstance(value, ast.UnaryOp) and isinstance(value.op, ast.Not):
            out.append(value.operand)
        if isinstance(value, ast.BinOp) and type(value.op) in ARITH and not isinstance(value.op, ast.BitOr):
            new = copy.deepcopy(value)
            new.op = ARITH[type(value.op)]()
            out += [new, value.left, value.right]
        if isinstance(value, ast.Constant) and value.value is not None and not isinstance(value.value, str):
            if isinstance(value.value, bool):
                out.append(ast.Constant(not value.value))
            elif isinstance(value.value, (int, float)):
                out += [ast.Constant(value.value + 1), ast.Constant(0)]
        if isinstance(value, ast.Call) and isinstance(value.func, ast.Attribute) and value.func.attr in SWAP_CALL:
            new = copy.deepcopy(value)
            new.func.attr = SWAP_CALL[value.func.attr]
            out.append(new)
        if isinstance(value, ast.Call) and isinstance(value.func, ast.Name) and value.func.id in ("max", "min"):
            out += list(value.args)
        if isinstance(value, ast.IfExp):
            out += [value.body, value.orelse]
        for new in out:
            ast.copy_location(new, value)
            yield value.lineno, f"{ast.unparse(value)[:60]!r} -> {ast.unparse(new)[:60]!r}", (*where, new)

    yield from visit(tree, ())


def apply(place):
    obj, key, new = place
    if isinstance(key, str):
        old = getattr(obj, key)
        setattr(obj, key, new)
        return lambda: setattr(obj, key, old)
    old = obj[key]
    obj[key] = new

    def undo():
        obj[key] = old

    return undo


def main():
    args = sys.argv[1:]
    listing = "-l" in args
    verif = VERIF
    if "--verif" in args:
        i = args.index("--verif")
        verif = pathlib.Path(args[i + 1])
        del args[i : i + 2]
    wanted = [a.split(":") for a in args if not a.startswith("-")]
    survivors, todo = 0, []
    for file, props in PROPS.items():
        if wanted and file not in [w[0] for w in wanted]:
            continue
        lines = [int(w[1]) for w in wanted if w[0] == file and len(w) > 1]
        tree = ast.parse((SRC / f"{file}.py").read_text())
        base = ast.unparse(tree)
        seen = {base}
        for line, what, place in list(mutants(tree)):
            if lines and line not in lines:
                continue
            undo = apply(place)
            try:
                text = ast.unparse(ast.fix_missing_locations(tree))
            finally:
                undo()
            if text in seen:
                continue
            seen.add(text)
            name = f"{file}:{line} {what}"
            if listing:
                print(name)
                continue
            todo.append((name, file, text))

    def prepare(job):
        """Only those that the stable tests do not notice are interesting."""
        name, file, text = job
        d = pathlib.Path(tempfile.mkdtemp(prefix="mutate-"))
        shutil.copytree("/repo", d / "r", ignore=shutil.ignore_patterns(".git", "__pycache__"))
        (d / "r/src/frequenz/channels" / f"{file}.py").write_text(text)
        env = dict(os.environ, VERIF_REPO=str(d / "r"), PYTHONPATH=f"{d}/r/src", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run(["timeout", "-k", "1", "120", PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=20", "-x", "tests"],
                           cwd=d / "r", env=env, capture_output=True, text=True)
        if r.returncode:
            shutil.rmtree(d)
            return name, file, None, None
        return name, file, d, env

    caught = failed = 0
    with ThreadPoolExecutor(3) as pool:
        for name, file, d, env in pool.map(prepare, todo):
            if d is None:
                failed += 1
                continue
            got = []
            for p in PROPS[file].split():
                r = subprocess.run([PY, str(verif / "harness/check.py"), p], env=env, capture_output=True, text=True)
                if r.returncode:
                    got.append(f"{p}:{r.returncode}")
                    if r.returncode == 1:
                        break
            shutil.rmtree(d)
            if got and got[-1].endswith(":1"):
                caught += 1
                print(f"caught {name} {got}", flush=True)
            else:
                survivors += 1
                print(f"SURVIVOR {name} {got}", flush=True)
    print(f"{failed} fail the tests, {caught} caught, {survivors} survivors")


main()
