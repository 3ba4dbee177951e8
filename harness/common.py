"""Running TLC, prefix trees of histories, worker pools."""

import json
import multiprocessing
import os
import pathlib
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
TLA_JARS = (
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
)
CPUS = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    """The check itself failed: no verdict."""


class TlcTimeout(MachineryError):
    """TLC did not finish in time."""


class Scratch:
    """A scratch directory, removed on exit."""

    def __init__(self):
        self.path = pathlib.Path(tempfile.mkdtemp(prefix="verif-"))

    def __enter__(self):
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)


def tla(value) -> str:
    """Write a Python value as a TLA+ constant."""
    if isinstance(value, bool):
        return "TRUE" if value else "FALSE"
    if isinstance(value, int):
        return str(value)
    if isinstance(value, str):
        return '"' + value + '"'
    if isinstance(value, (set, frozenset)):
        return "{" + ", ".join(tla(v) for v in sorted(value)) + "}"
    if isinstance(value, (list, tuple)):
        return "<<" + ", ".join(tla(v) for v in value) + ">>"
    raise TypeError(value)


def run_tlc(workdir, module, *, constants, lines, workers=1, heap="3g", timeout=800):
    """Run TLC on a module in a copy of the specifications. Returns its output."""
    workdir.mkdir(parents=True, exist_ok=True)
    for f in SPEC.glob("*.tla"):
        shutil.copy(f, workdir)
    defs, cfg = [], ["CONSTANTS"]
    for name, value in constants.items():
        if isinstance(value, (list, tuple)):  # not allowed in a .cfg
            defs.append(f"const_{name} == {tla(value)}")
            cfg.append(f" {name} <- const_{name}")
        else:
            cfg.append(f" {name} = {tla(value)}")
    cfg = (cfg if constants else []) + list(lines) + ["CHECK_DEADLOCK FALSE"]
    name = "MC_" + module
    (workdir / f"{name}.tla").write_text(
        f"---- MODULE {name} ----\nEXTENDS {module}\n" + "\n".join(defs) + "\n====\n"
    )
    (workdir / f"{name}.cfg").write_text("\n".join(cfg) + "\n")
    cmd = [
        "java", f"-Xmx{heap}", "-Xss64m",
        "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(2, workers)}",
        "-XX:TieredStopAtLevel=4", f"-Djava.io.tmpdir={workdir}",
        "-cp", TLA_JARS, "tlc2.TLC", "-nowarning", "-workers", str(workers),
        "-metadir", str(workdir / "meta"), "-config", f"{name}.cfg", f"{name}.tla",
    ]  # fmt: skip
    try:
        proc = subprocess.run(
            cmd, cwd=workdir, capture_output=True, text=True, timeout=timeout
        )
    except subprocess.TimeoutExpired as exc:
        raise TlcTimeout(f"TLC timed out on {module}") from exc
    return proc.stdout + proc.stderr


def _tail(out):
    lines = [x for x in out.splitlines() if x.strip() and not x.startswith(('"S[', "Parsing", "Semantic proc", "Linting"))]
    return "\n".join(lines[-25:])


_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, 0 states left")


def tlc_stats(out):
    """(transitions, states) of a complete TLC run, None if it was not complete."""
    m = None
    for m in _STATS.finditer(out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else None


def tlc_ok(out):
    return "Model checking completed. No error has been found." in out


def parse_tuple(text):
    """Parse a printed TLA+ tuple of strings, numbers, booleans and tuples."""
    text = text.replace("<<", "[").replace(">>", "]")
    text = text.replace("TRUE", "true").replace("FALSE", "false")
    return json.loads(text)


def explore(workdir, module, constants, invariants, *, properties=(), workers=1, extra=(), timeout=800):
    """Check a design exhaustively. Returns its schedules and statistics."""
    lines = ["INIT Init", "NEXT Next", "VIEW View", "ACTION_CONSTRAINT Schedules"]
    lines += [f"INVARIANT {i}" for i in invariants]
    lines += [f"PROPERTY {i}" for i in properties]
    lines += list(extra)
    out = run_tlc(workdir, module, constants=constants, lines=lines, workers=workers, timeout=timeout)
    stats = tlc_stats(out)
    if stats is None or not tlc_ok(out):
        raise MachineryError(f"TLC failed on the design {module}:\n{_tail(out)}")
    schedules = [json.loads(line[2:-1].replace('\\"', '"')) for line in out.splitlines() if line.startswith('"S[')]
    # drop the schedules that are a proper prefix of another one
    prefixes = {json.dumps(x[:-1]) for x in schedules}
    schedules = [x for x in schedules if json.dumps(x) not in prefixes]
    return schedules, stats


class Trie:
    """A prefix tree of histories."""

    def __init__(self):
        self.kids = [{}]
        self.ev = [["root"]]
        self.par = [0]
        self.owner = [None]

    def add(self, history, owner):
        node = 0
        for event in history:
            key = json.dumps(event)
            nxt = self.kids[node].get(key)
            if nxt is None:
                nxt = len(self.ev)
                self.kids.append({})
                self.ev.append(event)
                self.par.append(node)
                self.owner.append(owner)
                self.kids[node][key] = nxt
            node = nxt

    def __len__(self):
        return len(self.ev)

    def path(self, node):
        path = []
        while node:
            path.append(self.ev[node])
            node = self.par[node]
        return path[::-1]

    def dump(self, filename):
        with open(filename, "w") as f:
            json.dump(
                {
                    "kids": [[k + 1 for k in kids.values()] for kids in self.kids],
                    "ev": self.ev,
                    "par": [p + 1 for p in self.par[:1]] and [0] + [p + 1 for p in self.par[1:]],
                },
                f,
            )


def validate(workdir, module, histories, constants, *, max_nodes=25000, timeout=850):
    """Check histories [(events, owner)] against a trace specification.

    Returns (list of rejections (path, owner), statistics).
    """
    seen = set()
    unique = []
    for events, owner in histories:
        key = json.dumps(events)
        if key not in seen:
            seen.add(key)
            unique.append((key, events, owner))
    unique.sort(key=lambda u: u[0])  # neighbours share prefixes
    total = sum(len(u[1]) for u in unique)
    shards = max(1, min(len(unique), max(min(CPUS, total // 3000 + 1), total // (max_nodes * 4) + 1)))
    tries = []
    per = -(-len(unique) // shards)
    for i in range(0, len(unique), per):
        trie = Trie()
        for _, events, owner in unique[i : i + per]:
            trie.add(events, owner)
        tries.append(trie)

    def one(i):
        trie = tries[i]
        wd = workdir / f"{module}-{i}"
        wd.mkdir(parents=True)
        trie.dump(wd / "trie.json")
        try:
            out = run_tlc(
                wd, module, constants=constants,
                lines=["INIT Init", "NEXT Next", "CONSTRAINT Mark", "POSTCONDITION Report"],
                timeout=timeout, heap="2500m",
            )  # fmt: skip
        except TlcTimeout:
            return None
        m = re.search(r'<<"NODES", (\d+), (\d+)>>', out)
        stats = tlc_stats(out)
        if m is None or int(m.group(1)) != len(trie) or stats is None:
            raise MachineryError(f"TLC failed validating {module}:\n{_tail(out)}")
        bad = [int(x) - 1 for x in re.findall(r'<<"REJECT", (\d+)>>', out)]
        if not bad and int(m.group(2)) != len(trie):
            raise MachineryError(f"TLC validated {m.group(2)} of {len(trie)} nodes")
        shutil.rmtree(wd, ignore_errors=True)
        return bad, stats, len(trie)

    with ThreadPoolExecutor(CPUS) as pool:
        results = list(pool.map(one, range(len(tries))))
    rejections = []
    for trie, result in zip(tries, results):
        if result is not None:
            rejections += [(trie.path(n), trie.owner[n]) for n in result[0]]
    # histories with too many explanations don't take away what was found in others
    undecided = results.count(None)
    results = [r for r in results if r is not None]
    if undecided and not rejections:
        raise MachineryError(f"TLC timed out validating {undecided} parts of the histories ({module})")
    return rejections, {
        "histories": len(unique),
        "events": sum(r[2] for r in results) - len(results),
        "transitions": sum(r[1][0] for r in results),
        "states": sum(r[1][1] for r in results),
    }


def pmap(func, items, chunks=None):
    """Map over items in worker processes, in chunks of items."""
    items = list(items)
    n = chunks or CPUS * 4
    size = max(1, -(-len(items) // n))
    parts = [items[i : i + size] for i in range(0, len(items), size)]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(CPUS) as pool:
        out = []
        for res in pool.imap(func, parts):
            out += res
        return out


def now():
    return time.monotonic()
