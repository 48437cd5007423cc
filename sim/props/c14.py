"""C14: generated training data survives crashes and full disks."""
import os

import core
import numpy as np
import pandas as pd
from benchmark import shallow_water
from command.generate_data import GenerateData

from .. import cli, datafiles, world
from ..base import check
from ..disk import Disk, SimCrash, _real_open as real_open
from ..faults import ERRORS

QUICK, THOROUGH, TIMEOUT = 500, 20000, 90
LEVEL = "exploration"
RULE = ("one evaluation = one seeded history of data generation processes working on the same "
        "files, which crash, meet full or failing disks or failing solves at seeded points; after "
        "each process the files are parsed line by line against undisturbed runs")
REAL = ["GenerateData and everything below it, the generate-data command line, pandas' CSV writer, "
        "Python's buffering"]
STUBS = ["the disk below Python's buffers: every write, opening, removal, renaming and truncation "
         "goes through the simulator to scratch files", "death of a process: an exception nobody "
         "may handle, after which no I/O reaches the disk"]
STATE_MEASURE = "(kinds of the processes and faults, complete and incomplete entries of both files)"
ASSUMPTIONS = ["a crash is the death of the process: what reached the kernel survives",
               "one process at a time works on a directory"]
FAULTS = ["crash", "crash", "crash", "crash-after", "enospc", "enospc", "eio", "eacces"]


def generate(rng, i):
    coarsen = rng.choice([1, 2, 4])
    radius = rng.choice([1, 2, 2, 3])
    cls = rng.choice(["llf", "llf", "es1", "central", "low-order", "mcl"])
    if cls == "mcl":
        radius = max(radius, 2)
    node = radius + rng.randint(0, 2)
    mesh = coarsen * rng.randint(max(6, node + radius), 12)
    cfl = round(rng.uniform(0.02, 0.06), 4)
    steps = rng.choice([1, 2, 3, 5, 8, 25])
    end = round(cfl * 100 / mesh * (steps + rng.choice([0, 0.4])), 6)
    lives = []
    for k in range(rng.randint(1, 4)):
        n = rng.choice([1, 1, 2, 3]) if rng.random() < 0.97 else rng.randint(4, 12)
        life = {"overwrite": rng.random() < (0.8 if k == 0 else 0.25), "n": n,
                "seed": 1 + 7 * k + rng.randrange(7), "again": rng.random() < 0.2,
                "cli": rng.random() < 0.2 and cls not in ("mcl", "central"),
                "short": rng.choice([0, 0, 0, 1, 37, 1000]),
                "faults": []}
        if rng.random() < 0.75:
            if rng.random() < 0.7:
                life["faults"].append({"at": rng.randrange(0, 5 * n + 2), "kind": rng.choice(FAULTS),
                                       "part": rng.choice([0, 1, round(rng.random(), 4),
                                                           round(rng.random() * 0.1, 4)])})
                if rng.random() < 0.2:
                    # within the headers, which are written first
                    life["faults"][-1].update(at=rng.choice([1, 1, 2, 4, 5, 6]),
                                              bytes=rng.randint(0, 50 * radius + 100))
            else:
                stages = 2 * steps * n
                life["solve"] = {"at": rng.randint(1, max(1, stages)),
                                 "error": rng.choice([*ERRORS, "crash", "crash", "nan"])}
        lives.append(life)
    return {"coarsen": coarsen, "radius": radius, "mesh": mesh, "cls": cls, "cfl": cfl, "end": end,
            "node": node, "ode": rng.choice(list(world.ODES)),
            "lives": lives}


SHRINK_LISTS = {"lives": 1, "faults": 0}
SHRINK_NUMBERS = {"n": 1, "short": 0, "at": 0}


def read(path):
    try:
        with real_open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def files():
    return read("d/data.csv"), read("d/benchmark.csv")


class SolveFault(world.Hooks):
    def __init__(self, fault, disk):
        self.fault, self.disk, self.calls = fault, disk, 0

    def after(self, hooked, time, value, result):
        self.calls += 1
        if not self.fault or self.calls != self.fault["at"]:
            return result
        kind = self.fault["error"]
        if kind == "crash":
            self.disk.die("a solve")
        self.disk.fired.append("solve " + kind)
        if kind == "nan":
            return result * np.nan
        raise ERRORS[kind]("injected")


def build(scenario, life, directory):
    benchmark = shallow_water.OscillationNoTopographyBenchmark(end_time=scenario["end"])
    solver = world.build_solver({k: scenario[k] for k in ("mesh", "cfl", "cls", "ode")}, benchmark)
    return GenerateData(solver, directory, solution_number=life["n"], end_time=scenario["end"],
                        seed=life["seed"], coarsening_degree=scenario["coarsen"],
                        input_radius=scenario["radius"], node_index=scenario["node"],
                        overwrite=life["overwrite"], print_output=False)


def arguments(scenario, life, directory):
    return ["generate-data", "-d", directory, "-s", scenario["cls"], "+m", scenario["mesh"],
            "++cfl", scenario["cfl"], "+o", scenario["ode"], "-n", life["n"], "-T",
            repr(scenario["end"]), "--seed", life["seed"], "-c", scenario["coarsen"], "-i",
            scenario["radius"], "--node-index", scenario["node"],
            *([] if life["overwrite"] else ["--append"])]


def _reference(scenario, life):
    """An undisturbed run long enough for every retry."""
    os.makedirs("reference", exist_ok=True)
    whole = dict(life, n=life["n"] * (2 if life["again"] else 1) + 1, overwrite=True)
    build(scenario, whole, "reference").execute()
    return read("reference/data.csv"), read("reference/benchmark.csv")


def _life(scenario, life):
    """One process. Reports how every attempt ended, and what the files were
    whenever a solve began and when the attempt was over."""
    disk = Disk("d", life["faults"], short=life["short"])
    hooks = SolveFault(life.get("solve"), disk)
    attempts = []
    original = core.Solver.solve

    def solve(self, **kwargs):
        attempts[-1]["solves"].append(files())
        return original(self, **kwargs)

    core.Solver.solve = solve
    with world.hooked(hooks), disk.mounted():
        if life["cli"]:
            def go():
                cli.main(*arguments(scenario, life, "d"))
        else:
            go = build(scenario, life, "d").execute
        for _ in range(2 if life["again"] and not life["cli"] else 1):
            attempts.append({"start": files(), "solves": []})
            fired = len(disk.fired)
            try:
                end = world.attempt(go).error_name
            except SimCrash:
                end = "crash"
            end = "crash" if disk.dead else end
            attempts[-1].update(outcome=end, end=files(), fired=disk.fired[fired:])
            if disk.dead:
                break
    return attempts, disk.ops


class Files:
    """The meaning of the two files in the course of a history."""

    def __init__(self, solver):
        self.solver = solver
        self.headers = None
        self.known = []
        self.current = []      # keys of the solutions written by the present attempt
        self.complete = []     # keys which have to be in both files
        self.incomplete = 0    # entries which may be in one of them only
        self.discarded = set() # data whose benchmarks an interrupted overwriting run removed

    def meaning(self, content):
        data, bench = content
        known = sorted(self.known, key=lambda s: s.key not in self.current)
        d = datafiles.parse_data(data or b"", self.headers[0], known)
        b = datafiles.parse_bench(bench or b"", self.headers[1], known)
        both = datafiles.common([k for k, full in d if full], [k for k, full in b if full])
        return d, b, both

    def appended(self, old, new):
        for before, after, header, name in zip(old, new, self.headers, ("data.csv",
                                                                        "benchmark.csv")):
            keep = (before or b"")[:(before or b"").rfind(b"\n") + 1]
            if b"".join(header).startswith(keep):
                continue  # no complete header yet
            check((after or b"").startswith(keep), "appending-changes", f"appending changes or "
                  f"removes what {name} contains", solver=self.solver)

    def attempt(self, a, life, keys):
        """KEYS: the solutions this attempt is about to write."""
        failed = a["outcome"] is not None
        what = f"{'overwriting' if life['overwrite'] else 'appending'} run of {life['n']} " \
               f"solution(s) ending with {a['outcome']} after {a['fired']}"
        solves = a["solves"]
        self.current = keys[:len(solves)]
        if solves:
            check(solves[0] == a["start"], "touched-before-solved",
                  f"{what}: files change before the first solution is computed", solver=self.solver)
        if failed and len(solves) <= 1 and a["fired"] and all(f.startswith("solve") for f in a["fired"]):
            check(a["end"] == a["start"], "lost-by-failing-solve",
                  f"{what}: a failing first solve changes the files", solver=self.solver)
        contents = [a["start"], *solves[1:], a["end"]]
        for old, new in zip(contents[1 if life["overwrite"] else 0:],
                            contents[2 if life["overwrite"] else 1:]):
            self.appended(old, new)
        overwritten = life["overwrite"] and a["end"] != a["start"]
        base = [] if life["overwrite"] else self.complete
        for j, content in enumerate(solves[1:], 1):
            self._contains(content, base + keys[:j], what + f", when solve {j + 1} begins")
        if overwritten:
            self.incomplete = 0
            self.complete = []
        self.incomplete += failed
        written = len(solves) if not failed else max(0, len(solves) - 1)
        must = self.complete + (keys[:written] if overwritten or not life["overwrite"] else [])
        d, b, both = self._contains(a["end"], must, what)
        if overwritten:
            old = [k for k, _ in d + b if k not in keys]
            gone = a["end"][0] == a["start"][0] and not b
            check(not old or gone, "mixed-generations", lambda: f"{what}: the files still contain "
                  f"{old}: data {d}, benchmarks {b}", solver=self.solver)
            self.discarded = set(old)
        extra = len([k for k, full in d if full and k not in self.discarded]) + len(
            [k for k, full in b if full]) - 2 * len(both)
        torn = sum(not full and k not in self.discarded for k, full in d)
        check(extra <= self.incomplete and torn <= self.incomplete, "inconsistent", lambda:
              f"{what}: after {self.incomplete} interruption(s) the files disagree: data {d}, "
              f"benchmarks {b}", solver=self.solver)
        if not failed:
            check(len(solves) == life["n"], "count", f"{what}: computes {len(solves)} solutions",
                  solver=self.solver)
        self.complete = both
        return failed, extra, torn, d

    def _contains(self, content, must, what):
        d, b, both = self.meaning(content)
        check(datafiles.is_subsequence(must, both), "lost-solution", lambda: f"{what}: solutions "
              f"{must} were written but the files contain data {d}, benchmarks {b}",
              solver=self.solver)
        return d, b, both

    def readable(self, content, what):
        """A user reads the files after a successful run."""
        d, b, both = self.meaning(content)
        frame = read_frame("d/data.csv")
        expected = [v for v in d]
        values = frame.to_numpy()
        times = frame.index.to_numpy()
        check(values.dtype.kind == "f" and times.dtype.kind == "f", "unreadable",
              f"{what}: data.csv cannot be read as numbers", solver=self.solver)
        at = 0
        solutions = {s.key: s for s in self.known}
        for key, full in expected:
            if not full:
                at = None
                break
            block = [[float(x) for x in line.split(b",")] for line in solutions[key].block]
            n = len(block)
            read = np.column_stack([times, values])[at:at + n]
            check(read.shape == (n, len(block[0])) and np.allclose(read, block, 1e-12, 1e-300),
                  "unreadable",
                  f"{what}: data.csv is read differently from how it was written",
                  solver=self.solver)
            at += n
        check(not np.isnan(values).any(), "unreadable", f"{what}: data.csv contains holes",
              solver=self.solver)
        bench = pd.read_csv("d/benchmark.csv", header=[0, 1], index_col=0)
        check(len(bench) == len(b), "unreadable", f"{what}: benchmark.csv has {len(bench)} rows "
              f"instead of {len(b)}", solver=self.solver)


def read_frame(path):
    return pd.read_csv(path, header=[0, 1], skipinitialspace=True, index_col=0)


def _valid_reference(scenario, solutions):
    frame = read_frame("reference/data.csv")
    first, radius = scenario["node"] - scenario["radius"], scenario["radius"]
    names = [c for k in range(2 * radius) for c in ((f"U{first + k}", "h"), (f"U{first + k}", "q"))]
    check([tuple(c) for c in frame.columns[:-2]] == names and len(frame.columns) == len(names) + 2,
          "columns", lambda: f"the columns of data.csv are {list(frame.columns)}")
    check(len(frame) == sum(len(s.block) for s in solutions), "columns",
          "data.csv cannot be read back")
    check(len({s.row for s in solutions}) == len(solutions), "benchmarks",
          "different solutions have the same benchmark row")


def execute(scenario, run):
    os.makedirs("d")
    state = Files(scenario["cls"])
    for number, life in enumerate(scenario["lives"]):
        *headers, solutions = datafiles.split_reference(
            *world.isolated(_reference, scenario, life), number)
        _valid_reference(scenario, solutions)
        state.headers = headers
        state.known += solutions
        attempts, ops = world.isolated(_life, scenario, life)
        consumed = 0
        for a in attempts:
            keys = [(number, j) for j in range(consumed, consumed + life["n"])]
            consumed += len(a["solves"])
            for kind in a["fired"]:
                run.fault(kind)
            run.event("process", number, "overwrite" if life["overwrite"] else "append",
                      str(a["outcome"]), ops, *[b"-" if f is None else f for f in a["end"]])
            failed, extra, torn, _ = state.attempt(a, life, keys)
            run.state(life["overwrite"], life["cli"], a["fired"], len(state.complete), extra, torn)
            run.sim_time += scenario["end"] * len(a["solves"])
            run.count("processes that died" if a["outcome"] == "crash" else
                      "processes that failed" if failed else "processes that succeeded")
        if not failed:
            state.readable(files(), f"process {number}")
        run.nontrivial = True
