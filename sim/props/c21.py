"""C21: random benchmarks are a function of their seed alone."""
import contextlib
import os
import pickle
import random
import re

import numpy as np
import numpy.random.bit_generator
import pandas as pd
import torch
from benchmark import shallow_water
from benchmark.shallow_water import (OscillationNoTopographyBenchmark, RandomBenchmarkGenerator,
                                     RandomOscillationNoTopographyBenchmark)
from command.error_evolution import GenerateShallowWaterErrorEvolutionSeries
from command.generate_data import GenerateData

from .. import cli, figures, foreign, world
from ..base import Inconclusive, check
from ..faults import ERRORS, RhsFault

QUICK, THOROUGH, TIMEOUT = 400, 12000, 90
LEVEL = "exploration"
RULE = ("one evaluation = one seeded schedule of operations on several generators and benchmarks in "
        "one process (advancing, recreating, reading, changing end times, solving with faults, "
        "generating data, error series, the command line, reseeding global random states); every "
        "benchmark is compared with the one built in another process with another hash seed which "
        "did nothing else")
REAL = ["RandomOscillationNoTopographyBenchmark, RandomBenchmarkGenerator, GenerateData, "
        "GenerateShallowWaterErrorEvolutionSeries, the plot command line, the solvers"]
STUBS = ["the entropy of the operating system behind generators without a seed: a seeded stream",
         "failing solves: an exception out of an evaluation of the right-hand side"]
STATE_MEASURE = "(operations before a benchmark was requested, how it was requested, how it was used)"
ASSUMPTIONS = ["seeds are not negative"]
NAMES = ["height_average", "height_amplitude", "height_phase_shift", "height_wave_number",
         "velocity_average", "velocity_amplitude", "velocity_phase_shift", "velocity_wave_number"]
SHORT = dict(zip(NAMES, ["h0", "Ah", "ph", "kh", "v0", "Av", "pv", "kv"]))
VALUES = {"height_average": [1.6, 2.4], "height_amplitude": [0.3, 0.5], "height_wave_number": [1, 3],
          "height_phase_shift": [1.0, 2.5], "velocity_average": [0.7, 1.5],
          "velocity_amplitude": [0.35, 0.1], "velocity_wave_number": [1, 2],
          "velocity_phase_shift": [1.0, 4.0]}
POINTS = [0.0, 12.3, 47.11, 81.0, 99.9]
MESH, CFL = 8, 0.05
DEFAULT_SEED = 1  # documented for generating data


def _settings(rng):
    names = rng.sample(NAMES, rng.choice([0, 0, 1, 1, 2, 8]))
    return {"end": rng.choice([None, None, 1.5, 3.0]),
            "parameters": {n: rng.choice(VALUES[n]) for n in sorted(names)}}


def _seed(rng):
    return rng.choice([rng.randint(0, 6), rng.randint(0, 6), rng.randrange(1, 10**9)])


def generate(rng, i):
    ops = []
    for k in range(rng.randint(3, 14)):
        kind = "new" if k == 0 else rng.choice(["new", "new", "next", "next", "next", "next", "direct", "direct", "given",
                           "read", "read", "end", "use", "use", "disturb", "disturb", "cli", "data",
                           "series"])
        if kind in ("cli", "data", "series") and rng.random() < 0.5:
            kind = "next"
        op = {"op": kind, "which": rng.randrange(4)}
        if kind == "new":
            op.update(_settings(rng), seed=None if rng.random() < 0.2 else _seed(rng))
        elif kind == "direct":
            op.update(_settings(rng), seed=_seed(rng))
        elif kind in ("given", "cli"):
            op.update(seed=None if kind == "cli" and rng.random() < 0.3 else _seed(rng) or 7)
        elif kind == "end":
            op.update(end=rng.choice([0.7, 5.0]))
        elif kind == "use":
            op.update(cls=rng.choice(["llf", "es1", "mcl"]), mesh=rng.randint(5, 10),
                      fault=_fault(rng), end=rng.choice([1.0, 2.0]))
        elif kind == "disturb":
            op.update(how=rng.choice(["numpy-seed", "numpy-draw", "python-seed", "python-draw",
                                      "torch-seed", "torch-draw", "foreign-generator"]),
                      value=rng.randrange(1000))
        elif kind == "data":
            op.update(seed=rng.choice([None, _seed(rng), _seed(rng)]), n=rng.choice([1, 2, 3]),
                      fault=_fault(rng))
        elif kind == "series":
            op.update(seed=_seed(rng), n=rng.choice([1, 2, 3]), fault=_fault(rng),
                      parameters=_settings(rng)["parameters"], save=rng.random() < 0.6)
        ops.append(op)
    if rng.random() < 0.04:  # apart from the others, since some zeros are known to be ignored
        ops.append({"op": "zero", "which": rng.randrange(4), "what": rng.choice(["parameter", "given", "cli"]),
                    "name": rng.choice(NAMES), "seed": _seed(rng) or 7})
    return {"ops": ops, "entropy": rng.randrange(10**6)}


SHRINK_LISTS = {"ops": 1}
SHRINK_NUMBERS = {"seed": 1, "n": 1, "which": 0, "at": 1, "value": 0}


def _fault(rng):
    if rng.random() < 0.5:
        return None
    return {"kind": "rhs-before", "error": rng.choice([*ERRORS, "arithmetic", "value"]),
            "at": rng.choice([1, 2, rng.randint(1, 12)])}


def prepare():
    foreign.start(["sim.props.c21"])


# ---------------------------------------------------------------- what a benchmark is
def _record(benchmark):
    return {"seed": int(benchmark.seed), "end": float(benchmark.end_time),
            "start": float(benchmark.start_time), "bc": str(benchmark.boundary_conditions),
            "domain": (float(benchmark.domain.a), float(benchmark.domain.b)), **{n: float(getattr(benchmark, n)) for n in NAMES},
            "initial": [tuple(float(u) for u in benchmark.initial_data(x)) for x in POINTS],
            "bathymetry": [float(benchmark.bathymetry(x)) for x in POINTS]}


def _recreated(seed, end, parameters):
    """What a user does with a reported seed."""
    arguments = dict(parameters) if end is None else dict(parameters, end_time=end)
    return _record(RandomOscillationNoTopographyBenchmark(seed, **arguments))


def _sequence(seed, end, parameters, n):
    generator = RandomBenchmarkGenerator(seed, end, **parameters)
    return [_record(generator()) for _ in range(n)]


def _described(record):
    """The benchmark with the reported parameters, given explicitly."""
    benchmark = OscillationNoTopographyBenchmark(record["end"], **{n: record[n] for n in NAMES})
    return [tuple(float(u) for u in benchmark.initial_data(x)) for x in POINTS]


def _data(seed, n, fault, directory):
    """(outcome, the rows of benchmark.csv)."""
    os.makedirs(directory)
    end = CFL * 100 / MESH * 2.5
    placeholder = OscillationNoTopographyBenchmark(end_time=end)
    with world.hooked(RhsFault(fault, fault["at"] if fault else None)):
        solver = world.build_solver({"cls": "llf", "mesh": 2 * MESH, "cfl": CFL, "ode": "heun",
                                     "history": False}, placeholder)
    command = GenerateData(solver, directory, solution_number=n, end_time=end, seed=seed,
                           coarsening_degree=2, input_radius=2, node_index=4, print_output=False)
    outcome = world.attempt(command.execute)
    path = os.path.join(directory, "benchmark.csv")
    rows = []
    if os.path.exists(path):
        for _, row in pd.read_csv(path, header=[0, 1], index_col=0,
                                  float_precision="round_trip").iterrows():
            values = {"seed": int(row.iloc[0]), "end": end}
            for name in NAMES:
                values[name] = float(row[tuple(name.split("_", 1))])
            rows.append(values)
    return outcome.error_name, rows


def _series(seed, n, fault, parameters, save, directory):
    """(outcome, the seeds of the pictures, the seeds in warnings)."""
    end = CFL * 100 / MESH * 2.5
    placeholder = OscillationNoTopographyBenchmark(end_time=end)
    solvers = []
    with world.hooked(RhsFault(fault, fault["at"] if fault else None)):
        for k, cls in enumerate(("llf", "es1")):
            solvers.append(world.build_solver({
                "cls": cls, "mesh": MESH, "cfl": CFL, "ode": "heun", "history": True,
                "short": f"s{k}"}, placeholder))
    command = GenerateShallowWaterErrorEvolutionSeries(
        *solvers, seed=seed, end_time=end, initial_conditions=n, description="test",
        save_directory=directory if save else None, save_error=save, **parameters)
    with figures.Gallery().installed() as gallery:
        outcome = world.attempt(command.execute)
    pattern = re.compile(r"seed\D{0,3}(\d+)")
    shown = [int(s) for title in gallery.titles for s in pattern.findall(title)]
    warned = [int(s) for line in outcome.warnings for s in pattern.findall(line)]
    return outcome.error_name, shown, warned


# ---------------------------------------------------------------- simulated
class Entropy:
    """The entropy source of the operating system."""

    def __init__(self, seed):
        self.random = random.Random(seed)

    @contextlib.contextmanager
    def installed(self):
        module = numpy.random.bit_generator
        real, module.randbits = module.randbits, self.random.getrandbits
        try:
            yield
        finally:
            module.randbits = real


def _global():
    return (random.getstate(), [x if isinstance(x, (str, int, float)) else x.tobytes()
                                for x in np.random.get_state()], torch.get_rng_state().numpy().tobytes())


def _disturb(op):
    how, value = op["how"], op["value"]
    if how == "numpy-seed":
        np.random.seed(value)
    elif how == "numpy-draw":
        np.random.uniform(size=1 + value % 7)
    elif how == "python-seed":
        random.seed(value)
    elif how == "python-draw":
        random.random()
    elif how == "torch-seed":
        torch.manual_seed(value)
    elif how == "torch-draw":
        torch.rand(3)
    else:
        np.random.default_rng(value).integers(10)


class Process:
    """Carries out the schedule, and remembers what was requested how."""

    def __init__(self, run):
        self.run = run
        self.generators, self.benchmarks = [], []
        self.files = 0

    def pick(self, items, op):
        return items[op["which"] % len(items)] if items else None

    def add(self, benchmark, how, end, parameters):
        self.benchmarks.append({"benchmark": benchmark, "how": how, "end": end,
                                "parameters": parameters, "records": [], "used": []})

    def do(self, op):
        getattr(self, "_" + op["op"])(op)

    def _new(self, op):
        self.generators.append({
            "generator": RandomBenchmarkGenerator(op["seed"], op["end"], **op["parameters"]),
            "seed": op["seed"], "end": op["end"], "parameters": op["parameters"], "n": 0,
            "number": len(self.generators)})

    def _next(self, op):
        entry = self.pick(self.generators, op)
        if entry is not None:
            benchmark = entry["generator"]()
            self.add(benchmark, ("next", entry["number"], entry["n"]), entry["end"],
                     entry["parameters"])
            entry["n"] += 1

    def _given(self, op):
        entry = self.pick(self.generators, op)
        if entry is not None:
            self.add(entry["generator"](op["seed"]), ("given", op["seed"]), entry["end"],
                     entry["parameters"])

    def _zero(self, op):
        """Zeros are values like any other one."""
        if op["what"] == "parameter":
            name, seed = op["name"], op["seed"]
            benchmark = RandomOscillationNoTopographyBenchmark(seed, **{name: 0})
            found = float(getattr(benchmark, name))
            drawn = foreign.call(_recreated, seed, None, {})[name]
            check(found in (0.0, drawn), "parameters", f"{name}=0 with seed {seed} gives {found}")
            check(found == 0.0, "zero-parameter", f"the explicit {name}=0 is ignored: seed {seed} uses {found}")
            return
        if op["what"] == "given":
            found = RandomBenchmarkGenerator(op["seed"])(0).seed
        else:
            outcome = world.attempt(cli.main, "plot", "swe", "-r", 0, "--args", "-T", 0.2, "--initial",
                                    "-m", 5, "--save", "zero.png", "-s", "llf", "+m", MESH)
            check(outcome.error is None, "cli", f"'plot swe -r 0' ends with {outcome.error}")
            found = int(dict(re.findall(r"'(\w+)': (\d+)[,}]", outcome.output))["seed"])
        check(found == 0, "zero-seed", f"a benchmark requested ({op['what']}) with seed 0 has seed {found}")

    def _direct(self, op):
        arguments = dict(op["parameters"])
        if op["end"] is not None:
            arguments["end_time"] = op["end"]
        self.add(RandomOscillationNoTopographyBenchmark(op["seed"], **arguments),
                 ("direct", op["seed"]), op["end"], op["parameters"])

    def _read(self, op):
        entry = self.pick(self.benchmarks, op)
        if entry is not None:
            entry["records"].append((entry["end"], _record(entry["benchmark"]),
                                     self._dict(entry["benchmark"])))

    def _dict(self, benchmark):
        found = benchmark.as_dict()
        return {"seed": int(found["seed"]), "end": float(found["end_time"]),
                **{n: float(found[SHORT[n]]) for n in NAMES}}

    def _end(self, op):
        entry = self.pick(self.benchmarks, op)
        if entry is not None:
            entry["benchmark"].end_time = entry["end"] = op["end"]

    def _use(self, op):
        entry = self.pick(self.benchmarks, op)
        if entry is None:
            return
        entry["benchmark"].end_time = entry["end"] = op["end"]
        fault = op["fault"]
        with world.hooked(RhsFault(fault, fault["at"] if fault else None)) as hooks:
            solver = world.build_solver({"cls": op["cls"], "mesh": op["mesh"], "cfl": CFL,
                                         "ode": "heun", "history": False}, entry["benchmark"])
        outcome = world.solve(solver)
        if fault and hooks.fired:
            self.run.fault(f"{fault['error']} while solving")
        entry["used"].append(outcome.error_name)
        self.run.sim_time += float(solver.solution.time)

    def _data(self, op):
        directory = self.directory()
        outcome, rows = _data(op["seed"], op["n"], op["fault"], directory)
        if outcome:
            self.run.fault(f"data generation ends with {outcome}")
        expected = foreign.call(_data, op["seed"], op["n"], None, directory + "-reference")
        what = f"data generation with seed {op['seed']} ending with {outcome}"
        check(expected[0] is None and len(expected[1]) == op["n"], "data",
              lambda: f"an undisturbed data generation ends with {expected}")
        check(rows == expected[1][:len(rows)] and (outcome or len(rows) == op["n"]), "data",
              lambda: f"{what}: benchmarks are {rows} instead of {expected[1]}")
        if op["seed"] not in (None, DEFAULT_SEED):
            other = foreign.call(_data, None, op["n"], None, directory + "-other")[1]
            check(other[0] != expected[1][0], "data", lambda: f"{what}: uses the benchmarks of the default seed: {other}")
        for row in rows:
            same = foreign.call(_recreated, row["seed"], row["end"], {})
            check({n: same[n] for n in row} == row, "reported", lambda: f"{what}: the reported "
                  f"benchmark {row} differs from the one with this seed: {same}")
        self.run.event("data", outcome, [sorted(r.items()) for r in rows])
        self.run.count("generated benchmarks compared", len(rows))

    def _series(self, op):
        save = op["save"]
        outcome, shown, warned = _series(op["seed"], op["n"], op["fault"], op["parameters"], save,
                                         self.directory())
        seeds = [r["seed"] for r in foreign.call(_sequence, op["seed"], 1.0, op["parameters"], op["n"])]
        what = f"series with seed {op['seed']} ending with {outcome}"
        if outcome != "KeyboardInterrupt":
            check(outcome is None, "series", f"{what}: fails")
            found = sorted(shown + warned) if save else warned
            wanted = sorted(seeds) if save else [s for s in seeds if s in warned]
            check(found == wanted and shown == [s for s in seeds if s in shown], "series",
                  f"{what}: reports the seeds {shown} and failing {warned} instead of {seeds}")
        self.run.event("series", outcome, shown, warned)
        self.run.count("series compared")

    def _cli(self, op):
        directory = self.directory()
        os.makedirs(directory)
        path = os.path.join(directory, "p")
        seed = op["seed"]
        with figures.Gallery().installed():
            outcome = world.attempt(
                cli.main, "plot", "swe", "-r", *([] if seed is None else [seed]), "--args", "-T", 0.2,
                "--hide", "--initial", "-m", 5, "--save-data", path + ".pkl", "-s", "llf", "+m", MESH)
        check(outcome.error is None, "cli", f"'plot swe -r' ends with {outcome.error}")
        reported = dict(re.findall(r"'(\w+)': ([-+.\de]+)[,}]", outcome.output))
        check("seed" in reported, "cli", "the seed of a random benchmark is not reported")
        found = int(reported["seed"])
        check(seed is None or found == seed, "cli", f"'-r {seed}' reports the seed {found}")
        same = foreign.call(_recreated, found, 0.2, {})
        check(all(float(reported[SHORT[n]]) == same[n] for n in NAMES), "cli", lambda:
              f"'-r {seed}' reports {reported} instead of {same}")
        values = foreign.call(_initial, found, 5)
        with open(path + "_q.pkl", "rb") as f:
            line = pickle.load(f)["$q_0$"]
        check(np.allclose(line["ydata"], values, rtol=1e-12, atol=1e-14), "cli", lambda: "the "
              f"initial data of seed {found} are {values}, but '-r {seed}' used {line['ydata']}")
        self.run.event("cli", found, line["ydata"])
        self.run.count("command lines compared")

    def directory(self):
        self.files += 1
        return f"d{self.files}"


def _initial(seed, n):
    benchmark = RandomOscillationNoTopographyBenchmark(seed)
    grid = np.linspace(benchmark.domain.a, benchmark.domain.b, n)
    return [float(benchmark.initial_data(x)[1]) for x in grid]


def execute(scenario, run):
    process = Process(run)
    done = []
    with Entropy(scenario["entropy"]).installed():
        for op in scenario["ops"]:
            if op["op"] == "zero":
                continue
            if op["op"] == "disturb":
                _disturb(op)
                run.fault(f"global random state: {op['how']}")
            else:
                before = _global()
                process.do(op)
                check(_global() == before, "global-state", f"'{op['op']}' disturbs the global random "
                      "state")
            done.append(op["op"])
        for k in range(len(process.benchmarks)):
            process.do({"op": "read", "which": k})
    _judge(process, run, done)
    with Entropy(scenario["entropy"]).installed(), figures.Gallery().installed():
        for op in scenario["ops"]:
            if op["op"] == "zero":
                process.do(op)


def _judge(process, run, done):
    sequences = {}
    for entry in process.generators:
        if entry["n"] and entry["seed"] is not None:
            sequences[entry["number"]] = foreign.call(
                _sequence, entry["seed"], entry["end"], entry["parameters"], entry["n"])
            run.count("sequences compared")
    for entry in process.benchmarks:
        how = entry["how"]
        for end, record, reported in entry["records"]:
            what = f"benchmark requested by {how} after {done}"
            if how[0] == "next":
                expected = sequences.get(how[1])
                expected = expected and expected[how[2]]
            else:
                check(record["seed"] == how[1], "seed", f"{what}: has the seed {record['seed']}")
                expected = None
            same = foreign.call(_recreated, record["seed"], None, entry["parameters"])
            for other in (expected, same):
                if other is not None:
                    wanted = dict(other) if end is None else dict(other, end=end)
                    check(record == wanted, "differs", lambda: f"{what}: is {record} instead of "
                          f"{wanted}")
            check({n: record[n] for n in reported} == reported, "reported", lambda: f"{what}: "
                  f"reports {reported} but is {record}")
            for name, value in entry["parameters"].items():
                check(record[name] == value, "parameter", f"{what}: ignores {name}={value}")
            described = foreign.call(_described, record)
            check(np.allclose(described, record["initial"], rtol=1e-12), "described", lambda:
                  f"{what}: initial data {record['initial']} do not belong to the reported parameters "
                  f"({described})")
            run.event(str(how), sorted((k, str(v)) for k, v in record.items()))
            run.count("benchmarks compared")
        run.state(how[0], bool(entry["parameters"]), entry["used"], len(entry["records"]),
                  tuple(done[:6]))
    run.state(tuple(done))
    run.nontrivial = bool(process.benchmarks) or any(o in done for o in ("data", "series", "cli"))
