"""C15: generated data is reproducible from its seed."""
import os
import random

import numpy as np
import torch
from benchmark import shallow_water
from command.generate_data import GenerateData

from .. import cli, world
from ..base import check
from ..baton import Baton
from ..faults import ERRORS

QUICK, THOROUGH, TIMEOUT = 700, 20000, 90
LEVEL = "exploration"
RULE = ("one evaluation = one seeded set of generation arguments, executed in a pristine process "
        "and after or amid a seeded history (other generations, failures, disturbed global random "
        "state, an interleaved second generation); files compared byte for byte and every row "
        "recomputed from the benchmark file")
REAL = ["GenerateData and everything below it, the generate-data command line; the rows are "
        "recomputed with newly built solvers and, node by node, the schemes' flux functions"]
STUBS = ["threads: two generations are interleaved at their right-hand side evaluations by a "
         "seeded schedule"]
STATE_MEASURE = "(solver, kinds of the history, stencil, coarsening, solutions)"
ASSUMPTIONS = ["schemes whose flux at a node depends on its neighbourhood only (all but the "
               "flux-limited and the finite element like ones)"]
CLASSES = ["llf", "llf", "llf", "es1", "es1", "central", "es", "low-order", "antidiffusion"]


def _arguments(rng, k=0):
    coarsen = rng.choice([1, 2, 2, 3, 4, 8])
    radius = rng.choice([1, 2, 2, 3])
    node = rng.choice([None, radius, radius + 1, radius + rng.randint(0, 3)])
    mesh = coarsen * rng.randint(max(5, (node or radius) + radius), 12)
    cfl = round(rng.uniform(0.01, 0.06), 4)
    steps = rng.choice([1, 2, 3, 6, 15])
    return {"coarsen": coarsen, "radius": radius, "node": node, "mesh": mesh,
            "cls": rng.choice(CLASSES), "cfl": cfl, "ode": rng.choice(list(world.ODES)),
            "end": round(cfl * 100 / mesh * (steps + rng.choice([0, 0.4, 0.999])), 6),
            "n": rng.choice([1, 1, 2, 3]), "seed": rng.randint(1, 10**6),
            "history": rng.random() < 0.2}


def generate(rng, i):
    args = _arguments(rng)
    ops = []
    for _ in range(rng.randint(0, 4)):
        op = rng.choice(["seed", "seed", "draw", "generate", "fail", "benchmarks", "same"])
        ops.append({"op": op, "value": rng.randint(0, 99), "at": rng.randint(1, 15),
                    "error": rng.choice(list(ERRORS)), "args": _arguments(rng)})
    amid = rng.random() < 0.3
    return {"args": args, "ops": ops, "cli": not amid and rng.random() < 0.3 and args["cls"] not in (
                "central", "antidiffusion"),
            "amid": _arguments(rng) if amid else None,
            "schedule": [rng.randrange(2) for _ in range(200)] if amid else []}


SHRINK_LISTS = {"ops": 0, "schedule": 0}
SHRINK_NUMBERS = {"n": 1}


def build(args, directory, seed=None):
    os.makedirs(directory, exist_ok=True)
    benchmark = shallow_water.OscillationNoTopographyBenchmark(end_time=args["end"])
    solver = world.build_solver(
        {k: args[k] for k in ("mesh", "cfl", "cls", "ode", "history")}, benchmark)
    return GenerateData(solver, directory, solution_number=args["n"], end_time=args["end"],
                        seed=args["seed"], coarsening_degree=args["coarsen"],
                        input_radius=args["radius"], node_index=args["node"], print_output=False)


def _cli(args, directory):
    os.makedirs(directory, exist_ok=True)
    node = [] if args["node"] is None else ["--node-index", args["node"]]
    if args["node"] is None and args["radius"] != 2:
        node = ["--node-index", args["radius"]]
    cli.main("generate-data", "-d", directory, "-s", args["cls"], "+m", args["mesh"], "++cfl",
             args["cfl"], "+o", args["ode"], "-n", args["n"], "-T", repr(args["end"]), "--seed",
             args["seed"], "-c", args["coarsen"], "-i", args["radius"], *node)


def files(directory):
    return tuple(open(os.path.join(directory, name), "rb").read()
                 for name in ("data.csv", "benchmark.csv"))


def _pristine(args):
    build(args, "alone").execute()
    return files("alone")


class Failing(world.Hooks):
    def __init__(self, at, error):
        self.left, self.error = at, error

    def before(self, hooked, time, value):
        self.left -= 1
        if self.left == 0:
            raise ERRORS[self.error]("injected")


class Pausing(world.Hooks):
    def __init__(self, holder):
        self.holder = holder

    def after(self, hooked, time, value, result):
        self.holder["baton"].pause("evaluated")
        return result


def execute(scenario, run):
    args = scenario["args"]
    expected = world.isolated(_pristine, args)
    past = []
    for k, op in enumerate(scenario["ops"]):
        name = op["op"]
        past.append(name)
        if name == "seed":
            for f in (np.random.seed, random.seed, torch.manual_seed):
                f(op["value"])
            run.fault("global random state set")
        elif name == "draw":
            for _ in range(op["value"]):
                np.random.random(), random.random(), torch.rand(1)
            run.fault("global random state advanced")
        elif name == "benchmarks":
            generator = shallow_water.RandomBenchmarkGenerator(seed=op["value"] or None)
            for _ in range(op["at"]):
                generator()
        elif name == "fail":
            with world.hooked(Failing(op["at"], op["error"])):
                command = build(op["args"], f"other{k}")
            outcome = world.attempt(command.execute)
            if outcome.error is not None:
                run.fault("other generation fails")
        else:
            build(args if name == "same" else op["args"], f"other{k}").execute()
    if scenario["amid"]:
        holder = {}
        with world.hooked(Pausing(holder)):
            commands = [build(args, "mine"), build(scenario["amid"], "other")]
        holder["baton"] = Baton([lambda task, c=c: c.execute() for c in commands],
                                scenario["schedule"])
        switches = holder["baton"].go()
        run.count("switches", switches)
        run.schedules.add(world.fingerprint(holder["baton"].order)[:12])
        past.append("amid another one")
        other = world.isolated(_pristine, scenario["amid"])
        check(files("other") == other, "not-reproducible", "two interleaved generations disturb "
              "each other", solver=scenario["amid"]["cls"])
    elif scenario["cli"]:
        _cli(args, "mine")
        past.append("command line")
    else:
        build(args, "mine").execute()
    found = files("mine")
    for name, a, b in zip(("data.csv", "benchmark.csv"), expected, found):
        check(a == b, "not-reproducible", lambda: f"{args['cls']}: {name} differs from the one of a "
              f"new process after {', '.join(past) or 'nothing'}: {_difference(a, b)}",
              solver=args["cls"])
    _recompute(args, found, run)
    run.event(*found)
    run.state(args["cls"], *past[-3:], args["radius"], args["coarsen"], args["n"])
    run.sim_time += args["end"] * args["n"]
    run.nontrivial = bool(past)


def _difference(a, b):
    for n, (x, y) in enumerate(zip(a.splitlines(), b.splitlines())):
        if x != y:
            return f"line {n + 1}: {y[:60]!r} instead of {x[:60]!r}"
    return f"{len(b.splitlines())} lines instead of {len(a.splitlines())}"


NAMES = ["average", "amplitude", "wave_number", "phase_shift"]


def _recompute(args, found, run):
    cls = args["cls"]
    data, bench = ([line.split(",") for line in f.decode().splitlines()] for f in found)
    check(bench[0][1:] == ["seed"] + ["height"] * 4 + ["velocity"] * 4
          and bench[1][2:] == NAMES * 2, "columns", lambda: f"benchmark.csv has columns "
          f"{bench[:2]}", solver=cls)
    check(len(bench) - 2 == args["n"], "solutions", lambda: f"benchmark.csv has {len(bench) - 2} "
          f"rows instead of {args['n']}", solver=cls)
    radius, degree, node = args["radius"], args["coarsen"], args["node"] or args["radius"]
    rows = np.array([[float(x) for x in line] for line in data[2:]])
    check(rows.shape[1] == 4 * radius + 3, "columns", lambda: f"data.csv has {rows.shape[1]} columns",
          solver=cls)
    at = 0
    for k, line in enumerate(bench[2:]):
        values = [float(x) for x in line[1:]]
        height, velocity = (dict(zip(NAMES, values[j:j + 4])) for j in (1, 5))
        again = shallow_water.RandomOscillationNoTopographyBenchmark(int(values[0]))
        for what, got in (("height", height), ("velocity", velocity)):
            for name in NAMES:
                check(getattr(again, f"{what}_{name}") == got[name], "benchmark-row", lambda:
                      f"solution {k}: the benchmark file says {what} {name} {got[name]!r}, the "
                      f"benchmark of its seed has {getattr(again, f'{what}_{name}')!r}", solver=cls)
        benchmark = shallow_water.OscillationNoTopographyBenchmark(
            end_time=args["end"],
            **{f"height_{n}": v for n, v in height.items()},
            **{f"velocity_{n}": v for n, v in velocity.items()})
        solver = world.build_solver({"mesh": args["mesh"], "cfl": args["cfl"], "cls": cls,
                                     "ode": args["ode"], "history": True}, benchmark)
        world.solve(solver)
        times, states = solver.solution.time_history, solver.solution.value_history
        block = rows[at:at + len(times)]
        at += len(times)
        check(len(block) == len(times) and np.array_equal(block[:, 0], times), "times", lambda:
              f"{cls}: solution {k} is recorded at {block[:, 0].tolist()[:6]}... instead of "
              f"{times.tolist()[:6]}...", solver=cls)
        check(times[0] == 0.0 and abs(times[-1] - args["end"]) <= 1e-9 * args["end"], "interval",
              lambda: f"{cls}: solution {k} covers [{times[0]}, {times[-1]}]", solver=cls)
        cells = np.arange((node - radius) * degree, (node + radius) * degree)
        coarse = states[:, cells].reshape(len(times), 2 * radius, degree, 2).mean(axis=2)
        close(block[:, 1:-2], coarse.reshape(len(times), -1), 2e-15 * (degree + 2), "coarse-values",
              f"{cls}: block averages of solution {k}", cls)
        flux = np.array([
            _flux(cls, solver, benchmark, states[m], node * degree)
            - _coarse_flux(cls, solver, benchmark, coarse[m], radius, degree) for m in range(len(times))])
        scale = np.abs(states).max() ** 2 * 10
        close(block[:, -2:], flux, 1e-14 * scale, "subgrid-flux",
              f"{cls}: subgrid flux of solution {k}", cls, absolute=True)
        run.count("rows recomputed", len(times))
    check(at == len(rows), "rows", f"{cls}: data.csv has {len(rows) - at} rows too many", solver=cls)


def close(found, expected, tolerance, kind, what, cls, absolute=False):
    bound = tolerance * (1 if absolute else np.maximum(1, np.abs(expected)))
    bad = ~(np.abs(found - expected) <= bound)
    if bad.any():
        m, c = (int(x[0]) for x in np.nonzero(bad))
        check(False, kind, f"{what}: row {m}, column {c} is {found[m, c]!r} instead of "
              f"{expected[m, c]!r}", solver=cls)


def _node_flux(cls, solver, benchmark, space, values):
    """The scheme's flux between exactly two (or 2r) cells."""
    if cls in ("llf", "low-order"):
        return _llf(benchmark.gravitational_acceleration, *values[len(values) // 2 - 1:
                                                                 len(values) // 2 + 1])
    flux = solver.flux_getter(benchmark, space)
    r = flux.input_dimension // 2
    mid = len(values) // 2
    return flux(*(v[None].copy() for v in values[mid - r:mid + r]))[1][0]


def _llf(g, left, right):
    def f(u):
        return np.array([u[1], u[1] ** 2 / u[0] + g * u[0] ** 2 / 2])
    speed = max(abs(u[1] / u[0]) + np.sqrt(g * u[0]) for u in (left, right))
    return (f(left) + f(right)) / 2 - speed / 2 * (right - left)


def _flux(cls, solver, benchmark, state, node):
    return _node_flux(cls, solver, benchmark, solver.solution.space, [state[node - 1], state[node]])


def _coarse_flux(cls, solver, benchmark, cells, radius, degree):
    return _node_flux(cls, solver, benchmark, solver.solution.space.coarsen(degree), list(cells))
