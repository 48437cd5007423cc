"""C23: command lines are parsed into exactly the requested run."""
import contextlib
import io
import os
import random

import core
import numpy as np
from benchmark import advection, burgers, shallow_water
from finite_element.scalar import solver as fem
from finite_volume.scalar import solver as fvm
from finite_volume.shallow_water import solver as swe

from .. import cli, figures, movies, world
from ..base import Inconclusive, check
from ..faults import ERRORS, RhsFault
from . import c19

QUICK, THOROUGH, TIMEOUT = 240, 8000, 180
LEVEL = "exploration"
RULE = ("one evaluation = one process executing a seeded sequence of command lines, some of them refused "
        "and some with a solve which fails; every solver which gets solved is compared with one that was "
        "put together and solved in another process without a command line")
REAL = ["the script cls1, all parsers of calculate, plot, animate and plot-error-evolution, all solvers"]
STUBS = ["matplotlib's rasterisation and ffmpeg: figures and films are recorded",
         "failing solves: an exception out of an evaluation of the right-hand side"]
STATE_MEASURE = "(command, problem, benchmark, options given to each solver, refusal, fault, lines before)"
ASSUMPTIONS = ["command lines start with the command and the problem; options come in any order, long or short"]

OPTIONS = {"name": ("+n", "++name"), "short": ("+s", "++short"), "mesh": ("+m", "++mesh-size"),
           "cfl": ("++cfl",), "ode": ("+o", "++ode-solver"), "adaptive": ("++adaptive",),
           "exact_flux": ("++exact-flux",), "flux": ("+f", "++flux"), "gamma": ("+g", "++gamma"),
           "coarsen": ("+c", "++coarsening-degree")}
FLAGS = ("adaptive", "exact_flux")
COMMON = ["name", "short", "mesh", "cfl"]
# key -> (class, options beside the common ones, default cfl number, default mesh size)
SCALAR = {"cg": (fem, "ContinuousGalerkinSolver", ["exact_flux"], 0.1, 400),
          "cg-low": (fem, "LowOrderContinuousGalerkinSolver", ["adaptive", "ode"], 1.0, 400),
          "mcl-fem": (fem, "MCLSolver", ["adaptive", "ode"], 1.0, 400),
          "llf": (fvm, "LaxFriedrichsSolver", [], 0.1, 400),
          "central": (fvm, "CentralFluxSolver", [], 0.1, 400),
          "mcl-fv": (fvm, "MCLSolver", ["ode"], 0.1, 400)}
WATER = {"llf": (swe, "LaxFriedrichsSolver", ["ode"], 0.1, 400),
         "lw": (swe, "LaxWendroffSolver", [], 0.1, 400),
         "low-order": (swe, "LowOrderSolver", ["ode"], 0.1, 400),
         "central": (swe, "CentralFluxSolver", [], 0.1, 400),
         "es": (swe, "EnergyStableSolver", ["ode"], 0.1, 400),
         "es1": (swe, "FirstOrderDiffusiveEnergyStableSolver", ["ode"], 0.1, 400),
         "mcl": (swe, "MCLSolver", ["flux", "ode"], 0.1, 400),
         "antidiffusion": (swe, "LinearAntidiffusiveSolver", ["flux", "gamma", "ode"], 0.1, 400),
         "coarse": (swe, "CoarseSolver", ["flux", "coarsen", "ode"], 0.1, 400),
         "reduced-llf": (swe, "ReducedLaxFriedrichsSolver", ["ode"], 0.1 / 8, 50),
         "reduced-llf-2": (swe, "ReducedLaxFriedrichs2Solver", ["ode"], 0.1 / 40, 50)}
FLUXES = {"central": "CentralFluxGetter", "es": "EnergyStableFluxGetter",
          "es1": "FirstOrderDiffusiveEnergyStableFluxGetter", "llf": "LaxFriedrichsFluxGetter",
          "low-order": "LowOrderFluxGetter"}
# key -> (class, largest speed)
BENCHMARKS = {
    "advection": (advection, {"three-hills": "ThreeHillsBenchmark", "two-hills": "TwoHillsBenchmark",
                              "one-hill": "OneHillBenchmark", "cos": "CosineBenchmark",
                              "gauss": "GaussianBellBenchmark"}, "two-hills"),
    "burgers": (burgers, {"shock": "SchockBenchmark", "smooth": "SmoothBenchmark"}, "shock"),
    "swe": (shallow_water, {
        "lake-at-rest-no-bathymetry": "LakeAtRestNoBathymetryBenchmark",
        "lake-at-rest": "LakeAtRestBenchmark",
        "lake-at-rest-perturbation": "PerturbatedLakeAtRestBenchmark",
        "moving-water-no-bathymetry": "MovingWaterNoBathymetryBenchmark",
        "oscillation": "OscillationNoTopographyBenchmark", "damm-break": "DammBreakBenchmark",
        "cylindrical-damm-break": "CylindricalDammBreakWithOutflowBenchmark",
        "cylindrical-damm-break-with-wall": "CylindricalDammBreakWithReflectingBoundaryBenchmark",
        "sinus-inflow": "SinusInflowBenchmark", "b1": "FirstBenchmark", "b2": "SecondBenchmark",
        "b3": "ThirdBenchmark"}, "oscillation")}
BOTTOM = ("lake-at-rest", "lake-at-rest-perturbation")  # not for solvers which need a flat bottom
FLAT_ONLY = ("lw",)
REFUSALS = ["command", "problem", "benchmark", "solver", "second-solver", "mesh", "cfl", "ode", "flux",
            "option", "missing", "end", "foreign", "foreign-option", "two-benchmarks", "number", "parameter"]


# ---------------------------------------------------------------- generation
def _solver(rng, cls, table):
    spec = {"cls": cls}
    for option in COMMON + table[cls][2]:
        if rng.random() < 0.55:
            spec[option] = {
                "name": lambda: rng.choice(["My solver", "x", "cg", "llf", "mcl", "coarse", "a=b", "4"]),
                "short": lambda: rng.choice(["s", "S 1", "llf", "central", "es", "reference"]),
                "mesh": lambda: rng.randint(3, 24), "cfl": lambda: round(rng.uniform(0.02, 0.5), 3),
                "ode": lambda: rng.choice(["euler", "heun", "ssp3"]), "adaptive": lambda: True,
                "exact_flux": lambda: True, "flux": lambda: rng.choice(sorted(FLUXES)),
                "gamma": lambda: rng.choice([0.0, 0.5, round(rng.uniform(0, 1), 2)]),
                "coarsen": lambda: rng.choice([1, 2, 4])}[option]()
    if "mesh" not in spec and (table[cls][0] is fem or rng.random() < 0.5):
        spec["mesh"] = rng.randint(3, 24)
    if cls == "coarse":
        degree = spec.get("coarsen", 8)
        if "mesh" in spec:
            spec["mesh"] = degree * rng.randint(3, 6)
    return spec


def _width(line):
    benchmark = _benchmark(line)
    table = WATER if line["problem"] == "swe" else SCALAR
    result = []
    for spec in line["solvers"]:
        mesh = spec.get("mesh", table[spec["cls"]][4])
        cfl = spec.get("cfl", table[spec["cls"]][3])
        result.append(cfl * benchmark.domain.length / mesh)
    return result


def _line(rng, networks):
    command = rng.choice(["calculate", "calculate", "calculate", "plot", "animate", "plot-error-evolution"])
    problem = "swe" if command == "plot-error-evolution" else rng.choice(["advection", "burgers", "swe", "swe"])
    module, keys, _ = BENCHMARKS[problem]
    line = {"command": command, "problem": problem, "style": rng.randrange(10 ** 6), "refuse": None,
            "fault": None, "hide": rng.random() < 0.7, "save": rng.choice([None, None, "out/a.png", "b.png", ""]),
            "data": rng.choice([None, "out/d.pkl"]), "initial": rng.random() < 0.3,
            "points": rng.randint(5, 30), "args": rng.random() < 0.15, "profile": rng.choice([None, None, None, 3])}
    kind = rng.choice(["default", "key", "key", *(["random"] if problem == "swe" else [])])
    line["benchmark"] = {"kind": kind, "key": rng.choice(sorted(keys)), "seed": rng.randint(0, 99)}
    table = WATER if problem == "swe" else SCALAR
    classes = sorted(c for c in table if networks or c not in world.REDUCED)
    if kind == "key" and line["benchmark"]["key"] in BOTTOM:
        classes = [c for c in classes if c in ("low-order", "mcl", "llf")]
    if kind == "key" and "damm" in line["benchmark"]["key"] or kind == "key" and problem == "swe" and \
            "lake" in line["benchmark"]["key"]:
        classes = [c for c in classes if c not in world.REDUCED]
    count = 2 if command == "plot-error-evolution" else rng.choice([1, 1, 2, 3]) if rng.random() < 0.9 else rng.randint(4, 7)
    line["solvers"] = [_solver(rng, rng.choice(classes), table) for _ in range(count)]
    if command == "plot-error-evolution":
        mesh = rng.randint(3, 16)
        for spec in line["solvers"]:
            if spec["cls"] == "coarse":
                spec["coarsen"] = rng.choice([1, 2, 4])
            spec["mesh"] = mesh * (spec["coarsen"] if spec["cls"] == "coarse" else 1)
    if command != "calculate":
        for k, spec in enumerate(line["solvers"]):
            spec["short"] = f"short{k}"  # results are stored by their short name
    speed = 8.0 if problem == "swe" else 2.0
    width = min(_width(line))
    line["end"] = float(f"{width / speed * rng.choice([0.3, 1, 2, 4, 7.5]):.4g}")
    if problem == "burgers":
        line["end"] = min(line["end"], 0.5)  # later, near the shock, the exact solution is hard to find
    if rng.random() < 0.25 and not any(s["cls"] in world.REDUCED for s in line["solvers"]):
        line["end"] = None  # the benchmark's own, on meshes which are coarse enough for it
        for spec in line["solvers"]:
            spec["mesh"] = rng.randint(3, 6) if command != "plot-error-evolution" else 4
            spec["cfl"] = round(rng.uniform(0.15, 0.5), 3)
            if spec["cls"] == "coarse":
                spec["coarsen"] = rng.choice([1, 2])
                spec["mesh"] = spec["coarsen"] * (rng.randint(3, 5) if command != "plot-error-evolution" else 4)
        if rng.random() < 0.4 and problem != "burgers":  # longer than the benchmark's own
            end = round(_benchmark(line).end_time * rng.uniform(1.01, 9), 3)
            if end * speed < 1500 * min(_width(line)):
                line["end"] = end
    if rng.random() < 0.25:
        line["refuse"] = rng.choice(REFUSALS)
        line["detail"] = rng.randrange(100)
        if line["refuse"] == "number":
            if command != "plot-error-evolution":
                return _line(rng, networks)
    elif rng.random() < 0.25:
        line["fault"] = {"solver": rng.randrange(count), "at": rng.choice([1, 2, rng.randint(1, 9)]),
                         "error": rng.choice(list(ERRORS))}
    return line


def generate(rng, i):
    networks = rng.random() < 0.12
    return {"networks": networks, "lines": [_line(rng, networks) for _ in range(rng.choice([1, 2, 3, 4]))]}


SHRINK_LISTS = {"lines": 1, "solvers": 1}
SHRINK_NUMBERS = {"at": 1, "style": 0}


# ---------------------------------------------------------------- command line
def _written(rng, names, value):
    """An option the way a user may write it."""
    name = rng.choice(names)
    if value is True:
        return [name]
    value = repr(value) if isinstance(value, float) else str(value)
    if len(name) > 2 and name[0] == name[1] and rng.random() < 0.25:
        return [f"{name}={value}"]
    return [name, value]


def _solver_words(rng, spec):
    options = [o for o in OPTIONS if o in spec]
    rng.shuffle(options)
    return [spec["cls"], *(w for o in options for w in _written(rng, OPTIONS[o], spec[o]))]


def _refused_solver(line, kind, pick):
    """Solver words with a mistake in them."""
    water = line["problem"] == "swe"
    good = ["low-order" if water else "cg-low", "+m", "5"]
    wrong = {
        "solver": [["upwind", "+m", "5"], ["LLF"], ["mcl-"], ["low"], ["cent"], ["ll"], [""]],
        "second-solver": [[*good, "upwind"], [*good, "upwind", "+m", "5"], [*good, "5"], [*good, "ll"],
                          [*good, "Central"]],
        "mesh": [[good[0], "+m", v] for v in ("0", "x", "1.5", "1e3", "-4", "")],
        "cfl": [[good[0], "++cfl", v] for v in ("0", "fast", "0.0", "-0.1", "0.1,")],
        "ode": [[*good, "+o", v] for v in ("rk9", "Heun", "3", "ssp", "e", "heun ")],
        "flux": [["mcl", "+f", v] for v in ("upwind", "mcl", "LLF", "e", "low", "es2", "l", "")],
        "option": [[*good, "+q", "3"], [*good, "++flow", "llf"]],
        "missing": [[good[0], "+m"], [*good, "+o"], [*good, "++cfl"]],
        "foreign": [["cg"], ["mcl-fv"], ["mcl-fem", "+m", "4"]] if water else [["lw"], ["mcl"], ["es1"]],
        "foreign-option": [["lw", "+o", "heun"], ["es", "+g", "0.1"], ["mcl", "+c", "2"],
                           ["low-order", "++adaptive"]] if water else
                          [["llf", "+o", "heun"], ["cg", "+f", "llf"], ["mcl-fv", "++adaptive"]],
        "parameter": [["coarse", "+m", "8", "+c", "0"], ["coarse", "+c", "-2", "+m", "8"],
                      ["antidiffusion", "+g", "much", "+m", "5"]],
    }[kind]
    return wrong[pick % len(wrong)]


def _arguments(line):
    rng = random.Random(line["style"])
    words = [line["command"]]
    if line["command"] != "plot-error-evolution":
        words.append(line["problem"])
    groups = []
    chosen = line["benchmark"]
    if chosen["kind"] == "key":
        groups.append(_written(rng, ("-b", "--benchmark"), chosen["key"]))
    elif chosen["kind"] == "random":
        groups.append(_written(rng, ("-r", "--random-benchmark"), chosen["seed"]))
    if line["end"] is not None:
        groups.append(_written(rng, ("-T", "--end-time"), line["end"]))
    solvers = [_solver_words(rng, spec) for spec in line["solvers"]]
    refuse, pick = line["refuse"], line.get("detail", 0)
    if refuse in ("flux", "parameter") and line["problem"] != "swe":
        refuse = "ode"
    if refuse == "two-benchmarks" and line["problem"] != "swe":
        refuse = "benchmark"
    if refuse == "problem" and len(words) == 1:
        refuse = "command"
    if refuse == "command":
        words[0] = ["solve", "calc", "Plot", "calculate-"][pick % 4]
    elif refuse == "problem":
        words[1] = ["heat", "SWE", "euler"][pick % 3]
    elif refuse == "benchmark":
        groups = [g for g in groups if g[0][:3] not in ("-b", "-r", "--b", "--r")]
        groups.append(["-b", ["none", {"swe": "cos"}.get(line["problem"], "oscillation"), "b9",
                              {"swe": "lake"}.get(line["problem"], "s"), ""][pick % 5]])
    elif refuse == "end":
        groups = [g for g in groups if g[0][:3] not in ("-T", "--e")]
        groups.append(["-T", ["0", "-1", "soon", "-0.5"][pick % 4]])
    elif refuse == "two-benchmarks":
        groups = [g for g in groups if g[0][:3] not in ("-b", "-r", "--b", "--r")]
        groups += [["-b", "b2"], ["-r", "3"]]
    elif refuse == "number":
        solvers = solvers[:1] if pick % 2 else [*solvers, ["llf", "+m", "6"]]
    elif refuse:
        at = pick % (len(solvers) + 1) if refuse not in ("second-solver", "missing", "solver") else len(solvers)
        wrong = _refused_solver(line, refuse, pick // 7)
        if refuse == "solver":
            solvers = [wrong]
        elif line["command"] == "plot-error-evolution":
            solvers[min(at, 1)] = wrong
        else:
            solvers.insert(at, wrong)
    groups.append([rng.choice(["-s", "--solver"]), *(w for s in solvers for w in s)])
    if line["command"] in ("plot", "animate"):
        groups.append(_written(rng, ("-m", "--mesh-size"), line["points"]))
        groups += [["--initial"]] if line["initial"] else []
    if line["command"] == "animate":
        groups.append(["--time_steps", "2"])
    if line["command"] != "calculate":
        groups += [["--hide"]] if line["hide"] else []
        save = _save(line)
        groups += [["--save"] if line["save"] == "" else ["--save", save]] if save else []
        if line["command"] == "plot" and line["data"]:
            groups.append(["--save-data", line["data"]])
    groups += [["--args"]] if line["args"] else []
    groups += [["--profile", str(line["profile"])]] if line["profile"] else []
    rng.shuffle(groups)
    return words + [w for g in groups for w in g]


def _save(line):
    """The file of the picture or film."""
    default = {"plot": "data/plot.png", "animate": "data/animation.mp4",
               "plot-error-evolution": "data/error.png"}.get(line["command"])
    if line["save"] == "":
        return default
    if line["save"] and line["command"] == "animate":
        return line["save"].replace(".png", ".mp4")
    return line["save"] and default and line["save"]


# ---------------------------------------------------------------- reference
def _class(module, name, parsers, key):
    return getattr(module, name, None) or parsers[key].solver


def _benchmark(line):
    module, keys, default = BENCHMARKS[line["problem"]]
    chosen = line["benchmark"]
    if chosen["kind"] == "random":
        benchmark = shallow_water.RandomOscillationNoTopographyBenchmark(seed=chosen["seed"])
    else:
        key = default if chosen["kind"] == "default" else chosen["key"]
        cls = getattr(module, keys[key], None) or module.BENCHMARKS[key]
        benchmark = cls()
    if line.get("end") is not None:
        benchmark.end_time = line["end"]
    return benchmark


def _build(line, spec):
    water = line["problem"] == "swe"
    module, name, options, cfl, mesh = (WATER if water else SCALAR)[spec["cls"]]
    kwargs = {"mesh_size": spec.get("mesh", mesh), "cfl_number": spec.get("cfl", cfl),
              "save_history": line["command"] in ("animate", "plot-error-evolution")}
    if "ode" in options:
        kwargs["ode_solver_type"] = world.ODES[spec.get("ode", "heun")]
    if "flux" in spec:
        kwargs["flux_getter"] = getattr(swe, FLUXES[spec["flux"]])()
    if "gamma" in options:
        kwargs["gamma"] = spec.get("gamma", 0.1) or 1e-250  # nothing which can be told from zero
    if "coarsen" in options:
        kwargs["coarsening_degree"] = spec.get("coarsen", 8)
    for flag in FLAGS:
        if flag in options:
            kwargs[flag] = spec.get(flag, False)
    parsers = world.SHALLOW_WATER_SOLVER_PARSER if water else world.SCALAR_SOLVER_PARSER
    return _class(module, name, parsers, spec["cls"])(_benchmark(line), **kwargs)


def _state(solver):
    solution = solver.solution
    return {"class": type(solver).__name__, "time": float(solution.time), "value": np.array(solution.value),
            "grid": np.array(solution.grid),
            "times": np.array(solution.time_history) if world.has_history(solution) else None,
            "values": np.array(solution.value_history) if world.has_history(solution) else None}


def _reference(line, k):
    """Solver K of LINE, put together by hand."""
    fault = line["fault"] if line["fault"] and line["fault"]["solver"] == k else None
    hooks = RhsFault(fault and {"kind": "rhs-before", "error": fault["error"]}, fault and fault["at"])
    with world.hooked(hooks):
        solver = _build(line, line["solvers"][k])
    hooks.calls = 0
    outcome = world.solve(solver)
    return dict(_state(solver), error=outcome.error_name, calls=hooks.calls)


# ---------------------------------------------------------------- simulated
class _Hooks(RhsFault):
    """Counts the evaluations of the solver of the line which is to fail."""

    def before(self, hooked, time, value):
        if self.active:
            super().before(hooked, time, value)

    def after(self, hooked, time, value, result):
        return super().after(hooked, time, value, result) if self.active else result


def _process(scenario):
    studio, log = movies.Studio(), []
    original, depth = core.Solver.solve, []
    os.makedirs("out", exist_ok=True)
    hooks = _Hooks()
    solved = []

    def solve(self, *args, **kwargs):
        line = scenario["lines"][len(log)]
        fault = line["fault"]
        hooks.active = bool(fault) and fault["solver"] == len(solved)
        hooks.calls = 0
        entry = {"name": self.name, "short": self.short, "before": float(self.solution.time)}
        solved.append(entry)
        depth.append(1)
        try:
            return original(self, *args, **kwargs)
        except BaseException as error:
            entry["error"] = type(error).__name__
            raise
        finally:
            depth.pop()
            hooks.active = False
            entry.setdefault("error", None)
            try:
                entry.update(_state(self))
            except Exception as error:
                entry["unreadable"] = type(error).__name__

    core.Solver.solve = solve
    with studio.installed(), world.hooked(hooks):
        for line in scenario["lines"]:
            hooks.active, hooks.fired, hooks.calls = False, False, 0
            fault = line["fault"]
            hooks.fault = fault and {"kind": "rhs-before", "error": fault["error"]}
            hooks.at = fault and fault["at"]
            solved.clear()
            files = _files()
            for path in files:
                os.unlink(path)
            counts = [len(x) for x in (studio.saved, studio.films, studio.shown, studio.watched)]
            outcome = _run(_arguments(line))
            log.append({"outcome": outcome, "solved": list(solved), "fired": hooks.fired,
                        "files": _files(), "saved": studio.saved[counts[0]:],
                        "films": [f.name for f in studio.films[counts[1]:]],
                        "shown": studio.shown[counts[2]:], "watched": len(studio.watched) - counts[3]})
            figures.plt.close("all")
    return log


def _files():
    return sorted(os.path.join(d, f).replace("./", "", 1) for d in ("out", "data", ".") if os.path.isdir(d)
                  for f in os.listdir(d) if f.endswith((".png", ".mp4", ".pkl")) and
                  os.path.isfile(os.path.join(d, f)))


def _run(arguments):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            cli.main(*arguments)
        except SystemExit:
            return "refused"
        except (Exception, KeyboardInterrupt) as error:
            return type(error).__name__
    return None


# ---------------------------------------------------------------- judgement
def execute(scenario, run):
    os.makedirs("data", exist_ok=True)
    if scenario["networks"]:
        os.rmdir("data")
        world.provide_networks(".")
    references = [[] if line["refuse"] else [world.isolated(_reference, line, k)
                                             for k in range(len(line["solvers"]))]
                  for line in scenario["lines"]]
    log = world.isolated(_process, scenario)
    for n, (line, entry, refs) in enumerate(zip(scenario["lines"], log, references)):
        words = " ".join(_arguments(line))
        what = f"line {n}, cls1 {words}"
        run.event(words, str(entry["outcome"]), [s.get("value") for s in entry["solved"]])
        run.state(line["command"], line["problem"], line["benchmark"]["kind"], [sorted(s) + [s["cls"]] for s in
                  line["solvers"]], line["refuse"], line["fault"] and line["fault"]["error"], n)
        if line["refuse"]:
            run.fault(f"mistake in a command line ({line['refuse']})")
            check(entry["outcome"] is not None, "accepted", f"{what}: is accepted")
            check(not entry["solved"], "solves", f"{what}: is wrong, but {len(entry['solved'])} solvers "
                  "were solved")
            check(not entry["files"] and not entry["shown"] and not entry["watched"], "results",
                  f"{what}: is wrong, but saves {entry['files']}")
            run.count("mistaken lines refused")
            continue
        _judge(what, line, entry, refs, run)
    run.nontrivial = True


def _judge(what, line, entry, refs, run):
    failing = [r["error"] for r in refs]
    if entry["fired"]:
        run.fault(f"solve raises {line['fault']['error']}")
    passes = line["command"] in ("plot", "animate")  # these go on with the other solvers
    stop = next((k for k, e in enumerate(failing) if e and (not passes or e == "KeyboardInterrupt")), None)
    expected = refs if stop is None else refs[:stop + 1]
    check(len(entry["solved"]) == len(expected), "solvers", f"{what}: {len(entry['solved'])} solvers are "
          f"solved instead of {len(expected)} (ends with {entry['outcome']})")
    for k, (found, wanted) in enumerate(zip(entry["solved"], expected)):
        spec = line["solvers"][k]
        name = f"{what}: solver {k}"
        check("unreadable" not in found, "unreadable", f"{name}: reading its solution fails")
        check(found["class"] == wanted["class"], "class", f"{name} is a {found['class']}, not a "
              f"{wanted['class']}")
        check(found["short"] == spec.get("short", spec["cls"]), "short", f"{name} is called "
              f"'{found['short']}'")
        check(found["name"] == spec["name"] if "name" in spec else found["name"], "name",
              f"{name} has the name '{found['name']}'")
        check(found["error"] == wanted["error"], "outcome", f"{name} ends with {found['error']} instead of "
              f"{wanted['error']}")
        same = _nearly if spec.get("gamma") == 0 else world.same
        check(found["time"] == wanted["time"] and same(found["value"], wanted["value"]) and
              world.same(found["grid"], wanted["grid"]), "solution", lambda: f"{name} computes another "
              f"solution than one which was built directly (time {found['time']!r} and {wanted['time']!r}, "
              f"{len(found['grid'])} and {len(wanted['grid'])} points)", solver=spec["cls"])
        if wanted["times"] is not None:
            check(found["times"] is not None and world.same(found["times"], wanted["times"]) and
                  same(found["values"], wanted["values"]), "history", f"{name} has not the history "
                  "which the command needs", solver=spec["cls"])
        run.count("solves compared")
        run.sim_time += found["time"]
    if stop is not None:
        check(entry["outcome"] == failing[stop], "ends", f"{what}: ends with {entry['outcome']} instead of "
              f"{failing[stop]}")
        return
    _judge_output(what, line, entry, refs, run)


def _nearly(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-200, equal_nan=True)


def _pictures(line):
    path = _save(line)
    if path is None:
        return []
    if line["command"] == "plot" and line["problem"] == "swe":
        base, extension = os.path.splitext(path)
        return sorted(base + suffix + extension for suffix in ("_h", "_q", "_v"))
    return [path]


def _judge_output(what, line, entry, refs, run):
    if line["command"] == "calculate":
        check(entry["outcome"] is None, "fails", f"{what}: ends with {entry['outcome']}")
        check(not entry["files"] and not entry["shown"], "results", f"{what}: saves {entry['files']}")
        return
    if not all(np.isfinite(r["value"]).all() for r in refs):
        raise Inconclusive("a solution is not finite")
    check(entry["outcome"] is None, "fails", f"{what}: ends with {entry['outcome']}")
    shown = entry["watched"] if line["command"] == "animate" else len(entry["shown"])
    check(bool(shown) == (not line["hide"]), "shown", f"{what}: shows {shown} figures")
    names = entry["films"] if line["command"] == "animate" else sorted(p for p, _ in entry["saved"])
    check(names == _pictures(line), "pictures", f"{what}: saves {names} instead of {_pictures(line)}")
    for name in names:
        check(name in entry["files"], "pictures", f"{what}: '{name}' is not written")
    if line["command"] == "plot":
        _judge_data(what, line, entry)
    if line["command"] == "plot-error-evolution" and (names or shown) and np.sqrt(
            (refs[1]["values"] ** 2).sum(axis=1)).min() > 1e-6:  # else 0 / 0
        times, errors = c19._curve([(r["times"], r["values"], r["grid"], r["value"]) for r in refs])
        for content in [c for _, c in entry["saved"]] + [f for figs in entry["shown"] for f in figs]:
            c19._check_lines(what, content, [(times, errors[:, 0]), (times, errors[:, 1])])
        run.count("error curves compared")
    if line["command"] == "plot":
        grids = [len(r["grid"]) for r in refs]
        for content in [c for _, c in entry["saved"]]:
            sizes = [len(x) for ax in content for _, x, _ in ax]
            functions = list(sizes)
            for g in grids:
                if g in functions:
                    functions.remove(g)
            check(set(functions) <= {line["points"]} and (functions or not line["initial"]), "points",
                  f"{what}: draws lines of {sizes} points")
    run.count("outputs compared")


def _judge_data(what, line, entry):
    path = line["data"] or (os.path.splitext(_save(line))[0] + ".pkl" if _save(line) else "data/plot.pkl")
    base, extension = os.path.splitext(path)
    found = [f for f in entry["files"] if f.endswith(".pkl")]
    wanted = sorted(base + s + extension for s in ("_h", "_q", "_v")) if line["problem"] == "swe" else [path]
    check(found == wanted, "data", f"{what}: saves the data {found} instead of {wanted}")
