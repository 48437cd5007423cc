"""C20: plots show exactly what was computed, even when some solvers fail."""
import os
import pickle
import re

import numpy as np
from benchmark import advection, burgers, shallow_water
from command.plot import Plot, ScalarPlotter, ShallowWaterPlotter

from .. import cli, figures, world
from ..base import check
from ..disk import Disk
from ..faults import ERRORS, RhsFault

QUICK, THOROUGH, TIMEOUT = 450, 15000, 90
LEVEL = "exploration"
RULE = ("one evaluation = a seeded sequence of plots in one process in which solves and writes fail "
        "at seeded points; every line saved, drawn or shown is compared with a solve of the single "
        "solver in another process")
REAL = ["Plot, ScalarPlotter, ShallowWaterPlotter, Calculate, the plot command line, the solvers, "
        "matplotlib's figures and axes"]
STUBS = ["matplotlib's rasterisation: saving a figure records its lines and writes a small file",
         "the window system: showing records all open figures and closes them",
         "the disk below Python's buffers"]
STATE_MEASURE = "(problem, solvers and how each ends, what is saved and shown, kinds of faults)"
ASSUMPTIONS = ["plots follow each other; two plotters "
               "are not used at the same time"]
CLI_BENCHMARKS = {"advection": (advection, "plot"), "burgers": (burgers, "plot"),
                  "swe": (shallow_water, "plot")}


def generate(rng, i):
    plots = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        problem = rng.choice(["advection", "burgers", "swe", "swe"])
        plots.append(_cli_plot(rng, problem) if rng.random() < 0.15 else _plot(rng, problem))
    return {"plots": plots}


def _common(rng):
    one = {"show": rng.random() < 0.35, "save_plot": rng.random() < 0.5,
           "save_data": rng.random() < 0.85, "points": rng.choice([7, 11, 30]),
           "initial": rng.random() < 0.4, "disk": [], "short": rng.choice([0, 0, 1, 100]),
           "name": rng.choice(["a", "a", "b"]), "keep": rng.random() < 0.7}
    if rng.random() < 0.3 and (one["save_plot"] or one["save_data"]):
        one["disk"] = [{"at": rng.randrange(4 if rng.random() < 0.5 else 10), "part": rng.random(),
                        "kind": rng.choice(["enospc", "eio", "eacces"])}]
    return one


def _plot(rng, problem):
    one = _common(rng)
    one.update(problem=problem, cli=False, executed=rng.random() < 0.15, solvers=[])
    steps = rng.randint(1, 6)
    if problem == "swe":
        flat = rng.random() < 0.5
        bench, first = world.random_swe(rng, rng.choice(world.SWE[:6]), steps,
                                        bathy=None if flat else (-0.3, 0.3))
        classes = world.SWE if flat else [c for c in world.SWE if c != "lw"]
        def another():
            return world.random_swe(rng, rng.choice(classes), steps)[1]
        if rng.random() < 0.4:
            bench["exact"] = {"h": world.random_profile(rng, 0.5, 2.0),
                              "v": world.random_profile(rng, -1.0, 1.0)}
    else:
        bench, first = world.random_scalar(rng, rng.choice(world.SCALAR_FV), steps, problem=problem,
                                           bcs=[["periodic"]])
        def another():
            return world.random_scalar(rng, rng.choice(world.SCALAR_FV + world.SCALAR_FE), steps,
                                       problem=problem, bcs=[["periodic"]])[1]
        if rng.random() < 0.4:
            bench["exact"] = world.random_profile(rng, -2.0, 2.0)
    one["bench"] = bench
    if bench.get("bathy"):  # whether the bathymetry is flat depends on the points
        one["points"] = rng.choice([23, 30])
    same = rng.random() < 0.2  # as many cells as points
    for k in range(rng.choice([1, 2, 2, 3])):
        spec = first if k == 0 else another()
        spec.update(short=f"solver {k}", name=f"Solver {k}")
        if k and rng.random() < 0.15:
            spec["short"] = "solver 0"
        if same and (k or rng.random() < 0.5) and one["points"] % spec.get("coarsen", 1) == 0:
            spec["mesh"] = one["points"]
        fault = None
        if rng.random() < 0.4:
            fault = {"kind": rng.choice(["rhs-before", "rhs-after"]), "error": rng.choice(list(ERRORS)),
                     "at": rng.choice([1, 2, 3, rng.randint(1, 15)])}
            if rng.random() < 0.25:
                fault.update(kind="rhs-poison", where=0.5, poison="nan")
        one["solvers"].append({"spec": spec, "fault": fault})
    if rng.random() < 0.03:
        one["solvers"] = []
    return one


def _cli_plot(rng, problem):
    one = _common(rng)
    classes = ["llf", "low-order", "mcl", "es1"] if problem == "swe" else ["llf", "mcl-fv", "cg-low"]
    end = 0.5 if problem == "swe" else 0.02
    one.update(problem=problem, cli=True, end=end, solvers=[])
    for k, cls in enumerate(rng.sample(classes, rng.choice([1, 2]))):
        one["solvers"].append({"spec": {"cls": cls, "mesh": rng.randint(5, 10), "cfl": 0.03,
                                        "short": f"s{k}", "name": f"Solver{k}"}, "fault": None})
    one["save_data"] = True
    return one


SHRINK_LISTS = {"plots": 1, "solvers": 1, "disk": 0}
SHRINK_NUMBERS = {"at": 0, "points": 30, "short": 0}


def _benchmark(one):
    if not one["cli"]:
        return world.build_benchmark(one["bench"])
    module, key = CLI_BENCHMARKS[one["problem"]]
    benchmark = module.BENCHMARK_DEFAULTS[key]()
    benchmark.end_time = one["end"]
    return benchmark


def _build(item, benchmark, run=None):
    fault = item["fault"]
    with world.hooked(RhsFault(fault, fault["at"] if fault else None)) as hooks:
        if "ode" in item["spec"]:
            return world.build_solver(item["spec"], benchmark), hooks
        spec = item["spec"]
        problem = "swe" if hasattr(benchmark, "bathymetry") else "scalar"
        cls = world.solver_class(problem, spec["cls"])
        return cls(benchmark, mesh_size=spec["mesh"], cfl_number=spec["cfl"],
                   save_history=spec.get("history", False)), hooks


def _single(one, k):
    """Solver K alone: (time, grid, value, error)."""
    solver, _ = _build(one["solvers"][k], _benchmark(one))
    outcome = world.solve(solver)
    solution = solver.solution
    return (float(solution.time), np.array(solution.grid), np.array(solution.value),
            outcome.error_name)


def _arguments(one, base):
    solvers = []
    for item in one["solvers"]:
        spec = item["spec"]
        solvers += [spec["cls"], "+m", spec["mesh"], "++cfl", spec["cfl"], "+s", spec["short"]]
    return ["plot", one["problem"], "-m", one["points"], "-T", one["end"], "--save-data",
            base + ".pkl", *(["--save", base + ".png"] if one["save_plot"] else []),
            *([] if one["show"] else ["--hide"]), *(["--initial"] if one["initial"] else []),
            *(["-s", *solvers] if solvers else [])]


def _process(scenario):
    gallery = figures.Gallery()
    log = []
    with gallery.installed():
        for one in scenario["plots"]:
            base = "out/" + one["name"]
            disk = Disk("out", one["disk"], short=one["short"])
            saved, shown, hidden = len(gallery.saved), len(gallery.shown), len(gallery.hidden)
            hooks = []
            if one["cli"]:
                def go():
                    cli.main(*_arguments(one, base))
            else:
                benchmark = _benchmark(one)
                solvers = []
                for item in one["solvers"]:
                    solver, hook = _build(item, benchmark)
                    solvers.append(solver)
                    hooks.append(hook)
                if one["executed"]:
                    for solver in solvers:
                        world.solve(solver)
                plotter = (ShallowWaterPlotter if one["problem"] == "swe" else ScalarPlotter)(
                    benchmark, mesh_size=one["points"], show=one["show"],
                    save_plot=base + ".png" if one["save_plot"] else None,
                    save_data=base + ".pkl" if one["save_data"] else None)
                go = Plot(benchmark, solvers, plotter, initial=one["initial"],
                          solver_executed=one["executed"]).execute
            with disk.mounted():
                outcome = world.attempt(go)
            data = {}
            for suffix in ("_h", "_q", "_v") if one["problem"] == "swe" else ("",):
                path = base + suffix + ".pkl"
                if os.path.exists(path):
                    try:
                        with open(path, "rb") as f:
                            data[suffix] = pickle.load(f)
                    except Exception as error:  # judged below
                        data[suffix] = str(error)
            log.append({"outcome": outcome.error_name, "text": str(outcome.error), "disk": disk.fired,
                        "warnings": outcome.warnings, "data": data,
                        "saved": gallery.saved[saved:], "shown": gallery.shown[shown:],
                        "hidden": gallery.hidden[hidden:],
                        "open": len(figures.plt.get_fignums()),
                        "fired": [h.fired for h in hooks]})
            if outcome.error is not None or disk.fired or not one["keep"]:
                for suffix in data:
                    os.remove(base + suffix + ".pkl")
    return log


# ---------------------------------------------------------------- oracle
def expected_lines(one, references):
    """{suffix of the file: [(label, x, y)]}."""
    benchmark = _benchmark(one)
    points = np.linspace(benchmark.domain.a, benchmark.domain.b, one["points"])
    functions = []
    if one["initial"]:
        functions.append(("0", benchmark.initial_data))
    try:
        benchmark.exact_solution_at_end_time(points[0])
        functions.append(("t", benchmark.exact_solution_at_end_time))
    except Exception:
        pass
    result = {}
    if one["problem"] != "swe":
        lines = result[""] = []
        for name, function in functions:
            lines.append(("$u_0$" if name == "0" else f"$u(t={benchmark.end_time:.1f})$",
                          points, np.array([function(x) for x in points])))
        for item, (_, grid, value, _) in zip(one["solvers"], references):
            lines.append((item["spec"]["short"], grid, value))
        return result
    flat = np.ptp([float(benchmark.bathymetry(x)) for x in np.linspace(points[0], points[-1], 61)]) < 1e-9
    end = f"(t={benchmark.end_time:.1f})$"
    for suffix, initial, exact in (("_h", "$h_0$", "$h" if flat else "$h+b"), ("_q", "$q_0$", "$q"),
                                   ("_v", "$v_0$", "$u")):
        lines = result[suffix] = []
        values = [(initial if name == "0" else exact + end, points,
                   np.array([function(x) for x in points])) for name, function in functions]
        values += [(item["spec"]["short"], grid, value)
                   for item, (_, grid, value, _) in zip(one["solvers"], references)]
        for label, grid, value in values:
            with np.errstate(all="ignore"):
                y = {"_h": value[:, 0] + [benchmark.bathymetry(x) for x in grid], "_q": value[:, 1],
                     "_v": value[:, 1] / value[:, 0]}[suffix]
            lines.append((label, grid, y))
    if not flat:
        result["_h"].append(("$b$", points, np.array([benchmark.bathymetry(x) for x in points])))
    return result


def nothing(one, expected):
    return not one["solvers"] and all({l[0] for l in lines} <= {"$b$"} for lines in expected.values())


def _equal(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True)


def _compare(what, found, expected, skip=(), numbered=False):
    """FOUND and EXPECTED: [(label, x, y)]. NUMBERED: names of curves with the same label differ."""
    found = sorted(((_label(f[0], expected) if numbered else f[0], *f[1:]) for f in found), key=lambda f: f[0])
    labels, wanted = [f[0] for f in found if f[0] not in skip], [e[0] for e in expected if e[0] not in skip]
    check(labels == sorted(wanted), "lines", lambda: f"{what}: contains the lines {labels} instead of {wanted}")
    left = list(expected)
    for label, x, y in found:
        if label in skip:
            continue
        same = [k for k, (l, u, v) in enumerate(left) if l == label and _equal(x, u) and _equal(y, v)]
        check(same, "values", f"{what}: the line '{label}' is not what was computed")
        del left[same[0]]


def _label(name, expected):
    """The label which several curves share begins the names under which each of them is saved."""
    labels = [e[0] for e in expected]
    shared = [label for label in labels if labels.count(label) > 1 and str(name).startswith(label)]
    return shared[0] if shared else name


def _undefined(expected, references):
    """Velocities of (nearly) dry or broken cells are a matter of definition."""
    broken = [label for label, _, y in expected.get("_v", [])
              if not np.isfinite(y).all() or np.abs(y).max() > 1e6]
    return broken + [label for label, value in references if not (value[:, 0] > 1e-6).all()]


def execute(scenario, run):
    os.makedirs("out")
    references = [[world.isolated(_single, one, k) for k in range(len(one["solvers"]))]
                  for one in scenario["plots"]]
    log = world.isolated(_process, scenario)
    for number, (one, refs, entry) in enumerate(zip(scenario["plots"], references, log)):
        what = f"plot {number} ({one['problem']}, " \
               f"{[(i['spec']['cls'], r[3]) for i, r in zip(one['solvers'], refs)]}, {entry['disk']})"
        run.event("plot", number, str(entry["outcome"]), entry["warnings"], entry["disk"],
                  [r[2] for r in refs])
        for kind in entry["disk"]:
            run.fault(f"{kind} while saving")
        for (_, _, _, error) in refs:
            if error:
                run.fault(f"solve ends with {error}")
        run.state(one["problem"], [(i["spec"]["cls"], r[3]) for i, r in zip(one["solvers"], refs)],
                  one["save_plot"], one["save_data"], one["show"], entry["disk"], entry["outcome"])
        run.sim_time += sum(r[0] for r in refs)
        executed = not one["cli"] and one["executed"]
        if "KeyboardInterrupt" in [r[3] for r in refs] and not executed:
            check(entry["outcome"] == "KeyboardInterrupt", "interrupt", f"{what}: an interrupt ends "
                  f"with {entry['outcome']}")
            check(entry["open"] == 0, "open", f"{what}: an interrupt leaves {entry['open']} figures open")
            continue
        if entry["disk"] and entry["outcome"] is None:
            check(not any(isinstance(d, str) for d in entry["data"].values()), "failure-hidden",
                  f"{what}: a failing write is not reported")
        elif entry["disk"]:
            check(entry["outcome"] in ("OSError", "PermissionError") or "injected" in entry["text"],
                  "failure", f"{what}: ends with {entry['outcome']}: {entry['text']}")
            check(not entry["shown"], "shown", f"{what}: a plot which cannot be saved is shown")
            run.count("plots whose saving failed")
            continue
        check(entry["outcome"] is None, "fails", f"{what}: ends with {entry['outcome']}: "
              f"{entry['text']}")
        expected = expected_lines(one, refs)
        if nothing(one, expected):
            check(entry["outcome"] is None and not entry["shown"] and not entry["open"] and not
                  entry["saved"], "nothing", f"{what}: a plot of nothing shows {entry['shown']}, saves "
                  f"{entry['saved']}, ends with {entry['outcome']} and {entry['open']} open figures")
            continue
        skip = _undefined(expected, [(item["spec"]["short"], r[2]) for item, r in zip(one["solvers"], refs)
                                     if one["problem"] == "swe"])
        if one["save_data"]:
            check(sorted(entry["data"]) == sorted(expected), "files", f"{what}: saves "
                  f"{sorted(entry['data'])}")
            for suffix, results in entry["data"].items():
                check(isinstance(results, dict), "unreadable", f"{what}: the file '{suffix}' cannot "
                      f"be read back: {results}")
                _compare(what + f", data {suffix}", [(k, v["xdata"], v["ydata"]) for k, v in
                                                     results.items()], expected[suffix],
                         skip if suffix == "_v" else (), numbered=True)
            run.count("result files compared", len(expected))
        if one["save_plot"]:
            pictures = {os.path.basename(p): c for p, c in entry["saved"]}
            names = {one["name"] + suffix + ".png": suffix for suffix in expected}
            check(sorted(pictures) == sorted(names) and len(entry["saved"]) == len(names), "files",
                  f"{what}: saves the pictures {sorted(pictures)}")
            for name, suffix in names.items():
                _compare(what + f", picture {suffix}", [l for ax in pictures[name] for l in ax],
                         expected[suffix], skip if suffix == "_v" else ())
        if one["show"]:
            check(len(entry["shown"]) == 1, "shown", f"{what}: shows {len(entry['shown'])} times")
            shown = [[l for ax in figure for l in ax] for figure in entry["shown"][0]]
            shown = [figure for figure in shown if figure]
            check(len(shown) == len(expected), "shown", lambda: f"{what}: shows {len(shown)} plots "
                  f"with the lines {[[l[0] for l in f] for f in shown]}")
            for figure, (suffix, lines) in zip(shown, expected.items()):
                _compare(what + f", window {suffix}", figure, lines, skip if suffix == "_v" else ())
        else:
            check(not entry["shown"], "shown", f"{what}: shows a hidden plot")
            check(entry["open"] == 0, "open", f"{what}: leaves {entry['open']} hidden figures open")
        check(not entry["hidden"], "visible", lambda: f"{what}: a curve is partly outside of its axes: "
              f"{entry['hidden'][0]}")
        if not executed:
            _check_warnings(what, refs, entry["warnings"])
        run.count("plots compared")
    run.nontrivial = True


def _check_warnings(what, refs, warnings):
    numbers = [[float(n) for n in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", w)] for w in warnings]
    for time, _, _, error in refs:
        if error is not None:
            check(any(np.isclose(n, time, rtol=2e-3, atol=1e-9) for found in numbers for n in found),
                  "warning", f"{what}: no warning names the time {time} which a failing solver "
                  f"reached: {warnings}")
