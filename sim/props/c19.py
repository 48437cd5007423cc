"""C19: error series survive failing benchmarks and report true errors."""
import os
import re

import core
import defaults
import numpy as np
from benchmark import shallow_water
from command.error_evolution import GenerateShallowWaterErrorEvolutionSeries
from command.parameter_variation_test import PARAMETER_VARIATIONS, ParameterVariationTest

from .. import cli, movies, world
from ..base import Inconclusive, check
from ..disk import Disk
from ..faults import ERRORS
from . import c25

QUICK, THOROUGH, TIMEOUT = 320, 10000, 120
LEVEL = "exploration"
RULE = ("one evaluation = one process carrying out error series or a parameter variation test whose "
        "solves and pictures fail at seeded points; every curve is recomputed from undisturbed "
        "solves of the single benchmarks by newly built solvers")
REAL = ["GenerateShallowWaterErrorEvolutionSeries, ErrorEvolutionCalculator, "
        "ParameterVariationTest, the parameter-variation-test command line, Calculate, the solvers"]
STUBS = ["matplotlib's rasterisation: saving a figure records its lines and writes a small file",
         "ffmpeg: a writer which records the lines and texts of each frame",
         "the disk below Python's buffers", "failing solves: an exception out of an evaluation of "
         "the right-hand side"]
STATE_MEASURE = "(mode, solvers, failing solver and benchmark, kinds of faults, surviving benchmarks)"
ASSUMPTIONS = ["both solvers record histories on the same coarse mesh"]
FINE = ["llf", "es1", "central", "low-order"]
PARAMETERS = {"height_average": [1.6, 2.4], "height_amplitude": [0.3, 0.5],
              "height_wave_number": [1, 3], "velocity_average": [0.7, 1.5],
              "velocity_wave_number": [1, 2], "height_phase_shift": [1.0]}


def generate(rng, i):
    mesh = rng.randint(6, 12)
    cfl = round(rng.uniform(0.02, 0.06), 4)
    end = round(cfl * 100 / mesh * rng.choice([1, 2, 3, 5.4, 8]), 6)
    solvers = []
    for k in range(2):
        spec = {"mesh": mesh, "cfl": cfl, "history": True, "ode": rng.choice(list(world.ODES)),
                "short": ["approximation", "exact"][k], "name": f"solver {k}"}
        if rng.random() < (0.15 if k == 0 else 0.6):
            spec.update(cls="coarse", coarsen=rng.choice([2, 4]), flux=rng.choice(FINE))
            spec["mesh"] *= spec["coarsen"]
            # the step size control of coarse solvers works on their fine mesh
            spec["cfl"] = round(cfl * rng.choice([1, 1, 1.7]), 5)
        else:
            spec.update(cls=rng.choice([*FINE, "mcl"]), cfl=round(cfl * rng.choice([1, 0.6, 0.35]), 5))
        solvers.append(spec)
    series = []
    mode = "variation" if rng.random() < 0.2 else "series"
    for _ in range(1 if mode == "variation" else rng.randint(1, 3)):
        n = rng.choice([1, 2, 3, 3, 4]) if mode == "variation" else rng.randint(1, 4)
        one = {"seed": rng.randint(1, 500), "n": n, "parameters": {}, "faults": [], "disk": [],
               "save": rng.random() < 0.4, "past": rng.random() < 0.3, "film": rng.random() < 0.2}
        if mode == "series" and rng.random() < 0.4:
            name = rng.choice(list(PARAMETERS))
            one["parameters"] = {name: rng.choice(PARAMETERS[name])}
        for _ in range(rng.choice([0, 1, 1, 2])):
            one["faults"].append({"benchmark": rng.randrange(n), "solver": rng.randrange(2),
                                  "at": rng.choice([1, 2, rng.randint(1, 20)]),
                                  "error": rng.choice([*ERRORS, "error", "memory", "value"])})
        if one["save"] and rng.random() < 0.3:
            one["disk"] = [{"at": rng.randrange(12), "kind": rng.choice(["enospc", "eio", "eacces"]),
                            "part": 0}]
        series.append(one)
    return {"mode": mode, "variations": rng.sample(sorted(PARAMETER_VARIATIONS), rng.choice([1, 1, 2])),
            "cli": rng.random() < 0.4 and all(s["cls"] != "central" for s in solvers), "mesh": mesh, "end": end, "solvers": solvers,
            "series": series, "slash": rng.choice(["/", "/", ""])}


SHRINK_LISTS = {"series": 1, "faults": 0, "variations": 1, "disk": 0}
SHRINK_NUMBERS = {"n": 1, "at": 0, "seed": 1, "benchmark": 0}


# ---------------------------------------------------------------- undisturbed
def _single(scenario, seed, parameters):
    """Both solvers on the benchmark with SEED, newly built."""
    benchmark = shallow_water.RandomOscillationNoTopographyBenchmark(
        seed, end_time=scenario["end"], **parameters)
    result = []
    for spec in scenario["solvers"]:
        solver = world.build_solver(spec, benchmark)
        outcome = world.solve(solver)
        if outcome.error is not None or outcome.warnings:
            return None
        solution = solver.solution
        result.append((np.array(solution.time_history), np.array(solution.value_history),
                       np.array(solution.grid), np.array(solution.value)))
    return result


def _interpolate(times, values, at):
    flat = values.reshape(len(times), -1)
    result = np.empty((len(at), flat.shape[1]))
    for n, t in enumerate(at):
        k = int(np.searchsorted(times, t, side="right")) - 1
        if k >= len(times) - 1:
            result[n] = flat[-1]
        elif k < 0:
            result[n] = flat[0]
        else:
            w = (t - times[k]) / (times[k + 1] - times[k])
            result[n] = (1 - w) * flat[k] + w * flat[k + 1]
    return result.reshape(len(at), *values.shape[1:])


def _curve(single):
    """The relative L2 difference on the times of the longer run's grid."""
    (t0, v0, _, _), (t1, v1, _, _) = single
    times = t0 if len(t0) > len(t1) else t1
    a, b = _interpolate(t0, v0, times), _interpolate(t1, v1, times)
    return times, np.sqrt(np.sum((a - b) ** 2, axis=1)) / np.sqrt(np.sum(b ** 2, axis=1))


def _seeds(seed, n, end, parameters):
    generator = shallow_water.RandomBenchmarkGenerator(seed=seed, end_time=end, **parameters)
    return [int(generator().seed) for _ in range(n)]


# ---------------------------------------------------------------- simulated
class Faults(world.Hooks):
    """Knows which solver works on which benchmark."""

    def __init__(self):
        self.reset([])
        self.solvers = []

    def reset(self, faults):
        self.faults = faults
        self.fired = []
        self.benchmark = {0: -1, 1: -1}
        self.calls = {0: 0, 1: 0}

    def before(self, hooked, time, value):
        k = hooked.owner
        if k is None:
            return
        self.calls[k] += 1
        for fault in self.faults:
            if (fault["solver"], fault["benchmark"], fault["at"]) == (
                    k, self.benchmark[k], self.calls[k]):
                self.fired.append(fault)
                raise ERRORS[fault["error"]]("injected")


def _build(scenario, hooks):
    solvers = []
    placeholder = shallow_water.OscillationNoTopographyBenchmark(end_time=scenario["end"])
    for k, spec in enumerate(scenario["solvers"]):
        with world.hooked(hooks):
            solver = world.build_solver(spec, placeholder)
        _watch(solver, k, hooks)
        solvers.append(solver)
    return solvers


def _watch(solver, k, hooks):
    hooked = next(v for o in [solver, *vars(solver).values()] if hasattr(o, "__dict__")
                  for v in vars(o).values() if isinstance(v, world.HookedRightHandSide))
    hooked.owner = k
    original = solver.reinitialize

    def reinitialize(benchmark):
        hooks.benchmark[k] += 1
        hooks.calls[k] = 0
        return original(benchmark)

    solver.reinitialize = reinitialize


def _series(scenario):
    hooks, gallery = Faults(), movies.Studio()
    solvers = _build(scenario, hooks)
    log = []
    with gallery.installed():
        for number, one in enumerate(scenario["series"]):
            if one["past"]:
                np.random.seed(number)
                np.random.rand(3)
            hooks.reset(one["faults"])
            directory = f"out/{number}"
            command = GenerateShallowWaterErrorEvolutionSeries(
                *solvers, seed=one["seed"], end_time=scenario["end"], initial_conditions=one["n"],
                description="test", save_directory=directory if one["save"] or one["film"] else None,
                save_plot=one["save"], save_error=one["save"], save_animation=one["film"], **one["parameters"])
            disk = Disk("out", one["disk"])
            start, films = len(gallery.saved), len(gallery.films)
            with disk.mounted():
                outcome = world.attempt(command.execute)
            log.append({
                "times": [np.array(t) for t in command.times],
                "errors": [np.array(e) for e in command.errors], "outcome": outcome.error_name,
                "text": str(outcome.error), "warnings": outcome.warnings,
                "saved": gallery.saved[start:], "fired": hooks.fired, "disk": disk.fired,
                "films": gallery.films[films:], "open": len(movies.plt.get_fignums())})
    return log


def _variation(scenario):
    one = scenario["series"][0]
    hooks, gallery = Faults(), movies.Studio()
    hooks.reset(one["faults"])
    with gallery.installed():
        if scenario["cli"]:
            outcome = world.attempt(cli.main, *_arguments(scenario, one))
        else:
            command = ParameterVariationTest(
                *_build(scenario, hooks), "out" + scenario["slash"], initial_data_number=one["n"], seed=one["seed"],
                references="reference" if one["past"] else None,
                parameter_variations=[PARAMETER_VARIATIONS[v] for v in scenario["variations"]],
                save_plot=one["save"])
            outcome = world.attempt(command.execute)
    return {"outcome": outcome.error_name, "text": str(outcome.error), "warnings": outcome.warnings,
            "saved": gallery.saved, "areas": gallery.areas, "fired": hooks.fired}


def _arguments(scenario, one):
    solvers = []
    for spec in scenario["solvers"]:
        solvers += [spec["cls"], "+m", spec["mesh"], "++cfl", spec["cfl"], "+s", spec["short"]]
        if spec["cls"] != "central":  # has no such option
            solvers += ["+o", spec["ode"]]
        if spec["cls"] == "coarse":
            solvers += ["+c", spec["coarsen"], "+f", spec["flux"]]
    return ["parameter-variation-test", "out" + scenario["slash"], "-s", *solvers, "-T", repr(scenario["end"]), "-v",
            *scenario["variations"], "-n", one["n"], "--seed", one["seed"],
            *(["--references"] if one["past"] else []), *(["--save-plot"] if one["save"] else [])]


# ---------------------------------------------------------------- oracle
class Oracle:
    def __init__(self, scenario):
        self.scenario, self.cache = scenario, {}

    def single(self, seed, parameters):
        key = (seed, *sorted(parameters.items()))
        if key not in self.cache:
            self.cache[key] = world.isolated(_single, self.scenario, seed, parameters)
            if self.cache[key] is None:
                raise Inconclusive("an undisturbed solve fails")
        return self.cache[key]

    def curve(self, seed, parameters):
        return _curve(self.single(seed, parameters))


def _equal(x, y):
    """Equal up to rounding: the lines may have been put together differently."""
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and np.allclose(x, y, rtol=1e-7, atol=1e-10)


def _check_saved(what, oracle, directory, index, seed, parameters, saved, plots):
    saved = dict(saved)
    times, errors = oracle.curve(seed, parameters)
    content = saved.get(f"{directory}/error_{index}.png")
    check(content is not None, "not-saved", f"{what}: the curve of benchmark {index} is not saved")
    expected = [(times, errors[:, 0]), (times, errors[:, 1])]
    _check_lines(what + f", picture of curve {index}", content, expected)
    if not plots:
        return
    solutions = oracle.single(seed, parameters)
    for suffix, component in (("_h", lambda v: v[:, 0]), ("_q", lambda v: v[:, 1]),
                              ("_v", lambda v: v[:, 1] / v[:, 0])):
        content = saved.get(f"{directory}/plot_{index}{suffix}.png")
        check(content is not None, "not-saved", f"{what}: plot {index} is not saved")
        _check_lines(what + f", plot {index}{suffix}", content,
                     [(grid, component(value)) for _, _, grid, value in solutions])


def _check_lines(what, content, expected):
    found = [line for ax in content for line in ax]
    check(len(found) == len(expected), "picture-lines", lambda: f"{what}: shows the lines "
          f"{[l[0] for l in found]}")
    for (label, x, y), (u, v) in zip(found, expected):
        check(_equal(x, u) and _equal(y, v), "picture-values", f"{what}: the line '{label}' does "
              "not show what was computed")


def _check_film(what, scenario, oracle, seed, parameters, film, run):
    single = oracle.single(seed, parameters)
    benchmark = shallow_water.RandomOscillationNoTopographyBenchmark(
        seed, end_time=scenario["end"], **parameters)
    one = {"problem": "swe", "points": defaults.PLOT_MESH_SIZE, "frames": 1, "start": None, "duration": None,
           "initial": False, "solvers": [{"spec": spec} for spec in scenario["solvers"]]}
    expected = c25.expected_frames(one, [(t, v, grid, None) for t, v, grid, _ in single], benchmark)
    check(film.finished, "films", f"{what}: is not finished")
    c25._judge_film(what, film, one, expected, run)
    run.count("films compared")


def _warned(warnings):
    return [int(s) for line in warnings for s in re.findall(r"seed\D{0,3}(\d+)", line)]


def _judge_series(scenario, number, one, log, oracle, run):
    what = f"series {number}"
    seeds = _seeds(one["seed"], one["n"], scenario["end"], one["parameters"])
    failing = {f["benchmark"]: f["error"] for f in reversed(log["fired"])}
    interrupted = next((j for j in range(one["n"]) if failing.get(j) == "interrupt"), None)
    run.count("series")
    expected = [j for j in range(one["n"]) if j not in failing and
                (interrupted is None or j < interrupted)]
    found = len(log["times"])
    aborted = log["outcome"] is not None
    if interrupted is not None:
        check(log["outcome"] == "KeyboardInterrupt" or log["disk"], "interrupt", f"{what}: an "
              f"interrupt ends with {log['outcome']}")
    elif not log["disk"]:
        check(not aborted, "series-fails", f"{what}: one failing benchmark ends the series: "
              f"{log['outcome']}: {log['text']}")
    else:
        check(aborted or any("WARNING" in w for w in log["warnings"]), "failure-hidden",
              f"{what}: {log['disk']} while saving is not reported")
    if aborted:
        expected = expected[:found]
    check(found == len(expected) == len(log["errors"]), "count", f"{what}: {found} curves instead of "
          f"{len(expected)}")
    for n, j in enumerate(expected):
        times, errors = oracle.curve(seeds[j], one["parameters"])
        check(world.same(log["times"][n], times), "times", f"{what}: the curve of benchmark {j} is "
              "not given on the times of the longer run")
        check(_equal(log["errors"][n], errors), "curve", lambda: f"{what}: the curve of benchmark "
              f"{j} is {log['errors'][n].tolist()} instead of {errors.tolist()}")
        run.count("curves compared")
        run.sim_time += 2 * scenario["end"]
    reported = _warned(log["warnings"])
    should = [seeds[j] for j in range(one["n"]) if j in failing and failing[j] != "interrupt"
              and (interrupted is None or j < interrupted)]
    if not aborted or interrupted is not None:
        check(reported == should, "reports", f"{what}: reports the seeds {reported} instead of "
              f"{should}")
    check(log["open"] == 0, "open", f"{what}: leaves {log['open']} figures open")
    if not aborted and not log["disk"]:
        names = [f"out/{number}/animation_{j}.mp4" for j in expected] if one["film"] else []
        check([film.name for film in log["films"]] == names, "films", lambda: f"{what}: saves the "
              f"films {[film.name for film in log['films']]}")
        for j, film in zip(expected, log["films"]):
            _check_film(what + f", film {j}", scenario, oracle, seeds[j], one["parameters"], film, run)
    if one["save"] and not aborted and not log["disk"]:
        for j in expected:
            _check_saved(what, oracle, f"out/{number}", j, seeds[j], one["parameters"],
                         log["saved"], True)
        check(len(log["saved"]) == 4 * len(expected), "picture-count", f"{what}: "
              f"{len(log['saved'])} pictures are saved for {len(expected)} benchmarks")
        run.count("picture series compared")
    return len(expected)


def execute(scenario, run):
    os.makedirs("out")
    oracle = Oracle(scenario)
    classes = [s["cls"] for s in scenario["solvers"]]
    if scenario["mode"] == "variation":
        _judge_variation(scenario, world.isolated(_variation, scenario), oracle, run, classes)
    else:
        logs = world.isolated(_series, scenario)
        for number, (one, log) in enumerate(zip(scenario["series"], logs)):
            run.event("series", number, str(log["outcome"]), log["times"], log["warnings"])
            for fault in log["fired"]:
                run.fault(f"solve raises {fault['error']}")
            for kind in log["disk"]:
                run.fault(f"{kind} while saving")
            left = _judge_series(scenario, number, one, log, oracle, run)
            run.state("series", classes, [(f["benchmark"], f["solver"], f["error"]) for f in
                                          log["fired"]], log["disk"], left, one["save"])
    run.nontrivial = True


def _judge_variation(scenario, log, oracle, run, classes):
    one = scenario["series"][0]
    run.event("variation", str(log["outcome"]), log["warnings"], [s[0] for s in log["saved"]])
    failing = {f["benchmark"]: f["error"] for f in reversed(log["fired"])}
    for fault in log["fired"]:
        run.fault(f"solve raises {fault['error']}")
    if "interrupt" in failing.values():
        check(log["outcome"] == "KeyboardInterrupt", "interrupt", "the test ends with "
              f"{log['outcome']}")
        return
    check(log["outcome"] is None, "test-fails", f"parameter variation test: {log['outcome']}: "
          f"{log['text']}")
    tasks = [("reference", {}, "reference" if not scenario["cli"] else "references",
              "error_average")] if one["past"] else []
    for key in scenario["variations"]:
        variation = PARAMETER_VARIATIONS[key]
        for value in variation.values:
            tasks.append((f"{variation.name}={value}", {
                variation.name: value, **variation.benchmark_defaults}, f"{variation.name}/{value}",
                None))
    # a directory without slash at its end: known finding, everything else is judged nevertheless
    beside = not scenario["slash"] and bool(log["saved"]) and not any(
        p.startswith("out/") for p, _ in log["saved"])
    base = "out" if beside else "out/"
    position, should, expected_pictures = 0, [], 0
    for name, parameters, directory, _ in tasks:
        seeds = _seeds(one["seed"], one["n"], scenario["end"], parameters)
        curves = []
        for j in range(one["n"]):
            if position in failing:
                should.append(seeds[j])
            else:
                _check_saved(f"parameter variation test, {name}", oracle, base + directory, j,
                             seeds[j], parameters, log["saved"], one["save"])
                expected_pictures += 4 if one["save"] else 1
                curves.append(oracle.curve(seeds[j], parameters))
                run.count("curves compared")
            position += 1
        pictures = [(c, a) for (p, c), a in zip(log["saved"], log["areas"]) if os.path.dirname(p).startswith(
            base + directory.split("/")[0]) and "average" in p]
        if curves:
            expected_pictures += 2
            _check_average(name, curves, pictures)
    check(_warned(log["warnings"]) == should, "reports", f"parameter variation test: reports the "
          f"seeds {_warned(log['warnings'])} instead of {should}")
    check(len(log["saved"]) == expected_pictures, "picture-count", f"parameter variation test: "
          f"{len(log['saved'])} pictures instead of {expected_pictures}")
    run.state("variation", scenario["cli"], classes, sorted(failing), scenario["variations"])
    run.count("parameter variation tests")
    run.sim_time += 2 * scenario["end"] * position
    check(not beside, "beside", "parameter variation test: nothing is saved in the directory 'out' but beside it, as "
          f"'{log['saved'][0][0] if beside else ''}'", slash=scenario["slash"])


def _check_average(name, curves, pictures):
    """Some pair of pictures shows the mean of the curves on the shortest one's times and the area up
    to their maximum."""
    times = min((c[0] for c in curves), key=len)
    errors = [_interpolate(t, e, times) for t, e in curves]
    mean, most = np.mean(errors, axis=0), np.max(errors, axis=0)
    for component in range(2):
        found = [areas for picture, filled in pictures for ax, areas in zip(picture, filled)
                 if len(ax) == 1 and _equal(ax[0][1], times) and _equal(ax[0][2], mean[:, component])]
        check(found, "average",
              f"parameter variation test, {name}: no picture shows the mean of the errors")
        border = np.array([*zip(times, mean[:, component]), *zip(times, most[:, component])])
        check(any(_covers(area, border) for areas in found for area in areas), "maximum",
              f"parameter variation test, {name}: no area from the mean to the maximum is shown")


def _covers(area, border):
    """Whether the corners of AREA are the points of BORDER."""
    apart = np.abs(area[:, None] - border[None])
    close = (apart <= 1e-12 + 1e-6 * np.abs(border)[None]).all(axis=2)
    return close.any(axis=0).all() and close.any(axis=1).all()
