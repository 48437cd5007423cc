"""C25: animations show the recorded histories, frame by frame."""
import os
import subprocess

import defaults
import numpy as np
from command.animate import Animate, ScalarAnimator, ShallowWaterAnimator
from command.plot import Plot, ScalarPlotter, ShallowWaterPlotter

from .. import cli, figures, movies, world
from ..base import check
from ..disk import Disk
from . import c20

QUICK, THOROUGH, TIMEOUT = 360, 12000, 90
LEVEL = "exploration"
RULE = ("one evaluation = a seeded sequence of animations (and plots) in one process in which solves "
        "and the movie writer fail at seeded points; every line of every frame written or shown is "
        "compared with the interpolated history of the single solver solved in another process")
REAL = ["Animate, ScalarAnimator, ShallowWaterAnimator, Calculate, Plot, the animate command line, the "
        "solvers and their histories, matplotlib's figures, axes and animations"]
STUBS = ["ffmpeg: a writer which records the lines and texts of each frame and writes a small file",
         "matplotlib's rasterisation: nothing is drawn", "the window system: showing plays every "
         "animation once and closes all figures", "the disk below Python's buffers"]
STATE_MEASURE = "(problem, solvers and how each ends, functions shown, kinds of faults, frames)"
ASSUMPTIONS = ["the labels of the lines of one animation differ", "animations follow each other"]
WRITER = {"broken": BrokenPipeError(32, "Broken pipe (injected)"),
          "process": subprocess.CalledProcessError(1, "ffmpeg (injected)"),
          "missing": FileNotFoundError(2, "No such file: ffmpeg (injected)"),
          "memory": MemoryError("injected"), "interrupt": KeyboardInterrupt("injected")}


def generate(rng, i):
    shows = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        problem = rng.choice(["advection", "burgers", "swe", "swe"])
        one = c20._cli_plot(rng, problem) if rng.random() < 0.15 else c20._plot(rng, problem)
        one["what"] = "plot" if shows and not one["cli"] and rng.random() < 0.25 else "animate"
        for k, item in enumerate(one["solvers"]):
            item["spec"]["history"] = True
            item["spec"]["short"] = f"s{k}" if one["cli"] else f"solver {k}"
            if item["fault"] and item["fault"]["kind"] == "rhs-poison":
                item["fault"].update(kind="rhs-before")
        if one["points"] > 23:
            for item in one["solvers"]:
                if item["spec"]["mesh"] == one["points"]:  # as many cells as points
                    item["spec"]["mesh"] = 24
            one["points"] = 24
        if one["what"] == "plot":
            one.update(show=True, save_plot=False, save_data=False, disk=[], executed=False)
        else:
            one.update(save=rng.random() < 0.75, show=rng.random() < 0.5, executed=(
                not one["cli"] and rng.random() < 0.2), frames=rng.choice([1, 2, 3, 5, 9, 16]),
                duration=rng.choice([None, None, 1.0, 3.0, 0.5]), writer=None,
                start=None, disk=[])
            if rng.random() < 0.35:
                one["start"] = rng.choice(["zero", *[round(rng.random(), 3)] * 4])
            if one["save"] and rng.random() < 0.3:
                one["writer"] = {"at": rng.choice([0, 1, 2, rng.randrange(15)]),
                                 "error": rng.choice(list(WRITER))}
            elif one["save"] and rng.random() < 0.15:
                one["disk"] = [{"at": rng.randrange(4), "part": rng.random(),
                                "kind": rng.choice(["enospc", "eio", "eacces"])}]
        shows.append(one)
    if rng.random() < 0.05:
        shows[0]["solvers"] = []
    return {"shows": shows}


SHRINK_LISTS = {"shows": 1, "solvers": 1, "disk": 0}
SHRINK_NUMBERS = {"at": 0, "points": 7, "frames": 1}


def _start(one, benchmark):
    if one["start"] is None:
        return None
    if one["start"] == "zero":
        return 0.0 if benchmark.start_time <= 0.0 < benchmark.end_time else None
    return benchmark.start_time + one["start"] * (benchmark.end_time - benchmark.start_time)


def _single(one, k):
    """Solver K alone: (times, values, grid, error)."""
    solver, _ = c20._build(one["solvers"][k], c20._benchmark(one))
    outcome = world.solve(solver)
    solution = solver.solution
    return (np.array(solution.time_history), np.array(solution.value_history),
            np.array(solution.grid), outcome.error_name)


def _arguments(one, base, start):
    solvers = []
    for item in one["solvers"]:
        spec = item["spec"]
        solvers += [spec["cls"], "+m", spec["mesh"], "++cfl", spec["cfl"], "+s", spec["short"]]
    return ["animate", one["problem"], "-m", one["points"], "-T", one["end"], "--time_steps",
            one["frames"], *(["--save", base + ".mp4"] if one["save"] else []),
            *(["--start-time", repr(start)] if start else []),
            *(["--duration", one["duration"]] if one["duration"] else []),
            *([] if one["show"] else ["--hide"]), *(["--initial"] if one["initial"] else []),
            *(["-s", *solvers] if solvers else [])]


def _animate(one, base):
    benchmark = c20._benchmark(one)
    start = _start(one, benchmark)
    if one["cli"]:
        return lambda: cli.main(*_arguments(one, base, start))
    solvers = [c20._build(item, benchmark)[0] for item in one["solvers"]]
    if one["executed"]:
        for solver in solvers:
            world.solve(solver)
    animator = (ShallowWaterAnimator if one["problem"] == "swe" else ScalarAnimator)(
        benchmark, mesh_size=one["points"], time_steps=one["frames"], start_time=start,
        duration=one["duration"], show=one["show"], save=base + ".mp4" if one["save"] else None)
    return Animate(benchmark, solvers, animator, initial=one["initial"],
                   solver_executed=one["executed"]).execute


def _plot(one):
    benchmark = c20._benchmark(one)
    solvers = [c20._build(item, benchmark)[0] for item in one["solvers"]]
    plotter = (ShallowWaterPlotter if one["problem"] == "swe" else ScalarPlotter)(
        benchmark, mesh_size=one["points"], show=True)
    return Plot(benchmark, solvers, plotter, initial=one["initial"]).execute


def _process(scenario):
    studio = movies.Studio()
    log = []
    os.makedirs("out", exist_ok=True)
    with studio.installed():
        for one in scenario["shows"]:
            films, watched, shown = len(studio.films), len(studio.watched), len(studio.shown)
            writer = one.get("writer")
            studio.expect(writer and writer["at"], writer and WRITER[writer["error"]])
            disk = Disk("out", one["disk"])
            go = _plot(one) if one["what"] == "plot" else _animate(one, "out/" + one["name"])
            with disk.mounted():
                outcome = world.attempt(go)
            log.append({"outcome": outcome.error_name, "text": str(outcome.error),
                        "warnings": outcome.warnings, "disk": disk.fired, "writer": studio.fired,
                        "films": studio.films[films:], "watched": studio.watched[watched:],
                        "shown": studio.shown[shown:], "open": len(figures.plt.get_fignums())})
    return log


# ---------------------------------------------------------------- oracle
def _at(times, values, t):
    k = int(np.searchsorted(times, t, side="right")) - 1
    if k >= len(times) - 1:
        return values[-1]
    if k < 0:
        return values[0]
    w = (t - times[k]) / (times[k + 1] - times[k])
    return (1 - w) * values[k] + w * values[k + 1]


def expected_frames(one, references, benchmark=None):
    """The benchmark, its points and [(time, [(labels, x, y)])]."""
    benchmark = benchmark or c20._benchmark(one)
    points = np.linspace(benchmark.domain.a, benchmark.domain.b, one["points"])
    functions = []
    try:
        benchmark.exact_solution(points[0], benchmark.start_time)
        functions.append((["exact"], ["$h+b$", "$q$", "$u$"], benchmark.exact_solution))
    except Exception:
        pass
    if one["initial"]:
        functions.append((["$u_0$"], ["$h_0+b$", "$q_0$", "$u_0$"],
                          lambda x, t: benchmark.initial_data(x)))
    times = [r[0] for r in references]
    if functions:
        times.append(np.linspace(benchmark.start_time, benchmark.end_time, one["frames"]))
    times = np.unique(np.concatenate(times)) if times else []
    start = _start(one, benchmark)
    frames = []
    for t in times:
        if start is not None and t < start:
            continue
        curves = [([item["spec"]["short"]] * 3, grid, _at(history, values, t))
                  for item, (history, values, grid, _) in zip(one["solvers"], references)]
        curves += [(scalar if one["problem"] != "swe" else water, points,
                    np.array([f(x, t) for x in points])) for scalar, water, f in functions]
        frames.append((float(t), curves))
    return benchmark, points, frames


def _lines(one, benchmark, points, curves):
    if one["problem"] != "swe":
        return [{labels[0]: (x, y) for labels, x, y in curves}]
    bottom = [np.array([float(benchmark.bathymetry(z)) for z in x]) for _, x, _ in curves]
    with np.errstate(all="ignore"):
        return [{**{l[0]: (x, y[:, 0] + b) for (l, x, y), b in zip(curves, bottom)},
                 "$b$": (points, np.array([float(benchmark.bathymetry(z)) for z in points]))},
                {l[1]: (x, y[:, 1]) for l, x, y in curves},
                {l[2]: (x, y[:, 1] / y[:, 0]) for l, x, y in curves if (y[:, 0] > 1e-6).all()}]


def _difference(found, expected, partial):
    """Why a frame is not the one expected, or None."""
    if len(found) != len(expected):
        return f"it has {len(found)} axes"
    for n, (axes, lines) in enumerate(zip(found, expected)):
        labels = [l[0] for l in axes]
        free = partial and n == 2
        if not set(lines) <= set(labels) or len(labels) != len(set(labels)) or (
                not free and len(labels) != len(lines)):
            return f"it contains the lines {labels} instead of {list(lines)}"
        for label, x, y in axes:
            if label in lines and not (c20._equal(x, lines[label][0]) and
                                       c20._equal(y, lines[label][1])):
                return f"the line '{label}' does not show what was computed"
    return None


def _judge_film(what, film, one, expected, run):
    benchmark, points, frames = expected
    at, last = 0, None
    for content, texts in film.frames:
        while True:
            check(at < len(frames), "frames", lambda: f"{what}: has {len(film.frames)} frames instead "
                  f"of {len(frames)}")
            t, curves = frames[at]
            at += 1
            reason = _difference(content, _lines(one, benchmark, points, curves),
                                 one["problem"] == "swe")
            if reason is None:
                break
            # times which differ by rounding errors only may have been merged
            near = [x for x in (last, frames[at][0] if at < len(frames) else None) if x is not None]
            check(any(abs(x - t) < 1e-9 * max(1, abs(t)) for x in near), "frame",
                  f"{what}: in the frame of the time {t!r} {reason}")
        last = t
        shown = [n for text in texts for n in movies.numbers(text)]
        check(any(abs(n - t) <= 5.1e-3 for n in shown), "time", f"{what}: the frame of the time {t!r} "
              f"is labelled {texts}")
        run.count("frames compared")
    check(not film.hidden, "visible", lambda: f"{what}: in frame {film.hidden[0][0]} of "
          f"{len(film.frames)} a curve is partly outside of the axes: {film.hidden[0][1]}")
    rest = [f[0] for f in frames[at:]]
    check(all(abs(t - last) < 1e-9 * max(1, abs(t)) for t in rest), "frames", lambda: f"{what}: has "
          f"{len(film.frames)} frames instead of {len(frames)}, times {rest} are missing")
    duration = one["duration"] or defaults.DURATION
    n = len(film.frames)
    length = n / film.rate if film.rate else float("inf")
    check(abs(length - duration) <= 0.02 * duration + (n * 1e-3 if film.name is None else 0),
          "duration", lambda: f"{what}: {n} frames at {film.rate} frames per second take {length} "
          f"instead of {duration} seconds")


def execute(scenario, run):
    references = [[world.isolated(_single, one, k) for k in range(len(one["solvers"]))]
                  for one in scenario["shows"]]
    log = world.isolated(_process, scenario)
    for number, (one, refs, entry) in enumerate(zip(scenario["shows"], references, log)):
        ends = [(i["spec"]["cls"], r[3]) for i, r in zip(one["solvers"], refs)]
        what = f"{one['what']} {number} ({one['problem']}, {ends}, {entry['disk'] or entry['writer']})"
        run.event(one["what"], number, str(entry["outcome"]), entry["warnings"], [len(
            f.frames) for f in entry["films"] + entry["watched"]], [r[1][-1] for r in refs])
        for kind in entry["disk"]:
            run.fault(f"disk: {kind} while saving")
        for where in entry["writer"]:
            run.fault(f"writer: {one['writer']['error']} at {where}")
        for r in refs:
            if r[3]:
                run.fault(f"solve ends with {r[3]}")
            run.sim_time += float(r[0][-1] - r[0][0])
        if "KeyboardInterrupt" in [r[3] for r in refs] and not one["executed"]:
            check(entry["outcome"] == "KeyboardInterrupt", "interrupt", f"{what}: an interrupt ends "
                  f"with {entry['outcome']}")
            check(entry["open"] == 0, "open", f"{what}: an interrupt leaves {entry['open']} figures open")
            run.count("interrupted")
            continue
        if one["what"] == "plot":
            _judge_plot(what, one, refs, entry, run)
        else:
            _judge(what, one, refs, entry, run)
        if not one.get("executed"):
            c20._check_warnings(what, [(float(t[-1]), g, v, e) for t, v, g, e in refs],
                                entry["warnings"])
    run.nontrivial = True


def _judge_plot(what, one, refs, entry, run):
    """Nothing of the animations before gets into a plot."""
    single = [(float(t[-1]), grid, values[-1], error) for t, values, grid, error in refs]
    expected = c20.expected_lines(one, single)
    skip = c20._undefined(expected, [(item["spec"]["short"], r[2]) for item, r in zip(
        one["solvers"], single) if one["problem"] == "swe"])
    check(entry["outcome"] is None, "fails", f"{what}: ends with {entry['outcome']}: {entry['text']}")
    check(entry["open"] == 0, "open", f"{what}: leaves {entry['open']} figures open")
    if c20.nothing(one, expected):
        check(not entry["shown"], "mixed", f"{what}: a plot of nothing is shown")
        return
    check(len(entry["shown"]) == 1 and not entry["films"] and not entry["watched"], "mixed",
          f"{what}: a plot shows {len(entry['shown'])} times, {len(entry['films'])} films")
    shown = [[l for ax in figure for l in ax] for figure in entry["shown"][0]]
    shown = [figure for figure in shown if figure]
    check(len(shown) == len(expected), "mixed", lambda: f"{what}: shows {len(shown)} figures with "
          f"the lines {[[l[0] for l in f] for f in shown]}")
    for figure, (suffix, lines) in zip(shown, expected.items()):
        c20._compare(what + f", window {suffix}", figure, lines, skip if suffix == "_v" else ())
    run.count("plots compared")


def _judge(what, one, refs, entry, run):
    expected = expected_frames(one, refs)
    frames = expected[2]
    run.state(one["problem"], [(i["spec"]["cls"], r[3]) for i, r in zip(one["solvers"], refs)],
              one["initial"], one["start"] is None, entry["disk"], entry["writer"], entry["outcome"],
              len(frames))
    check(entry["open"] == 0, "open", f"{what}: leaves {entry['open']} figures open")
    if entry["disk"] or entry["writer"]:
        check(entry["outcome"] is not None, "failure-hidden", f"{what}: a failing writer is not "
              "reported")
        check("injected" in entry["text"], "failure", f"{what}: ends with {entry['outcome']}: "
              f"{entry['text']}")
        check(not entry["shown"], "shown", f"{what}: an animation which cannot be saved is shown")
        run.count("animations whose saving failed")
        return
    if not frames:
        # every solver failed before the first time to be shown
        check(not any(f.frames for f in entry["films"] + entry["watched"]), "frames", f"{what}: shows "
              "frames although nothing was computed")
        run.count("animations of nothing")
        return
    check(entry["outcome"] is None, "fails", f"{what}: ends with {entry['outcome']}: {entry['text']}")
    check(len(entry["films"]) == one["save"], "saved", f"{what}: {len(entry['films'])} films are saved")
    for film in entry["films"]:
        check(film.name == f"out/{one['name']}.mp4" and film.finished, "saved",
              f"{what}: the film {film.name} is saved")
        _judge_film(what + ", film", film, one, expected, run)
    check(len(entry["shown"]) == one["show"], "shown", f"{what}: shows {len(entry['shown'])} times")
    check(len(entry["watched"]) == one["show"], "shown", f"{what}: shows {len(entry['watched'])} "
          "animations")
    if one["show"]:
        check(len([f for f in entry["shown"][0] if f]) == 1, "mixed", lambda: f"{what}: shows "
              f"{len(entry['shown'][0])} figures")
    for film in entry["watched"]:
        _judge_film(what + ", window", film, one, expected, run)
    run.count("animations compared")
