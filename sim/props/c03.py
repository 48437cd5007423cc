"""C03: time stepping reaches exactly the end time and always terminates."""
import math

import core
import numpy as np
from core.time_stepping import TimeStepTooSmallError

from .. import world
from ..base import check

QUICK, THOROUGH, TIMEOUT = 900, 40000, 20
LEVEL = "exploration"
RULE = ("one evaluation = one seeded history of proposed steps (also vanishing, infinite and NaN "
        "ones) driven through time stepping or a solve, twice")
REAL = ["core.TimeStepping, TimeStepGenerator, get_mesh_dependent_time_stepping, "
        "get_adaptive_time_stepping, Solver.solve, adaptive finite element solvers"]
STUBS = ["the proposed step sizes (a seeded sequence, stands for the optimal time step)"]
STATE_MEASURE = "(adaptive, how it ended, number of steps, magnitude of the start time)"
ASSUMPTIONS = ["proposed steps are not negative"]

LIMIT = 3000


def generate(rng, i):
    if i % 6 == 5:
        cls = rng.choice(["cg-low", "mcl-fem", "llf", "mcl-fv", "cg"])
        bench, solver = world.random_scalar(rng, cls, rng.randint(1, 6))
        shift = rng.choice([0, 0, 1e3, 1e5])
        bench["start"] += shift
        bench["end"] += shift
        return {"what": "solver", "bench": bench, "solver": solver}
    start = rng.choice([0.0, 0.0, 0.0, 1.0, 0.3, -2.5, 100.0, 1e4, 1e6, -1e5])
    span = rng.choice([1.0, 0.1, 0.7, 40.0, 1e-3, 3.0, 1e-6, 100.0, 1e-9])
    cfl = rng.choice([0.1, 0.5, 1.0, 0.0125, 0.9, 1 / 3])
    n = rng.choice([1, 2, 3, 5, 10, 40, 7.5, 3.999999999, 4.0000000001, 0.4])
    base = span / n / cfl
    proposals = []
    for _ in range(rng.randint(1, 10)):
        u = rng.random()
        if u < 0.75:
            proposals.append(base * rng.choice([1, 1, 0.5, 0.3, 2, 1.7, 0.05]))
        elif u < 0.85:
            proposals.append(rng.choice([1e-14, 0.0, 1e-300, 1e-13, 2e-12, 1e-11, 5e-12]))
        elif u < 0.95:
            proposals.append(rng.choice([base * 100, 1e9, "inf"]))
        else:
            proposals.append("nan")
    return {"what": "stepping", "start": start, "end": start + span, "cfl": cfl,
            "adaptive": rng.random() < 0.65, "ops": proposals,
            "rounds": rng.choice([1, 2, 3]), "abandon": rng.randint(0, 4),
            "via": rng.choice(["iterate", "iterate", "solve"])}


class Proposals:
    def __init__(self, values):
        self.values, self.at, self.last = [float(v) for v in values], 0, None

    def __call__(self, *args):
        self.last = self.values[self.at % len(self.values)]
        self.at += 1
        return self.last


def _drive(stepping, proposals, cfl, start, end, adaptive, run, limit, duplicates=False):
    """Iterates once, checking every step. Returns how it ended and the steps."""
    steps = []
    total = start
    iterator = iter(stepping)
    check(stepping.time == start, "restart", lambda: f"iteration starts at {stepping.time!r} "
          f"instead of {start!r}")
    while True:
        check(len(steps) <= limit, "no-termination",
              lambda: f"{len(steps)} steps taken where at most {limit} are possible")
        before = proposals.at
        try:
            step = next(iterator)
        except StopIteration:
            check(stepping.time == end, "end-time",
                  lambda: f"ends at {stepping.time!r} instead of {end!r}")
            break
        except TimeStepTooSmallError:
            remaining = end - total
            proposed = proposals.last * cfl if proposals.last is not None else float("nan")
            tiny = not (min(proposed, remaining) > 1e-9) or math.isnan(proposed)
            check(tiny, "too-small-wrongly",
                  lambda: f"refuses to step at {total!r} although {proposed!r} was proposed")
            run.fault("step too small")
            return "too-small", steps
        if adaptive:
            check(proposals.at > before, "stale-proposal", "a step was taken without asking for "
                  "the admissible step of the current state")
        proposed = proposals.last * cfl
        check(step > 0, "not-positive", lambda: f"step {step!r} is not positive")
        check(step <= proposed * (1 + 1e-12), "exceeds-proposal",
              lambda: f"step {step!r} exceeds the CFL number times the proposal {proposed!r}")
        eps = 4 * np.spacing(max(abs(start), abs(end)))
        check(total + step <= end + eps, "overshoots",
              lambda: f"step {step!r} from {total!r} overshoots {end!r}")
        check(total + step > total, "no-progress", lambda: f"step {step!r} at {total!r} makes no progress")
        total = total + step
        check(stepping.time <= end, "overshoots", lambda: f"clock at {stepping.time!r} after {end!r}")
        check(abs(stepping.time - total) <= 1e-9 * max(1.0, abs(total)), "clock",
              lambda: f"clock {stepping.time!r} is not the sum of the steps {total!r}")
        steps.append(step)
    check(abs(total - end) <= 1e-11 + 8 * len(steps) * np.spacing(max(abs(start), abs(end), 1.0)),
          "sum-of-steps", lambda: f"steps sum to {total!r} instead of {end!r}")
    check(stepping.time_steps_number == len(steps), "step-number",
          lambda: f"{stepping.time_steps_number} steps reported, {len(steps)} taken")
    # a finished iteration stays finished
    try:
        next(iterator)
        check(False, "iterates-past-end", "a finished iteration goes on")
    except StopIteration:
        pass
    return "end", steps


def _limit(scenario):
    """Steps an honest stepping may need at most."""
    values = [float(v) for v in scenario["ops"]]
    if not scenario["adaptive"]:
        values = values[:1]
    span, cfl = scenario["end"] - scenario["start"], scenario["cfl"]
    mean = sum(min(v, 1e12) * cfl for v in values if not math.isnan(v)) / len(values)
    if mean <= 0:
        return 10
    rounds = span / mean / len(values) + 2
    return int(min(LIMIT * 30, 10 + 1.2 * rounds * len(values)))


class Null:
    """A solver whose equation is trivial, used to drive Solver.solve."""

    @staticmethod
    def build(stepping, start):
        solution = core.DiscreteSolution(np.zeros(3), initial_time=start)
        return world.HarnessSolver(solution, lambda t, u: np.ones(3), core.Heun, stepping)


def execute(scenario, run):
    if scenario["what"] == "solver":
        return _solver(scenario, run)
    start, end, cfl = scenario["start"], scenario["end"], scenario["cfl"]
    proposals = Proposals(scenario["ops"])
    stepping = core.TimeStepping(end, cfl, proposals, adaptive=scenario["adaptive"],
                                 start_time=start)
    limit = _limit(scenario)
    if limit > LIMIT:
        run.count("skipped: too many steps")
        return
    run.nontrivial = True
    if scenario["via"] == "solve":
        solver = Null.build(stepping, start)
        cap = world.StateCap(limit + 1)
        spied = world.spy(solver, on_update=cap)
        outcome = world.solve(solver)
        check(outcome.error is None, "solve-fails",
              lambda: f"solve ends with {outcome.error_name}: {outcome.error}")
        warned = any("too small" in w for w in outcome.warnings)
        if warned:
            run.fault("step too small")
        else:
            check(stepping.time == end, "end-time", lambda: f"solve ends at {stepping.time!r}")
            check(abs(spied.time - end) <= 1e-11 + 1e-14 * limit * max(1, abs(end)), "end-time",
                  lambda: f"solution ends at {spied.time!r} instead of {end!r}")
        # one unit of time adds one to the solution
        check(np.allclose(spied.value, spied.time - start, rtol=1e-6,
                          atol=1e-9 + 1e-10 * abs(start)), "steps-lost",
              lambda: f"the solution advanced by {spied.value[0]} in {spied.time - start}")
        run.event("solve", warned, spied.time, len(spied.states))
        run.state("solve", scenario["adaptive"], warned, min(len(spied.states), 30))
        run.sim_time += end - start
    for n in range(scenario["rounds"]):
        if n > 0 and scenario["abandon"]:
            # an abandoned iteration has no influence on the next one
            iterator = iter(stepping)
            try:
                for _ in range(scenario["abandon"]):
                    next(iterator)
            except (StopIteration, TimeStepTooSmallError):
                pass
            run.count("abandoned iterations")
        ended, steps = _drive(stepping, proposals, cfl, start, end, scenario["adaptive"], run,
                              limit)
        run.event(ended, steps)
        run.sim_time += sum(steps)
        run.state(scenario["adaptive"], ended, min(len(steps), 40), start)
        if n == 0:
            first = (ended, steps)
        elif not scenario["adaptive"]:
            check(first == (ended, steps), "not-repeatable",
                  "iterating again takes other steps although nothing changed")


def _solver(scenario, run):
    benchmark = world.build_benchmark(scenario["bench"])
    solver = world.build_solver(scenario["solver"], benchmark)
    end = scenario["bench"]["end"]
    spied = world.spy(solver, on_update=world.StateCap(2000))
    outcome = world.solve(solver)
    run.nontrivial = True
    run.event("solver", outcome.error_name, spied.time, len(spied.states))
    if outcome.error is not None:
        return
    warned = any("too small" in w for w in outcome.warnings)
    if not warned:
        clock = solver.as_dict()["time_stepping"].time
        check(clock == end, "end-time", lambda: f"clock ends at {clock!r} instead of {end!r}")
        check(abs(spied.time - end) <= 1e-9 * max(1.0, abs(end)), "end-time",
              lambda: f"solution ends at {spied.time!r} instead of {end!r}")
    for _, _, step in spied.states:
        check(step > 0, "not-positive", "a step is not positive")
    run.sim_time += spied.time - scenario["bench"]["start"]
    run.state(scenario["solver"]["cls"], warned, min(len(spied.states), 40))
