"""C13: observation never changes the computation; CFL warnings are exact."""
import io
import re

import core
import numpy as np

from .. import world
from ..base import check, rng_for

QUICK, THOROUGH, TIMEOUT = 700, 25000, 60
LEVEL = "exploration"
RULE = ("one evaluation = one seeded solve under observation (history, coarse view, progress bar on "
        "a jumping clock, CFL check, command) compared bit for bit with the unobserved one in a "
        "pristine process, or a solve whose CFL warnings are compared with an own estimate for "
        "every evaluated stage")
REAL = ["all solvers, discrete solutions, histories, coarse views, CFL checker, progress bars, "
        "Calculate command"]
STUBS = ["benchmarks are generated; the wall clock of progress bars is simulated; in some scenarios "
         "the admissible step size of a stage is chosen by the simulator"]
STATE_MEASURE = "(solver, observers or kind of check, integrator, pattern of the warnings)"
ASSUMPTIONS = ["the time printed in a warning is accepted at the start or the end of the step",
               "stages whose admissible step agrees with the step up to 1e-9 are judged only if the step is exactly "
               "the admissible one (CFL number 1)"]


def generate(rng, i):
    if i % 2 == 0:
        classes = [("swe", rng.choice(world.REDUCED))] if i % 24 == 22 else None
        bench, solver = world.random_any(rng, rng.randint(1, 6), classes)
        solver["history"] = False
        observers = [o for o in ("history", "progress", "coarse", "command", "no-check", "name")
                     if rng.random() < 0.45] or ["history"]
        return {"what": "observe", "bench": bench, "solver": solver, "observers": observers,
                "degree": rng.choice([1, 2, 3]),
                "clock": [rng.choice([0.0, 0.0, 0.01, 0.2, 1.0, 3600.0, -5.0, -1e6, 1e9])
                          for _ in range(rng.randint(1, 6))],
                "bar": {"mininterval": rng.choice([0, 0.1]), "leave": rng.random() < 0.5}}
    if i % 4 == 1:
        cls = rng.choice(["cg-low", "mcl-fem"])
        theta = rng.choice([(0.5, 0.99), (1.01, 2.5), (1.0, 1.2), (0.9, 1.05)])
        bench, solver = world.random_scalar(rng, cls, rng.randint(1, 8), theta=theta)
        if rng.random() < 0.25:
            solver["cfl"] = 1.0  # exactly the admissible step
        return {"what": "fem", "bench": bench, "solver": solver,
                "progress": rng.random() < 0.3, "again": rng.random() < 0.3}
    classes = [("scalar", c) for c in world.SCALAR_FV] + [("swe", c) for c in (
        "llf", "low-order", "mcl", "es1", "central")]
    bench, solver = world.random_any(rng, rng.randint(1, 6), classes)
    return {"what": "checker", "bench": bench, "solver": solver, "seed": rng.randrange(10**6),
            "often": rng.choice([0.1, 0.3, 0.9]), "progress": rng.random() < 0.3}


def execute(scenario, run):
    if world.uses_network(scenario["solver"]):
        world.provide_networks(".")
    if scenario["what"] == "observe":
        _observe(scenario, run)
    else:
        _warnings(scenario, run)


# ---------------------------------------------------------------- transparency
def _plain(scenario):
    solver = world.build_solver(scenario["solver"], world.build_benchmark(scenario["bench"]))
    states = []
    cap = world.StateCap()
    inner = solver.solution
    original = inner.update

    def update(time_step, value):
        cap()
        states.append((time_step, np.array(value, copy=True)))
        original(time_step, value)

    inner.update = update
    outcome = world.solve(solver)
    return states, float(inner.time), inner.value, outcome.error_name, outcome.warnings


def _observe(scenario, run):
    states, time, value, error, warnings = world.isolated(_plain, scenario)
    observers, spec = scenario["observers"], dict(scenario["solver"])
    benchmark = world.build_benchmark(scenario["bench"])
    if "history" in observers:
        spec["history"] = True
    if "name" in observers:
        spec.update(name="observed", short="o")
    solver = world.build_solver(spec, benchmark)
    checked = spec["cls"] in ("cg-low", "mcl-fem")
    if "no-check" in observers and checked:
        parts = solver.as_dict()
        solver = world.HarnessSolver(solver.solution, parts["right_hand_side"],
                                     type(parts["ode_solver"]), parts["time_stepping"])
    coarse = None
    if "coarse" in observers and spec["cls"] not in ("coarse", *world.SCALAR_FE):
        degree = scenario["degree"]
        if spec["mesh"] % degree == 0:
            if "history" in observers:
                solver.solution = core.CoarseSolutionWithHistory(solver.solution, degree)
            else:
                solver.solution = core.CoarseSolution(solver.solution, degree)
            coarse = degree
    found = []
    solution = solver.solution
    original = solution.update

    def update(time_step, value):
        found.append((time_step, np.array(value, copy=True)))
        original(time_step, value)
        solution.value, solution.time, solution.dimension  # looked at

    solution.update = update
    clock = world.SimClock(scenario["clock"], run)
    bar = dict(scenario["bar"], file=io.StringIO(), disable=False)
    with clock.installed():
        if "command" in observers:
            from command.calculate import Calculate

            outcome = world.attempt(Calculate(solver, **(
                bar if "progress" in observers else {"disable": True})).execute)
        else:
            outcome = world.solve(solver, **(bar if "progress" in observers else {}))
    what = f"{spec['cls']} observed by {', '.join(observers)}"
    swallowed = "command" in observers
    check(len(found) == len(states), "steps", lambda: f"{what}: {len(found)} steps instead of "
          f"{len(states)}", solver=spec["cls"])
    for k, ((a, u), (b, v)) in enumerate(zip(states, found)):
        check(a == b, "step-size", lambda: f"{what}: step {k} is {b!r} instead of {a!r}",
              solver=spec["cls"])
        check(world.same(u, v), "state", f"{what}: step {k} computes another state",
              solver=spec["cls"])
    check(solution.time == time, "time", lambda: f"{what}: ends at {solution.time!r} instead of "
          f"{time!r}", solver=spec["cls"])
    if coarse is None:
        check(world.same(solution.value, value), "final-state", f"{what}: other final state",
              solver=spec["cls"])
    if not swallowed:
        check(outcome.error_name == error, "outcome", lambda: f"{what}: ends with "
              f"{outcome.error_name} instead of {error}", solver=spec["cls"])
    mine = [w for w in outcome.warnings if "CFL" in w]
    if not ("no-check" in observers and checked):
        check(mine == [w for w in warnings if "CFL" in w], "warnings", lambda: f"{what}: warns "
              f"{mine} instead of {warnings}", solver=spec["cls"])
    run.event(what, len(found), solution.time, found[-1][1] if found else value)
    run.state(spec["cls"], *observers, spec.get("ode"), bool(warnings))
    run.sim_time += time - scenario["bench"]["start"]
    run.nontrivial = bool(found)


# ---------------------------------------------------------------- warnings
def _fem_estimate(problem, dx):
    def estimate(time, u):
        if problem == "advection":
            return dx / 2
        a = np.abs(u)
        speed = (np.maximum(a, np.roll(a, 1)) + np.maximum(a, np.roll(a, -1))) / 2
        return float(dx / (2 * speed.max())) if speed.max() > 0 else float("inf")
    return estimate


class Stages(world.Hooks):
    def __init__(self):
        self.log = []

    def before(self, hooked, time, value):
        self.log.append((float(time), np.array(value, copy=True)))


def near(text, time):
    """The warnings print four digits; the clock of the time stepping and the
    one of the solution differ by rounding errors."""
    try:
        printed = float(text)
    except ValueError:
        return False
    return abs(printed - time) <= 5.1e-5 + 1e-9 * abs(time)


def _warnings(scenario, run):
    spec, bench = scenario["solver"], scenario["bench"]
    benchmark = world.build_benchmark(bench)
    dx = (bench["b"] - bench["a"]) / spec["mesh"]
    stages = Stages()
    with world.hooked(stages):
        solver = world.build_solver(spec, benchmark)
    asked = []
    if scenario["what"] == "fem":
        estimate = _fem_estimate(bench["problem"], dx)
    else:
        def estimate(time, value):
            """Arbitrary, but a function of time and state."""
            rng = rng_for(scenario["seed"], repr(float(time)), value.tobytes().hex())
            violated = rng.random() < scenario["often"]
            # far from the step taken or only just on one side of it
            away = rng.choice([None, None, None, 1e-3, 1e-6, 1e-8])
            if away is None:
                return dx * spec["cfl"] * (0.4 if violated else 2.5)
            return dx * spec["cfl"] * (1 - away if violated else 1 + away)

        def optimal(time, value):
            asked.append((float(time), np.array(value, copy=True)))
            return estimate(time, value)

        parts = solver.as_dict()
        with world.hooked(stages):
            solver = world.HarnessSolver(
                solver.solution, parts["right_hand_side"], type(parts["ode_solver"]),
                parts["time_stepping"], cfl_checker=core.CFLChecker(optimal))
        stages.log.clear()
    for again in range(1 + bool(scenario.get("again"))):
        if again:
            solver.reinitialize(benchmark)
        expected = []  # per step: (must, may, time)
        inner = solver.solution
        original = inner.update
        cap = world.StateCap()
        stages.log = []
        start = inner.time

        def update(time_step, value):
            cap()
            original(time_step, value)
            margins = [estimate(t, v) / time_step for t, v in stages.log]
            if scenario["what"] == "fem" and spec["cfl"] == 1.0:
                # the step is exactly the one admissible for these stages (or shorter)
                exact = len(margins) if bench["problem"] == "advection" else 1 if spec["adaptive"] else 0
                margins = [m if abs(m - 1) > 1e-9 or k >= exact else 2.0 for k, m in enumerate(margins)]
            expected.append((any(m < 1 - 1e-9 for m in margins),
                             any(m < 1 + 1e-9 for m in margins),
                             float(inner.time)))
            for t, v in asked:
                check(any(t == s and world.same(v, w) for s, w in stages.log), "checked-state",
                      "the CFL condition is checked for something which is no stage of the step",
                      solver=spec["cls"])
            asked.clear()
            stages.log = []

        inner.update = update
        kwargs = {}
        if scenario.get("progress"):
            kwargs = {"disable": False, "file": io.StringIO()}
        outcome = world.solve(solver, **kwargs)
        del inner.update
        printed = [re.search(r"at time (-?[0-9.einf+-]+)", w) for w in outcome.warnings if "CFL" in w]
        printed = [m.group(1) if m else "?" for m in printed]
        todo = list(printed)
        for k, (must, may, time) in enumerate(expected):
            if may and todo and near(todo[0], time) and (must or len(todo) > sum(
                    e[0] for e in expected[k + 1:])):
                todo.pop(0)
            elif must:
                check(False, "warning-missing", f"{spec['cls']}: no warning for step {k} (ends at "
                      f"{time!r}) although a stage violates the CFL condition; printed "
                      f"{printed}", solver=spec["cls"])
        if outcome.error is None:
            check(not todo, "warning-wrong", lambda: f"{spec['cls']}: warnings {todo} although no "
                  "stage violates the CFL condition", solver=spec["cls"])
            check(abs(inner.time - bench["end"]) <= 1e-9 * max(1, abs(bench["end"])), "stopped",
                  lambda: f"{spec['cls']}: the run stops at {inner.time!r}", solver=spec["cls"])
        run.count("warnings expected", sum(e[0] for e in expected))
        run.count("steps judged", len(expected))
        run.event(scenario["what"], printed, inner.time, inner.value, outcome.error_name)
        run.state(spec["cls"], scenario["what"], spec.get("ode"),
                  "".join("w" if e[0] else "-" for e in expected[:8]))
        run.sim_time += inner.time - start
        run.nontrivial = run.nontrivial or bool(expected)
