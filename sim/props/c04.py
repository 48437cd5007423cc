"""C04: every Runge-Kutta step evaluates the equation at its stage times and values."""
import math

import core
import numpy as np

from .. import world
from ..base import HarnessError, Inconclusive, Violation, check
from ..faults import ERRORS
from ..tableaus import TABLEAUS

QUICK, THOROUGH, TIMEOUT = 900, 40000, 40
LEVEL = "exploration"
RULE = ("one evaluation = one seeded history of steps, failing evaluations and restarts of one "
        "integrator (alone or inside a solver); every evaluation is compared with the tableau")
REAL = ["core.ForwardEuler, Heun, StrongStabilityPreservingRungeKutta3, RungeKutta8; in solver "
        "scenarios the whole solver with time-dependent inflow"]
STUBS = ["equation (direct scenarios) or benchmark (solver scenarios) are generated"]
STATE_MEASURE = "(integrator, kind of the state, operation before, failing stage)"

METHODS = {"euler": core.ForwardEuler, "heun": core.Heun,
           "ssp3": core.StrongStabilityPreservingRungeKutta3, "rk8": core.RungeKutta8}
BY_NAME = {cls.__name__: key for key, cls in METHODS.items()}


def generate(rng, i):
    if i % 3 == 2:
        kind, cls = rng.choice([("scalar", "llf"), ("scalar", "mcl-fv"), ("scalar", "central"),
                                ("scalar", "cg"), ("scalar", "cg-low"), ("scalar", "mcl-fem"),
                                ("swe", "llf"), ("swe", "low-order"), ("swe", "mcl"),
                                ("swe", "es1"), ("swe", "central"), ("swe", "lw"),
                                ("swe", "antidiffusion"), ("swe", "coarse")])
        if kind == "scalar":
            bench, solver = world.random_scalar(
                rng, cls, rng.randint(1, 5), bcs=[["inflow", "outflow"], ["inflow", "inflow"],
                                                  ["outflow", "inflow"]])
        else:
            bench, solver = world.random_swe(
                rng, cls, rng.randint(1, 5), bcs=[["inflow", "outflow"], ["inflow", "inflow"],
                                                  ["wall", "inflow"]])
        for side in "lr":
            if "inflow_" + side in bench:
                wave = lambda lo, hi: {"kind": "fourier", "c": (lo + hi) / 2, "terms": [
                    [(hi - lo) / 2 * 0.9, 1, world.r(rng, 0, 6)]]}
                bench["inflow_" + side] = wave(-2, 2) if kind == "scalar" else {
                    "h": wave(0.5, 3.0), "v": wave(-1.5, 1.5)}
        return {"what": "solver", "bench": bench, "solver": solver,
                "fail": rng.choice([None, None, rng.randint(1, 12)]),
                "error": rng.choice(list(ERRORS)), "again": rng.choice([0, 1, 1, 2])}
    ops = []
    for _ in range(rng.randint(1, 8)):
        u = rng.random()
        if u < 0.65:
            ops.append({"op": "step", "dt": rng.choice([0.1, 0.25, 1.0, 0.0, 1e-6, 0.3, 1e-12, -0.2])})
        elif u < 0.82:
            ops.append({"op": "fail", "dt": rng.choice([0.1, 0.5]), "stage": rng.randint(1, 11),
                        "error": rng.choice(list(ERRORS))})
        else:
            ops.append({"op": "restart", "seed": rng.randrange(10**6),
                        "time": rng.choice([None, 0.0, 2.5, -1.0, 1e3])})
    if not any(o["op"] == "step" for o in ops):
        ops.append({"op": "step", "dt": 0.1})
    return {"what": "direct", "method": rng.choice(list(METHODS)),
            "shape": rng.choice([None, [1], [3], [7], [3, 2]]), "seed": rng.randrange(10**6),
            "equation": rng.choice(["linear", "linear", "time", "logistic"]),
            "start": rng.choice([None, 0.0, 0.3, -2.0, 17.25, 1e4]), "ops": ops}


class Equation:
    """Records every evaluation; raises on command."""

    def __init__(self, kind, seed, shape):
        rng = np.random.default_rng(seed)
        self.kind, self.shape = kind, shape
        n = 1 if shape is None else int(np.prod(shape))
        self.matrix = rng.uniform(-1, 1, (n, n))
        self.phase = rng.uniform(0, 6, n)
        self.log, self.fail_at, self.error = [], None, None

    def evaluate(self, time, value):
        flat = np.asarray(value, dtype=float).reshape(-1)
        forcing = np.cos(3 * time + self.phase)
        if self.kind == "linear":
            result = self.matrix @ flat + forcing
        elif self.kind == "time":
            result = forcing
        else:
            result = flat * (1 - 0.2 * flat) + forcing
        return float(result[0]) if self.shape is None else result.reshape(self.shape)

    def __call__(self, time, value):
        entry = [float(time), np.array(value, copy=True), None]
        self.log.append(entry)
        if self.fail_at is not None and len(self.log) == self.fail_at:
            raise ERRORS[self.error]("injected")
        result = self.evaluate(time, value)
        entry[2] = np.array(result, copy=True)
        return result


def _close(x, y, scale, tol=1e-11):
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and bool((np.abs(x - y) <= tol * scale + 1e-300).all())


def verify_stages(name, log, start_time, start_value, dt, failed=False):
    """LOG holds the evaluations of one step: compares with the tableau."""
    matrix, weights, nodes = TABLEAUS[name]
    check(failed or len(log) == len(weights), "stage-count",
          lambda: f"{name}: {len(log)} evaluations in one step instead of {len(weights)}")
    results = [k for _, _, k in log]
    big = float(np.abs(start_value).max()) + abs(dt) * sum(
        float(np.abs(k).max()) for k in results if k is not None) * 4 + 1e-30
    for s, (time, value, _) in enumerate(log):
        want = start_time + nodes[s] * dt
        check(abs(time - want) <= 1e-12 * (1 + abs(start_time) + abs(dt)), "stage-time",
              lambda: f"{name}: evaluation {s} happens at {time!r} instead of {want!r} (step from "
                      f"{start_time!r} by {dt!r})")
        target = np.asarray(start_value, dtype=float) + dt * sum(
            (a * k for a, k in zip(matrix[s], results)), np.zeros(np.shape(start_value)))
        check(_close(value, target, big), "stage-value",
              lambda: f"{name}: evaluation {s} sees a wrong stage value")
    if failed:
        return None
    return np.asarray(start_value, dtype=float) + dt * sum(
        (w * k for w, k in zip(weights, results)), np.zeros(np.shape(start_value))), big


def execute(scenario, run):
    if scenario["what"] == "solver":
        return _solver(scenario, run)
    name = scenario["method"]
    shape = None if scenario["shape"] is None else tuple(scenario["shape"])
    rng = np.random.default_rng(scenario["seed"])

    def fresh(r):
        return float(r.uniform(-1, 1)) if shape is None else r.uniform(-1, 1, shape)

    equation = Equation(scenario["equation"], scenario["seed"], shape)
    value = fresh(rng)
    handed = np.array(value, copy=True)
    if scenario["start"] is None:
        method, time = METHODS[name](equation, value), 0.0
    else:
        time = scenario["start"]
        method = METHODS[name](equation, value, initial_time=time)
    now = np.array(value, copy=True)
    previous = "start"
    for op in scenario["ops"]:
        run.event(op["op"], op.get("dt"))
        if op["op"] == "restart":
            value = fresh(np.random.default_rng(op["seed"]))
            if op["time"] is None:
                method.reinitialize(value)
                time = 0.0
            else:
                method.reinitialize(value, op["time"])
                time = op["time"]
            now = np.array(value, copy=True)
            handed = now.copy()
        else:
            equation.log = []
            failing = op["op"] == "fail" and op["stage"] <= len(TABLEAUS[name][1])
            equation.fail_at = op["stage"] if failing else None
            equation.error = op.get("error")
            dt = op["dt"]
            outcome = world.attempt(method.execute, dt)
            if failing:
                run.fault(f"evaluation raises {op['error']}")
                check(outcome.error is not None, "failure-swallowed",
                      "the error of an evaluation is swallowed by the step")
                verify_stages(name, equation.log, time, now, dt, failed=True)
                run.state(name, scenario["shape"], previous, op["stage"])
                # a failed step has not happened
                check(method.time == time, "failed-step-time", lambda: "a failed step moved the "
                      f"time from {time!r} to {method.time!r}")
                check(_close(method.solution, now, 1.0, 0), "failed-step-value",
                      "a failed step changed the solution")
                previous = "fail"
                continue
            if outcome.error is not None:
                raise outcome.error
            target, big = verify_stages(name, equation.log, time, now, dt)
            check(_close(method.solution, target, big), "step-value",
                  lambda: f"{name}: the step does not combine the evaluations with its weights")
            check(abs(method.time - (time + dt)) <= 1e-12 * (1 + abs(time)), "step-time",
                  lambda: f"{name}: time is {method.time!r} after a step by {dt!r} from {time!r}")
            check(len(method.time_nodes) == len(equation.log)
                  and len(method.stage_values) == len(equation.log), "reported-stages",
                  "a wrong number of stages is reported")
            for (t, v, _), node, stage in zip(equation.log, method.time_nodes, method.stage_values):
                check(t == node and _close(stage, v, 1.0, 0), "reported-stages",
                      "the reported stage times and values are not the ones which were used")
            time, now = method.time, np.array(method.solution, copy=True)
            run.sim_time += abs(dt)
        check(method.time == time, "restart-time", lambda: f"time is {method.time!r} instead of "
              f"{time!r}")
        check(_close(method.solution, now, 1.0, 0), "restart-value", "restarting sets another value")
        check(_close(value, handed, 1.0, 0), "input-changed",
              "the integrator modified the initial value it was handed")
        run.event(now, time)
        run.state(name, scenario["shape"], previous, op["op"])
        previous = op["op"]
        run.nontrivial = True


class Recorder(world.Hooks):
    def __init__(self, benchmark):
        self.benchmark, self.log, self.calls = benchmark, [], 0
        self.fail_at, self.error, self.fired, self.inflow_bad = None, None, False, None

    def before(self, hooked, time, value):
        self.calls += 1
        self.log.append([float(time), np.array(value, copy=True), None])
        self.seen = len(self.benchmark.inflow_calls)
        if self.fail_at is not None and self.calls == self.fail_at:
            self.fired = True
            raise ERRORS[self.error]("injected")

    def after(self, hooked, time, value, result):
        self.log[-1][2] = np.array(result, copy=True)
        calls = self.benchmark.inflow_calls[self.seen:]
        sides = {s for s, _ in calls}
        bc = self.benchmark.spec["bc"]
        want = {s for s, c in zip("lr", (bc[0], bc[-1])) if c == "inflow"}
        if sides != want:
            self.inflow_bad = f"inflow data of {sorted(want - sides)} are not consulted at {time!r}"
        for side, t in calls:
            if t != float(time):
                self.inflow_bad = f"inflow data for {t!r} are used in the evaluation at {time!r}"
        return result


def _solver(scenario, run):
    spec = scenario["solver"]
    benchmark = world.build_benchmark(scenario["bench"])
    recorder = Recorder(benchmark)
    with world.hooked(recorder):
        solver = world.build_solver(spec, benchmark)
    integrator = type(solver.as_dict()["ode_solver"]).__name__
    name = BY_NAME.get(integrator)
    if name is None:
        raise HarnessError(f"unknown integrator {integrator}")
    if spec.get("ode") and spec["cls"] not in ("lw", "cg"):
        check(name == spec["ode"], "integrator", f"{spec['ode']} was asked for, {name} is used")
    if spec["cls"] == "cg":
        want = {1: "heun", 2: "ssp3", 3: "rk8"}[spec.get("degree", 1)]
        check(name == want, "integrator", f"degree {spec.get('degree', 1)} is integrated by {name}")
    coarse = spec["cls"] == "coarse"
    spied = world.spy(solver, on_update=world.StateCap())
    start = scenario["bench"]["start"]
    state = {}
    original = spied.update

    def update(time_step, value):
        target, big = verify_stages(name, recorder.log, state["time"], state["value"], time_step)
        check(_close(value, target, big), "step-value",
              f"{spec['cls']} with {name}: the accepted state does not combine the evaluations "
              "with the weights")
        check(recorder.inflow_bad is None, "inflow-time", lambda: recorder.inflow_bad)
        recorder.log = []
        original(time_step, value)
        state["time"] = spied.inner.time
        state["value"] = np.array(value, copy=True)
        run.count("steps")

    spied.update = update
    for n in range(1 + scenario["again"]):
        if n > 0:
            solver.reinitialize(benchmark)
        if coarse:
            # the fine initial data are the first stage value
            state = {"time": start, "value": None}
            first = recorder.before

            def before(hooked, time, value, first=first):
                if state["value"] is None:
                    state["value"] = np.array(value, copy=True)
                first(hooked, time, value)
            recorder.before = before
        else:
            state = {"time": spied.inner.time, "value": spied.inner.value}
        check(spied.inner.time == start, "start-time", lambda: f"starts at {spied.inner.time!r}")
        recorder.log, recorder.calls, recorder.fired = [], 0, False
        recorder.fail_at = scenario["fail"] if n == 0 else None
        recorder.error = scenario["error"]
        accepted = len(spied.states)
        outcome = world.solve(solver)
        if coarse:
            recorder.before = first
        if recorder.fired:
            run.fault(f"evaluation raises {scenario['error']}")
        elif outcome.error is not None and not isinstance(outcome.error, (ValueError, ArithmeticError)):
            raise outcome.error
        run.event("solve", outcome.error_name, spied.inner.time, spied.inner.value)
        run.sim_time += spied.inner.time - start
        run.state(spec["cls"], name, n, recorder.fired, min(len(spied.states) - accepted, 9))
        run.nontrivial = True
