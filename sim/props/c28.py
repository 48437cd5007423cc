"""C28: every solver computes what defines its scheme."""
import os

import core
import numpy as np
import torch
from finite_volume.shallow_water.solver import NETWORK_TYPES

from .. import schemes, training, world
from ..tableaus import TABLEAUS
from ..base import check
from ..faults import ERRORS, AllocationFault, RhsFault

QUICK, THOROUGH, TIMEOUT = 900, 30000, 60
LEVEL = "exploration"
RULE = ("one evaluation = one seeded history of solves (some failing), reinitialisations and evaluations of "
        "1-2 solvers in a process; every time derivative which is computed, every initial state and every "
        "step size is compared with an executable reference model of the scheme")
REAL = ["all solvers but Lax-Wendroff: fluxes, networks (those of the repository and trained ones), limiters, boundary and ghost cells, "
        "bathymetry, finite element assembly, initial data, step sizes"]
STUBS = ["benchmarks and states are generated; failures are injected into evaluations and allocations"]
STATE_MEASURE = "(solver, inner flux, degree, problem, boundary conditions, topography, operation, kind of state)"
ASSUMPTIONS = ["water heights above 1e-6; meshes of at least 3 cells",
               "the Lax-Wendroff solver has no reference model"]
NETWORKS = {"reduced-llf": "llf", "reduced-llf-2": "llf2"}
SCALAR = world.SCALAR_FV + world.SCALAR_FE
WATER = world.SWE
DEFAULT_CFL, DEFAULT_ODE = 0.1, "heun"
SHRINK_LISTS = {"tasks": 1, "ops": 1}
SHRINK_NUMBERS = {"at": 1, "seed": 0}


def _task(rng):
    steps = rng.randint(1, 5)
    if rng.random() < 0.45:
        cls = rng.choice(SCALAR)
        bench, solver = world.random_scalar(rng, cls, steps, mesh=rng.randint(3, 12))
        if cls in world.SCALAR_FE:
            solver["degree"] = rng.choice([1, 1, 1, 2, 2, 3, 3, 4, 5])
            solver["mesh"] = min(solver["mesh"], 8 if solver["degree"] < 3 else 5)
    else:
        bench, solver = world.random_swe(rng, rng.choice(WATER + ["mcl", "mcl"]), steps, mesh=rng.randint(3, 14),
                                         bathy=rng.choice([None, (-0.3, 0.3), (-2.0, 2.0)]))
        if solver["cls"] == "lw":
            bench.pop("bathy", None)
        bench["g"] = rng.choice([9.812, 1.0, 0.3, 25.0])
        if solver["cls"] in ("antidiffusion", "coarse") and rng.random() < 0.5:
            solver["flux"] = rng.choice([None, "central", "es", "es1", "llf", "low-order"])
        if solver["cls"] == "antidiffusion" and rng.random() < 0.3:
            del solver["gamma"]
        if rng.random() < 0.15:
            network = rng.choice(list(NETWORKS))
            if solver["cls"] in ("antidiffusion", "coarse", "mcl"):
                solver["flux"] = network
            else:
                solver["cls"] = network
    for option in ("ode", "cfl"):
        if rng.random() < 0.15:
            solver[option] = None
    return {"bench": bench, "solver": solver}


def generate(rng, i):
    count = rng.choice([1, 1, 2])
    tasks = [_task(rng) for _ in range(count)]
    if count == 2 and rng.random() < 0.3:
        tasks[1]["bench"] = tasks[0]["bench"] if (tasks[0]["bench"]["problem"] == "swe") == (
            tasks[1]["bench"]["problem"] == "swe") and "periodic" in tasks[0]["bench"]["bc"] else tasks[1]["bench"]
    ops = []
    for _ in range(rng.randint(1, 6)):
        op = {"solver": rng.randrange(count)}
        u = rng.random()
        if u < 0.3:
            op.update(op="solve", fault=None)
            if rng.random() < 0.4:
                op["fault"] = {"kind": "rhs-before", "error": rng.choice(list(ERRORS))}
                op["at"] = rng.randint(1, 8)
        elif u < 0.45:
            op.update(op="reinitialise")
        elif u < 0.52:
            op.update(op="allocation", at=rng.randint(1, 30), seed=rng.randrange(10 ** 6))
        else:
            op.update(op="evaluate", seed=rng.randrange(10 ** 6), time=rng.choice([0.0, 0.3, 1.9]),
                      kind=rng.choice(["random", "random", "fast", "small", "constant", "jump", "smooth", "signs"]))
        ops.append(op)
    scenario = {"tasks": tasks, "ops": ops}
    if rng.random() < 0.3 and any(world.uses_network(t["solver"]) for t in tasks):
        scenario["trained"] = {"data": dict(training.random_samples(rng), scale=rng.choice([0.1, 1.0]),
                                            shift=0.0), "torch": rng.randrange(1000)}
    return scenario


def _state(op, water, shape):
    """A state of the wanted shape and kind."""
    rng = np.random.default_rng(op["seed"])
    n, kind = shape[0], op.get("kind", "random")
    x = np.arange(n) / n
    if not water:
        if kind == "constant":
            return np.full(n, rng.uniform(-2, 2))
        if kind == "jump":
            return np.where(x < rng.uniform(0, 1), *rng.uniform(-3, 3, 2))
        if kind == "smooth":
            return rng.uniform(-2, 2) + np.sin(2 * np.pi * (x + rng.uniform()))
        if kind == "signs":
            return rng.choice([-1.0, 0.0, 1.0], n)
        return rng.uniform(-2, 2, n) * {"fast": 100, "small": 1e-3}.get(kind, 1)
    h, v = rng.uniform(0.5, 3, n), rng.uniform(-1.5, 1.5, n)
    if kind == "fast":
        v = rng.uniform(-15, 15, n)
    elif kind == "small":
        h = 10 ** rng.uniform(-4, 0.5, n)
    elif kind == "constant":
        h, v = np.full(n, h[0]), np.full(n, v[0])
    elif kind == "jump":
        left = x < rng.uniform(0, 1)
        h, v = np.where(left, h[0], h[-1]), np.where(left, v[0], v[-1])
    elif kind == "smooth":
        h = 2 + np.sin(2 * np.pi * (x + v[0])) * rng.uniform(0, 1.5)
        v = np.cos(2 * np.pi * (x + v[-1])) * rng.uniform(0, 5)
    elif kind == "signs":
        h, v = rng.choice([0.5, 1.0, 2.0], n), rng.choice([-1.0, 0.0, 1.0], n)
    return np.stack([h, h * v], axis=1)


class Judge(RhsFault):
    """Compares every evaluation of one solver with its reference model."""

    def __init__(self, task):
        super().__init__()
        self.task, self.reference, self.wrong, self.judged = task, None, None, 0
        p = task["solver"].get("degree", 1) if task["solver"]["cls"] in world.SCALAR_FE else 1
        self.tolerance = 1e-10 if p == 1 else 1e-11 * 10.0 ** p
        self.width = (task["bench"]["b"] - task["bench"]["a"]) / task["solver"]["mesh"]
        self.active = False

    def before(self, hooked, time, value):
        if self.active:
            super().before(hooked, time, value)

    def after(self, hooked, time, value, result):
        self.compare(time, value, result)
        return super().after(hooked, time, value, result) if self.active else result

    def compare(self, time, value, result):
        water = self.task["bench"]["problem"] == "swe"
        if self.reference is None or self.task["solver"]["cls"] == "lw" or not np.isfinite(value).all() or water and self.dry(time, value):
            return
        self.judge(time, value, result)

    def judge(self, time, value, result):
        water = self.task["bench"]["problem"] == "swe"
        want = self._definition(time, value)
        size = max(1e-300, abs(value).max(), (value ** 2).max())
        if water:
            size = max(size, (value[:, 1] ** 2 / value[:, 0]).max(), self.task["bench"]["g"] * size)
        scale = size / self.width + abs(want).max()
        scale += getattr(self.reference, "uncertainty", 0.0) / self.tolerance
        self.judged += 1
        if not self._near(result, want, scale) and not (
                water and self.reference.ambiguous
                and self._near(result, self._definition(time, value, most_wins=True), scale)):
            self.wrong = self.wrong or (float(time), np.array(value), np.array(result), want, scale)

    def _definition(self, time, value, most_wins=False):
        self.reference.ambiguous, self.reference.most_wins = False, most_wins
        with np.errstate(all="ignore"):
            return self.reference(time, value)

    def _near(self, result, want, scale):
        return np.shape(result) == want.shape and (abs(result - want) <= self.tolerance * scale).all()

    def dry(self, time, value):
        cells = [*value, *self.reference.ghosts(time, value)]
        return min(c[0] for c in cells) < 1e-6


def _build(task):
    judge = Judge(task)
    benchmark = world.build_benchmark(task["bench"])
    with world.hooked(judge):
        solver = world.build_solver(task["solver"], benchmark)
    judge.reference = schemes.reference(task["bench"], benchmark, task["solver"])
    judge.benchmark = benchmark
    return solver, judge, world.spy(solver)


def _train(trained):
    for key in NETWORKS.values():
        os.makedirs(training.directory(key))
        torch.manual_seed(trained["torch"])
        network = NETWORK_TYPES[key]()
        with training.simulated():
            network.fit(*training.samples(trained["data"]), epochs=2)
            network.save_params()


def execute(scenario, run):
    if scenario.get("trained"):
        world.isolated(_train, scenario["trained"])
    elif any(world.uses_network(t["solver"]) for t in scenario["tasks"]):
        world.provide_networks(".")
    built = [_build(t) for t in scenario["tasks"]]
    used = [False] * len(built)
    for (solver, judge, spy), task in zip(built, scenario["tasks"]):
        _judge_initial(task, judge, solver, "after being built")
    for n, op in enumerate(scenario["ops"]):
        index = op["solver"] % len(built)
        (solver, judge, spy), task = built[index], scenario["tasks"][index]
        bench, spec = task["bench"], task["solver"]
        judge.judged = 0
        spy.states.clear()
        if op["op"] == "reinitialise":
            solver.reinitialize(judge.benchmark)
            used[index] = None
            _judge_initial(task, judge, solver, "after being reinitialised")
        elif op["op"] == "solve":
            if used[index]:
                continue
            fresh = used[index] is False
            start = np.array(solver.as_dict()["ode_solver"].solution)
            judge.active, judge.calls, judge.fired = True, 0, False
            judge.fault, judge.at = op["fault"], op.get("at")
            outcome = world.solve(solver)
            judge.active, used[index] = False, True
            if judge.fired:
                run.fault(f"evaluation raises {op['fault']['error']}")
            if spec["cls"] != "coarse" and (fresh or not isinstance(judge.reference, schemes.Elements)):
                _judge_steps(task, judge, start, spy, outcome)
                _judge_integrator(task, solver.as_dict()["right_hand_side"], start, spy)
            run.event("solve", outcome.error_name, solver.solution.value)
            run.sim_time += max(0.0, float(solver.solution.time) - bench["start"])
        else:
            function = solver.as_dict()["right_hand_side"]
            value = _state(op, bench["problem"] == "swe", solver.as_dict()["ode_solver"].solution.shape)
            if op["op"] == "allocation":
                with AllocationFault(op["at"], run).installed():
                    world.attempt(function, bench["start"], value)
                judge.compare(bench["start"], value, function(bench["start"], value))
            else:
                result = function(bench["start"] + op["time"], value)
                judge.compare(bench["start"] + op["time"], value, result)
                run.event(n, spec["cls"], result)
        name = "/".join(str(x) for x in (bench["problem"], spec["cls"], spec.get("flux")))
        if judge.wrong is not None:
            time, value, result, want, scale = judge.wrong
            at = np.unravel_index(np.argmax(abs(result - want)), want.shape) if np.shape(
                result) == want.shape else None
            check(False, "derivative", f"operation {n} ({op['op']}): {name}, degree {spec.get('degree', 1)}, "
                  f"computes at time {time} {result[at] if at else result.shape} instead of "
                  f"{want[at] if at else want.shape} as time derivative of entry {at} (scale {scale:.3g})",
                  solver=spec["cls"])
        if judge.judged:
            run.nontrivial = True
            run.count("evaluations compared", judge.judged)
            run.state(bench["problem"], spec["cls"], spec.get("flux"), spec.get("degree"), spec.get("exact_flux"),
                      bench["bc"], bench.get("bathy", {}).get("kind"), op["op"], op.get("kind"))


def _judge_initial(task, judge, solver, when):
    reference = judge.reference
    want = reference.initial(judge.benchmark) if isinstance(reference, schemes.Elements) else reference.initial()
    found = solver.as_dict()["ode_solver"].solution
    size = abs(want).max() + 1e-300
    if _steps_between(task):
        return
    check(found.shape == want.shape and (abs(found - want) <= 1e-11 * size).all(), "initial",
          lambda: f"{task['solver']['cls']}: the state {when} differs by "
          f"{float(abs(found - want).max()) if found.shape == want.shape else 'its shape'} from the initial data",
          solver=task["solver"]["cls"])


def _steps_between(task):
    """Data which jump next to a quadrature or finite element node are not judged."""
    profiles = [task["bench"][k] for k in ("init", "h", "v", "bathy") if k in task["bench"]]
    a, b, n = task["bench"]["a"], task["bench"]["b"], task["solver"]["mesh"]
    p = task["solver"].get("degree", 1) if task["solver"]["cls"] in world.SCALAR_FE else None
    points = np.array([i / p for i in range(n * p + 1)]) / n if p else np.array(
        [i + s for i in range(n) for s in schemes.GAUSS]) / n
    for profile in profiles:
        if profile["kind"] == "steps":
            x = points * len(profile["values"])
            if (abs(x - np.round(x)) < 1e-9).any():
                return True
    return False


def _judge_integrator(task, function, value, spy):
    """The first steps are those of the chosen integrator (Heun's method if none is chosen) and for 'cg'
    of the one which fits the degree."""
    spec = task["solver"]
    if spec["cls"] == "lw":
        return
    name = {1: "heun", 2: "ssp3"}.get(spec.get("degree", 1), "rk8") if spec["cls"] == "cg" else (
        spec["ode"] or DEFAULT_ODE)
    matrix, weights, nodes = TABLEAUS[name]
    time = task["bench"]["start"]
    for new_time, new_value, step in spy.states[:2]:
        stages = []
        with np.errstate(all="ignore"):
            for k, (row, node) in enumerate(zip(matrix, nodes)):
                stage = value + step * sum(a * f for a, f in zip(row, stages))
                world.attempt(lambda: stages.append(function(time + node * step, stage)))
                if len(stages) == k or not np.isfinite(stage).all() or not np.isfinite(stages[-1]).all():
                    return
            want = value + step * sum(b * f for b, f in zip(weights, stages))
            size = abs(value).max() + step * max(abs(f).max() for f in stages)
        check((abs(new_value - want) <= 1e-9 * size).all(), "integrator", lambda: f"{spec['cls']}, degree "
              f"{spec.get('degree', 1)}: the step to {new_time} is not one of '{name}'", solver=spec["cls"])
        time, value = new_time, new_value


def _judge_steps(task, judge, start, spy, outcome):
    """Step sizes: CFL number times step length (adaptive: largest admissible step), up to the end."""
    bench, spec, reference = task["bench"], task["solver"], judge.reference
    time, value = bench["start"], start
    admissible = None
    for k, (new_time, new_value, step) in enumerate(spy.states):
        if spec["cls"] in ("cg-low", "mcl-fem"):
            if admissible is None or spec.get("adaptive"):
                admissible = reference.step(value)
        else:
            admissible = judge.width
        want = (DEFAULT_CFL if spec["cfl"] is None else spec["cfl"]) * admissible
        if np.isfinite(want):
            want = min(want, bench["end"] - time)
            check(abs(step - want) <= 1e-9 * want + 1e-13, "step", f"{spec['cls']}: step {k} is {step!r} long "
                  f"instead of {want!r}", solver=spec["cls"])
        if spec["cls"] == "lw" and step > 1e-9 and judge.wrong is None and np.isfinite(
                [value, new_value]).all() and not judge.dry(time, value):
            reference.step = step
            judge.judge(time, value, (new_value - value) / step)
        time, value = new_time, new_value
    if outcome.error_name is None and not outcome.warnings and spy.states:
        check(abs(time - bench["end"]) <= 1e-11 * (1 + abs(time)), "end", f"{spec['cls']} ends at {time!r}", solver=spec["cls"])
