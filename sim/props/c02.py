"""C02: histories are complete, append-only and aligned."""
import core
import numpy as np

from .. import world
from ..base import Inconclusive, Violation, check
from ..faults import RhsFault

QUICK, THOROUGH, TIMEOUT = 600, 20000, 40
LEVEL = "exploration"
RULE = ("one evaluation = one seeded sequence of updates, rewinds, failures, queries and solves on "
        "a recording solution, compared after every operation with a list model")
REAL = ["core.DiscreteSolution, DiscreteSolutionWithHistory, CoarseSolution, "
        "CoarseSolutionWithHistory, DiscreteSolutionWithInputData, solvers recording histories"]
STUBS = ["benchmarks are generated; evaluations fail on command"]
STATE_MEASURE = "(class of the solution, kinds of the last two operations, entries in the history)"
ASSUMPTIONS = ["failures of a step are raised errors or values which are not finite"]

VIEWS = ["history", "coarse", "coarse-history", "history-of-coarse", "input-data",
         "history-of-history"]


def generate(rng, i):
    if i % 3 == 2:
        bench, solver = world.random_any(rng, rng.randint(1, 5))
        solver["history"] = True
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops.append({"op": rng.choice(["solve", "solve", "fail", "poison"]),
                        "at": rng.randint(1, 6), "where": round(rng.random(), 3)})
        return {"what": "solver", "bench": bench, "solver": solver, "ops": ops,
                "other": world.random_profile(rng, 0.5, 1.9, kinds=("fourier", "steps"))}
    view = rng.choice(VIEWS)
    degree = rng.choice([1, 2, 3, 4])
    blocks = rng.randint(4 if view == "input-data" else 1, 7)
    components = rng.choice([1, 1, 2])
    ops = []
    for _ in range(rng.randint(1, 12)):
        u = rng.random()
        if u < 0.5:
            ops.append({"op": "update", "dt": rng.choice([0.1, 0.25, 0.5, 1e-9, 0.3, 2.0]),
                        "seed": rng.randrange(10**6)})
        elif u < 0.62:
            ops.append({"op": "bad-update", "dt": 0.25, "seed": rng.randrange(10**6),
                        "bad": rng.choice(["nan", "inf", "-inf"]), "where": round(rng.random(), 3)})
        elif u < 0.7:
            ops.append({"op": "bad-rewind", "frac": rng.choice([0.0, 0.5, 1.0, 0.33]),
                        "seed": rng.randrange(10**6), "bad": rng.choice(["nan", "inf"]),
                        "where": round(rng.random(), 3)})
        elif u < 0.72:
            ops.append({"op": "bad-shape", "dt": 0.5, "seed": rng.randrange(10**6)})
        elif u < 0.88:
            ops.append({"op": "rewind", "frac": rng.choice([0.0, 1.0, 0.5, 0.33, 0.77, 1.5]),
                        "exact": rng.random() < 0.6, "seed": rng.randrange(10**6)})
        else:
            ops.append({"op": "query", "seed": rng.randrange(10**6)})
    return {"what": "object", "view": view, "degree": degree, "blocks": blocks,
            "components": components, "start": rng.choice([0.0, 0.0, 0.5, 0.3, -1.0]),
            "node": rng.randint(2, max(2, blocks - 2)), "fine_radius": rng.randint(1, 2),
            "ops": ops}


def _values(seed, shape):
    return np.random.default_rng(seed).uniform(-3, 3, shape)


def _average(values, degree):
    """Block averages, computed independently."""
    values = np.asarray(values)
    return np.array([sum(values[k] for k in range(j, j + degree)) / degree
                     for j in range(0, len(values), degree)])


def _poison(values, bad, where):
    flat = values.reshape(-1)
    flat[int(where * flat.size) % flat.size] = float(bad)
    return values


class ObjectModel:
    def __init__(self, scenario):
        self.s = scenario
        n = scenario["degree"] * scenario["blocks"]
        self.shape = (n,) if scenario["components"] == 1 else (n, 2)
        mesh = core.UniformMesh(core.Interval(0, 1), n)
        import finite_volume

        first = _values(0, self.shape)
        base = core.DiscreteSolution(first.copy(), initial_time=scenario["start"],
                                     space=finite_volume.FiniteVolumeSpace(mesh))
        self.base = base
        view, degree = scenario["view"], scenario["degree"]
        self.coarse = 1
        if view == "history":
            self.solution = core.DiscreteSolutionWithHistory(base)
        elif view == "history-of-history":
            self.solution = core.DiscreteSolutionWithHistory(core.DiscreteSolutionWithHistory(base))
        elif view == "coarse":
            self.solution, self.coarse = core.CoarseSolution(base, degree), degree
        elif view == "coarse-history":
            self.solution, self.coarse = core.CoarseSolutionWithHistory(base, degree), degree
        elif view == "history-of-coarse":
            inner = core.DiscreteSolutionWithHistory(base)
            self.solution, self.coarse = core.CoarseSolutionWithHistory(inner, degree), degree
            self.inner = inner
        elif view == "input-data":
            from command.generate_data import DiscreteSolutionWithInputData

            self.solution = DiscreteSolutionWithInputData(
                base, scenario["node"], 2, degree, scenario["fine_radius"])
        self.states = [(scenario["start"], first.copy())]  # one per entry
        self.current = self.states[0]

    def expect(self, operation):
        solution, view = self.solution, self.s["view"]
        time, value = self.current
        check(solution.time == time, "time", lambda: f"after {operation}: time is "
              f"{solution.time!r} instead of {time!r}")
        close = lambda x, y: np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=1e-12, atol=1e-13)
        want = value if self.coarse == 1 else _average(value, self.coarse)
        check(close(solution.value, want), "value", f"after {operation}: wrong current value")
        if view == "coarse":
            check(solution.space.dimension == len(want), "space", "coarse space has a wrong size")
            return
        times = [t for t, _ in self.states]
        found = solution.time_history
        check(len(found) == len(times), "history-length",
              lambda: f"after {operation}: {len(found)} times recorded instead of {len(times)}")
        check(list(found) == times, "history-times",
              lambda: f"after {operation}: recorded times {list(found)} instead of {times}")
        check(np.allclose(solution.time_step_history, np.diff(times), rtol=1e-9, atol=1e-12)
              and len(solution.time_step_history) == len(times) - 1,
              "history-steps", "recorded step sizes do not belong to the recorded times")
        if view == "input-data":
            d, node, radius = self.s["degree"], self.s["node"], self.s["fine_radius"]
            coarse = solution.coarse_node_neighbours_history
            fine = solution.fine_node_neighbours_history
            check(len(coarse) == len(times) and len(fine) == len(times), "history-length",
                  f"after {operation}: input data and times have different lengths")
            for k, (_, v) in enumerate(self.states):
                check(close(coarse[k], _average(v, d)[node - 2:node + 2]), "history-values",
                      f"after {operation}: entry {k} has the wrong coarse neighbours")
                check(close(fine[k], v[node * d - radius:node * d + radius]), "history-values",
                      f"after {operation}: entry {k} has the wrong fine neighbours")
            return
        values = solution.value_history
        check(len(values) == len(times), "history-length",
              lambda: f"after {operation}: {len(values)} values for {len(times)} times")
        for k, (_, v) in enumerate(self.states):
            want = v if self.coarse == 1 else _average(v, self.coarse)
            check(close(values[k], want), "history-values",
                  f"after {operation}: recorded value {k} is not the state accepted then")
        if view == "history-of-coarse":
            check(list(self.inner.time_history) == times, "history-times",
                  f"after {operation}: the fine history is not aligned with its coarse view")
            for k, (_, v) in enumerate(self.states):
                check(close(self.inner.value_history[k], v), "history-values",
                      f"after {operation}: fine entry {k} is wrong")

    def apply(self, op, run):
        solution, name = self.solution, op["op"]
        time, _ = self.current
        if name == "update":
            value = _values(op["seed"], self.shape)
            handed = value.copy()
            solution.update(op["dt"], handed)
            self.current = (time + op["dt"], value)
            self.states.append(self.current)
        elif name in ("bad-update", "bad-shape"):
            value = _values(op["seed"], self.shape)
            if name == "bad-shape":
                value = value[:-1]
                if self.s["view"] in ("coarse", "input-data"):
                    return
            else:
                _poison(value, op["bad"], op["where"])
            run.fault(f"update with {op.get('bad', 'a wrong shape')}")
            self._refused(lambda: solution.update(op["dt"], value))
        elif name == "rewind":
            target = self._target(op)
            value = _values(op["seed"], self.shape)
            solution.set_value(value.copy(), target)
            self.states = [s for s in self.states if s[0] < target]
            self.current = (target, value)
            self.states.append(self.current)
            run.nontrivial = True
        elif name == "bad-rewind":
            value = _poison(_values(op["seed"], self.shape), op["bad"], op["where"])
            run.fault(f"rewind to {op['bad']}")
            target = self._target(dict(op, exact=True))
            self._refused(lambda: solution.set_value(value, target))
        elif name == "query":
            # whatever a caller does with returned copies stays its own business
            for attribute in ("value", "value_history", "coarse_node_neighbours_history",
                              "fine_node_neighbours_history"):
                if self.s["view"] == "input-data" and attribute == "value_history":
                    continue
                try:
                    found = getattr(solution, attribute)
                except AttributeError:
                    continue
                found[...] = np.nan
            solution.dimension, solution.time
            run.count("queries")

    def _target(self, op):
        first, last = self.states[0][0], self.states[-1][0]
        target = first + op["frac"] * (last - first)
        if op.get("exact"):
            target = min((s[0] for s in self.states), key=lambda t: abs(t - target))
        return target

    def _refused(self, action):
        try:
            action()
        except Exception:
            return
        raise Violation("bad-value-accepted", "a state which is not finite or has a wrong shape "
                        "was accepted")


def execute(scenario, run):
    if scenario["what"] == "object":
        model = ObjectModel(scenario)
        model.expect("construction")
        last = "start"
        for op in scenario["ops"]:
            model.apply(op, run)
            model.expect(op["op"])
            run.event(op["op"], len(model.states), model.current[0], model.current[1])
            run.state(scenario["view"], last, op["op"], min(len(model.states), 8))
            last = op["op"]
            run.nontrivial = True
        return
    _solver(scenario, run)


def _solver(scenario, run):
    spec = scenario["solver"]
    benchmark = world.build_benchmark(scenario["bench"])
    hooks = RhsFault(run=run)
    with world.hooked(hooks):
        solver = world.build_solver(spec, benchmark)
    solution = solver.solution
    inner = solution
    spied = world.spy(solver, on_update=world.StateCap())
    accepted = [(solution.time, solution.value)]
    degree = spec.get("coarsen", 1) if spec["cls"] == "coarse" else 1
    fine = {}
    original = spied.update

    def update(time_step, value):
        handed = np.array(value, copy=True)
        original(time_step, value)
        accepted.append((spied.inner.time, spied.inner.value))
        if degree > 1:
            check(np.allclose(spied.inner.value, _average(handed, degree), rtol=1e-12, atol=1e-13),
                  "coarse-view", "the coarse view is not the block average of the fine state")

    spied.update = update

    def expect(after):
        times, values = inner.time_history, inner.value_history
        check(len(times) == len(values) == len(accepted), "history-length",
              lambda: f"after {after}: {len(times)} times and {len(values)} values recorded for "
                      f"{len(accepted)} accepted states")
        for k, (t, v) in enumerate(accepted):
            check(times[k] == t, "history-times", f"after {after}: wrong time in entry {k}")
            check(world.same(values[k], v), "history-values",
                  f"after {after}: entry {k} is not the state accepted then")
        check(times[-1] == inner.time and world.same(values[-1], inner.value), "history-end",
              f"after {after}: the history does not end with the current state")

    expect("construction")
    for n, op in enumerate(scenario["ops"]):
        hooks.calls, hooks.fired = 0, False
        hooks.fault = None
        if op["op"] == "fail":
            hooks.fault, hooks.at = {"kind": "rhs-before", "error": "error"}, op["at"]
        if op["op"] == "poison":
            hooks.fault = {"kind": "rhs-poison", "poison": "nan", "where": op["where"]}
            hooks.at = op["at"]
        outcome = world.solve(solver)
        if hooks.fired and op["op"] != "solve":
            check(outcome.error is not None, "failure-ignored", "a failed step went unnoticed")
        expect(op["op"])
        run.event(op["op"], len(accepted), accepted[-1][0], accepted[-1][1], outcome.error_name)
        run.state(spec["cls"], op["op"], len(accepted) % 8, n)
        run.sim_time += accepted[-1][0] - accepted[0][0]
        hooks.fault = None
        if n + 1 < len(scenario["ops"]):
            again = dict(scenario["bench"])
            if again["problem"] != "swe" and n % 2 == 0:
                again["init"] = scenario["other"]
            elif again["problem"] == "swe" and n % 2 == 0:
                again["h"] = scenario["other"]
            before = [(t, v) for t, v in accepted]
            solver.reinitialize(world.build_benchmark(again))
            start = scenario["bench"]["start"]
            accepted[:] = [(t, v) for t, v in before if t < start]
            accepted.append((inner.time, inner.value))
            check(inner.time == start, "rewind-time",
                  lambda: f"rewound to {inner.time!r} instead of {start!r}")
            expect("reinitialisation")
        run.nontrivial = True
