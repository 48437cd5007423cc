"""C07: evaluating the semi-discrete equation is a pure function."""
import gc

import numpy as np

from .. import world
from ..base import Inconclusive, check
from ..faults import ERRORS, AllocationFault, poisoned_memory

QUICK, THOROUGH, TIMEOUT = 600, 20000, 60
LEVEL = "exploration"
RULE = ("one evaluation = one seeded history of evaluations of 1-3 solvers' right-hand sides with "
        "new, reused and recycled arrays, similar states, failures and allocation faults between, "
        "each result compared bit for bit with its first evaluation in a pristine process")
REAL = ["right-hand sides of all solvers with fluxes, limiters, matrices, caches, networks"]
STUBS = ["benchmarks and states are generated; uninitialised memory reads as a chosen value; "
         "array allocations may fail"]
STATE_MEASURE = "(solver, operation before, operation, kind of the state)"
ASSUMPTIONS = ["states have the shape and type which the solver uses itself",
               "the Lax-Wendroff flux has its time step as a documented parameter, which a solve "
               "sets; it is evaluated for an unchanged step"]

KINDS = ["new", "reused", "reused", "recycled", "reused"]


def generate(rng, i):
    solvers = []
    style = rng.random()
    count = rng.choice([1, 1, 2, 3])
    for k in range(count):
        if i % 15 == 14 and k == 0:
            bench, solver = world.random_any(rng, 1, [("swe", rng.choice(world.REDUCED))])
        elif k > 0 and style < 0.5:
            bench, solver = dict(solvers[0]["bench"]), dict(solvers[0]["solver"])
            if rng.random() < 0.5 and solver["cls"] != "coarse":
                solver["mesh"] += rng.randint(0, 2)
        else:
            classes = None
            if rng.random() < 0.4:
                classes = [("scalar", c) for c in world.SCALAR_FE]
            bench, solver = world.random_any(rng, 1, classes)
        solvers.append({"bench": bench, "solver": solver})
    states = []
    for _ in range(rng.randint(2, 4)):
        u = rng.random()
        if not states or u < 0.4:
            states.append({"kind": "random", "seed": rng.randrange(10**6)})
        else:
            states.append({"kind": rng.choice(["close", "reversed", "permuted", "one-cell",
                                               "swapped", "negated-change"]),
                           "of": rng.randrange(len(states)), "seed": rng.randrange(10**6),
                           "size": rng.choice([1e-15, 1e-12, 1e-9, 1e-7, 1e-4])})
    ops = []
    for _ in range(rng.randint(4, 16)):
        u = rng.random()
        target = rng.randrange(count)
        if u < 0.72:
            ops.append({"op": "evaluate", "solver": target, "state": rng.randrange(len(states)),
                        "time": rng.choice([0, 0, 0, 1, 2]), "array": rng.choice(KINDS)})
        elif u < 0.8:
            ops.append({"op": "bad", "solver": target, "what": rng.choice(["nan", "inf", "short", "huge"]),
                        "array": rng.choice(["new", "reused"])})
        elif u < 0.88:
            ops.append({"op": "alloc", "solver": target, "at": rng.randint(1, 30),
                        "state": rng.randrange(len(states)), "array": "reused"})
        elif u < 0.93:
            ops.append({"op": "solve", "solver": target})
        elif u < 0.98:
            ops.append({"op": "scribble", "solver": target, "seed": rng.randrange(10**6)})
        else:
            ops.append({"op": "collect"})
    return {"tasks": solvers, "states": states, "ops": ops,
            "poison": [rng.choice([None, "nan", "1e300"]), rng.choice([None, "nan", "-7.5"])]}


def _times(bench):
    return [bench["start"], bench["start"] + 0.5, bench["end"]]


def _state(scenario, k, task, shape):
    """The k-th state, as an array of the wanted shape."""
    spec = scenario["states"][k]
    narrow = world.uses_network(task["solver"])
    if spec["kind"] == "random":
        rng = np.random.default_rng(spec["seed"])
        if task["bench"]["problem"] == "swe":
            h = rng.uniform(1.5, 2.5, shape[0]) if narrow else rng.uniform(0.5, 3.0, shape[0])
            v = rng.uniform(0.5, 1.5, shape[0]) if narrow else rng.uniform(-1.5, 1.5, shape[0])
            return np.stack([h, h * v], axis=1)
        return rng.uniform(-2, 2, shape)
    base = _state(scenario, spec["of"], task, shape)
    rng = np.random.default_rng(spec["seed"])
    if spec["kind"] == "close":
        return base + spec["size"] * rng.uniform(0.5, 1.0, base.shape)
    if spec["kind"] == "reversed":
        return np.ascontiguousarray(base[::-1])
    if spec["kind"] == "permuted":
        return np.ascontiguousarray(base[rng.permutation(len(base))])
    if spec["kind"] == "one-cell":
        base[rng.integers(len(base))] *= 1.01
        return base
    if spec["kind"] == "swapped":
        a, b = rng.integers(len(base), size=2)
        base[[a, b]] = base[[b, a]]
        return base
    change = spec["size"] * rng.uniform(0.5, 1.0, len(base))
    change -= change.mean()
    return base + (change if base.ndim == 1 else change[:, None])


def _poisoned(value):
    import contextlib

    return contextlib.nullcontext() if value is None else poisoned_memory(float(value))


def _build(task):
    solver = world.build_solver(task["solver"], world.build_benchmark(task["bench"]))
    parts = solver.as_dict()
    return solver, parts["right_hand_side"], parts["ode_solver"].solution.shape


def _alone(scenario, index, k, time):
    task = scenario["tasks"][index]
    with _poisoned(scenario["poison"][0]):
        _, function, shape = _build(task)
        return np.array(function(time, _state(scenario, k, task, shape)), copy=True)


def _all_alone(scenario, wanted):
    return {key: world.isolated(_alone, scenario, key[0], key[1],
                                _times(scenario["tasks"][key[0]]["bench"])[key[2]])
            for key in wanted}


def execute(scenario, run):
    tasks = scenario["tasks"]
    if any(world.uses_network(t["solver"]) for t in tasks):
        world.provide_networks(".")
    wanted = []
    for op in scenario["ops"]:
        if op["op"] == "evaluate":
            key = (op["solver"] % len(tasks), op["state"] % len(scenario["states"]), op["time"])
            if key not in wanted:
                wanted.append(key)
    alone = _all_alone(scenario, wanted)
    with _poisoned(scenario["poison"][1]):
        _history(scenario, run, alone)


def _history(scenario, run, alone):
    tasks = scenario["tasks"]
    solvers = [_build(t) for t in tasks]
    buffers = [np.empty(shape) for _, _, shape in solvers]
    results = []  # (operation, returned array, its content then)
    last = "start"
    for n, op in enumerate(scenario["ops"]):
        if op["op"] == "collect":
            gc.collect()
            last = "collect"
            continue
        index = op["solver"] % len(tasks)
        task = tasks[index]
        solver, function, shape = solvers[index]
        cls = task["solver"]["cls"]
        if op["op"] == "solve":
            if cls == "lw":
                continue
            outcome = world.solve(solver)
            run.event("solve", outcome.error_name)
        elif op["op"] == "scribble":
            # the buffer belongs to the caller
            buffers[index][...] = np.random.default_rng(op["seed"]).uniform(0.1, 1, shape)
        elif op["op"] == "bad":
            bad = _state(scenario, 0, task, shape)
            if op["what"] == "short":
                bad = bad[:-1]
            elif op["what"] == "huge":
                bad = bad * 1e200
            else:
                bad[len(bad) // 2] = float(op["what"])
            if op["array"] == "reused" and op["what"] != "short":
                buffers[index][...] = bad
                bad = buffers[index]
            outcome = world.attempt(function, _times(task["bench"])[0], bad)
            run.fault(f"evaluation of a state which is {op['what']}")
        elif op["op"] == "alloc":
            value = buffers[index]
            value[...] = _state(scenario, op["state"] % len(scenario["states"]), task, shape)
            before = value.copy()
            with AllocationFault(op["at"], run).installed():
                world.attempt(function, _times(task["bench"])[0], value)
            check(world.same(before, value), "input-changed",
                  f"{cls}: a failing evaluation modified the state", solver=cls)
        else:
            k = op["state"] % len(scenario["states"])
            value = _state(scenario, k, task, shape)
            if op["array"] == "reused":
                buffers[index][...] = value
                value = buffers[index]
            elif op["array"] == "recycled":
                # memory of arrays which just died is likely to be handed out again
                del value
                gc.collect()
                value = _state(scenario, k, task, shape)
            before = value.copy()
            time = _times(task["bench"])[op["time"]]
            result = function(time, value)
            check(world.same(before, value), "input-changed",
                  f"{cls}: evaluating the right-hand side modified the state", solver=cls)
            want = alone[index, k, op["time"]]
            check(world.same(want, result), "not-a-function",
                  lambda: f"{cls}: operation {n} ({op['array']} array after {last}) gives another "
                          f"result than in a new process (difference {_difference(want, result)})",
                  solver=cls)
            results.append((n, cls, result, result.copy()))
            run.event(n, cls, result)
            run.state(cls, last, op["array"], scenario["states"][k]["kind"])
            run.nontrivial = True
        for m, name, array, content in results:
            check(world.same(array, content), "result-changed",
                  lambda: f"{name}: the result of operation {m} was changed by operation {n} "
                          f"({op['op']})", solver=name)
        last = op["op"] + ":" + str(op.get("array", op.get("what", "")))


def _difference(a, b):
    return float(np.abs(a - b).max()) if np.shape(a) == np.shape(b) else "shape"
