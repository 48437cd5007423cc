"""C09: scalar monotone schemes respect the maximum principle."""
import numpy as np

from .. import world
from ..base import check
from ..faults import ERRORS, RhsFault

QUICK, THOROUGH, TIMEOUT = 900, 30000, 60
LEVEL = "exploration"
RULE = ("one evaluation = one seeded history of solves (also failing ones, restarted on other data) "
        "under the CFL condition, with the range of all data checked after every step")
REAL = ["scalar llf, mcl-fv, cg-low, mcl-fem solvers with limiters, boundary conditions and "
        "integrators"]
STUBS = ["benchmarks are generated; evaluations fail on command"]
STATE_MEASURE = "(solver, problem, integrator, boundary, shape of the data, steps)"
ASSUMPTIONS = ["finite volumes: step times largest speed at most half a cell; finite elements: "
               "elements of degree one to five and at most the step which the scheme itself calls optimal",
               "integrators are the strong stability preserving ones (Euler, Heun, SSP3)"]

SCALES = [1e-9, 1e-6, 1e-4, 1e3]
CLASSES = ["llf", "mcl-fv", "cg-low", "mcl-fem", "mcl-fv", "mcl-fem"]


def generate(rng, i):
    cls = CLASSES[i % len(CLASSES)]
    lo, hi = rng.choice([(-2.0, 2.0), (0.0, 1.0), (-3.0, -0.5), (0.5, 2.0), (-1.0, 0.0),
                         (-0.01, 0.01), (-50.0, 80.0), (-1.0, 1.0)])
    theta = rng.choice([(0.2, 0.6), (0.6, 0.99), (0.99, 1.0)])
    kinds = rng.choice([("fourier", "steps"), ("steps",), ("steps", "const")])
    mesh = rng.randint(4, 20)
    bench, solver = world.random_scalar(rng, cls, rng.randint(2, 12), theta=theta, lo=lo, hi=hi,
                                        kinds=kinds, mesh=mesh)
    if cls in ("cg-low", "mcl-fem") and rng.random() < 0.4:
        solver["degree"] = rng.choice([2, 2, 3, 4, 5])
        solver["mesh"] = mesh = rng.randint(3, 8)
        bench["end"] = bench["start"] + OPTIMAL[solver["degree"]] * (bench["end"] - bench["start"])
    ops = []
    for k in range(rng.choice([1, 1, 2, 3])):
        ops.append({"at": rng.choice([None, None, rng.randint(1, 9)]), "error": rng.choice(list(ERRORS)),
                    "other": None if k == 0 or rng.random() < 0.3 or _fixed(bench, solver) else
                    world.random_profile(rng, lo, hi, n=mesh, kinds=kinds)})
    if rng.random() < 0.3:
        _rescale(bench, solver, [op["other"] for op in ops if op["other"]], rng.choice(SCALES))
    return {"bench": bench, "solver": solver, "ops": ops}


def _rescale(bench, solver, others, scale):
    """Burgers equation: SCALE times larger values are SCALE times faster."""
    profiles = [bench["init"], *others]
    profiles += [bench[key] for key in ("inflow_l", "inflow_r") if key in bench]
    for spec in profiles:
        if spec["kind"] == "steps":
            spec["values"] = [scale * v for v in spec["values"]]
        else:
            spec["c"] = scale * spec["c"]
            spec["terms"] = [[scale * A, k, p] for A, k, p in spec.get("terms", [])]
    if bench["problem"] == "burgers":
        bench["end"] = bench["start"] + (bench["end"] - bench["start"]) / scale
        for key in ("inflow_l", "inflow_r"):
            if key in bench and bench[key]["kind"] == "fourier":
                bench[key] = {"kind": "const", "c": bench[key]["c"]}
        if solver["cls"] in ("llf", "mcl-fv"):
            solver["cfl"] /= scale


def _window(values, radius, bc, low, high):
    """The smallest and the largest value within RADIUS cells of every cell;
    behind an inflow boundary anything between LOW and HIGH."""
    def padded(left, right):
        return np.concatenate((np.full(radius, left), values, np.full(radius, right)))

    if bc == ["periodic"]:
        lower = upper = values.take(range(-radius, len(values) + radius), mode="wrap")
    else:
        edges = [values[0], values[-1]]
        lower = padded(*[low if c == "inflow" else e for c, e in zip(bc, edges)])
        upper = padded(*[high if c == "inflow" else e for c, e in zip(bc, edges)])
    n = len(values)
    return (np.min([lower[k:k + n] for k in range(2 * radius + 1)], axis=0),
            np.max([upper[k:k + n] for k in range(2 * radius + 1)], axis=0))


def _cells(values, stages, positions, degree):
    """The same for finite elements, where the unknowns of a cell are neighbours
    of each other and those on its ends also neighbours of the next cell."""
    order = np.argsort(positions)
    lower, upper = values[order], values[order]
    for _ in range(stages):
        lows, highs = lower, upper
        lower, upper = lows.copy(), highs.copy()
        for first in range(0, len(values), degree):
            cell = np.arange(first, first + degree + 1) % len(values)
            lower[cell] = np.minimum(lower[cell], lows[cell].min())
            upper[cell] = np.maximum(upper[cell], highs[cell].max())
    back = np.argsort(order)
    return lower[back], upper[back]


# the optimal step of elements of a degree, relative to the one of linear elements
OPTIMAL = {2: 0.2, 3: 0.11, 4: 0.045, 5: 0.033}
STAGES = {"euler": 1, "heun": 2, "ssp3": 3}


def _fixed(bench, solver):
    return solver["cls"] in ("cg-low", "mcl-fem") and not solver["adaptive"] and (
        bench["problem"] == "burgers")


def execute(scenario, run):
    spec, bench = scenario["solver"], scenario["bench"]
    benchmark = world.build_benchmark(bench)
    hooks = RhsFault(run=run)
    with world.hooked(hooks):
        solver = world.build_solver(spec, benchmark)
    for n, op in enumerate(scenario["ops"]):
        if n > 0:
            other = dict(bench, init=op["other"]) if op["other"] else bench
            solver.reinitialize(world.build_benchmark(other))
        benchmark.inflow_calls.clear()
        hooks.calls, hooks.fired, hooks.at = 0, False, op["at"]
        hooks.fault = {"kind": "rhs-before", "error": op["error"]} if op["at"] else None
        first = solver.solution.value
        low, high = float(first.min()), float(first.max())
        spied = world.spy(solver, on_update=world.StateCap(500))
        original = spied.update
        initial = (low, high)

        def update(time_step, value):
            before = np.array(spied.inner.value)
            original(time_step, value)
            low, high = initial
            for side, t in benchmark.inflow_calls:
                x = world.profile(bench["inflow_" + side])(t)
                low, high = min(low, x), max(high, x)
            value = spied.inner.value
            steps = len(spied.states)
            slack = 1e-12 * max(abs(low), abs(high), 1e-300) * (1 + steps)
            check(np.isfinite(value).all(), "not-finite", f"{spec['cls']}: the state is not finite",
                  solver=spec["cls"])
            check(value.max() <= high + slack and value.min() >= low - slack, "range",
                  lambda: f"{spec['cls']} ({bench['problem']}): after {steps} steps the solution has "
                          f"the range [{value.min()!r}, {value.max()!r}], the data "
                          f"[{low!r}, {high!r}]", solver=spec["cls"])
            if spec["cls"] in ("cg-low", "mcl-fem"):
                lower, upper = _cells(before, STAGES[spec["ode"]], spied.inner.space.basis_nodes,
                                      spec.get("degree", 1))
            else:
                lower, upper = _window(before, STAGES[spec["ode"]], bench["bc"], low, high)
            outside = np.flatnonzero((value > upper + slack) | (value < lower - slack))
            check(not len(outside), "new-extremum",
                  lambda: f"{spec['cls']} ({bench['problem']}): in step {steps} the value "
                          f"{value[outside[0]]!r} of cell {outside[0]} leaves the range "
                          f"[{lower[outside[0]]!r}, {upper[outside[0]]!r}] of its neighbourhood",
                  solver=spec["cls"])
            run.count("states in range")

        spied.update = update
        outcome = world.solve(solver)
        solver.solution = spied.inner
        if not hooks.fired:
            check(outcome.error is None, "solve-fails", lambda: f"{spec['cls']} fails although the CFL "
                  f"condition holds: {outcome.error_name}: {outcome.error}", solver=spec["cls"])
        run.event("solve", outcome.error_name, spied.inner.time, spied.inner.value)
        run.state(spec["cls"], bench["problem"], spec.get("ode"), spec.get("degree", 1), bench["bc"], bench["init"]["kind"],
                  min(9, len(spied.states)))
        run.sim_time += spied.inner.time - bench["start"]
        run.nontrivial = run.nontrivial or len(spied.states) > 0
