"""C11: lake at rest stays at rest."""
import numpy as np
from benchmark import shallow_water

from .. import world
from ..base import check
from ..faults import ERRORS, RhsFault

QUICK, THOROUGH, TIMEOUT = 800, 25000, 60
LEVEL = "exploration"
RULE = ("one evaluation = one seeded lake (bathymetry, level, mesh, boundary, integrator, step) "
        "solved, disturbed by failures and restarted, compared with itself at rest after every step")
REAL = ["low-order, mcl and central shallow water solvers with topography treatment and boundaries"]
STUBS = ["benchmarks are generated; evaluations fail on command"]
STATE_MEASURE = "(solver, flux inside, integrator, boundary, shape of the bathymetry, steps)"
ASSUMPTIONS = ["the lake is wet everywhere",
               "for periodic boundaries the bathymetry of the first and the last cell agree",
               "rounding errors may be amplified per step where the step is not small: the low order "
               "scheme is linearly unstable for steps near the CFL limit over steep bathymetry"]

SHRINK_NUMBERS = {}  # the bathymetry belongs to the mesh


def _bathymetry(rng, bottom, top, mesh, kinds):
    """Random profiles are rounded, so they are drawn in [0, 1] and scaled."""
    bathy = world.random_profile(rng, 0.0, 1.0, n=mesh, kinds=kinds)
    height = top - bottom
    if bathy["kind"] == "steps":
        bathy["values"] = [bottom + height * v for v in bathy["values"]]
    else:
        bathy["c"] = bottom + height * bathy["c"]
        bathy["terms"] = [[height * A, k, p] for A, k, p in bathy["terms"]]
    return bathy


def generate(rng, i):
    cls = rng.choice(["low-order", "mcl", "low-order", "mcl", "central"])
    mesh = rng.randint(4, 24)
    gentle = rng.random() < 0.4
    steps = rng.randint(5, 40) if gentle else rng.randint(1, 10)
    theta = (0.02, 0.08) if gentle else rng.choice([(0.1, 0.9), (0.9, 1.0), (1.0, 1.4)])
    level = rng.choice([0.5, 1.0, 2.0, 10.0])
    bottom = rng.choice([-3.0, -0.5, 0.0])
    top = level * rng.choice([0.2, 0.6, 0.95])
    bench, solver = world.random_swe(rng, cls, steps, theta=theta, h=(level, level + 3), v=(0.0, 0.0),
                                     mesh=mesh)
    if rng.random() < 0.25:  # a nearly flat bottom, possibly far above or below the origin
        base, depth = rng.choice([0.0, 50.0, 1000.0, -1000.0]), rng.choice([0.5, 1.0, 2.0])
        level, bottom = base + depth, base
        top = base + rng.choice([1e-6, 1e-4, 5e-3])
    bench["bc"] = rng.choice([["outflow", "outflow"], ["wall", "wall"], ["wall", "outflow"],
                              ["outflow", "wall"], ["periodic"], ["inflow", "wall"],
                              ["inflow", "inflow"], ["outflow", "inflow"]])
    if cls == "mcl":
        solver["flux"] = rng.choice([None, "central", "low-order"])
    bathy = _bathymetry(rng, bottom, top, mesh, ("fourier", "steps", "steps"))
    if bench["bc"] == ["periodic"] or "inflow" in bench["bc"]:
        bathy = _bathymetry(rng, bottom, top, mesh, ("steps",))
        if bench["bc"] == ["periodic"]:
            bathy["values"][-1] = bathy["values"][0]
    bench.update(level=True, bathy=bathy, h={"kind": "const", "c": level},
                 v={"kind": "const", "c": 0.0})
    for side, index in (("l", 0), ("r", -1)):
        bench.pop("inflow_" + side, None)
        if bench["bc"][index] == "inflow":
            bench["inflow_" + side] = {
                "h": {"kind": "const", "c": level - bathy["values"][index]},
                "v": {"kind": "const", "c": 0.0}}
    if rng.random() < 0.06 and cls != "central":  # the lakes that come with the program
        solver.update(mesh=rng.randint(4, 24), cfl=0.02)
        bench = {"predefined": rng.choice(["lake-at-rest", "lake-at-rest-no-bathymetry"]), "start": 0.0,
                 "end": round(0.02 * 20 / solver["mesh"] / 10 * rng.randint(1, 20), 6), "bc": ["outflow", "outflow"],
                 "h": {"kind": "const", "c": 2.0}, "bathy": {"kind": "bump"}}
        gentle = True
    return {"bench": bench, "solver": solver, "gentle": gentle,
            "ops": [{"at": rng.choice([None, None, rng.randint(1, 9)]),
                     "error": rng.choice(list(ERRORS))} for _ in range(rng.choice([1, 1, 2]))]}


def execute(scenario, run):
    spec, bench = scenario["solver"], scenario["bench"]
    if "predefined" in bench:
        benchmark = shallow_water.BENCHMARKS[bench["predefined"]](end_time=bench["end"])
    else:
        benchmark = world.build_benchmark(bench)
    hooks = RhsFault(run=run)
    with world.hooked(hooks):
        solver = world.build_solver(spec, benchmark)
    level = bench["h"]["c"]
    for n, op in enumerate(scenario["ops"]):
        if n > 0:
            solver.reinitialize(benchmark)
        hooks.calls, hooks.fired, hooks.at = 0, False, op["at"]
        hooks.fault = {"kind": "rhs-before", "error": op["error"]} if op["at"] else None
        first = solver.solution.value
        scale = max(abs(level), float(np.abs(first).max()))
        check((first[:, 1] == 0).all(), "initial-data", "the lake is not at rest initially")
        spied = world.spy(solver, on_update=world.StateCap(500))
        original = spied.update

        def update(time_step, value):
            original(time_step, value)
            value = spied.inner.value
            gap = float(np.abs(value - first).max())
            # large steps over steep bathymetry amplify rounding errors
            growth = 1.0 if scenario["gentle"] else 300.0 ** (len(spied.states) - 1)
            check(gap <= 3e-12 * min(growth, 1e13) * scale, "lake-moves",
                  lambda: f"{spec['cls']} ({spec.get('flux')}): after {len(spied.states)} steps a lake "
                          f"at rest with level {level} has moved by {gap:.3g}", solver=spec["cls"])
            run.count("states at rest")

        spied.update = update
        outcome = world.solve(solver)
        solver.solution = spied.inner
        if not hooks.fired:
            check(outcome.error is None, "solve-fails", lambda: f"{spec['cls']} fails on a lake at "
                  f"rest: {outcome.error_name}: {outcome.error}", solver=spec["cls"])
        run.event("solve", outcome.error_name, spied.inner.time, spied.inner.value)
        run.sim_time += spied.inner.time - bench["start"]
        run.state(spec["cls"], spec.get("flux"), spec.get("ode"), bench["bc"],
                  bench["bathy"]["kind"], min(9, len(spied.states)))
        run.nontrivial = run.nontrivial or len(spied.states) > 0
