"""C08: conservation and a seamless periodic boundary."""
import numpy as np

from .. import world
from ..base import Inconclusive, check
from ..faults import ERRORS, RhsFault
from ..fluxes import RoughFluxGetter

QUICK, THOROUGH, TIMEOUT = 700, 25000, 60
LEVEL = "exploration"
RULE = ("one evaluation = one seeded solve (possibly with failures, restarts and a rough flux "
        "inside) whose totals are checked after every step, or a pair of solves of translated data")
REAL = ["all solvers on periodic or closed domains with fluxes, limiters, matrices, integrators"]
STUBS = ["benchmarks are generated; fluxes inside limiter and corrections may be replaced by an "
         "arbitrary function of the neighbouring states; evaluations fail on command"]
STATE_MEASURE = "(solver, integrator, what is checked, boundary, steps)"
ASSUMPTIONS = ["schemes with network fluxes are not claimed to conserve between walls (their stencil "
               "uses the first cell twice there)",
               "translation over a sloping bottom is not claimed (the bathymetry beyond the boundary "
               "is extended by a constant)"]

NEWTON_COTES = {1: [0.5, 0.5], 2: [1 / 6, 4 / 6, 1 / 6], 3: [1 / 8, 3 / 8, 3 / 8, 1 / 8]}
PERIODIC, WALLS = [["periodic"]], [["wall", "wall"]]

SHRINK_NUMBERS = {}  # the data belong to the mesh


def generate(rng, i):
    kind = "shift" if i % 3 == 2 else "total"
    theta = (0.2, 0.9) if kind == "shift" or rng.random() < 0.7 else (0.9, 1.6)
    steps = rng.randint(1, 6)
    reduced = i % 20 == 19
    if reduced:
        bench, solver = world.random_any(rng, steps, [("swe", rng.choice(world.REDUCED))])
        bench["bc"] = ["periodic"]
    elif rng.random() < 0.5:
        cls = rng.choice(world.SCALAR_FV + world.SCALAR_FE)
        bench, solver = world.random_scalar(rng, cls, steps, theta=theta, bcs=PERIODIC)
    else:
        cls = rng.choice(world.SWE)
        walls = kind == "total" and rng.random() < 0.35
        sloping = kind == "total" and rng.random() < 0.4 and cls != "lw"
        water = {}
        if sloping:
            water["bathy"] = (-0.3, 0.3)
            if rng.random() < 0.5:  # bottom steps higher than the water is deep
                cls = rng.choice(["low-order", "low-order", "mcl", "mcl", cls])
                water = {"bathy": (-2.0, 2.0), "h": (0.02, rng.choice([0.2, 0.6]))}
                theta = (0.05, 0.5)
        bench, solver = world.random_swe(rng, cls, steps, theta=theta,
                                         bcs=WALLS if walls else PERIODIC, **water)
    n = solver["mesh"] * solver.get("degree", 1)
    rough = None
    if solver["cls"] in ("mcl", "antidiffusion") and rng.random() < 0.35 and bench["bc"] == ["periodic"]:
        rough = {"seed": rng.randrange(10**6), "size": rng.choice([0.01, 0.3, 3.0, 100.0]),
                 "radius": rng.choice([1, 1, 2])}
        if solver["cls"] == "antidiffusion":
            rough["size"] = 0.05
    s = {"what": kind, "bench": bench, "solver": solver, "rough": rough,
         "shift": 0, "ops": [], "seed": rng.randrange(10**6)}
    if kind == "shift":
        s["shift"] = rng.randint(1, n - 1) if solver["cls"] not in world.SCALAR_FE else (
            rng.randint(1, solver["mesh"] - 1) * solver.get("degree", 1))
        profile = "nodes" if solver["cls"] in world.SCALAR_FE else "steps"
        narrow = world.uses_network(solver)
        for key, lo, hi in ([("h", 1.5, 2.5), ("v", 0.5, 1.5)] if narrow else
                            [("h", 0.5, 3.0), ("v", -1.5, 1.5)]) if bench["problem"] == "swe" else (
                                [("init", -2.0, 2.0)]):
            p = world.random_profile(rng, lo, hi, n=n, kinds=("steps",))
            bench[key] = dict(p, kind=profile)
    else:
        for _ in range(rng.choice([1, 1, 2])):
            s["ops"].append({"at": rng.choice([None, None, rng.randint(1, 8)]),
                             "error": rng.choice(list(ERRORS))})
    return s


def _build(scenario, benchmark, hooks=None):
    extra = {}
    if scenario.get("rough"):
        extra["flux_getter"] = RoughFluxGetter(**scenario["rough"])
    spec = dict(scenario["solver"])
    if extra:
        spec.pop("flux", None)
    if hooks is None:
        return world.build_solver(spec, benchmark, **extra)
    with world.hooked(hooks):
        return world.build_solver(spec, benchmark, **extra)


def weights(scenario):
    spec, bench = scenario["solver"], scenario["bench"]
    mesh = spec["mesh"]
    length = bench["b"] - bench["a"]
    if spec["cls"] in world.SCALAR_FE:
        degree = spec.get("degree", 1)
        w = np.zeros(mesh * degree)
        for cell in range(mesh):
            for local, part in enumerate(NEWTON_COTES[degree]):
                w[(cell * degree + local) % (mesh * degree)] += part * length / mesh
        return w
    if spec["cls"] == "coarse":
        mesh //= spec["coarsen"]
    return np.full(mesh, length / mesh)


def execute(scenario, run):
    spec = scenario["solver"]
    if world.uses_network(spec):
        world.provide_networks(".")
    if scenario["what"] == "shift":
        return _shift(scenario, run)
    bench = scenario["bench"]
    w = weights(scenario)
    swe = bench["problem"] == "swe"
    flat = bench.get("bathy", {"kind": "const"})["kind"] == "const"
    conserved = [0] if swe else [None]
    if swe and flat and bench["bc"] == ["periodic"]:
        conserved = [0, 1]
    tolerance = 1e-6 if world.uses_network(spec) else 1e-11
    benchmark = world.build_benchmark(bench)
    hooks = RhsFault(run=run)
    solver = _build(scenario, benchmark, hooks)

    for n, op in enumerate(scenario["ops"]):
        if n > 0:
            solver.reinitialize(benchmark)
        hooks.calls, hooks.fired, hooks.at = 0, False, op["at"]
        hooks.fault = {"kind": "rhs-before", "error": op["error"]} if op["at"] else None
        first = solver.solution.value
        scale = {"now": float(np.abs(first).max()) + 1e-300}
        totals = {c: _total(w, first, c) for c in conserved}
        cap = world.StateCap(400)
        bad = []

        def on_update(time_step, value):
            cap()

        spied = world.spy(solver, on_update=on_update)
        original = spied.update

        def update(time_step, value):
            original(time_step, value)
            value = spied.inner.value
            scale["now"] = max(scale["now"], float(np.abs(value).max()))
            k = len(spied.states)
            for c, total in totals.items():
                found = _total(w, value, c)
                size = scale["now"] * float(w.sum())
                name = {None: "total", 0: "mass", 1: "momentum"}[c]
                check(abs(found - total) <= tolerance * size * (1 + k),
                      "not-conserved", lambda: f"{spec['cls']}: the {name} changes from {total!r} "
                      f"to {found!r} within {k} steps", solver=spec["cls"], quantity=name)
            run.count("conserved steps")

        spied.update = update
        outcome = world.solve(solver)
        solver.solution = spied.inner
        run.event("solve", outcome.error_name, spied.inner.time, spied.inner.value)
        run.state(spec["cls"], spec.get("ode"), *conserved, bench["bc"], min(9, len(spied.states)),
                  bool(scenario["rough"]))
        run.sim_time += spied.inner.time - bench["start"]
        if spied.states:
            run.nontrivial = True
    if scenario["rough"]:
        run.fault("rough flux inside")


def _total(w, value, component):
    return float(w @ (value if component is None else value[:, component]))


def _shift(scenario, run):
    spec, bench = scenario["solver"], scenario["bench"]
    by = scenario["shift"]
    moved = dict(bench)
    for key in ("init", "h", "v"):
        if key in moved:
            moved[key] = world.shifted(moved[key], by)
    paths = []
    for b in (bench, moved):
        solver = _build(scenario, world.build_benchmark(b))
        spied = world.spy(solver, on_update=world.StateCap(400))
        first = spied.inner.value
        outcome = world.solve(solver)
        paths.append((first, [(t, v) for t, v, _ in spied.states], outcome.error_name))
    (first, a, error_a), (first_b, b, error_b) = paths
    tolerance = 2e-5 if world.uses_network(spec) else 1e-9
    if spec["cls"] == "coarse":
        if by % spec["coarsen"]:
            return
        by //= spec["coarsen"]
    if not np.allclose(np.roll(first, by, axis=0), first_b, rtol=1e-12, atol=1e-12):
        check(False, "initial-data-not-translated", f"{spec['cls']}: the discretisation of "
              "translated initial data is not translated", solver=spec["cls"])
    scale = max([float(np.abs(first).max())] + [float(np.abs(v).max()) for _, v in a])
    if scale > 1e4 or scenario["rough"] and scale > 1e2:
        raise Inconclusive("solution blows up")
    for k, ((t, v), (s, u)) in enumerate(zip(a, b)):
        check(abs(t - s) <= 1e-10 * max(1.0, abs(t)), "translated-steps",
              lambda: f"{spec['cls']}: translated data are solved with other steps", solver=spec["cls"])
        gap = float(np.abs(np.roll(v, by, axis=0) - u).max())
        check(gap <= tolerance * scale * 4 ** k, "not-translation-invariant",
              lambda: f"{spec['cls']}: data translated by {scenario['shift']} of "
                      f"{len(v)} cells give a solution which is not translated after step {k} "
                      f"(difference {gap:.3g})", solver=spec["cls"])
        run.count("translated steps")
    if error_a or error_b:
        check(min(len(a), len(b)) > 0 or error_a == error_b, "translated-outcome",
              lambda: f"{spec['cls']}: ends with {error_a} and, translated, with {error_b}")
    run.event("shift", by, error_a, a[-1][1] if a else first)
    run.state(spec["cls"], spec.get("ode"), "shift", by, min(9, len(a)), bool(scenario["rough"]))
    run.sim_time += 2 * ((a[-1][0] if a else bench["start"]) - bench["start"])
    run.nontrivial = bool(a)
