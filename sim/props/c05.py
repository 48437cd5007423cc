"""C05: a reinitialised solver behaves exactly like a fresh one."""
import numpy as np

from .. import world
from ..base import Inconclusive, check
from ..faults import RhsFault, ERRORS, AllocationFault

QUICK, THOROUGH, TIMEOUT = 600, 20000, 60
LEVEL = "exploration"
RULE = ("one evaluation = one seeded past of a solver (solves, failures at a chosen evaluation, "
        "reinitialisations on other data), then a reinitialisation and a solve compared bit for "
        "bit with a newly built solver in a pristine process")
REAL = ["all solvers with their right-hand sides, integrators, time stepping, CFL checks and "
        "histories"]
STUBS = ["benchmarks are generated; evaluations and allocations fail on command"]
STATE_MEASURE = "(solver, kinds of the last two operations of the past, warned, steps)"
ASSUMPTIONS = ["the benchmarks agree in everything but the initial data, as the solver keeps "
               "domain, boundary conditions, bathymetry and end time from its construction"]


def generate(rng, i):
    classes = [("swe", rng.choice(world.REDUCED))] if i % 25 == 24 else None
    theta = (0.2, 0.9) if rng.random() < 0.6 else (0.8, 2.5)
    bench, solver = world.random_any(rng, rng.randint(1, 5), classes, theta=theta)
    solver["history"] = rng.random() < 0.6
    variants = []
    for _ in range(rng.randint(1, 3)):
        if bench["problem"] == "swe":
            narrow = classes is not None
            variants.append({"h": world.random_profile(rng, *((1.5, 2.5) if narrow else (0.5, 3.0)),
                                                       n=solver["mesh"]),
                             "v": world.random_profile(rng, *((0.5, 1.5) if narrow else (-1.5, 1.5)),
                                                       n=solver["mesh"])})
        else:
            variants.append({"init": world.random_profile(rng, -2.0, 2.0, n=solver["mesh"])})
    ops = []
    for _ in range(rng.randint(1, 5)):
        u = rng.random()
        if u < 0.35:
            ops.append({"op": "solve"})
        elif u < 0.65:
            ops.append({"op": "fail", "at": rng.randint(1, 12), "error": rng.choice(list(ERRORS)),
                        "kind": rng.choice(["rhs-before", "rhs-after", "rhs-poison"]),
                        "poison": rng.choice(["nan", "inf"]), "where": round(rng.random(), 3)})
        elif u < 0.75:
            ops.append({"op": "alloc", "at": rng.randint(1, 60)})
        else:
            ops.append({"op": "reinitialize", "variant": rng.randint(0, len(variants))})
    return {"bench": bench, "solver": solver, "variants": variants, "ops": ops,
            "final": rng.randint(0, len(variants)), "times": rng.choice([1, 1, 1, 2])}


def _variant(scenario, k):
    return scenario["bench"] if k == 0 else dict(scenario["bench"], **scenario["variants"][
        min(k, len(scenario["variants"])) - 1])


def _observe(solver):
    """Solves and returns everything a user can see."""
    spied = world.spy(solver, on_update=world.StateCap())
    first = world.snapshot(spied.inner)
    outcome = world.solve(solver)
    states = [(t, v, dt) for t, v, dt in spied.states]
    last = world.snapshot(spied.inner)
    solver.solution = spied.inner
    return {"first": first, "states": states, "last": last, "warnings": outcome.warnings,
            "error": outcome.error_name,
            "clock": getattr(solver.as_dict()["time_stepping"], "time", None)}


def _fresh(scenario):
    return _observe(world.build_solver(scenario["solver"],
                                       world.build_benchmark(_variant(scenario, scenario["final"]))))


def compare(fresh, found, what, solver):
    def state(name):
        a, b = fresh[name], found[name]
        check(a[0] == b[0], name + "-time", lambda: f"{what}: {name} time {b[0]!r} instead of "
              f"{a[0]!r}", solver=solver)
        check(world.same(a[1], b[1]), name + "-value", f"{what}: other {name} state", solver=solver)
        check((a[2] is None) == (b[2] is None) and (a[2] is None or (
            world.same(a[2], b[2]) and world.same(a[3], b[3]))), name + "-history",
            lambda: f"{what}: other {name} history ({None if b[2] is None else len(b[2])} entries "
                    f"instead of {None if a[2] is None else len(a[2])})", solver=solver)

    state("first")
    for k, (a, b) in enumerate(zip(fresh["states"], found["states"])):
        check(a[2] == b[2], "steps", lambda: f"{what}: step {k} is {b[2]!r} instead of {a[2]!r}",
              solver=solver)
        check(a[0] == b[0] and world.same(a[1], b[1]), "trajectory",
              lambda: f"{what}: other state after step {k}", solver=solver)
    check(len(fresh["states"]) == len(found["states"]), "steps",
          lambda: f"{what}: {len(found['states'])} steps instead of {len(fresh['states'])}",
          solver=solver)
    state("last")
    check(fresh["warnings"] == found["warnings"], "warnings",
          lambda: f"{what}: warns {found['warnings']} instead of {fresh['warnings']}", solver=solver)
    check(fresh["error"] == found["error"], "outcome",
          lambda: f"{what}: ends with {found['error']} instead of {fresh['error']}", solver=solver)


def execute(scenario, run):
    spec = scenario["solver"]
    if world.uses_network(spec):
        world.provide_networks(".")
    fresh = world.isolated(_fresh, scenario)
    benchmark = world.build_benchmark(scenario["bench"])
    hooks = RhsFault(run=run)
    with world.hooked(hooks):
        solver = world.build_solver(spec, benchmark)
    past = []
    for op in scenario["ops"]:
        name = op["op"]
        if name == "reinitialize":
            solver.reinitialize(world.build_benchmark(_variant(scenario, op["variant"])))
        else:
            hooks.calls, hooks.fired = 0, False
            hooks.fault = op if name == "fail" else None
            hooks.at = op.get("at")
            cap = world.StateCap(1000)
            spied = world.spy(solver, on_update=cap)
            if name == "alloc":
                with AllocationFault(op["at"], run).installed():
                    outcome = world.solve(solver)
            else:
                outcome = world.solve(solver)
            solver.solution = spied.inner
            hooks.fault = None
            run.event(name, outcome.error_name, solver.solution.time, solver.solution.value)
        past.append(name)
    for n in range(scenario["times"]):
        solver.reinitialize(world.build_benchmark(_variant(scenario, scenario["final"])))
        found = _observe(solver)
        compare(fresh, found, f"{spec['cls']} after {', '.join(past[-4:])}", spec["cls"])
        past += ["reinitialize", "solve"]
    run.sim_time += float(fresh["last"][0]) - scenario["bench"]["start"]
    run.event("final", fresh["last"][0], fresh["last"][1], fresh["error"], len(fresh["warnings"]))
    run.state(spec["cls"], *past[-2:], bool(fresh["warnings"]), min(9, len(fresh["states"])))
    run.nontrivial = True
