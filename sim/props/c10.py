"""C10: positivity-preserving shallow water schemes keep water heights positive."""
import math

import core
import numpy as np

from .. import world
from ..base import Inconclusive, check
from ..faults import ERRORS
from ..fluxes import BrokenFluxGetter

QUICK, THOROUGH, TIMEOUT = 700, 25000, 60
LEVEL = "exploration"
RULE = ("one evaluation = one seeded solve under the CFL condition, usually with a broken high "
        "order flux inside the limiter, with the heights checked after every step")
REAL = ["low-order and mcl shallow water fluxes, limiter, topography treatment, boundary "
        "conditions, integrators"]
STUBS = ["benchmarks are generated; the step size is controlled by the simulator (the solver's own "
         "is a fixed fraction of the mesh width); the flux inside the limiter is broken on purpose"]
STATE_MEASURE = "(solver, flux inside, integrator, boundary, decimal order of the least height)"
ASSUMPTIONS = ["step times twice the largest characteristic speed at most 80 % of a cell, for every "
               "stage; heights stay above 1e-10 of the largest one (below, the claim ends)"]


class Enough(Exception):
    pass


def generate(rng, i):
    cls = "low-order" if i % 4 == 3 else "mcl"
    mesh = rng.randint(4, 20)
    top = rng.choice([1.0, 3.0, 10.0])
    bottom = rng.choice([0.5, 1e-2, 1e-4, 1e-6])
    v = rng.choice([(-1.5, 1.5), (-8.0, 8.0), (0.0, 0.0)])
    bench, solver = world.random_swe(
        rng, cls, 1, h=(bottom, top), v=v, mesh=mesh,
        bathy=rng.choice([None, (-0.3, 0.3), (-3.0, 3.0)]))
    style = rng.random()
    if style < 0.6:
        # strong gradients down to nearly dry cells
        values = [round(math.exp(rng.uniform(math.log(bottom), math.log(top))), 9) if
                  rng.random() < 0.7 else rng.choice([bottom, top]) for _ in range(mesh)]
        bench["h"] = {"kind": "steps", "values": values}
    if solver["cls"] == "mcl":
        if rng.random() < 0.8:
            solver.pop("flux", None)
            solver["broken"] = {"kind": rng.choice(BrokenFluxGetter.KINDS),
                                "seed": rng.randrange(10**6),
                                "size": rng.choice([0.01, 1.0, 100.0, 1e6]),
                                "radius": rng.choice([1, 1, 2])}
    return {"bench": bench, "solver": solver, "theta": rng.choice([0.1, 0.4, 0.7, 0.8]),
            "steps": rng.randint(2, 15),
            "ops": [{"at": rng.choice([None, None, None, rng.randint(2, 12)]),
                     "error": rng.choice(list(ERRORS))} for _ in range(rng.choice([1, 1, 2]))]}


def _speed(value, g):
    h = value[:, 0]
    v = np.where(h > 0, value[:, 1] / np.where(h > 0, h, 1.0), 0.0)
    return float((np.abs(v) + np.sqrt(g * np.maximum(h, 0.0))).max())


def _bound(spec):
    if spec["kind"] == "const":
        return abs(spec["c"])
    return abs(spec["c"]) + sum(abs(t[0]) for t in spec["terms"])


class Watch(world.Hooks):
    """The CFL condition has to hold for every stage, or nothing is claimed."""

    def __init__(self, g, dx, inflow, run):
        self.g, self.dx, self.inflow, self.run = g, dx, inflow, run
        self.dt, self.calls, self.fail_at, self.error, self.fired = None, 0, None, None, False

    def before(self, hooked, time, value):
        self.calls += 1
        if not np.isfinite(value).all() or (value[:, 0] < 0).any():
            # an Euler step under the CFL condition has failed: let it come out
            return
        if value[:, 0].min() < 1e-10 * value[:, 0].max():
            raise Inconclusive("nearly dry beyond the claim")
        speed = max(_speed(value, self.g), self.inflow)
        if self.dt is not None and 2 * speed * self.dt > 0.98 * self.dx:
            raise Inconclusive("a stage violates the CFL condition")
        if self.fail_at == self.calls:
            self.fired = True
            self.run.fault("evaluation raises " + self.error)
            raise ERRORS[self.error]("injected")


def execute(scenario, run):
    spec, bench = dict(scenario["solver"]), scenario["bench"]
    broken = spec.pop("broken", None)
    if world.uses_network(spec):
        world.provide_networks(".")
    extra = {}
    if broken:
        extra["flux_getter"] = BrokenFluxGetter(record=lambda kind: run.count(f"broken flux: {kind}"),
                                                **broken)
        run.fault(f"broken flux inside the limiter ({broken['kind']})")
    benchmark = world.build_benchmark(bench)
    dx = (bench["b"] - bench["a"]) / spec["mesh"]
    inflow = max([0.0] + [
        _bound(bench[k]["v"]) + math.sqrt(bench["g"] * _bound(bench[k]["h"]))
        for k in ("inflow_l", "inflow_r") if k in bench])
    watch = Watch(bench["g"], dx, inflow, run)
    with world.hooked(watch):
        base = world.build_solver(spec, benchmark, **extra)
    parts = base.as_dict()
    solution = base.solution

    def optimal():
        dt = dx / (2 * max(_speed(np.asarray(solution.value), bench["g"]), inflow))
        watch.dt = dt * scenario["theta"]
        return dt

    for n, op in enumerate(scenario["ops"]):
        if n > 0:
            base.reinitialize(benchmark)
        stepping = core.TimeStepping(bench["start"] + 1e6, scenario["theta"], optimal, adaptive=True,
                                     start_time=bench["start"])
        integrator = type(parts["ode_solver"])
        with world.hooked(watch):
            solver = world.HarnessSolver(solution, parts["right_hand_side"], integrator, stepping)
        watch.calls, watch.fail_at, watch.error, watch.fired = 0, op["at"], op["error"], False
        spied = world.spy(solver)
        original = spied.update
        least = [float(spied.inner.value[:, 0].min())]

        def update(time_step, value):
            found = np.asarray(value)
            check(np.isfinite(found).all(), "not-finite",
                  lambda: f"{spec['cls']} with {broken['kind'] if broken else 'its own'} flux: state "
                          f"{len(spied.states) + 1} is not finite", solver=spec["cls"])
            check((found[:, 0] >= 0).all(), "negative-height",
                  lambda: f"{spec['cls']} with {'a broken (' + broken['kind'] + ')' if broken else 'its'}"
                          f" flux: height {found[:, 0].min()!r} after step {len(spied.states) + 1}",
                  solver=spec["cls"])
            original(time_step, value)
            least[0] = min(least[0], float(found[:, 0].min()))
            run.count("states with checked heights")
            run.nontrivial = True
            if len(spied.states) >= scenario["steps"]:
                raise Enough

        spied.update = update
        try:
            outcome = world.attempt(solver.solve, disable=True)
        except Inconclusive as e:
            run.count("claim ends: " + str(e))
            outcome = None
        solver.solution = spied.inner
        if outcome is not None:
            ended = isinstance(outcome.error, Enough) or watch.fired
            small = any("too small" in w for w in outcome.warnings)
            check(ended or small or outcome.error is None, "solve-fails",
                  lambda: f"{spec['cls']} fails although the CFL condition holds: "
                          f"{outcome.error_name}: {outcome.error}", solver=spec["cls"])
        run.event("solve", spied.inner.time, spied.inner.value)
        run.sim_time += spied.inner.time - bench["start"]
        run.state(spec["cls"], broken["kind"] if broken else spec.get("flux"), spec.get("ode"),
                  bench["bc"], int(math.log10(max(least[0], 1e-12))))
