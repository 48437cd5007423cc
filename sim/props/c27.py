"""C27: solutions do not depend on orientation, units or origins."""
import numpy as np

import core

from .. import world
from ..base import Inconclusive, check
from ..faults import ERRORS, RhsFault
from ..fluxes import RoughFluxGetter

QUICK, THOROUGH, TIMEOUT = 900, 30000, 60
LEVEL = "exploration"
RULE = ("one evaluation = one seeded problem and the same problem seen in another frame (mirrored, other "
        "units, other origins of space and time, reversed or lifted data), solved step by step by two "
        "solvers of which one may have a past of failures; every accepted state is compared")
REAL = ["all solvers with fluxes, limiters, boundary conditions, matrices, integrators and time stepping"]
STUBS = ["benchmarks are generated; evaluations fail on command"]
STATE_MEASURE = "(solver, flux inside, integrator, boundary, frame, flat bottom, past, steps)"
ASSUMPTIONS = ["units are changed by powers of two for lengths and times with one gravitational acceleration",
               "networks, the first order energy stable diffusion and the Lax-Wendroff flux contain "
               "constants with a unit and are not claimed for other units; networks are trained for one "
               "direction and not claimed for mirrored data",
              "the limited shallow water scheme is not claimed to be symmetric where bottom steps are "
              "higher than twice the depth (it follows the right side's balance there)"]
SHRINK_NUMBERS = {}
SHRINK_LISTS = {"past": 0}


def generate(rng, i):
    steps = rng.randint(1, 6)
    past = [{"at": rng.choice([None, rng.randint(1, 9)]), "error": rng.choice(list(ERRORS))}
            for _ in range(rng.choice([0, 0, 1]))]
    frame = {}
    if rng.random() < 0.35:
        cls = rng.choice(world.SCALAR_FV + world.SCALAR_FE)
        bench, solver = world.random_scalar(rng, cls, steps)
        fe = cls in world.SCALAR_FE
        n = solver["mesh"] * solver.get("degree", 1)
        bench["init"] = dict(world.random_profile(rng, -2.0, 2.0, n=n, kinds=("steps",)),
                             kind="nodes" if fe else "steps")
        kinds = ["units", "origin", "origin"]
        if bench["problem"] == "burgers":
            kinds += ["mirror"] * 3
        else:
            kinds += ["reverse", "lift", "stretch"]
    else:
        cls = rng.choice(world.SWE + ["low-order", "mcl", "mcl"])
        water = {}
        if rng.random() < 0.6 and cls != "lw":
            water["bathy"] = (-0.3, 0.3)
            if cls in ("low-order", "mcl") and rng.random() < 0.4:
                water = {"bathy": (-2.0, 2.0), "h": (0.02, rng.choice([0.2, 0.6]))}
        bench, solver = world.random_swe(rng, cls, steps, **water)
        n = solver["mesh"]
        for key in ("h", "v", "bathy"):
            if bench[key]["kind"] == "steps":
                old = bench[key]["values"]
                bench[key] = dict(bench[key], values=[old[k * len(old) // n] for k in range(n)])
        kinds = ["mirror", "mirror", "mirror", "units", "units", "origin"]
    kind = rng.choice(kinds)
    if kind == "units" and ("lw" == cls or solver.get("flux") == "es1" or cls == "es1"):
        kind = "mirror" if bench["problem"] == "swe" else "origin"
    if kind == "mirror" and cls == "mcl" and water.get("h"):
        kind = "units"  # see ASSUMPTIONS
    frame = {"kind": kind, "k": rng.choice([-6, -4, -3, -2, -1, 1, 2, 3, 5, 8]), "x": rng.choice([0.0, 1.0, -8.0, 64.0]),
             "t": rng.choice([0.0, 2.0, -1.0, 512.0]), "c": rng.choice([1.0, -2.5, 8.0])}
    return {"bench": bench, "solver": solver, "frame": frame, "past": past,
            "which": rng.randrange(2)}


# ---------------------------------------------------------------- frames
class Frame:
    """x' = sx x + x0, t' = st t + t0, states' = states * factor + offset."""

    def __init__(self, bench, solver, frame):
        kind, k = frame["kind"], frame["k"]
        self.water = bench["problem"] == "swe"
        self.sx, self.st, self.x0, self.t0, self.offset = 1.0, 1.0, 0.0, 0.0, 0.0
        factor = [1.0, 1.0] if self.water else [1.0]
        self.height = 1.0
        if kind == "mirror":
            self.sx = -1.0
            factor[-1] = -1.0
        elif kind == "units":
            if self.water:
                self.sx, self.st = 4.0 ** k, 2.0 ** k
                self.height = self.sx
                factor = [self.sx, self.sx * self.st]
            else:
                self.sx, self.st = 2.0 ** k, 2.0 ** -(k // 2)
                if bench["problem"] == "advection":
                    self.st = self.sx
                else:
                    factor = [self.sx / self.st]
        elif kind == "origin":
            self.x0, self.t0 = frame["x"], frame["t"]
        elif kind == "reverse":
            factor = [-1.0]
        elif kind == "lift":
            self.offset = frame["c"]
        elif kind == "stretch":
            factor = [2.0 ** k]
        self.factor = np.array(factor)

    def state(self, value):
        value = np.asarray(value, float)
        if self.water:
            return value * self.factor
        return value * self.factor[0] + self.offset


class SeenFrom(core.Benchmark):
    """A benchmark in another frame."""

    def __init__(self, inner, frame):
        self.inner, self.frame = inner, frame
        self.problem = inner.problem
        a, b = sorted([inner.domain.a * frame.sx + frame.x0, inner.domain.b * frame.sx + frame.x0])
        self.domain = core.Interval(a, b)
        self.start_time = inner.start_time * frame.st + frame.t0
        self.end_time = inner.end_time * frame.st + frame.t0
        conditions = inner.boundary_conditions
        world.set_boundary_conditions(self, conditions[::-1] if frame.sx < 0 else conditions)
        if hasattr(inner, "gravitational_acceleration"):
            self.gravitational_acceleration = inner.gravitational_acceleration

    def _x(self, x):
        return (x - self.frame.x0) / self.frame.sx

    def _t(self, t):
        return (t - self.frame.t0) / self.frame.st

    def bathymetry(self, x):
        return self.inner.bathymetry(self._x(x)) * self.frame.height

    def initial_data(self, x):
        value = self.frame.state(self.inner.initial_data(self._x(x)))
        return value if self.frame.water else float(value)

    def _inflow(self, function, t):
        value = self.frame.state(function(self._t(t)))
        return value if self.frame.water else float(value)

    def inflow_left(self, t):
        return self._inflow(self.inner.inflow_right if self.frame.sx < 0 else self.inner.inflow_left, t)

    def inflow_right(self, t):
        return self._inflow(self.inner.inflow_left if self.frame.sx < 0 else self.inner.inflow_right, t)


def _spec(spec, frame):
    spec = dict(spec)
    if spec["cls"] not in ("cg-low", "mcl-fem"):
        # these control their step size with the mesh width only
        spec["cfl"] = spec["cfl"] * frame.st / abs(frame.sx)
    if "gamma" in spec:
        spec["gamma"] = spec["gamma"] * frame.sx ** 2 / frame.st
    return spec


def _seen(value, spec, frame):
    """VALUE of the first frame as it should be in the second."""
    value = frame.state(value)
    if frame.sx > 0:
        return value
    if spec["cls"] in world.SCALAR_FE:
        return value[-np.arange(len(value)) % len(value)]
    return value[::-1]


# ---------------------------------------------------------------- runs
def _path(spec, benchmark, past, run):
    hooks = RhsFault(run=run)
    with world.hooked(hooks):
        solver = world.build_solver(spec, benchmark)
    for op in past:
        hooks.calls, hooks.fired, hooks.at = 0, False, op["at"]
        hooks.fault = {"kind": "rhs-before", "error": op["error"]} if op["at"] else None
        world.solve(solver)
        solver.reinitialize(benchmark)
    hooks.fault = hooks.at = None
    spied = world.spy(solver, on_update=world.StateCap(400))
    first = np.array(spied.inner.value)
    outcome = world.solve(solver)
    return first, [(t, np.array(v)) for t, v, _ in spied.states], outcome.error_name


def execute(scenario, run):
    bench, spec, how = scenario["bench"], scenario["solver"], scenario["frame"]
    frame = Frame(bench, spec, how)
    plain = world.build_benchmark(bench)
    past = [scenario["past"], []] if scenario["which"] == 0 else [[], scenario["past"]]
    first, a, error_a = _path(spec, plain, past[0], run)
    first_b, b, error_b = _path(_spec(spec, frame), SeenFrom(world.build_benchmark(bench), frame),
                                past[1], run)
    name = f"{spec['cls']} ({bench['problem']}, {how['kind']})"
    tiny = 1e-12 * np.abs(first_b).max(axis=0) + 1e-300
    if not (np.abs(_seen(first, spec, frame) - first_b) <= tiny + 1e-12).all():
        raise Inconclusive("a jump of the data lies on a sampling point")
    size = max([float(np.abs(v).max()) for _, v in a], default=0.0)
    if not np.isfinite(size) or size > 1e3:
        raise Inconclusive("solution blows up")
    scale = np.maximum(np.abs(_seen(first, spec, frame)).max(axis=0), max(
        [np.abs(_seen(v, spec, frame)).max(axis=0) for _, v in a], default=0,
        key=lambda m: float(np.max(m))))
    if frame.water:  # discharges may be rounded to those of waves
        depth = max(float(np.abs(v[:, 0]).max()) for v in [first, *(v for _, v in a)])
        scale = np.maximum(scale, np.abs(frame.factor) * [0.0, depth * (bench["g"] * depth) ** 0.5])
    span = abs(bench["end"] - bench["start"]) * frame.st + 1e-300
    for k, ((t, v), (s, u)) in enumerate(zip(a, b)):
        expected = t * frame.st + frame.t0
        check(abs(expected - s) <= 1e-9 * span + 1e-12 * abs(frame.t0), "steps",
              lambda: f"{name}: step {k} reaches {s!r} instead of {expected!r}", solver=spec["cls"])
        gap = np.abs(_seen(v, spec, frame) - u)
        tolerance = (1e-9 if frame.t0 == frame.x0 == 0 else 1e-7) * 4.0 ** k
        check((gap <= tolerance * scale).all(), "frame", lambda: f"{name}: after step {k} the solution "
              f"differs from the one in the first frame by {gap.max():.3g}", solver=spec["cls"])
        run.count("states compared")
    if not (error_a or error_b):
        check(len(a) == len(b) or abs(len(a) - len(b)) == 1 and how["kind"] == "origin", "steps",
              f"{name}: takes {len(b)} steps instead of {len(a)}", solver=spec["cls"])
    check(error_a == error_b or min(len(a), len(b)) > 0, "outcome",
          f"{name}: ends with {error_b} instead of {error_a}", solver=spec["cls"])
    run.event(how["kind"], error_a, a[-1][1] if a else first)
    run.state(spec["cls"], spec.get("flux"), spec.get("ode"), bench["bc"], how["kind"],
              bench.get("bathy", {"kind": "const"})["kind"] == "const", bool(scenario["past"]), min(9, len(a)))
    run.sim_time += 2 * ((a[-1][0] if a else bench["start"]) - bench["start"])
    run.nontrivial = bool(a)
