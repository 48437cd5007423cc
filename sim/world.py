"""Builds benchmarks and solvers of the code under test from JSON values, and the
seams through which the simulator sees and disturbs their execution."""
import contextlib
import io
import math
import os
import pickle
import shutil
import sys
import traceback

import numpy as np

from .base import REPO, HarnessError, Inconclusive, Violation, fingerprint, passes_repo

import core
import defaults
from benchmark import shallow_water
from command.calculate import SCALAR_SOLVER_PARSER, SHALLOW_WATER_SOLVER_PARSER

import tqdm as _tqdm_package
import tqdm.std as _tqdm_std

_tqdm_package.tqdm.monitor_interval = 0

ODES = {
    "euler": core.ForwardEuler,
    "heun": core.Heun,
    "ssp3": core.StrongStabilityPreservingRungeKutta3,
}


# ---------------------------------------------------------------- profiles
def profile(spec, a=0.0, b=1.0):
    """A function of one variable from its JSON description."""
    length = b - a
    kind = spec["kind"]
    if kind == "const":
        value = float(spec["c"])
        return lambda x: value
    if kind == "fourier":
        c, terms = spec["c"], spec["terms"]
        return lambda x: float(
            c + sum(
                A * math.sin(2 * math.pi * k * (x - a) / length + p) for A, k, p in terms
            )
        )
    if kind == "steps":
        values = spec["values"]
        n = len(values)
        return lambda x: float(values[min(n - 1, max(0, math.floor((x - a) / length * n)))])
    if kind == "nodes":
        values = spec["values"]
        n = len(values)
        return lambda x: float(values[round((x - a) / length * n) % n])
    raise HarnessError(f"unknown profile {kind}")


def shifted(spec, cells):
    """A step or node profile translated by whole entries."""
    values = spec["values"]
    cells %= len(values)
    return {"kind": spec["kind"], "values": values[-cells:] + values[:-cells] if cells else values}


def drifted(x, t, a, b):
    """Made up exact solutions move through the domain."""
    return a + (x - a - 0.83 * t) % (b - a)


# ---------------------------------------------------------------- benchmarks
def set_boundary_conditions(benchmark, conditions):
    """Benchmarks state them in the attribute core.Benchmark declares for that."""
    setattr(benchmark, next((name for name in core.Benchmark.__annotations__ if "boundary" in name),
                            "_boundary_conditions"), conditions)


class ScalarBenchmark(core.Benchmark):
    def __init__(self, spec):
        self.spec = spec
        self.problem = spec["problem"]
        self.domain = core.Interval(spec["a"], spec["b"])
        self.start_time = spec.get("start", 0.0)
        self.end_time = spec["end"]
        bc = spec["bc"]
        set_boundary_conditions(self, bc[0] if len(bc) == 1 else tuple(bc))
        self._initial = profile(spec["init"], spec["a"], spec["b"])
        self.inflow_calls = []
        self.inflow_fault = None

    def initial_data(self, x):
        return self._initial(x)

    def _inflow(self, side, t):
        self.inflow_calls.append((side, float(t)))
        if self.inflow_fault is not None:
            self.inflow_fault(side, t)
        return profile(self.spec["inflow_" + side])(t)

    def inflow_left(self, t):
        return self._inflow("l", t)

    def inflow_right(self, t):
        return self._inflow("r", t)

    def exact_solution(self, x, t):
        if "exact" not in self.spec:
            raise AttributeError("No exact solution exists.")
        a, b = self.spec["a"], self.spec["b"]
        return profile(self.spec["exact"], a, b)(drifted(x, t, a, b))


class WaterBenchmark(shallow_water.ShallowWaterBenchmark):
    def __init__(self, spec):
        self.spec = spec
        self.domain = core.Interval(spec["a"], spec["b"])
        self.start_time = spec.get("start", 0.0)
        self.end_time = spec["end"]
        self.gravitational_acceleration = spec.get("g", defaults.GRAVITATIONAL_ACCELERATION)
        bc = spec["bc"]
        set_boundary_conditions(self, bc[0] if len(bc) == 1 else tuple(bc))
        a, b = spec["a"], spec["b"]
        self._bathymetry = profile(spec.get("bathy", {"kind": "const", "c": 0.0}), a, b)
        self._h = profile(spec["h"], a, b)
        self._v = profile(spec["v"], a, b)
        self._level = spec.get("level", False)
        self.inflow_calls = []
        self.inflow_fault = None

    def bathymetry(self, x):
        return self._bathymetry(x)

    def initial_data(self, x):
        h = self._h(x) - self._bathymetry(x) if self._level else self._h(x)
        return np.array([h, h * self._v(x)])

    def _inflow(self, side, t):
        self.inflow_calls.append((side, float(t)))
        if self.inflow_fault is not None:
            self.inflow_fault(side, t)
        spec = self.spec["inflow_" + side]
        h = profile(spec["h"])(t)
        return np.array([h, h * profile(spec["v"])(t)])

    def inflow_left(self, t):
        return self._inflow("l", t)

    def inflow_right(self, t):
        return self._inflow("r", t)

    def exact_solution(self, x, t):
        if "exact" not in self.spec:
            raise AttributeError("No exact solution exists.")
        a, b = self.spec["a"], self.spec["b"]
        x = drifted(x, t, a, b)
        h = profile(self.spec["exact"]["h"], a, b)(x)
        return np.array([h, h * profile(self.spec["exact"]["v"], a, b)(x)])


def build_benchmark(spec):
    return WaterBenchmark(spec) if spec["problem"] == "swe" else ScalarBenchmark(spec)


# ---------------------------------------------------------------- solvers
SCALAR_FV = ["llf", "central", "mcl-fv"]
SCALAR_FE = ["cg", "cg-low", "mcl-fem"]
SWE = ["llf", "low-order", "mcl", "central", "es", "es1", "lw", "antidiffusion", "coarse"]
REDUCED = ["reduced-llf", "reduced-llf-2"]


def solver_class(problem, key):
    parsers = SHALLOW_WATER_SOLVER_PARSER if problem == "swe" else SCALAR_SOLVER_PARSER
    return parsers[key].solver


def flux_getter(key):
    from finite_volume.shallow_water.solver import SHALLOW_WATER_FLUX_GETTER

    return SHALLOW_WATER_FLUX_GETTER[key]


def build_solver(spec, benchmark, **extra):
    problem = "swe" if benchmark.problem == "shallow_water" else benchmark.problem
    key = spec["cls"]
    kwargs = {"mesh_size": spec["mesh"], "cfl_number": spec["cfl"],
              "save_history": spec.get("history", False)}
    if "name" in spec:
        kwargs["name"] = spec["name"]
    if "short" in spec:
        kwargs["short"] = spec["short"]
    if spec.get("ode") and key not in ("lw", "cg"):
        kwargs["ode_solver_type"] = ODES[spec["ode"]]
    if key in SCALAR_FE:
        kwargs["polynomial_degree"] = spec.get("degree", 1)
    if key == "cg":
        kwargs["exact_flux"] = spec.get("exact_flux", False)
    if key in ("cg-low", "mcl-fem"):
        kwargs["adaptive"] = spec.get("adaptive", False)
    if problem == "swe" and spec.get("flux") and key in ("mcl", "antidiffusion", "coarse"):
        kwargs["flux_getter"] = flux_getter(spec["flux"])
    if key == "antidiffusion" and "gamma" in spec:
        kwargs["gamma"] = spec["gamma"]
    if key == "coarse":
        kwargs["coarsening_degree"] = spec.get("coarsen", 2)
    kwargs.update(extra)
    for name in spec.get("implicit", []):  # left to its default
        kwargs.pop(name, None)
    return solver_class(problem, key)(benchmark, **kwargs)


class HarnessSolver(core.Solver):
    """A solver put together from the parts of another one: used where the
    property is about the parts under another step size control."""

    def reinitialize(self, benchmark):
        raise HarnessError("not meant to be reinitialised")


def provide_networks(directory):
    """Network solvers read data/... relative to the working directory."""
    if not os.path.isdir(os.path.join(directory, "data")):
        shutil.copytree(os.path.join(REPO, "data"), os.path.join(directory, "data"))


def uses_network(spec):
    return spec["cls"].startswith("reduced") or str(spec.get("flux", "")).startswith("reduced")


# ---------------------------------------------------------------- random specs
def r(rng, a, b, digits=3):
    return round(rng.uniform(a, b), digits)


def random_profile(rng, lo, hi, n=None, kinds=("const", "fourier", "steps")):
    """Values stay within [lo, hi]."""
    kind = rng.choice(kinds)
    if kind == "const":
        return {"kind": "const", "c": r(rng, lo, hi)}
    if kind == "fourier":
        c = r(rng, lo + 0.3 * (hi - lo), hi - 0.3 * (hi - lo))
        room = min(hi - c, c - lo)
        m = rng.randint(1, 3)
        return {"kind": "fourier", "c": c, "terms": [
            [round(room / m * rng.uniform(0.2, 0.999), 4), rng.randint(1, 4), r(rng, 0, 6.28)]
            for _ in range(m)]}
    n = n or rng.randint(2, 12)
    style = rng.random()
    if style < 0.5:
        values = [r(rng, lo, hi) for _ in range(n)]
    elif style < 0.8:
        two = [r(rng, lo, hi), r(rng, lo, hi)]
        values = [rng.choice(two) for _ in range(n)]
    else:
        base, peak = r(rng, lo, hi), r(rng, lo, hi)
        values = [base] * n
        values[rng.randrange(n)] = peak
    return {"kind": kind, "values": values}


def random_domain(rng):
    return rng.choice([(0.0, 1.0), (0.0, 2.0), (-1.0, 1.0), (0.0, 6.25), (-0.5, 0.25),
                       (1.0, 11.0), (0.0, 100.0)])


SCALAR_BCS = [["periodic"], ["periodic"], ["outflow", "outflow"], ["inflow", "outflow"],
              ["inflow", "inflow"], ["outflow", "inflow"]]
SWE_BCS = [["periodic"], ["periodic"], ["outflow", "outflow"], ["wall", "wall"],
           ["inflow", "wall"], ["inflow", "outflow"], ["outflow", "wall"], ["wall", "inflow"]]


def random_scalar(rng, cls, steps, theta=(0.2, 0.95), bcs=None, lo=-2.0, hi=2.0, mesh=None,
                  kinds=("const", "fourier", "steps"), start=None, problem=None):
    """(benchmark spec, solver spec) of a scalar problem taking about STEPS
    steps, with THETA relative to the stability limit of the scheme."""
    problem = problem or rng.choice(["advection", "burgers"])
    fe = cls in SCALAR_FE
    mesh = mesh or (rng.randint(4, 9) if fe else rng.randint(4, 16))
    a, b = random_domain(rng)
    bc = ["periodic"] if fe else rng.choice(bcs or SCALAR_BCS)
    init = random_profile(rng, lo, hi, n=mesh if rng.random() < 0.7 else None, kinds=kinds)
    bench = {"problem": problem, "a": a, "b": b, "bc": bc, "init": init}
    for side, index in (("l", 0), ("r", -1)):
        if bc[index] == "inflow":
            bench["inflow_" + side] = random_profile(rng, lo, hi, kinds=("const", "fourier"))
    dx = (b - a) / mesh
    speed = 1.0 if problem == "advection" else max(abs(lo), abs(hi))
    solver = {"cls": cls, "mesh": mesh, "ode": rng.choice(list(ODES)),
              "history": rng.random() < 0.5}
    th = r(rng, *theta)
    if cls in ("cg-low", "mcl-fem"):
        solver["adaptive"] = rng.random() < 0.5
        solver["cfl"] = th
        dt = th * dx / speed
    elif cls == "cg":
        solver["degree"] = rng.choice([1, 1, 2, 3])
        solver["exact_flux"] = rng.random() < 0.3
        solver["cfl"] = round(0.3 * th / speed / solver["degree"] ** 2, 5)
        dt = solver["cfl"] * dx
    else:
        solver["cfl"] = round(0.5 * th / speed, 5)
        dt = solver["cfl"] * dx
    bench["start"] = rng.choice([0.0, 0.0, 0.0, 0.3, 1.7, -0.4]) if start is None else start
    bench["end"] = bench["start"] + max(dt * (steps + rng.choice([0.0, 0.37, 0.9])), 1e-6)
    return bench, solver


def random_swe(rng, cls, steps, theta=(0.2, 0.9), bcs=None, h=(0.5, 3.0), v=(-1.5, 1.5),
               bathy=None, mesh=None, start=None, kinds=("const", "fourier", "steps")):
    mesh = mesh or rng.randint(4, 16)
    coarsen = 1
    solver = {"cls": cls, "ode": rng.choice(list(ODES)), "history": rng.random() < 0.5}
    if cls == "coarse":
        coarsen = rng.choice([1, 2, 4])
        mesh = -(-mesh // coarsen) * coarsen
        solver["coarsen"] = coarsen
        solver["flux"] = rng.choice(["llf", "low-order", "central", "es1"])
    if cls == "antidiffusion":
        solver["gamma"] = r(rng, 0.01, 0.3)
        solver["flux"] = rng.choice(["llf", "low-order", "es1"])
    if cls == "mcl":
        solver["flux"] = rng.choice([None, "central", "es", "es1", "llf", "low-order"])
    solver["mesh"] = mesh
    a, b = random_domain(rng)
    bc = rng.choice(bcs or SWE_BCS)
    bench = {"problem": "swe", "a": a, "b": b, "bc": bc,
             "g": rng.choice([9.812, 9.812, 1.0]),
             "h": random_profile(rng, *h, n=mesh if rng.random() < 0.7 else None, kinds=kinds),
             "v": random_profile(rng, *v, n=mesh if rng.random() < 0.7 else None, kinds=kinds),
             "bathy": {"kind": "const", "c": 0.0}}
    if bathy is not None and cls != "lw":
        bench["bathy"] = random_profile(rng, *bathy, n=mesh if rng.random() < 0.7 else None)
    for side, index in (("l", 0), ("r", -1)):
        if bc[index] == "inflow":
            bench["inflow_" + side] = {
                "h": random_profile(rng, *h, kinds=("const", "fourier")),
                "v": random_profile(rng, *v, kinds=("const", "fourier"))}
    speed = max(abs(v[0]), abs(v[1])) + math.sqrt(bench["g"] * h[1])
    dx = (b - a) / mesh
    solver["cfl"] = round(0.5 * r(rng, *theta) / speed, 5)
    bench["start"] = rng.choice([0.0, 0.0, 0.0, 0.3, 1.7]) if start is None else start
    bench["end"] = bench["start"] + solver["cfl"] * dx * (steps + rng.choice([0.0, 0.37, 0.9]))
    return bench, solver


def random_any(rng, steps, classes=None, **kwargs):
    """Any solver on any admissible problem."""
    classes = classes or (
        [("scalar", c) for c in SCALAR_FV * 2 + SCALAR_FE] + [("swe", c) for c in SWE]
    )
    kind, cls = rng.choice(classes)
    if kind == "scalar":
        return random_scalar(rng, cls, steps, **{k: v for k, v in kwargs.items()
                                                 if k in ("theta", "mesh", "start")})
    if cls in REDUCED:
        bench, solver = random_swe(rng, cls, steps, h=(1.5, 2.5), v=(0.5, 1.5), theta=(0.05, 0.2),
                                   bcs=[["periodic"], ["outflow", "outflow"]],
                                   kinds=("fourier",), **{k: v for k, v in kwargs.items()
                                                          if k in ("mesh", "start")})
        return bench, solver
    return random_swe(rng, cls, steps, bathy=(-0.3, 0.3) if rng.random() < 0.4 else None,
                      **{k: v for k, v in kwargs.items() if k in ("theta", "mesh", "start")})


# ---------------------------------------------------------------- seams
class Hooks:
    """Called around every right-hand side evaluation of hooked solvers."""

    def before(self, hooked, time, value):
        pass

    def after(self, hooked, time, value, result):
        return result


class HookedRightHandSide:
    def __init__(self, inner):
        self._inner = inner
        self.hooks = _current_hooks[-1] if _current_hooks else Hooks()
        self.owner = None

    def __call__(self, time, value):
        self.hooks.before(self, time, value)
        return self.hooks.after(self, time, value, self._inner(time, value))

    def __getattr__(self, name):
        return getattr(self.__dict__["_inner"], name)


_current_hooks = []
_installed = []


def install_rhs_seam():
    if _installed:
        return
    cls = core.ExplicitRungeKuttaMethod
    original = cls.__init__

    def __init__(self, right_hand_side, *args, **kwargs):
        if _current_hooks and not isinstance(right_hand_side, HookedRightHandSide):
            right_hand_side = HookedRightHandSide(right_hand_side)
        original(self, right_hand_side, *args, **kwargs)

    cls.__init__ = __init__
    _installed.append(original)


@contextlib.contextmanager
def hooked(hooks):
    """Solvers built inside are connected to HOOKS."""
    install_rhs_seam()
    _current_hooks.append(hooks)
    try:
        yield hooks
    finally:
        _current_hooks.pop()


class SpySolution(core.DiscreteSolution):
    """Stands between a solver and its solution and records accepted states."""

    def __init__(self, solution, on_update=None, on_time=None):
        self.inner = solution
        self.states = []
        self.on_update = on_update

    @property
    def time(self):
        return self.inner.time

    @property
    def value(self):
        return self.inner.value

    @property
    def space(self):
        return self.inner.space

    @property
    def time_history(self):
        return self.inner.time_history

    @property
    def value_history(self):
        return self.inner.value_history

    def update(self, time_step, value):
        if self.on_update:
            self.on_update(time_step, value)
        self.inner.update(time_step, value)
        self.states.append((self.inner.time, self.inner.value, time_step))

    def set_value(self, value, time=0.0):
        self.inner.set_value(value, time)


def spy(solver, **kwargs):
    solver.solution = SpySolution(solver.solution, **kwargs)
    return solver.solution


def snapshot(solution):
    """(time, value, time history or None, value history or None), all copied."""
    times = getattr(solution, "time_history", None)
    values = getattr(solution, "value_history", None)
    return (
        float(solution.time), np.array(solution.value, copy=True),
        None if times is None else np.array(times, copy=True),
        None if values is None else np.array(values, copy=True),
    )


def has_history(solution):
    try:
        return solution.time_history is not None
    except AttributeError:
        return False


def same(x, y):
    """Bitwise equal (also for NaN)."""
    if x is None or y is None:
        return x is y
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and x.dtype == y.dtype and x.tobytes() == y.tobytes()


class Outcome:
    def __init__(self, error, output):
        self.error, self.output = error, output

    @property
    def error_name(self):
        return type(self.error).__name__ if self.error is not None else None

    @property
    def warnings(self):
        return [l for l in self.output.splitlines() if "WARNING" in l]


class SimulatedFault(Exception):
    """Raised by the simulator out of a seam."""


def attempt(function, *args, **kwargs):
    """Runs FUNCTION, capturing what it prints and how it ends."""
    buffer = io.StringIO()
    error = None
    with contextlib.redirect_stdout(buffer):
        try:
            function(*args, **kwargs)
        except (Violation, Inconclusive, HarnessError):
            raise
        except (Exception, KeyboardInterrupt) as e:
            error = e
    return Outcome(error, buffer.getvalue())


def solve(solver, **kwargs):
    kwargs.setdefault("disable", True)
    return attempt(solver.solve, **kwargs)


class StateCap:
    """Ends runaway solves: a scenario never takes many more steps than asked."""

    def __init__(self, limit=400):
        self.left = limit

    def __call__(self, *args):
        self.left -= 1
        if self.left < 0:
            raise Violation("no-termination", "the solve takes far more steps than its "
                            "step size allows")


def isolated(function, *args):
    """Runs FUNCTION in a process forked now, and returns its result."""
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(read)
            try:
                payload = ("ok", function(*args))
            except (Violation, Inconclusive, HarnessError) as e:
                payload = ("raise", e)
            except BaseException as e:  # noqa
                text = traceback.format_exc()
                if passes_repo(e):
                    payload = ("raise", Violation(
                        "unexpected-" + type(e).__name__, f"{e}"[:500], traceback=text[-3000:]))
                else:
                    payload = ("error", text)
            with os.fdopen(write, "wb") as f:
                pickle.dump(payload, f)
            code = 0
        finally:
            os._exit(code)
    os.close(write)
    with os.fdopen(read, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("isolated run died")
    status, result = pickle.loads(data)
    if status == "raise":
        raise result
    if status == "error":
        raise RuntimeError("isolated run failed:\n" + result)
    return result


def repo_caller(depth=2):
    """Whether the calling frame belongs to the code under test."""
    frame = sys._getframe(depth)
    return os.path.realpath(frame.f_code.co_filename).startswith(REPO + os.sep)


class SimClock:
    """Replaces the wall clock seen by progress bars: jumps and stalls."""

    def __init__(self, jumps, run=None):
        self.now, self.jumps, self.calls, self.run = 1000.0, jumps or [0.0], 0, run

    def __call__(self):
        jump = self.jumps[self.calls % len(self.jumps)]
        self.calls += 1
        self.now += jump
        if self.run is not None and (jump < 0 or jump > 60):
            self.run.fault("clock jump")
        return self.now

    @contextlib.contextmanager
    def installed(self):
        old = _tqdm_std.time
        _tqdm_std.time = self
        try:
            yield self
        finally:
            _tqdm_std.time = old
