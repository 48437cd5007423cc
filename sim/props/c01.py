"""C01: a time step is all or nothing."""
import core
import numpy as np

from .. import world
from ..base import Inconclusive, Violation, check
from ..faults import ERRORS, AllocationFault, RhsFault

QUICK, THOROUGH, TIMEOUT = 420, 12000, 40
LEVEL = "fault_enumeration"
RULE = ("one evaluation = one seeded solve disturbed by one fault at one point and compared, "
        "bit for bit, with the undisturbed trajectory; distinct by the digest of everything observed")
REAL = ["solvers, right-hand sides, Runge-Kutta methods, time stepping, CFL check, discrete "
        "solutions and histories (all of core, finite_volume, finite_element)"]
STUBS = ["benchmarks are generated; the right-hand side is wrapped by a seam which raises or "
         "poisons; array allocation may fail; storage of a state may fail"]
STATE_MEASURE = "(solver, fault kind, stage within the step, accepted steps)"
ASSUMPTIONS = ["faults strike inside an evaluation, an allocation, the inflow data, the CFL "
               "check or the storage of a state, not between two machine instructions of an "
               "assignment"]

KINDS = (["rhs-before", "rhs-after", "rhs-poison", "rhs-poison", "rhs-poison", "alloc", "alloc",
          "store", "cfl"])


def generate(rng, i):
    classes = None
    if i % 20 == 19:
        classes = [("swe", "reduced-llf")]
    bench, solver = world.random_any(rng, rng.randint(1, 4), classes)
    kind = KINDS[i % len(KINDS)]
    if rng.random() < 0.15 and "inflow" in bench["bc"]:
        kind = "inflow"
    if kind == "cfl":
        solver["history"] = rng.random() < 0.7
    fault = {"kind": kind, "at": round(rng.random(), 4),
             "error": rng.choice(list(ERRORS)),
             "poison": rng.choice(["nan", "inf", "-inf"]),
             "where": round(rng.random(), 4)}
    return {"bench": bench, "solver": solver, "fault": fault,
            "via": rng.choice(["solve", "solve", "calculate"]),
            "reinitialized": rng.random() < 0.2}


class StoreFault(Exception):
    pass


class Storage(core.DiscreteSolution):
    """Storage below the histories which fails on update number AT."""

    def __init__(self, inner, at, run):
        self._inner, self._at, self._run, self.calls, self.fired = inner, at, run, 0, False

    time = property(lambda self: self._inner.time)
    value = property(lambda self: self._inner.value)
    space = property(lambda self: self._inner.space)

    def update(self, time_step, value):
        self.calls += 1
        if self.calls == self._at:
            self.fired = True
            if self._run:
                self._run.fault("storing the state fails")
            raise StoreFault("injected")
        self._inner.update(time_step, value)

    def set_value(self, value, time=0.0):
        self._inner.set_value(value, time)


def _with_storage(spec, benchmark, at, run):
    """The solver of SPEC with a failing storage below its history."""
    plain = world.build_solver(dict(spec, history=False), benchmark)
    storage = Storage(plain.solution, at, run)
    solution = core.DiscreteSolutionWithHistory(storage) if spec.get("history") else storage
    if spec.get("history") and spec["cls"] != "coarse" and spec["mesh"] % 2 == 0 and spec.get(
            "degree", 1) == 1 and spec["mesh"] > 4:
        solution = core.CoarseSolutionWithHistory(storage, 2)
    plain.solution = solution
    return plain, storage


def _with_checker(spec, benchmark, at, run, hooks):
    """The parts of SPEC's solver in a solver whose CFL check raises at call AT."""
    base = world.build_solver(spec, benchmark)
    parts = base.as_dict()
    calls = {"n": 0, "fired": False}

    def optimal(time, value):
        calls["n"] += 1
        if calls["n"] == at:
            calls["fired"] = True
            if run:
                run.fault("CFL check raises")
            raise StoreFault("injected")
        return 1e9

    with world.hooked(hooks):
        solver = world.HarnessSolver(
            base.solution, parts["right_hand_side"], type(parts["ode_solver"]),
            parts["time_stepping"], cfl_checker=core.CFLChecker(optimal))
    return solver, calls


def _go(scenario, solver):
    if scenario["via"] == "calculate":
        from command.calculate import Calculate

        return world.attempt(Calculate(solver, disable=True).execute)
    return world.solve(solver)


def _reference(scenario):
    """Accepted states and the number of seam calls made when each was accepted."""
    spec, fault = scenario["solver"], scenario["fault"]
    benchmark = world.build_benchmark(scenario["bench"])
    hooks = RhsFault()
    counters = {}
    alloc = AllocationFault()
    with world.hooked(hooks):
        if fault["kind"] == "store":
            solver, storage = _with_storage(spec, benchmark, None, None)
        elif fault["kind"] == "cfl":
            solver, calls = _with_checker(spec, benchmark, None, None, hooks)
        else:
            solver = world.build_solver(spec, benchmark)
    if scenario["reinitialized"] and fault["kind"] not in ("cfl", "store"):
        solver.reinitialize(benchmark)
    hooks.calls = 0
    benchmark.inflow_calls.clear()
    cap = world.StateCap()

    def seam_calls():
        return {"rhs": hooks.calls, "inflow": len(benchmark.inflow_calls), "alloc": alloc.calls,
                "store": storage.calls if fault["kind"] == "store" else 0,
                "cfl": calls["n"] if fault["kind"] == "cfl" else 0}

    spied = world.spy(solver, on_update=cap)
    states = [world.snapshot(solver.solution.inner)]
    marks = [seam_calls()]
    original = spied.update

    def update(time_step, value):
        before = seam_calls()
        original(time_step, value)
        after = seam_calls()
        # allocations of the bookkeeping itself still belong to the step
        states.append(world.snapshot(spied.inner))
        marks.append(dict(after, alloc=alloc.calls, alloc_before=before["alloc"]))

    spied.update = update
    with alloc.installed():
        outcome = _go(scenario, solver)
    return states, marks, seam_calls(), outcome.error_name


def execute(scenario, run):
    spec, fault = scenario["solver"], scenario["fault"]
    if world.uses_network(spec):
        world.provide_networks(".")
    states, marks, total, ref_error = world.isolated(_reference, scenario)
    kind = fault["kind"]
    seam = {"rhs-before": "rhs", "rhs-after": "rhs", "rhs-poison": "rhs"}.get(kind, kind)
    if total[seam] == 0:
        raise Inconclusive("nothing to disturb")
    at = 1 + int(fault["at"] * total[seam])
    run.event("reference", len(states), ref_error, [s[0] for s in states], at, kind)

    for time, value, _, _ in states:
        check(np.isfinite(value).all(), "non-finite-accepted",
              f"a state which is not finite was accepted at t={time}")

    benchmark = world.build_benchmark(scenario["bench"])
    hooks = RhsFault(fault if seam == "rhs" else None, at, run)
    storage = calls = None
    with world.hooked(hooks):
        if kind == "store":
            solver, storage = _with_storage(spec, benchmark, at, run)
        elif kind == "cfl":
            solver, calls = _with_checker(spec, benchmark, at, run, hooks)
        else:
            solver = world.build_solver(spec, benchmark)
    if scenario["reinitialized"] and kind not in ("cfl", "store"):
        armed, hooks.fault = hooks.fault, None
        solver.reinitialize(benchmark)
        hooks.fault = armed
    hooks.calls = 0
    benchmark.inflow_calls.clear()
    if kind == "inflow":
        def inflow_fault(side, t):
            if len(benchmark.inflow_calls) == at:
                hooks.fired = True
                run.fault("inflow data raise")
                raise ERRORS[fault["error"]]("injected")
        benchmark.inflow_fault = inflow_fault
    alloc = AllocationFault(at if kind == "alloc" else None, run)

    # while steps are in flight the visible solution is the last accepted state
    visible = {"seen": 0, "bad": None}

    def accepted_before(call, name="rhs"):
        return max(j for j, m in enumerate(marks) if m[name] < call)

    plain_before = hooks.before

    def before(hooked, time, value):
        call = hooks.calls + 1
        if visible["bad"] is None:
            j = accepted_before(call)
            visible["seen"] += 1
            now = world.snapshot(solver.solution)
            if not _equal(now, states[j]):
                visible["bad"] = (call, j, now)
        plain_before(hooked, time, value)

    if kind not in ("alloc",):
        hooks.before = before
    if kind == "alloc":
        with alloc.installed():
            outcome = _go(scenario, solver)
    else:
        outcome = _go(scenario, solver)

    fired = hooks.fired or alloc.fired or (storage is not None and storage.fired) or (
        calls is not None and calls["fired"])
    check(visible["bad"] is None, "visible-state-changed-mid-step",
          lambda: f"during evaluation {visible['bad'][0]} the visible solution is not the "
                  f"accepted state number {visible['bad'][1]}")
    run.count("mid-step observations", visible["seen"])
    if not fired:
        # the failing evaluation may already be preceded by a natural failure
        check(ref_error is not None or kind == "alloc", "seam-not-reached",
              "the disturbed run does less than the undisturbed one")
        raise Inconclusive("fault not reached")

    now = world.snapshot(solver.solution)
    check(np.isfinite(now[1]).all(), "non-finite-accepted", "the visible state is not finite")
    check(now[3] is None or np.isfinite(now[3]).all(), "non-finite-recorded",
          "a recorded state is not finite")
    if kind == "alloc":
        least = max(j for j, m in enumerate(marks) if m["alloc"] < at)
        most = max(j for j, m in enumerate(marks) if m.get("alloc_before", 0) <= at)
        allowed = range(least, most + 1)
    else:
        j = accepted_before(at, seam)
        steps = len(states) - 1
        if kind == "cfl" and ref_error is None and total["cfl"] % steps == 0:
            # as many checks for every step: call AT belongs to the step after state j
            # whether the state is stored before the check or after it
            j = (at - 1) // (total["cfl"] // steps)
        allowed = range(j, j + 1)
    hit = [j for j in allowed if _equal(now, states[j])]
    check(hit, "state-torn", lambda: _describe(now, states, allowed, outcome, fault))
    run.event("failed", outcome.error_name, now[0], now[1])
    if outcome.error is None and kind != "alloc":
        # nothing allows a solve to swallow the failure and end as if complete
        complete = len(states) - 1
        check(ref_error is not None or allowed[-1] < complete, "failure-ignored",
              f"the failing step was followed by a normal end ({outcome.output[-200:]})")
    run.sim_time += float(now[0]) - scenario["bench"]["start"]
    run.state(spec["cls"], kind, at % 4, hit[0])


def _equal(x, y):
    return x[0] == y[0] and world.same(x[1], y[1]) and world.same(x[2], y[2]) and world.same(
        x[3], y[3])


def _describe(now, states, allowed, outcome, fault):
    j = allowed[-1]
    parts = []
    want = states[j]
    if now[0] != want[0]:
        parts.append(f"time {now[0]!r} instead of {want[0]!r}")
    if not world.same(now[1], want[1]):
        parts.append("other values")
    if (now[2] is not None) and not world.same(now[2], want[2]):
        parts.append(f"time history {now[2].tolist()} instead of {want[2].tolist()}")
    if (now[3] is not None) and not world.same(now[3], want[3]):
        parts.append(f"value history of shape {now[3].shape} instead of {want[3].shape}"
                     if now[3].shape != want[3].shape else "other recorded values")
    return (f"after a step failed ({fault['kind']}, {outcome.error_name}) the solution is not "
            f"the last accepted state {j}: {', '.join(parts)}")
