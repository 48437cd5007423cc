"""C06: solvers in one process do not influence each other."""
from .. import world
from ..base import Inconclusive, check
from ..baton import Baton
from ..faults import ERRORS
from .c05 import compare

QUICK, THOROUGH, TIMEOUT = 420, 14000, 60
LEVEL = "exploration"
RULE = ("one evaluation = 2-4 solvers living in one process, interleaved at every right-hand side "
        "evaluation, step, build, failure and reinitialisation by a seeded schedule, each compared "
        "bit for bit with its run alone in a pristine process; distinct by digest")
REAL = ["all solvers and everything they share: classes, flux getters, networks, benchmarks"]
STUBS = ["benchmarks are generated; a baton scheduler decides which solver moves; evaluations fail "
         "on command"]
STATE_MEASURE = "(solvers present, what the paused solvers are doing)"
ASSUMPTIONS = ["switches happen between right-hand side evaluations, not within one"]


def _related(rng, bench, solver):
    """The same problem and solver, but for one or two details."""
    bench, solver = dict(bench), dict(solver)
    details = ["nothing", "mesh", "cfl", "ode", "initial", "inflow", "domain", "time", "history"]
    if bench["problem"] == "swe":
        details += ["bathy", "bathy", "g", "velocity"]
    for detail in rng.sample(details, rng.choice([1, 1, 2])):
        if detail == "mesh" and solver["cls"] != "coarse":
            solver["mesh"] += rng.randint(1, 3)
        elif detail == "cfl":
            solver["cfl"] = round(solver["cfl"] * rng.uniform(0.5, 0.99), 5)
        elif detail == "ode":
            solver["ode"] = rng.choice(list(world.ODES))
        elif detail == "history":
            solver["history"] = not solver["history"]
        elif detail == "initial":
            if bench["problem"] == "swe":
                bench["h"] = world.random_profile(rng, 0.5, 3.0)
            else:
                bench["init"] = world.random_profile(rng, -2, 2)
        elif detail == "velocity":
            bench["v"] = world.random_profile(rng, -1.5, 1.5)
        elif detail == "bathy" and solver["cls"] != "lw":
            bench["bathy"] = world.random_profile(rng, -0.3, 0.3)
        elif detail == "g":
            bench["g"] = rng.choice([1.0, 4.0, 9.812])
        elif detail == "time":
            delta = rng.choice([0.25, -0.25, 2.0])
            bench["start"] += delta
            bench["end"] += delta
        elif detail == "domain":
            longer = rng.choice([1.5, 2.0])
            bench["b"] = bench["a"] + longer * (bench["b"] - bench["a"])
            bench["end"] = bench["start"] + longer * (bench["end"] - bench["start"])
        elif detail == "inflow":
            for side in "lr":
                name = "inflow_" + side
                if name in bench:
                    bench[name] = world.random_profile(
                        rng, -2, 2, kinds=("const", "fourier")) if bench["problem"] != "swe" else {
                        "h": world.random_profile(rng, 0.5, 3.0, kinds=("const", "fourier")),
                        "v": world.random_profile(rng, -1.5, 1.5, kinds=("const", "fourier"))}
    return bench, solver


def _default_some(rng, solver):
    """Some options are left to their defaults."""
    if rng.random() < 0.7:
        return
    names = ["ode_solver_type", "flux_getter", "gamma", "coarsening_degree", "adaptive"]
    solver["implicit"] = [n for n in names if rng.random() < 0.5]
    if solver["cls"] == "coarse" and "coarsening_degree" in solver["implicit"]:
        solver.update(coarsen=8, mesh=8 * rng.randint(1, 3))
    if rng.random() < 0.3:
        solver["implicit"].append("cfl_number")


def generate(rng, i):
    classes = None
    count = rng.choice([2, 2, 3, 4])
    tasks = []
    style = rng.random()
    base = world.random_any(rng, rng.randint(1, 3))
    for k in range(count):
        if i % 12 == 11:
            cls = rng.choice(world.REDUCED[:1] * 2 + world.REDUCED[1:])
            bench, solver = world.random_any(rng, rng.randint(1, 3), [("swe", cls)])
            if tasks and rng.random() < 0.5:
                solver = dict(tasks[0]["solver"])
                bench = dict(tasks[0]["bench"])
        elif style < 0.35 and k > 0:
            # same class, related problem
            bench, solver = _related(rng, *base)
        elif style < 0.6 and k > 0 and base[0]["problem"] == "swe":
            # another class on the same benchmark
            cls = rng.choice(["llf", "low-order", "mcl", "central", "es", "es1", "antidiffusion"])
            bench, solver = dict(base[0]), dict(base[1], cls=cls)
            solver.pop("flux", None)
            if cls in ("mcl", "antidiffusion"):
                solver["flux"] = rng.choice(["llf", "central", "es1"])
            if cls == "antidiffusion":
                solver["gamma"] = 0.1
        else:
            bench, solver = base if k == 0 else world.random_any(rng, rng.randint(1, 3))
        ops = [{"op": "build"}]
        for _ in range(rng.randint(1, 3)):
            u = rng.random()
            if u < 0.6:
                ops.append({"op": "solve"})
            else:
                ops.append({"op": "fail", "at": rng.randint(1, 6), "error": rng.choice(list(ERRORS))})
            ops.append({"op": "reinitialize"})
        ops.append({"op": "solve"})
        tasks.append({"bench": bench, "solver": dict(solver), "plan": ops})
    for task in tasks:
        _default_some(rng, task["solver"])
    total = 40 * count
    u = rng.random()
    if u < 0.25:
        schedule = [k % count for k in range(total)]
    elif u < 0.8:
        schedule = [rng.randrange(12) for _ in range(total)]
    else:
        schedule = []
        while len(schedule) < total:
            schedule += [rng.randrange(12)] * rng.randint(1, 9)
    return {"tasks": tasks, "schedule": schedule, "share": rng.random() < 0.5,
            "share_getter": rng.random() < 0.5}


_building = []


class Pausing(world.Hooks):
    def __init__(self, baton, cls):
        self.baton, self.cls = baton, cls
        self.calls, self.fail_at, self.error, self.run, self.fired = 0, None, None, None, False

    def before(self, hooked, time, value):
        if _building:
            return
        self.calls += 1
        if self.baton:
            self.baton.pause(self.cls + ":evaluate")
        if self.fail_at == self.calls:
            self.fired = True
            if self.run:
                self.run.fault("evaluation raises " + self.error)
            raise ERRORS[self.error]("injected")

    def after(self, hooked, time, value, result):
        if self.baton and not _building:
            self.baton.pause(self.cls + ":evaluated")
        return result


def _live(task, plan, benchmark, baton=None, run=None, current=None):
    """One solver's life. Returns what a user sees of every solve."""
    spec = task["solver"]
    hooks = Pausing(baton, spec["cls"])
    hooks.run = run
    seen = []
    solver = None
    for op in plan:
        if baton:
            baton.pause(spec["cls"] + ":" + op["op"])
        if op["op"] == "build":
            _building.append(spec)  # the stack of hooks admits no switch meanwhile
            try:
                with world.hooked(hooks):
                    solver = world.build_solver(spec, benchmark)
            finally:
                _building.pop()
        elif op["op"] == "reinitialize":
            solver.reinitialize(benchmark)
        else:
            hooks.calls = 0
            hooks.fail_at = op.get("at")
            hooks.error = op.get("error")
            seen.append(_observe(solver, baton, current, spec["cls"]))
            hooks.fail_at = None
    return seen


def _observe(solver, baton, current, cls):
    cap = world.StateCap()

    def on_update(*args):
        cap(*args)
        if baton:
            baton.pause(cls + ":step")

    spied = world.spy(solver, on_update=on_update)
    first = world.snapshot(spied.inner)
    if current is None:
        outcome = world.solve(solver)
        error, warnings = outcome.error, outcome.warnings
    else:
        current.text()
        error = None
        try:
            solver.solve(disable=True)
        except (Exception, KeyboardInterrupt) as e:
            error = e
        warnings = [l for l in current.text().splitlines() if "WARNING" in l]
    solver.solution = spied.inner
    return {"first": first, "states": list(spied.states), "last": world.snapshot(spied.inner),
            "warnings": warnings, "error": None if error is None else type(error).__name__}


def _alone(task):
    return _live(task, task["plan"], world.build_benchmark(task["bench"]))


def execute(scenario, run):
    tasks = scenario["tasks"]
    if any(world.uses_network(t["solver"]) for t in tasks):
        world.provide_networks(".")
    alone = [world.isolated(_alone, t) for t in tasks]
    benchmarks = []
    for t in tasks:
        shared = next((b for s, b in zip(tasks, benchmarks) if s["bench"] == t["bench"]), None)
        benchmarks.append(shared if shared is not None and scenario["share"]
                          else world.build_benchmark(t["bench"]))
    world.install_rhs_seam()
    holder = {}
    functions = [
        (lambda t, b: lambda current: _live(t, t["plan"], b, holder["baton"], run, current))(t, b)
        for t, b in zip(tasks, benchmarks)]
    baton = holder["baton"] = Baton(functions, scenario["schedule"])
    original = baton.pause

    def pause(label):
        run.state(*sorted(t.at for t in baton.tasks if not t.finished))
        original(label)

    baton.pause = pause
    switches = baton.go()
    run.count("switches", switches)
    run.schedules.add(world.fingerprint(baton.order)[:12])
    run.nontrivial = switches > len(tasks)
    for k, (task, mine) in enumerate(zip(baton.tasks, alone)):
        others = ", ".join(t["solver"]["cls"] for j, t in enumerate(tasks) if j != k)
        cls = tasks[k]["solver"]["cls"]
        check(len(task.result) == len(mine), "solves", "a solve is missing")
        for n, (a, b) in enumerate(zip(mine, task.result)):
            compare(a, b, f"solve {n} of {cls} next to {others}", cls)
            run.sim_time += float(b["last"][0]) - tasks[k]["bench"]["start"]
            run.event(k, n, b["last"][0], b["last"][1], b["error"])
