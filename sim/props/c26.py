"""C26: convergence tables state the true errors of every solver."""
import math
import re

import numpy as np
from command.error import CalculateEOC

from .. import cli, world
from ..base import check
from ..faults import ERRORS, RhsFault
from . import c20

QUICK, THOROUGH, TIMEOUT = 400, 14000, 90
LEVEL = "exploration"
RULE = ("one evaluation = a seeded sequence of convergence studies in one process in which solves and "
        "evaluations of the exact solution fail at seeded points; every number printed is compared "
        "with the error of the single solver solved on that mesh in another process, integrated by "
        "an independent implementation")
REAL = ["CalculateEOC, EOCCalculator, ErrorCalculator, the norms and their quadratures, the eoc command "
        "line, the solvers and their spaces"]
STUBS = ["the exact solutions of the made up benchmarks"]
STATE_MEASURE = "(problem, solvers and degrees, refinements, how it was made to fail and how it ended)"
ASSUMPTIONS = ["solves which reach the end time", "convergence studies follow each other"]
EXACT = ["error", "memory", "value", "interrupt"]


def generate(rng, i):
    return {"tables": [_cli_table(rng) if rng.random() < 0.35 else _table(rng)
                       for _ in range(rng.choice([1, 2, 2, 3]))]}


def _common(rng):
    one = {"refine": rng.choice([1, 2, 2, 3, 3, 4]), "mesh": rng.choice([2, 2, 3, 4, 5, 7]), "fault": None,
           "exact_fault": None, "solvers": []}
    if rng.random() < 0.05:
        one.update(refine=rng.choice([5, 6]), mesh=2)
    if rng.random() < 0.25:
        one["fault"] = {"kind": rng.choice(["rhs-before", "rhs-after"]), "error": rng.choice(list(ERRORS)),
                        "at": rng.choice([1, 2, rng.randint(1, 60)])}
    return one


def _table(rng):
    one = _common(rng)
    problem = rng.choice(["advection", "burgers"])
    bench, first = world.random_scalar(rng, rng.choice(world.SCALAR_FV + world.SCALAR_FE),
                                       rng.randint(1, 3), problem=problem, mesh=one["mesh"] + 4,
                                       bcs=[["periodic"]], kinds=("const", "fourier"))
    if rng.random() < 0.9:
        bench["exact"] = world.random_profile(rng, -2.0, 2.0, kinds=("const", "fourier"))
    one.update(problem=problem, cli=False, bench=bench, again=rng.random() < 0.3,
               hole=rng.random() if rng.random() < 0.15 else None)
    for k in range(rng.choice([1, 1, 2, 3])):
        spec = first if k == 0 else world.random_scalar(
            rng, rng.choice(world.SCALAR_FV + world.SCALAR_FE), rng.randint(1, 3),
            problem=problem, bcs=[["periodic"]])[1]
        spec.update(name=f"Scheme {k}", short=f"s{k}", mesh=None)
        one["solvers"].append(spec)
    if "exact" not in bench:
        one["hole"] = None
    if rng.random() < 0.03:
        one["solvers"] = []
    _same_names(rng, one)
    if rng.random() < 0.3:
        one["exact_fault"] = {"error": rng.choice(EXACT), "at": rng.choice([1, 2, rng.randint(1, 400)])}
    return one


def _cli_table(rng):
    one = _common(rng)
    problem = rng.choice(["advection", "burgers"])
    benchmark = rng.choice([None, "cos", "gauss"] if problem == "advection" else
                           [None, "smooth", "shock"])
    end = rng.choice([0.01, 0.05, 0.2 if problem == "advection" else 0.15])
    if benchmark == "shock" and rng.random() < 0.3:
        end = 0.2  # after the shock there is no exact solution
    one.update(problem=problem, cli=True, benchmark=benchmark, end=end)
    for k, cls in enumerate(rng.sample(world.SCALAR_FV + world.SCALAR_FE, rng.choice([1, 2, 2]))):
        spec = {"cls": cls, "cfl": rng.choice([0.05, 0.1, 0.13]), "name": f"Scheme{k}", "degree": 1}
        one["solvers"].append(spec)
    if rng.random() < 0.06:
        one["solvers"] = []
    _same_names(rng, one)
    return one


def _same_names(rng, one):
    if rng.random() < 0.15:
        for spec in one["solvers"]:
            spec["name"] = "Scheme"


SHRINK_LISTS = {"tables": 1, "solvers": 1}
SHRINK_NUMBERS = {"at": 1, "refine": 1, "mesh": 2}


def _benchmark(one):
    if not one["cli"]:
        return world.build_benchmark(one["bench"])
    from benchmark import advection, burgers

    module = advection if one["problem"] == "advection" else burgers
    key = one["benchmark"]
    benchmark = (module.BENCHMARKS[key] if key else module.BENCHMARK_DEFAULTS["eoc"])()
    benchmark.end_time = one["end"]
    return benchmark


def _build(one, k, level, benchmark):
    spec = dict(one["solvers"][k], mesh=one["mesh"] * 2**level)
    if not one["cli"]:
        return world.build_solver(spec, benchmark)
    extra = {"polynomial_degree": spec["degree"]} if spec["cls"] in world.SCALAR_FE else {}
    return world.solver_class("scalar", spec["cls"])(
        benchmark, mesh_size=spec["mesh"], cfl_number=spec["cfl"], name=spec["name"], **extra)


def _hole(one, exact, benchmark):
    """An exact solution which does not exist everywhere."""
    if one.get("hole") is None:
        return exact
    a, b = benchmark.domain.a, benchmark.domain.b
    c = a + one["hole"] * (b - a)
    return lambda x: float("nan") if abs(x - c) < 0.21 * (b - a) / one["mesh"] else exact(x)


class _ExactFault:
    def __init__(self, exact, fault):
        self.exact, self.fault, self.calls, self.fired = exact, fault, 0, False

    def __call__(self, x, t):
        self.calls += 1
        if self.fault and self.calls == self.fault["at"]:
            self.fired = True
            raise ERRORS[self.fault["error"]]("injected")
        return self.exact(x, t)


# ---------------------------------------------------------------- the studies
def _process(scenario):
    log = []
    for one in scenario["tables"]:
        hooks = RhsFault(one["fault"], one["fault"] and one["fault"]["at"])
        if one["cli"]:
            solvers = []
            for spec in one["solvers"]:
                solvers += [spec["cls"], "++name", spec["name"], "++cfl", spec["cfl"]]
            with world.hooked(hooks):
                outcome = world.attempt(
                    cli.main, "eoc", one["problem"], *(["-b", one["benchmark"]] if one["benchmark"]
                                                       else []), "-T", one["end"], "-m", one["mesh"],
                    "-r", one["refine"], *(["-s", *solvers] if solvers else []))
            log.append([_entry(outcome, hooks.fired, False)])
            continue
        benchmark = _benchmark(one)
        with world.hooked(hooks):
            solvers = [[_build(one, k, i, benchmark) for i in range(one["refine"])]
                       for k in range(len(one["solvers"]))]
        exact = _ExactFault(benchmark.exact_solution, one["exact_fault"])
        benchmark.exact_solution = lambda x, t, exact=exact: _hole(
            one, lambda y: exact(y, t), benchmark)(x)
        ends = [world.solve(s).error_name for group in solvers for s in group]
        entries = []
        if not any(ends):
            command = CalculateEOC(benchmark, solvers,
                                   [[s.solution.space for s in group] for group in solvers])
            for _ in range(3 if one["again"] else 1):
                exact.fired = False
                outcome = world.attempt(command.execute)
                entries.append(_entry(outcome, False, exact.fired))
        log.append(entries)
    return log


def _entry(outcome, solve_failed, exact_failed):
    return {"outcome": outcome.error_name, "text": str(outcome.error), "output": outcome.output,
            "solve": solve_failed, "exact": exact_failed}


# ---------------------------------------------------------------- oracle
def _single(one, k, level):
    """(dofs, [L1, L2, Linf] or None, reached the end)."""
    benchmark = _benchmark(one)
    solver = _build(one, k, level, benchmark)
    outcome = world.solve(solver)
    if outcome.error is not None or outcome.warnings and any(
            "too small" in w for w in outcome.warnings):
        return None
    solution = solver.solution
    value, grid = np.array(solution.value), np.array(solution.grid)
    end = benchmark.end_time
    exact = _hole(one, lambda x: benchmark.exact_solution(x, end), benchmark)
    try:
        exact(benchmark.domain.a)
    except AttributeError:
        return len(value), None
    cells = one["mesh"] * 2**level
    fe = one["solvers"][k]["cls"] in world.SCALAR_FE
    return len(value), _norms(benchmark.domain.a, benchmark.domain.b, cells, grid, value,
                              one["solvers"][k].get("degree", 1) if fe else 0, exact)


def _norms(a, b, cells, grid, value, degree, exact):
    length, h = b - a, (b - a) / cells
    nodes, weights = np.polynomial.legendre.leggauss(degree + 1 if degree else 1)
    nodes, weights = (nodes + 1) / 2, weights / 2
    l1, l2, sup = 0.0, 0.0, 0.0
    for cell in range(cells):
        if degree:
            local = []
            for j in range(degree + 1):
                distance = np.abs(grid - (a + (cell + j / degree) * h))
                local.append(value[np.argmin(np.minimum(distance, np.abs(length - distance)))])
            u = lambda s: sum(v * math.prod((degree * s - m) / (j - m) for m in range(degree + 1) if m != j)
                              for j, v in enumerate(local))
        else:
            mean = value[np.argmin(np.abs(grid - (a + (cell + 0.5) * h)))]
            u = lambda s: mean
        for s, w in zip(nodes, weights):
            e = abs(exact(a + (cell + s) * h) - u(s))
            l1, l2 = l1 + w * h * e, l2 + w * h * e**2
        for s in np.linspace(0, 1, 10):
            sup = float(np.maximum(sup, abs(exact(a + (cell + s) * h) - u(s))))
    return [float(l1), math.sqrt(l2) if l2 == l2 else math.nan, float(sup)]


def _parse(output):
    """[(title, [(level, dofs, [error, eoc] * 3)])]."""
    lines = output.splitlines()
    tables = []
    for n, line in enumerate(lines):
        if n and line and set(line) == {"-"} and len(line) == len(lines[n - 1]):
            tables.append((lines[n - 1], []))
        row = re.fullmatch(r"(\d+)((?:\s+\S+){7})\s*", line)
        if row and tables:
            tables[-1][1].append((int(row.group(1)), [float(x) for x in row.group(2).split()]))
    return [t for t in tables if t[0] != "Calculate Solutions"]


def _near(shown, error):
    if math.isnan(error):
        return math.isnan(shown)
    if abs(error) < 1e-12:
        return abs(shown) < 1e-11
    unit = 10.0 ** math.floor(math.log10(error) + 1e-9)
    return abs(shown - error) <= 0.0051 * unit + 1e-12


def _judge_table(what, rows, expected, run):
    check([r[0] for r in rows] == list(range(len(expected))), "rows", lambda: f"{what}: shows the "
          f"refinements {[r[0] for r in rows]} of {len(expected)}")
    for level, row in rows:
        dofs, errors = expected[level]
        check(row[0] == dofs, "dofs", lambda: f"{what}: the refinement {level} has {row[0]} instead of "
              f"{dofs} DOFs")
        for n, norm in enumerate(["L1", "L2", "Linf"]):
            error, shown, eoc = errors[n], row[1 + 2 * n], row[2 + 2 * n]
            check(_near(shown, error), "error", f"{what}: the {norm} error of the refinement {level} "
                  f"is {error!r} and is stated as {shown}")
            run.count("errors compared")
            if level == 0:
                check(math.isnan(eoc), "eoc", f"{what}: the first row has an order {eoc}")
                continue
            before = expected[level - 1][1][n]
            if math.isnan(error) or math.isnan(before):
                check(math.isnan(eoc), "eoc", f"{what}: the order of unknown errors is {eoc}")
            elif min(error, before) > 1e-7:
                order = math.log2(before / error)
                check(abs(eoc - order) <= 0.0051, "eoc", f"{what}: the {norm} order of refinement "
                      f"{level} is {order} and is stated as {eoc}")


def execute(scenario, run):
    references = [[[world.isolated(_single, one, k, level) for level in range(one["refine"])]
                   for k in range(len(one["solvers"]))] for one in scenario["tables"]]
    log = world.isolated(_process, scenario)
    for number, (one, refs, entries) in enumerate(zip(scenario["tables"], references, log)):
        run.event("table", number, [(e["outcome"], e["solve"], e["exact"], e["output"]) for e in entries])
        unknown = any(r is None for group in refs for r in group)
        for entry in entries:
            what = (f"table {number} ({'cli' if one['cli'] else 'direct'}, {one['problem']}, "
                    f"{[s['cls'] for s in one['solvers']]})")
            _judge(what, one, refs, entry, unknown, run)
        if not entries:
            run.fault(f"solve ends with {one['fault'] and one['fault']['error']}")
    run.nontrivial = True


def _judge(what, one, refs, entry, unknown, run):
    tables = _parse(entry["output"])
    run.state(one["problem"], one["cli"], [(s["cls"], s.get("degree")) for s in one["solvers"]],
              one["refine"], entry["outcome"], entry["solve"], entry["exact"], len(tables))
    if entry["solve"]:
        run.fault(f"solve ends with {one['fault']['error']}")
        check(entry["outcome"] == ERRORS[one["fault"]["error"]].__name__, "hidden", f"{what}: a "
              f"failing solve ends with {entry['outcome']}: {entry['text']}")
        check(not tables, "unfinished", f"{what}: shows errors of unfinished solves")
        return
    if entry["exact"]:
        run.fault(f"exact solution raises {one['exact_fault']['error']}")
        if one["exact_fault"]["error"] == "interrupt":
            check(entry["outcome"] == "KeyboardInterrupt", "hidden", f"{what}: an interrupt ends with "
                  f"{entry['outcome']}")
        else:
            check(entry["outcome"] is not None or "ERROR" in entry["output"], "hidden",
                  f"{what}: a failing exact solution is not reported")
        check(not tables, "unfinished", f"{what}: shows a table although it failed")
        return
    if unknown:
        run.count("unjudged: a solve does not reach the end")
        return
    if any(r[1] is None for group in refs for r in group):
        check("ERROR" in entry["output"] or entry["outcome"] is not None, "hidden", f"{what}: a missing "
              "exact solution is not reported")
        check(not tables, "unfinished", f"{what}: shows errors against no exact solution")
        run.count("without exact solution")
        return
    check(entry["outcome"] is None, "fails", f"{what}: ends with {entry['outcome']}: {entry['text']}")
    check([t[0] for t in tables] == [s["name"] for s in one["solvers"]], "tables", lambda: f"{what}: shows "
          f"tables of {[t[0] for t in tables]}:\n{entry['output']}")
    for (title, rows), expected in zip(tables, refs):
        _judge_table(f"{what}, {title}", rows, expected, run)
    run.count("tables compared", len(tables))
