"""C29: stored training data is filtered and analysed as it is, and never damaged."""
import builtins
import contextlib
import itertools
import os

import numpy as np
import pandas as pd
from command.analyze_curvature import PlotCurvatureAgainstSubgridFlux
from command.analyze_data import AnalyzeData
from command.delete_curvature import DeleteCurvature
from command.generate_data import GenerateData

from .. import cli, figures, world
from ..base import check
from ..disk import Disk, SimCrash, _real_open as real_open

QUICK, THOROUGH, TIMEOUT = 450, 25000, 90
LEVEL = "exploration"
RULE = ("one evaluation = one seeded history of processes which generate, filter, analyse and plot "
        "training data in the same files, die, or meet full and failing disks; every file, text "
        "and picture is compared with a reference computed line by line")
REAL = ["DeleteCurvature, AnalyzeData, PlotCurvatureAgainstSubgridFlux, GenerateData, their "
        "command lines", "pandas' CSV reader and writer, Python's buffering, matplotlib's figures"]
STUBS = ["the disk below Python's buffers: every write, opening, removal, renaming and truncation "
         "goes through the simulator to scratch files", "death of a process: an exception nobody "
         "may handle, after which no I/O reaches the disk", "rasterising: saving a figure records "
         "what it contains", "the window system: showing records all open figures and closes them"]
STATE_MEASURE = "(operation, its faults and outcome, rows before and after, figures open)"
ASSUMPTIONS = ["rows with curvatures within 1e-9 (relative) of a threshold may be kept or deleted",
               "data of four neighbouring states; one process at a time works on the files",
               "a crash is the death of the process: what reached the kernel survives"]
SLOTS = ["data/reduced-llf/data.csv", "data/reduced-es1/data.csv", "data/x.csv", "data/sub/y.csv"]
FAULTS = ["crash", "crash", "crash", "crash-after", "enospc", "enospc", "eio", "eacces"]
READS = ["eio", "emfile", "memory", "interrupt", "eacces"]


def _disk_faults(rng, most=6):
    if rng.random() < 0.6:
        return {"faults": [], "reads": []}
    if rng.random() < 0.2:
        return {"faults": [], "reads": [{"at": rng.randrange(4), "kind": rng.choice(READS)}]}
    return {"faults": [{"at": rng.randrange(most), "kind": rng.choice(FAULTS),
                        "part": rng.choice([0, 1, round(rng.random(), 4)])}], "reads": []}


def _threshold(rng, low, high):
    return rng.choice([None, None, None, round(rng.uniform(low, high), 4),
                       round(rng.uniform(low, high), 4), 0.5])


def _op(rng):
    x = rng.random()
    if x < 0.5:
        src = rng.randrange(4)
        dst = src if rng.random() < 0.35 else rng.randrange(4)
        return {"op": "delete", "src": src, "dst": dst, "cli": rng.random() < 0.4,
                "kh": _threshold(rng, 0.01, 0.5), "kq": _threshold(rng, 0.05, 1.0),
                "step": _threshold(rng, 0.5, 4.0), "short": rng.choice([0, 0, 0, 1, 50, 1000]),
                **_disk_faults(rng)}
    if x < 0.7:
        return {"op": "analyze", "paths": [rng.randrange(4) for _ in range(rng.randint(1, 3))],
                "histogram": rng.random() < 0.6, "cli": rng.random() < 0.4,
                "missing": rng.choice([None, None, None, 0, 1, 2]), "faults": [],
                "reads": [{"at": rng.randrange(6), "kind": rng.choice(READS)}]
                if rng.random() < 0.15 else []}
    if x < 0.88:
        return {"op": "curvature", "show": rng.random() < 0.5, "save": rng.random() < 0.5,
                "cli": rng.random() < 0.4, **_disk_faults(rng, 8)}
    if x < 0.95:
        return {"op": "generate", "slot": rng.randrange(2), "n": rng.randint(1, 2),
                "append": rng.random() < 0.4, "seed": rng.randint(1, 50), **_disk_faults(rng, 8)}
    return {"op": "figure"}


def generate(rng, i):
    files = []
    for k in range(4):
        x = rng.random()
        files.append({"rows": rng.choice([0, 1, 2, 5, 12, 30, 200 if rng.random() < 0.1 else 20]),
                      "seed": rng.randrange(10 ** 6), "first": 0 if k < 2 else rng.randint(0, 3),
                      "scale": rng.choice([0.02, 0.1, 0.3, 0.3, 1.0, 1.0]),
                      "missing": x < 0.05,
                      "torn": round(rng.random(), 4) if rng.random() < 0.3 else None})
    return {"files": files,
            "lives": [[_op(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
                      for _ in range(rng.randint(1, 3))]}


SHRINK_LISTS = {"lives": 1, "faults": 0, "reads": 0, "paths": 1}
SHRINK_NUMBERS = {"rows": 0, "short": 0, "n": 1}


# -- the files, independently of pandas

class Table:
    def __init__(self, header, rows, complete):
        self.header, self.rows, self.complete = header, rows, complete
        self.values = np.array([[float(x) for x in r[1:]] for r in rows], float).reshape(
            len(rows), len(header[0]) - 1)

    def column(self, name):
        names = list(zip(*[h[1:] for h in self.header]))
        return self.values[:, names.index(name)]

    def names(self):
        return list(zip(*[h[1:] for h in self.header]))

    def curvature(self, step):
        u = self.values[:, :8].reshape(-1, 4, 2)
        result = 0.0
        for k in (0, 1):
            a, b, c = u[:, k], u[:, k + 1], u[:, k + 2]
            result = result + np.abs(a - 2 * b + c) * step / np.sqrt(
                step ** 2 + 0.25 * (a - c) ** 2) ** 3
        return result / 2


def parse(content):
    """None if the header is not complete."""
    if content is None:
        return None
    lines = content.split(b"\n")
    complete = lines.pop() == b""
    if len(lines) < 2:
        return None
    cells = [line.decode().rstrip("\r").split(",") for line in lines]
    n = len(cells[0])
    if any(len(c) != n for c in cells):
        return None
    return Table(cells[:2], cells[2:], complete)


def read(path):
    try:
        with real_open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def create(spec, path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if spec["missing"]:
        return
    rng = np.random.RandomState(spec["seed"])
    first = spec["first"]
    names = [f"U{first + k}" for k in range(4)] + [f"G_{first + 1.5}"]
    text = "," + ",".join(n for n in names for _ in "hq") + "\n," + ",".join("hq" * 5).replace(
        "hq", "h,q") + "\n"
    time = 0.0
    for _ in range(spec["rows"]):
        if rng.rand() < 0.2:
            time = 0.0
        scale = spec["scale"] * rng.choice([0.3, 1, 1, 2])
        h = 2 + rng.uniform(-1, 1) + scale * rng.randn(4)
        q = rng.uniform(-3, 3) + 2 * scale * rng.randn(4)
        if rng.rand() < 0.08:  # curvatures which are exactly a threshold, without any rounding
            h, q = (base + d * np.array([1, 0, 1, 0]) for base, d in zip(
                rng.choice([1.0, 2.0], 2), rng.permutation([0.5, rng.choice([0.25, 1.0])])))
            q = q * rng.choice([1, 2, -1])
        row = [v for pair in zip(h, q) for v in pair] + list(scale * rng.randn(2))
        if rng.rand() < 0.2:
            row[rng.randint(10)] = float(rng.choice([0.0, 2.0, -1e-9, 1e-300, 12345.678]))
        text += ",".join(repr(float(v)) for v in [time, *row]) + "\n"
        time += float(rng.choice([0.25, 0.1, 1 / 3]))
    content = text.encode()
    if spec["torn"] is not None and spec["rows"]:
        last = content[:-1].rfind(b"\n") + 1
        content = content[:last + int(spec["torn"] * (len(content) - last))]
    with real_open(path, "wb") as f:
        f.write(content)


# -- pictures

def picture(figure):
    suptitle = getattr(figure, "_suptitle", None)
    axes = []
    for ax in figure.axes:
        if not ax.get_visible():
            continue
        axes.append({"title": ax.get_title(), "x": ax.get_xlabel(), "y": ax.get_ylabel(),
                     "points": [np.array(c.get_offsets(), float) for c in ax.collections],
                     "lines": [np.array(l.get_xydata(), float) for l in ax.get_lines()],
                     "bars": [[p.get_x(), p.get_width(), p.get_height()] for p in ax.patches],
                     "limits": [*map(float, (*ax.get_xlim(), *ax.get_ylim()))]})
    return {"title": suptitle.get_text() if suptitle else "", "axes": axes}


class Gallery(figures.Gallery):
    """Additionally records points and bars."""

    def __init__(self):
        super().__init__()
        self.pictures, self.seen = [], []

    @contextlib.contextmanager
    def installed(self):
        cls = figures.matplotlib.figure.Figure
        plt = figures.plt
        saved = cls.savefig, plt.show

        def savefig(figure, fname, *args, **kwargs):
            content = picture(figure)
            with builtins.open(fname, "wb") as f:
                f.write(b"\x89PNG" + content["title"].encode())
            self.pictures.append((str(fname), content))

        def show(*args, **kwargs):
            self.seen.append([picture(plt.figure(n)) for n in plt.get_fignums()])
            plt.close("all")

        cls.savefig, plt.show = savefig, show
        try:
            yield self
        finally:
            cls.savefig, plt.show = saved


# -- one process

def command(one, names):
    kind = one["op"]
    if kind == "delete":
        src, dst = SLOTS[one["src"]], SLOTS[one["dst"]]
        options = {"--kh": one["kh"], "--kq": one["kq"], "-s": one["step"]}
        if one["cli"]:
            return lambda: cli.main("delete-curvature", src, dst, *(
                str(x) for k, v in options.items() if v is not None for x in (k, repr(v))))
        return lambda: DeleteCurvature(
            src, dst, step_length=one["step"], curvature_height_threshold=one["kh"],
            curvature_discharge_threshold=one["kq"]).execute()
    if kind == "analyze":
        if one["cli"]:
            return lambda: cli.main("analyze-data", *names,
                                    *(["--histogram"] if one["histogram"] else []))
        return lambda: AnalyzeData(names, histogram=one["histogram"]).execute()
    if kind == "curvature":
        if one["cli"]:
            return lambda: cli.main("analyze-curvature", *([] if one["show"] else ["--hide"]),
                                    *(["--save"] if one["save"] else []))
        return lambda: PlotCurvatureAgainstSubgridFlux(
            show=one["show"], save=one["save"]).execute()
    return lambda: generator(one, os.path.dirname(SLOTS[one["slot"]])).execute()


def generator(one, directory):
    from benchmark import shallow_water
    benchmark = shallow_water.OscillationNoTopographyBenchmark(end_time=0.6)
    solver = world.build_solver({"mesh": 20, "cfl": 0.05, "cls": "llf", "ode": "euler"}, benchmark)
    return GenerateData(solver, directory, solution_number=one["n"], end_time=0.6,
                        seed=one["seed"], coarsening_degree=2, overwrite=not one["append"],
                        print_output=False)


def analysed(one):
    names = [SLOTS[k] for k in one["paths"]]
    if one["missing"] is not None:
        names.insert(one["missing"], "data/nothing.csv")
    return names


def _life(ops):
    log = []
    gallery = Gallery()
    plt = figures.plt
    with gallery.installed():
        for one in ops:
            entry = {}
            if one["op"] == "figure":
                plt.figure()
                plt.plot([1, 2, 3], [4, 5, len(log)])
                log.append({"open": [picture(plt.figure(n)) for n in plt.get_fignums()],
                            "dead": False})
                continue
            disk = Disk("data", one["faults"], one["reads"], short=one.get("short", 0))
            go = command(one, analysed(one) if one["op"] == "analyze" else None)
            shown, saved = len(gallery.seen), len(gallery.pictures)
            with disk.mounted():
                try:
                    outcome = world.attempt(go)
                    entry.update(outcome=outcome.error_name, text=outcome.output)
                except SimCrash:
                    entry.update(outcome="crash", text="")
            if disk.dead:
                entry["outcome"] = "crash"
            entry.update(fired=disk.fired, dead=disk.dead, files=[read(p) for p in SLOTS],
                         shown=gallery.seen[shown:], saved=gallery.pictures[saved:],
                         open=[picture(plt.figure(n)) for n in plt.get_fignums()], ops=disk.ops)
            log.append(entry)
            if disk.dead:
                break
    plt.close("all")
    return log


# -- judgement

def expected_rows(table, one):
    step = 2.0 if one["step"] is None else one["step"]
    limits = np.array([0.25 if one["kh"] is None else one["kh"],
                       0.5 if one["kq"] is None else one["kq"]])
    curvature = table.curvature(step)
    with np.errstate(invalid="ignore"):
        keep = (curvature < limits).all(axis=1)
        exact = ((u := table.values[:, :8].reshape(-1, 4, 2))[:, :2] == u[:, 2:]).all(axis=(1, 2)) & (
            u * 16 == np.round(u * 16)).all(axis=(1, 2)) & (step == 2.0)
        open_question = ~exact & ((np.abs(curvature - limits) <= 1e-9 * limits).any(axis=1)
                         & (curvature < limits * (1 + 2e-9)).all(axis=1))
    return keep, open_question


def is_filtered(table, one, content):
    """Whether CONTENT is the complete result of the operation; otherwise the reason."""
    new = parse(content)
    if new is None or not new.complete:
        return "it is not a complete file"
    if [h[1:] for h in new.header] != [h[1:] for h in table.header]:
        return f"it has the columns {new.names()}"
    keep, unclear = expected_rows(table, one)
    at = 0
    for k, row in enumerate(table.rows):
        same = at < len(new.rows) and [float(x) for x in new.rows[at]] == [float(x) for x in row]
        if same and (keep[k] or unclear[k]):
            at += 1
        elif keep[k] and not unclear[k]:
            return (f"row {k} of {len(keep)} has curvatures {table.curvature(one['step'] or 2.0)[k]}, "
                    f"but row {at} of the result is {new.rows[at] if at < len(new.rows) else None}")
    if at != len(new.rows):
        return f"its row {at} should not be there: {new.rows[at]}"
    return None


def equal_pictures(a, b):
    return _text(a) == _text(b)


def _text(p):
    return repr([p["title"], [[ax["title"], ax["x"], ax["y"], [x.tolist() for x in ax["points"]],
                               [x.tolist() for x in ax["lines"]], ax["bars"]]
                              for ax in p["axes"]]])


def without(pictures, others, what, kind="foreign-figure"):
    """Those PICTURES which are none of OTHERS, all of which have to be there unchanged."""
    rest = list(pictures)
    for other in others:
        match = next((p for p in rest if equal_pictures(p, other)), None)
        check(match is not None, kind, f"{what}: a figure opened before is changed or closed")
        rest = [p for p in rest if p is not match]
    return rest


def histogram(table, p, what):
    names = [str(n) for n in table.names()]
    check(sorted(ax["title"] for ax in p["axes"]) == sorted(names), "histogram", lambda:
          f"{what}: the histograms are titled {[ax['title'] for ax in p['axes']]}")
    for ax in p["axes"]:
        column = table.values[:, names.index(ax["title"])]
        counts, edges = np.histogram(column, bins=max(1, len(ax["bars"])))
        check([int(b[2]) for b in ax["bars"]] == list(counts) and
              np.allclose([b[0] for b in ax["bars"]], edges[:-1], 1e-9, 1e-12 * (1 + abs(edges).max())),
              "histogram", lambda: f"{what}: the histogram of {ax['title']} counts "
              f"{[b[2] for b in ax['bars']]} instead of {list(counts)}")


PAIRS = [("h", "h"), ("q", "h"), ("h", "q"), ("q", "q")]


def scatter(tables, p, what):
    """The pairs of components this figure may show."""
    check(len(p["axes"]) == 2 and all(len(ax["points"]) == 1 for ax in p["axes"]), "scatter",
          f"{what}: a figure does not contain one scatter plot per data set")
    shown = [ax["points"][0] for ax in p["axes"]]
    possible = set()
    for k, g in PAIRS:
        wanted = [np.column_stack([t.curvature(2.0)[:, "hq".index(k)], t.column(("G_1.5", g))])
                  for t in tables]
        if all(w.shape == s.shape and np.allclose(w, s, 1e-9, 1e-12 * (1 + np.abs(w).max()))
               for w, s in zip(wanted, shown)):
            possible.add(k + g)
    check(possible, "scatter", f"{what}: a figure shows no curvature against subgrid fluxes")
    for s, ax in zip(shown, p["axes"]):
        possible = {k + g for k, g in possible
                    if not ax["x"] or f"_{k}" in ax["x"] and f"^{g}" in ax["y"]}
        check(possible, "scatter", f"{what}: a plot is labelled {ax['x']}, {ax['y']}, but shows "
              "other values")
        x0, x1, y0, y1 = ax["limits"]
        slack = 1e-9 * (1e-3 + np.abs(s).max(axis=0))
        check((s >= np.array([x0, y0]) - slack).all() and (s <= np.array([x1, y1]) + slack).all(),
              "scatter", f"{what}: points lie outside the axes")
    return possible


def all_pairs(possible):
    return any(all(a in b for a, b in zip(order, possible))
               for order in itertools.permutations([k + g for k, g in PAIRS], len(possible)))


def judge(one, entry, before, open_before, number, run):
    kind = one["op"]
    failed = entry["outcome"] is not None
    what = f"{kind} (operation {number}, faults {entry['fired']}, ends with {entry['outcome']})"
    after = entry["files"]
    written = {"delete": [one.get("dst")], "generate": [one.get("slot")]}.get(kind, [])
    for k, path in enumerate(SLOTS):
        check(k in written or before[k] == after[k], "altered", f"{what} changes {path}")
    if not entry["fired"]:
        check(entry["outcome"] != "crash", "harness", "crash without fault")

    if kind == "delete":
        src, dst = one["src"], one["dst"]
        table = parse(before[src])
        check(not entry["shown"] and not entry["saved"], "figures", f"{what} shows figures")
        if table is None:
            check(src == dst or failed or parse(after[dst]) is not None, "no-source",
                  f"{what}: succeeds without a readable source")
            if before[src] is None:
                check(failed and after[dst] == before[dst], "no-source", f"{what}: there is no source")
        else:
            reason = is_filtered(table, one, after[dst])
            if failed:
                check(entry["fired"], "fails", f"{what}: fails without reason")
                check(reason is None or after[dst] == before[dst], "partial", lambda:
                      f"{what}: leaves neither the old nor the complete new {SLOTS[dst]}: {reason}")
            else:
                check(reason is None, "rows", lambda: f"{what}: {SLOTS[dst]} is not the filtered "
                      f"{SLOTS[src]}: {reason}")
                run.count("rows deleted", len(table.rows) - len(parse(after[dst]).rows))
                run.count("rows kept", len(parse(after[dst]).rows))

    if kind == "analyze":
        names = analysed(one)
        at, done = 0, []
        for name in names:
            table = parse(before[SLOTS.index(name)]) if name in SLOTS else None
            if table is None or not table.rows and one["histogram"]:
                break
            frame = pd.DataFrame(table.values, columns=pd.MultiIndex.from_tuples(table.names()))
            text = name.upper() + "\n"
            there = entry["text"].find(text, at)
            if there >= 0 and table.rows:
                there = entry["text"].find(str(frame.describe()), there)
            if there < 0:
                check(failed and entry["fired"], "statistics", lambda: f"{what}: the output does "
                      f"not contain the statistics of {name}:\n{entry['text']}\n{frame.describe()}")
                break
            at = there + 1
            done.append(table)
        else:
            check(not failed or entry["fired"], "fails", f"{what}: fails without reason")
        if any(name not in SLOTS or before[SLOTS.index(name)] is None for name in names):
            check(failed, "missing-file", f"{what}: a missing file goes unnoticed")
        if not failed:
            complete = len(done) == len(names)
            check(len(entry["shown"]) == one["histogram"], "shown",
                  f"{what}: figures are shown {len(entry['shown'])} times")
            if one["histogram"]:
                mine = without(entry["shown"][0], open_before, what)
                check(not complete or len(mine) == len(names), "histogram",
                      f"{what}: {len(mine)} figures for {len(names)} files")
                if complete:
                    for table, p in zip(done, mine):
                        histogram(table, p, what)
        check(not entry["saved"], "figures", f"{what}: saves figures")

    if kind == "curvature":
        tables = [parse(before[k]) for k in (0, 1)]
        good = all(t is not None and t.rows and t.names()[-1] == ("G_1.5", "q") for t in tables)
        if not failed and good:
            if one["show"]:
                check(len(entry["shown"]) == 1, "shown", f"{what}: figures are shown "
                      f"{len(entry['shown'])} times")
                mine = without(entry["shown"][0], open_before, what)
                check(len(mine) == 4 and all_pairs([scatter(tables, p, what) for p in mine]),
                      "scatter", f"{what}: some plots are shown twice or not at all")
            check(len(entry["saved"]) == 4 * one["save"], "saved",
                  f"{what}: {len(entry['saved'])} pictures are saved")
            for path, p in entry["saved"]:
                pairs = scatter(tables, p, what)
                check(any(os.path.basename(path).startswith(f"k{k}_G{g}") for k, g in pairs),
                      "saved", f"{what}: the plot of (kappa, G) in {pairs} is saved as {path}")
            check(len({path for path, _ in entry["saved"]}) == len(entry["saved"]), "saved",
                  f"{what}: pictures overwrite each other")
        elif good:
            check(entry["fired"], "fails", f"{what}: fails without reason")
        check(one["show"] or not entry["shown"], "shown", f"{what}: hidden figures are shown")
        check(not failed or not entry["shown"], "shown", f"{what}: shows figures and fails")

    if kind == "generate" and not failed:
        check(parse(after[one["slot"]]) is not None, "generated", f"{what}: leaves an unreadable file")

    if not entry["dead"]:
        if entry["shown"]:
            check(not entry["open"], "open", f"{what}: leaves {len(entry['open'])} figures open")
        else:
            extra = without(entry["open"], open_before, what)
            check(not extra, "open", f"{what}: leaves {len(extra)} of its figures open")


def execute(scenario, run):
    for spec, path in zip(scenario["files"], SLOTS):
        create(spec, path)
    number = 0
    for ops in scenario["lives"]:
        before, open_before = [read(p) for p in SLOTS], []
        for one, entry in zip(ops, world.isolated(_life, ops)):
            number += 1
            if one["op"] == "figure":
                open_before = entry["open"]
                continue
            for kind in entry["fired"]:
                run.fault(kind)
            run.event(one["op"], str(entry["outcome"]), entry["ops"], entry["text"][:300],
                      *[b"-" if f is None else f for f in entry["files"]])
            judge(one, entry, before, open_before, number, run)
            tables = [parse(f) for f in entry["files"]]
            run.state(one["op"], one.get("cli"), entry["fired"], str(entry["outcome"]),
                      [None if t is None else min(len(t.rows), 12) for t in tables],
                      len(entry["open"]), len(open_before))
            run.count("operations that failed" if entry["outcome"] else "operations that succeeded")
            before, open_before = entry["files"], entry["open"]
            run.nontrivial = True
