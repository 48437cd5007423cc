"""C17: network loading failures stop the solve and do not stick."""
import os
import pickle
import shutil

import numpy as np
from finite_volume.shallow_water.solver import NETWORK_TYPES

from .. import training, world
from ..base import Inconclusive, check
from ..disk import Disk

import torch

QUICK, THOROUGH, TIMEOUT = 500, 15000, 90
LEVEL = "exploration"
RULE = ("one evaluation = one process in which files of networks are damaged and restored, reads "
        "fail, and solvers which (partly) share networks solve in a seeded order, compared with "
        "undisturbed processes bit by bit")
REAL = ["ReducedFluxGetter, ReducedNetwork and all solvers using them", "skorch, torch, "
        "scikit-learn and pickle deserialisation"]
STUBS = ["the disk below Python's buffers while solving", "torch's C++ file writer (training)"]
STATE_MEASURE = "(solver, how the files are damaged or which read fails, loaded before, outcome)"
ASSUMPTIONS = ["damage is visible: a file is missing, cut off, replaced or unreadable; single "
               "flipped bits in otherwise well-formed files are not injected"]
NEEDED = ("network_path", "input_scaler_path", "output_scaler_path")
OPTIONAL = ("optimizer_path", "history_path")
KEY = {"reduced-llf": "llf", "reduced-llf-2": "llf2"}
HOW = ["missing", "empty", "cut", "cut", "random", "text", "object", "directory", "swapped"]
READ = ["emfile", "eacces", "memory", "eio", "eio", "interrupt"]


def generate(rng, i):
    solvers = []
    nets = rng.choice([["reduced-llf"], ["reduced-llf-2"], ["reduced-llf", "reduced-llf-2"]])
    for k in range(rng.randint(1, 3)):
        net = rng.choice(nets)
        bench, spec = world.random_any(rng, rng.randint(1, 5), classes=[("swe", net)])
        cls = rng.choice([net, net, "coarse", "mcl", "antidiffusion"])
        if cls != net:
            spec.update(cls=cls, flux=net)
            if cls == "coarse":
                spec["coarsen"] = 2
                spec["mesh"] += spec["mesh"] % 2
            if cls == "antidiffusion":
                spec["gamma"] = 0.01
        solvers.append({"bench": bench, "solver": spec, "net": net})
    events = []
    for _ in range(rng.randint(2, 7)):
        x = rng.random()
        if x < 0.35:
            events.append({"do": "damage", "net": KEY[rng.choice(nets)],
                           "file": rng.choice(NEEDED if rng.random() < 0.85 else OPTIONAL),
                           "how": rng.choice(HOW), "part": round(rng.random(), 4),
                           "seed": rng.randrange(1000)})
        elif x < 0.5:
            events.append({"do": "restore"})
        else:
            event = {"do": "solve", "solver": rng.randrange(len(solvers))}
            if rng.random() < 0.3:
                event["read"] = {"at": rng.choice([0, rng.randrange(40)]), "kind": rng.choice(READ)}
            events.append(event)
    trained = None
    if rng.random() < 0.3:
        trained = {"data": dict(training.random_samples(rng), scale=1e-3, shift=0.0),
                   "torch": rng.randrange(100)}
    return {"solvers": solvers, "events": events, "trained": trained}


SHRINK_LISTS = {"events": 1, "solvers": 1}
SHRINK_NUMBERS = {"at": 0, "seed": 0}


def _train(trained):
    for key in NETWORK_TYPES:
        torch.manual_seed(trained["torch"])
        network = NETWORK_TYPES[key]()
        with training.simulated():
            world.attempt(network.fit, *training.samples(trained["data"]), epochs=2)
            outcome = world.attempt(network.save_params)
        if outcome.error is not None:
            raise outcome.error


def _reference(item):
    """Undisturbed run: (initial state, state after solving)."""
    solver = world.build_solver(item["solver"], world.build_benchmark(item["bench"]))
    initial = world.snapshot(solver.solution)
    outcome = world.solve(solver)
    return initial, world.snapshot(solver.solution), outcome.error_name, str(outcome.error)


def _same(x, y):
    return all(world.same(a, b) for a, b in zip(x, y))


def _damage(event):
    path = getattr(NETWORK_TYPES[event["net"]], event["file"])
    optional = not os.path.exists(path)
    healthy = os.path.join("healthy", path)
    if os.path.isdir(path):
        os.rmdir(path)
    elif os.path.exists(path):
        os.remove(path)
    how = event["how"]
    if how == "missing" or optional:
        return
    size = os.path.getsize(healthy) if os.path.exists(healthy) else 100
    content = b""
    if how == "directory":
        os.mkdir(path)
        return
    if how == "cut":
        with open(healthy, "rb") as f:
            content = f.read()[:int(event["part"] * (size - 1))]
    elif how == "random":
        content = np.random.default_rng(event["seed"]).bytes(size)
    elif how == "text":
        content = b"<html>404: not found</html>\n"
    elif how == "object":
        content = pickle.dumps([None, {}, "scaler", [1.0, 2.0]][event["seed"] % 4])
    elif how == "swapped":
        names = [n for n in NEEDED if n != event["file"]]
        other = getattr(NETWORK_TYPES[event["net"]], names[event["seed"] % len(names)])
        with open(os.path.join("healthy", other), "rb") as f:
            content = f.read()
    with open(path, "wb") as f:
        f.write(content)


def _restore(key):
    shutil.rmtree(training.directory(key))
    shutil.copytree(os.path.join("healthy", training.directory(key)), training.directory(key))


def execute(scenario, run):
    if scenario["trained"]:
        for key in NETWORK_TYPES:
            os.makedirs(training.directory(key))
        world.isolated(_train, scenario["trained"])
    else:
        world.provide_networks(".")
    shutil.copytree("data", "healthy/data")
    references = []
    for item in scenario["solvers"]:
        initial, final, error, text = world.isolated(_reference, item)
        if error is not None:
            raise Inconclusive(f"the undisturbed run fails: {text}")
        references.append((initial, final))
    solvers, loaded, done = [], set(), set()
    for k, item in enumerate(scenario["solvers"]):
        solvers.append(world.build_solver(item["solver"], world.build_benchmark(item["bench"])))
    damaged = {}

    def solve(k, read=None):
        item, solver = scenario["solvers"][k], solvers[k]
        cls = item["solver"]["cls"]
        key = KEY[item["net"]]
        if k in done:
            solver.reinitialize(world.build_benchmark(item["bench"]))
            done.discard(k)
        before = world.snapshot(solver.solution)
        disk = Disk(training.directory(key), read_faults=[read] if read else [], run=run)
        with disk.mounted():
            outcome = world.solve(solver)
        after = world.snapshot(solver.solution)
        what = f"{cls} with {item['net']}, damaged files {damaged[key]}, faults {disk.fired}"
        worked = outcome.error is None
        run.event("solve", k, outcome.error_name, disk.reads, after[0], after[1])
        run.state(cls, item["net"], sorted(d for d in damaged[key].values()), disk.fired,
                  k in loaded, worked)
        run.count("solves that worked" if worked else "solves that failed")
        shared = cls not in KEY and any(
            scenario["solvers"][j]["solver"]["cls"] not in KEY
            and scenario["solvers"][j]["net"] == item["net"] for j in loaded)
        if worked:
            check(not damaged[key] or k in loaded or shared, "computes-without-network",
                  f"{what}: the solve does not fail", solver=cls)
            check(_same(references[k][1], after), "changed", f"{what}: the result differs from "
                  "the one of an undisturbed run", solver=cls)
            loaded.add(k)
            done.add(k)
            run.sim_time += after[0] - before[0]
        else:
            check(k not in loaded, "loaded-fails", f"{what}: a solver whose network was loaded "
                  f"fails with {outcome.error_name}: {outcome.error}", solver=cls)
            check(damaged[key] or disk.fired, "sticks", f"{what}: the files are healthy but solving "
                  f"fails with {outcome.error_name}: {outcome.error}", solver=cls)
            check(_same(before, after), "not-last-accepted", f"{what}: a failing first step changes "
                  "the solution", solver=cls)

    damaged.update({key: {} for key in NETWORK_TYPES})
    for event in scenario["events"]:
        if event["do"] == "damage":
            _damage(event)
            if event["file"] in NEEDED:
                damaged[event["net"]][event["file"]] = event["how"]
            run.fault(f"{event['file'][:-5]}: {event['how']}")
        elif event["do"] == "restore":
            for key in NETWORK_TYPES:
                _restore(key)
                damaged[key] = {}
        else:
            solve(event["solver"] % len(solvers), event.get("read"))
    for key in NETWORK_TYPES:
        _restore(key)
        damaged[key] = {}
    for k in range(len(solvers)):
        solve(k)
    run.nontrivial = True
