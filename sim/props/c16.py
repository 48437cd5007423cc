"""C16: saved networks come back unchanged or not at all."""
import os
import shutil

from finite_volume.shallow_water.solver import NETWORK_TYPES

from .. import training, world
from ..base import REPO, check, fingerprint
from ..disk import Disk, SimCrash

import torch

QUICK, THOROUGH, TIMEOUT = 400, 15000, 90
LEVEL = "exploration"
RULE = ("one evaluation = one seeded history of processes training, loading and saving networks; "
        "saves crash or meet failing disks at seeded points; after every process another one loads")
REAL = ["ReducedNetwork and its subclasses", "skorch, torch, scikit-learn and pickle serialisation"]
STUBS = ["the disk below Python's buffers", "torch's C++ file writer: serialises into memory and "
         "writes through Python in pieces of 3000 bytes", "skorch's clock"]
STATE_MEASURE = "(network type, operation, faults, number of networks which may be found)"
ASSUMPTIONS = ["a crash is the death of the process: what reached the kernel survives",
               "one process at a time saves or loads a network", "bit rot is not injected here"]
FAULTS = ["crash", "crash", "crash", "crash-after", "enospc", "eio", "eacces"]
EXTRAS = ("optimizer_path", "history_path")


def _random_loss(rng):
    file = rng.choice(training.FILES)
    left = rng.choice([None, None, 0, round(rng.random(), 3)])
    if file in EXTRAS:
        left = None  # asked for its history, a network may be refused for a broken one
    return {"op": "lose", "file": file, "left": left}


def generate(rng, i):
    lives = []
    kinds = rng.choice([["llf"], ["llf"], ["llf2"], ["llf", "llf2"]])
    for k in range(rng.randint(1, 4)):
        key = rng.choice(kinds)
        life = {"key": key, "warm": rng.random() < 0.5, "ops": []}
        if rng.random() < 0.25:
            life["ops"].append(_random_loss(rng))
        loaded = rng.random() < (0.3 if k else 0.15)
        if loaded:
            life["ops"].append({"op": "load", "history": rng.random() < 0.5})
        for _ in range(rng.randint(1, 3)):
            if rng.random() < (0.5 if loaded else 0.9):
                life["ops"].append({"op": "fit", "data": training.random_samples(rng),
                                    "epochs": rng.randint(1, 3), "torch": rng.randrange(1000)})
            save = {"op": "save", "faults": []}
            if rng.random() < 0.65:
                total = 13 if key == "llf" else 28
                save["faults"].append({
                    "at": rng.randrange(total), "kind": rng.choice(FAULTS),
                    "part": rng.choice([0, 1, round(rng.random(), 4), round(rng.random(), 4)])})
            life["ops"].append(save)
            if rng.random() < 0.2:
                life["ops"].append(_random_loss(rng))
            if rng.random() < 0.2:
                life["ops"].append({"op": "other", "key": rng.choice([key, *NETWORK_TYPES]),
                                    "data": rng.choice([None, training.random_samples(rng)])})
            if rng.random() < 0.3:
                life["ops"].append({"op": rng.choice(["reload", "reload", "load"]),
                                    "history": rng.random() < 0.5})
        lives.append(life)
    return {"shipped": rng.random() < 0.4, "lives": lives}


SHRINK_LISTS = {"lives": 1, "ops": 1, "faults": 0}
SHRINK_NUMBERS = {"at": 0, "epochs": 1}


def _history(network):
    return [(row.get("epoch"), row.get("train_loss"), row.get("valid_loss"))
            for row in network.history]


def _load(key, history=False):
    """A fresh object loads: (reported success, prediction, history)."""
    network = NETWORK_TYPES[key]()
    loaded = []
    outcome = world.attempt(lambda: loaded.append(network.load_params(load_history=history)))
    success = outcome.error is None and loaded[0] is not False
    return (success, training.predict(network),
            _history(network) if history and success else None)


def _lose(path, left):
    """Something else removes or cuts off a stored file."""
    if not os.path.isfile(path):
        return False
    if left is None:
        os.remove(path)
    else:
        size = os.path.getsize(path)
        os.truncate(path, min(int(left * size), max(0, size - 1)))
    return True


def _process(life):
    key = life["key"]
    network = NETWORK_TYPES[key](warm_start=life["warm"])
    log = []
    with training.simulated():
        for op in life["ops"]:
            entry = {"op": op["op"], "fired": [], "error": None}
            log.append(entry)
            if op["op"] == "load":
                loaded = []
                outcome = world.attempt(
                    lambda: loaded.append(network.load_params(load_history=op["history"])))
                entry["success"] = outcome.error is None and loaded[0] is not False
                entry["prediction"] = training.predict(network)
            elif op["op"] == "lose":
                entry["lost"] = _lose(getattr(NETWORK_TYPES[key], op["file"]), op["left"])
                entry["file"] = op["file"]
            elif op["op"] == "other":
                entry["before"] = training.predict(network)
                stranger = NETWORK_TYPES[op["key"]]()
                if op["data"]:
                    world.attempt(stranger.fit, *training.samples(op["data"]), epochs=1)
                else:
                    world.attempt(stranger.load_params)
                entry["prediction"] = training.predict(network)
            elif op["op"] == "reload":
                entry["success"], entry["prediction"], entry["history"] = _load(key, op["history"])
            elif op["op"] == "fit":
                torch.manual_seed(op["torch"])
                outcome = world.attempt(network.fit, *training.samples(op["data"]),
                                        epochs=op["epochs"])
                entry["error"] = outcome.error_name
                entry["prediction"] = training.predict(network)
            else:
                entry["before"] = training.predict(network)
                if entry["before"] is None:
                    entry["op"] = "nothing to save"
                    continue
                entry["history"] = _history(network)
                disk = Disk(training.directory(key), op["faults"])
                with disk.mounted():
                    try:
                        outcome = world.attempt(network.save_params)
                        entry["error"] = outcome.error_name
                    except SimCrash:
                        pass
                entry["fired"], entry["ops"] = disk.fired, disk.ops
                if disk.dead:
                    entry["error"] = "crash"
                    break
                entry["prediction"] = training.predict(network)
    return log


class Stored:
    """What may be found on the disk: predictions (None: nothing loadable)."""

    def __init__(self, key, candidates):
        self.key, self.candidates, self.generations = key, candidates, []
        self.histories = {}

    def saved(self, prediction, history):
        self.candidates = [prediction]
        self.histories = {fingerprint(prediction): [history]}
        self.generations.append(prediction)

    def interrupted(self, prediction, history):
        if any(c is ANY for c in self.candidates):  # possibly the shipped network, whose history is not known
            self.histories[fingerprint(prediction)] = None
        elif self.histories.get(fingerprint(prediction), []) is not None:
            self.histories.setdefault(fingerprint(prediction), []).append(history)
        self.candidates = [*self.candidates, prediction, None]
        self.generations.append(prediction)

    def lost(self, file):
        for known in self.histories.values():
            if known is not None:
                known.append([])
        if file not in EXTRAS:
            self.candidates = [None]

    def loaded(self, success, prediction, history, what, saved=None):
        found = prediction if success else None
        check(success or prediction is None, "computes-unloaded", f"{what}: loading is reported as "
              "failed but the network predicts", solver=self.key)
        check(not success or prediction is not None, "refuses-loaded", f"{what}: loading is "
              "reported as successful but the network does not predict", solver=self.key)
        if any(c is not None and c is ANY for c in self.candidates) and found is not None:
            known = False
        else:
            known = any(world.same(found, c) for c in self.candidates if c is not ANY)
            if not known:
                if found is None:
                    kind, text = "lost", "a completely saved network cannot be loaded"
                elif any(world.same(found, g) for g in self.generations):
                    kind, text = "stale", "an earlier network is loaded"
                else:
                    kind, text = "mixed", "the network loaded was never saved"
                check(False, kind, f"{what}: {text}", solver=self.key)
        expected = self.histories.get(fingerprint(found))
        if history is not None and expected is not None:
            check(history in expected, "history", f"{what}: the training history is "
                  f"{history} instead of one of {expected}", solver=self.key)
        self.candidates = [found]


ANY = object()


def execute(scenario, run):
    stored = {}
    for key in NETWORK_TYPES:
        if scenario["shipped"]:
            os.makedirs("data", exist_ok=True)
            shutil.copytree(os.path.join(REPO, training.directory(key)), training.directory(key))
            stored[key] = Stored(key, [ANY])
        else:
            os.makedirs(training.directory(key))
            stored[key] = Stored(key, [None])
    for number, life in enumerate(scenario["lives"]):
        key = life["key"]
        store = stored[key]
        for entry in world.isolated(_process, life):
            what = f"process {number}, {entry['op']} of {key}"
            run.event("operation", number, key, entry["op"], str(entry["error"]),
                      fingerprint(entry.get("prediction")))
            run.count(f"operations: {entry['op']}")
            for kind in entry["fired"]:
                run.fault(f"{kind} while saving")
            if entry["op"] in ("load", "reload"):
                store.loaded(entry["success"], entry["prediction"], entry.get("history"), what)
            elif entry["op"] == "lose":
                if entry["lost"]:
                    run.fault(f"{entry['file']} lost")
                    store.lost(entry["file"])
            elif entry["op"] == "other":
                check(world.same(entry["before"], entry["prediction"]), "changed-by-others",
                      f"{what}: another network of the process changes the predictions", solver=key)
            elif entry["op"] == "fit":
                check(entry["error"] is None and entry["prediction"] is not None, "training-fails",
                      f"{what}: training ends with {entry['error']}", solver=key)
            elif entry["op"] == "save":
                if entry["error"] is None:
                    store.saved(entry["before"], entry["history"])
                else:
                    check(entry["fired"], "fails", f"{what}: fails with {entry['error']} on a "
                          "working disk", solver=key)
                    store.interrupted(entry["before"], entry["history"])
                if entry["error"] != "crash":
                    check(world.same(entry["before"], entry["prediction"]), "changed-by-saving",
                          f"{what}: saving changes the network", solver=key)
                run.state(key, entry["fired"], entry["error"], len(store.candidates),
                          entry["ops"])
        for other in NETWORK_TYPES:
            history = number % 2 == 0
            success, prediction, h = world.isolated(_load, other, history)
            run.event("found", other, success, fingerprint(prediction))
            run.count("networks found" if success else "nothing found")
            stored[other].loaded(success, prediction, h, f"after process {number}, {other} loaded "
                                 "by another process")
        run.sim_time += 1
        run.nontrivial = True
