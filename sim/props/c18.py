"""C18: seeded training is reproducible and saves only what was accepted."""
import builtins
import json
import os
import random
import shutil
import subprocess
import sys

import numpy as np
import pandas as pd
import torch
from benchmark.shallow_water import RandomBenchmarkGenerator
from command.train_network import TrainNetwork
from finite_volume.shallow_water.solver import NETWORK_TYPES

from .. import cli, figures, training, world
from ..base import REPO, check, fingerprint
from ..disk import Disk, SimCrash

QUICK, THOROUGH, TIMEOUT = 260, 8000, 120
LEVEL = "exploration"
RULE = ("one evaluation = one training task carried out in an undisturbed process and again in "
        "processes with a seeded past, seeded answers to the dialogue and seeded failures; the "
        "files stored are compared byte by byte or by what a further process loads")
REAL = ["TrainNetwork, the train-network command line, ReducedNetwork", "skorch, torch, "
        "scikit-learn, pandas"]
STUBS = ["the terminal: input() returns the next answer", "the disk below Python's buffers",
         "torch's C++ file writer", "skorch's clock", "failing training: an exception out of the "
         "evaluation of the module"]
STATE_MEASURE = "(network, mode, past, failure, decision, what is stored afterwards)"
ASSUMPTIONS = ["one thread per process, the same machine"]
OTHER = ["", "maybe", "yn", "nope", "y?", "nein", "quit", "yes no", "Input"]
YES, NO = ["y", "Y", "yes", "YES", "Yes", "yEs"], ["n", "N", "no", "NO", "No", "nO"]
PAST = ["torch", "numpy", "random", "benchmarks", "train-other", "train-same", "load", "fail",
        "reseed"]
ERRORS = {"runtime": RuntimeError, "memory": MemoryError, "value": ValueError, "os": OSError,
          "exit": SystemExit, "crash": SimCrash}
DATA = ["missing", "empty", "header", "word", "one-row", "directory", "read-eio", "read-emfile"]


def generate(rng, i):
    key = rng.choice(["llf", "llf", "llf2"])
    stored = rng.choice(["none", "shipped", "trained", "trained"])
    task = {"key": key, "data": dict(training.random_samples(rng), n=rng.randint(20, 60)),
            "stored": stored,
            "epochs": rng.choice([1, 2, 3, 3, 5, 20]), "skip": rng.choice([1, 1, 2, 3]),
            "seed": rng.randint(1, 10000), "resume": rng.random() < 0.25,
            "parameters": rng.choice([{}, {}, {"lr": 0.1}, {"optimizer__momentum": 0.5},
                                      {"lr": 0.001, "optimizer__weight_decay": 0.01}])}
    runs = []
    for _ in range(rng.randint(1, 4)):
        run = {"cli": rng.random() < 0.4, "confirm": rng.random() < 0.5, "answers": [],
               "past": [rng.choice(PAST) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
               "between": [rng.choice(PAST[:6]) for _ in range(rng.choice([0, 0, 1]))],
               "loss": rng.random() < 0.2}
        if run["confirm"]:
            run["answers"] = [rng.choice(OTHER) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
            run["answers"].append(rng.choice(rng.choice([YES, YES, NO, NO, ["EOF", "^C"]])))
            run["answers"] += [rng.choice(YES + NO)] * rng.randint(0, 1)
        x = rng.random()
        if x < 0.2:
            # resuming survives read errors, which hit the data only without it
            run["data"] = rng.choice(DATA[:6] if task["resume"] else DATA)
        elif x < 0.4:
            run["bomb"] = {"at": rng.randint(1, 2 * task["epochs"] + 1),
                           "error": rng.choice(list(ERRORS))}
        elif x < 0.5:
            run["faults"] = [{"at": rng.randrange(13 if key == "llf" else 28), "part": rng.random(),
                              "kind": rng.choice(["enospc", "eio", "eacces", "crash"])}]
        if run.get("data") not in ("missing", "directory", "empty") and rng.random() < 0.2:
            run["torn"] = round(rng.random(), 4)
        runs.append(run)
    task["runs"] = runs
    if rng.random() < 0.1:  # the command line takes positive seeds only
        task["seed"] = 0
        for run in runs:
            run["cli"] = False
    task["touch"] = [rng.random(), rng.random()] if rng.random() < 0.3 else None
    task["process"] = None if task["seed"] == 0 else rng.randrange(1, 2**31) if rng.random() < 0.03 else None
    return task


SHRINK_LISTS = {"runs": 0, "past": 0, "between": 0, "answers": 0, "faults": 0}
SHRINK_NUMBERS = {"epochs": 1, "skip": 1, "at": 1, "seed": 1}


def _write_data(task):
    x, y = training.samples(task["data"])
    columns = pd.MultiIndex.from_tuples([(f"U{j}", c) for j in range(4) for c in "hq"]
                                        + [("G2", "h"), ("G2", "q")])
    frame = pd.DataFrame(np.concatenate((x, y), axis=1).astype(float), columns=columns,
                         index=0.01 * np.arange(len(x)))
    frame.to_csv(NETWORK_TYPES[task["key"]].data_path)


def _prepare(task):
    key = task["key"]
    if task["stored"] == "shipped":
        shutil.copytree(os.path.join(REPO, training.directory(key)), training.directory(key))
    else:
        os.makedirs(training.directory(key))
    _write_data(task)
    if task["stored"] == "trained":
        torch.manual_seed(99)
        network = NETWORK_TYPES[key]()
        x, y = training.samples(dict(task["data"], seed=task["data"]["seed"] + 1))
        with training.simulated():
            world.attempt(network.fit, x, y, epochs=2)
            network.save_params()


def _activity(kind, task):
    if kind == "torch":
        torch.rand(13)
    elif kind == "numpy":
        np.random.rand(7)
    elif kind == "random":
        random.random()
    elif kind == "reseed":
        torch.manual_seed(task["seed"] + 1)
        np.random.seed(3)
        random.seed(4)
    elif kind == "benchmarks":
        generator = RandomBenchmarkGenerator(seed=3)
        generator(), generator()
    elif kind == "load":
        world.attempt(NETWORK_TYPES[task["key"]]().load_params)
    elif kind == "fail":
        world.attempt(NETWORK_TYPES[task["key"]]().fit, np.zeros((1, 8)), np.zeros((2, 2)))
    else:
        key = task["key"] if kind == "train-same" else next(
            k for k in NETWORK_TYPES if k != task["key"])
        world.attempt(NETWORK_TYPES[key]().fit, *training.samples(
            {"seed": 5, "n": 20, "scale": 1.0, "shift": 0.0}), epochs=1)


class Terminal:
    def __init__(self, answers):
        self.answers, self.asked = list(answers), 0

    def __call__(self, prompt=""):
        self.asked += 1
        answer = self.answers[self.asked - 1] if self.asked <= len(self.answers) else "EOF"
        if answer == "EOF":
            raise EOFError("injected end of input")
        if answer == "^C":
            raise KeyboardInterrupt("injected")
        return answer


def _bomb(task, spec):
    module = NETWORK_TYPES[task["key"]].module_type
    original = module.forward
    calls = []

    def forward(self, x):
        if self.training:
            calls.append(1)
            if len(calls) == spec["at"]:
                raise ERRORS[spec["error"]]("injected")
        return original(self, x)

    module.forward = forward
    return calls


def _break_data(task, how):
    path = NETWORK_TYPES[task["key"]].data_path
    with open(path) as f:
        lines = f.readlines()
    if how in ("missing", "directory"):
        os.remove(path)
        if how == "directory":
            os.mkdir(path)
        return
    new = {"empty": [], "header": lines[:2], "one-row": lines[:3]}.get(how)
    if how == "word":
        new = lines[:2] + ["0.5," + ",".join(["oops"] * 10) + "\n"] + lines[2:]
    if new is not None:
        with open(path, "w") as f:
            f.writelines(new)


def _tear_data(task, part):
    """The process generating the data died while writing one more line."""
    path = NETWORK_TYPES[task["key"]].data_path
    with open(path) as f:
        line = f.readlines()[-1][:-1]
    with open(path, "a") as f:
        f.write(line[:max(1, int(part * len(line)))])


def _thin_data(task):
    path = NETWORK_TYPES[task["key"]].data_path
    with open(path) as f:
        lines = f.readlines()
    with open(path, "w") as f:
        f.writelines(lines[:2] + lines[2:][::task["skip"]])


def _touch_data(task):
    """Changes one number which is learned a little."""
    path = NETWORK_TYPES[task["key"]].data_path
    with open(path) as f:
        lines = f.readlines()
    table = np.array([[float(v) for v in line.split(",")] for line in lines[2:]])
    rows = range(0, len(table), task["skip"])
    row, column = rows[int(task["touch"][0] * len(rows))], 1 + int(task["touch"][1] * 10)
    if task["data"]["shift"]:  # predictions far from zero hide small changes of the inputs
        column = 9 + column % 2
    values = table[rows, column]
    step = 3e-4 * max(np.std(values), np.abs(values).max())
    words = lines[2 + row].rstrip("\n").split(",")
    words[column] = repr(float(table[row, column] + step))
    lines[2 + row] = ",".join(words) + "\n"
    with open(path, "w") as f:
        f.writelines(lines)
    return row, column


def _command(task, spec):
    key = task["key"]
    if spec["cli"]:
        arguments = ["train-network", key, "-e", task["epochs"], "--skip", task["skip"], "--seed",
                     task["seed"], *(["--resume"] if task["resume"] else []),
                     *(["--confirm"] if spec["confirm"] else []),
                     *(["--plot-loss"] if spec["loss"] else [])]
        for name, value in task["parameters"].items():
            arguments += ["-p", name, value]
        return lambda: cli.main(*arguments)
    network = NETWORK_TYPES[key](warm_start=True)
    if task["resume"]:
        world.attempt(network.load_params, load_history=True)
    network.set_params(**task["parameters"])
    command = TrainNetwork(network, epochs=task["epochs"], skip=task["skip"], seed=task["seed"],
                           plot_loss=spec["loss"], confirm=spec["confirm"])
    for kind in spec["between"]:
        _activity(kind, task)
    return command.execute


def _train(task, spec):
    """One process. Returns how the command ended and how often it asked."""
    terminal = Terminal(spec["answers"])
    for kind in spec["past"]:
        _activity(kind, task)
    if "data" in spec:
        _break_data(task, spec["data"])
    if "torn" in spec:
        _tear_data(task, spec["torn"])
    reads = [{"at": 0, "kind": spec["data"][5:]}] if spec.get("data", "").startswith("read-") else []
    real_input = builtins.input
    builtins.input = terminal
    disk = Disk(training.directory(task["key"]), spec.get("faults", []))
    gallery = figures.Gallery()
    with training.simulated():
        command = _command(task, spec)
        calls = _bomb(task, spec["bomb"]) if "bomb" in spec else []
        disk.read_faults = {disk.reads + f["at"]: f for f in reads}
        try:
            with disk.mounted(), gallery.installed():
                try:
                    end = world.attempt(command).error_name
                except (SimCrash, SystemExit) as error:
                    end = type(error).__name__
        finally:
            builtins.input = real_input
    return (end, terminal.asked, disk.fired, len(calls) >= spec.get("bomb", {"at": 1})["at"],
            gallery.shown)


def _load(key):
    network = NETWORK_TYPES[key]()
    world.attempt(network.load_params)
    return training.predict(network)


def _contents(key):
    result = {}
    for path in training.paths(key):
        if os.path.exists(path):
            with open(path, "rb") as f:
                result[os.path.basename(path)] = f.read()
    return result


PLAIN = {"cli": False, "confirm": False, "answers": [], "past": [], "between": [], "loss": False}


def _judge_losses(what, shown, history, key):
    """Asked for, the decadic logarithms of both losses of every epoch are shown, otherwise nothing."""
    if history is None:
        check(not shown, "losses", f"{what}: shows figures nobody asked for", solver=key)
        return
    check(len(shown) == 1 and len(shown[0]) == 1, "losses", f"{what}: shows {[len(s) for s in shown]} figures "
          "with the losses", solver=key)
    curves = {label: (x, y) for ax in shown[0][0] for label, x, y in ax}
    for label, name in (("training loss", "train_loss"), ("validation loss", "valid_loss")):
        check(label in curves, "losses", f"{what}: shows the curves {sorted(curves)}", solver=key)
        x, y = curves[label]
        with np.errstate(all="ignore"):
            want = np.log10([float(epoch[name]) for epoch in history])
        check(np.shape(y) == want.shape and np.array_equal(x, np.arange(len(want)))
              and np.allclose(y, want, rtol=1e-9, atol=1e-12, equal_nan=True), "losses",
              lambda: f"{what}: the {label} shown is {y} at {x} instead of {want}", solver=key)


def _history(key):
    with open(NETWORK_TYPES[key].history_path) as f:
        return json.load(f)


def _judge_start(task, old, expected, history, reset, run):
    """Resumed trainings go on from the stored network, others do not depend on it."""
    key = task["key"]
    if old is None:
        return
    reset()
    if not task["resume"]:
        for path in training.paths(key):
            if os.path.exists(path):
                os.remove(path)
        world.isolated(_train, task, PLAIN)
        check(world.same(world.isolated(_load, key), expected), "stored-network", f"{key}: what is trained depends "
              "on the network stored before", solver=key)
        run.count("trainings without the stored network")
    elif all(os.path.exists(path) for path in training.paths(key)):
        before = _history(key)
        check(len(before) < len(history) <= len(before) + task["epochs"] and all(
            json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True) for a, b in zip(before, history)),
            "resumed", f"{key}: the {len(history)} epochs of a resumed training do not begin with the "
            f"{len(before)} stored ones", solver=key)
        world.isolated(_train, dict(task, resume=False), PLAIN)
        check(not world.same(world.isolated(_load, key), expected), "resumed", f"{key}: a resumed training "
              "starts all over again", solver=key)
        run.count("resumed trainings compared")


def execute(scenario, run):
    task, key = scenario, scenario["key"]
    world.isolated(_prepare, task)
    shutil.copytree("data", "before/data")
    untouched = _contents(key)
    old = world.isolated(_load, key)

    def reset():
        shutil.rmtree("data")
        shutil.copytree("before/data", "data")

    end, *_ = world.isolated(_train, task, PLAIN)
    check(end is None, "training-fails", f"training {key} fails with {end}", solver=key)
    expected = world.isolated(_load, key)
    check(expected is not None, "not-saved", f"{key}: nothing is saved by an undisturbed training",
          solver=key)
    run.event("undisturbed", fingerprint(expected))
    history = _history(key)
    _judge_start(task, old, expected, history, reset, run)
    if task["skip"] > 1:
        reset()
        _thin_data(task)
        world.isolated(_train, dict(task, skip=1), PLAIN)
        check(world.same(world.isolated(_load, key), expected), "skip", f"{key}: training with every "
              f"{task['skip']}th sample gives another network than training with these samples only",
              solver=key)
        run.count("trainings with thinned data")
    if task["touch"] is not None and expected is not None and np.isfinite(expected).all():
        reset()
        row, column = _touch_data(task)
        world.isolated(_train, task, PLAIN)
        check(not world.same(world.isolated(_load, key), expected), "not-learned", lambda: f"{key}: the number in row "
              f"{row}, column {column} of the data has no influence on the network", solver=key)
        run.count("trainings with touched data")
    if task["process"] is not None:
        reset()
        _subprocess(task)
        check(world.same(world.isolated(_load, key), expected), "not-reproducible",
              f"{key}: another process trains another network with the same seed", solver=key)
        run.count("trainings in a new process")
    for spec in task["runs"]:
        reset()
        end, asked, fired, exploded, shown = world.isolated(_train, task, spec)
        found, contents = world.isolated(_load, key), _contents(key)
        what = f"{key} ({'command line' if spec['cli'] else 'command'}, past {spec['past']}+" \
               f"{spec['between']}, answers {spec['answers']}, {spec.get('data')}, torn {spec.get('torn')}, " \
               f"{spec.get('bomb')}, {fired})"
        failing = "data" in spec or ("bomb" in spec and exploded)
        decision, questions = "save", 0
        for answer in spec["answers"] if spec["confirm"] else []:
            questions += 1
            decision = ("save" if answer.lower() in ("y", "yes") else "refuse"
                        if answer.lower() in ("n", "no") else "end"
                        if answer in ("EOF", "^C") else "ask")
            if decision != "ask":
                break
        if failing:
            decision = "fail"
        run.event("training", str(end), asked, fingerprint(found), decision)
        run.state(key, spec["cli"], spec["past"], spec.get("data"), "bomb" in spec, fired, decision,
                  found is None)
        run.count(f"trainings to {decision}")
        for kind in fired:
            run.fault(kind)
        if "torn" in spec:
            run.fault("a torn last line of the data")
        if failing:
            run.fault(spec.get("data") or "training " + spec["bomb"]["error"])
            check(end is not None, "failure-hidden", f"{what}: a failing training is not reported",
                  solver=key)
        if decision == "end":
            run.fault(spec["answers"][questions - 1])
        if not failing:
            check(asked == questions, "questions", f"{what}: asks {asked} times instead of "
                  f"{questions}", solver=key)
        if decision in ("save", "refuse") and not fired:
            _judge_losses(what, shown, history if spec["loss"] else None, key)
            run.count("loss curves compared", spec["loss"])
        if decision != "save":
            check(contents == untouched, "stored-touched", f"{what}: the stored network is changed "
                  f"by a training which is to {decision}", solver=key)
        elif fired:
            check(end is not None or world.same(found, expected), "write-failure-hidden",
                  f"{what}: a failing save is not reported", solver=key)
            check(any(world.same(found, x) for x in (old, expected, None)), "mixed",
                  f"{what}: an unknown network is stored", solver=key)
        else:
            check(end is None, "training-fails", f"{what}: fails with {end}", solver=key)
            check(not world.same(found, old) or world.same(old, expected), "not-saved",
                  f"{what}: an accepted network is not saved", solver=key)
            check(world.same(found, expected), "not-reproducible", f"{what}: the network differs "
                  "from the one of an undisturbed process", solver=key)
        run.sim_time += 1
    run.nontrivial = True


def _subprocess(task):
    arguments = ["train-network", task["key"], "-e", task["epochs"], "--skip", task["skip"],
                 "--seed", task["seed"], *(["--resume"] if task["resume"] else [])]
    for name, value in task["parameters"].items():
        arguments += ["-p", name, value]
    outcome = subprocess.run(
        [sys.executable, os.path.join(REPO, "cls1"), *map(str, arguments)], capture_output=True,
        text=True, env=dict(os.environ, PYTHONHASHSEED=str(task["process"]), PYTHONPATH=REPO))
    check(outcome.returncode == 0, "training-fails", f"the command line fails: "
          f"{outcome.stderr[-500:]}", solver=task["key"])
