"""Seams of the network training: torch's own file writer and skorch's clock."""
import builtins
import contextlib
import io
import os

import numpy as np
import skorch.callbacks.logging as _skorch_logging
import torch
import torch._dynamo  # torch imports this on first use: expensive in every forked run
from finite_volume.shallow_water.solver import NETWORK_TYPES

from . import world

PIECE = 3000


class _Time:
    def __init__(self, clock):
        self.time = clock


@contextlib.contextmanager
def simulated(jumps=(0.0, 0.25), run=None):
    """torch.save normally writes in C++: it serialises into memory here and
    hands the result over to Python's (simulated) files in pieces."""
    real_save, real_time = torch.save, _skorch_logging.time

    def save(obj, f, *args, **kwargs):
        if not isinstance(f, (str, os.PathLike)):
            return real_save(obj, f, *args, **kwargs)
        buffer = io.BytesIO()
        real_save(obj, buffer, *args, **kwargs)
        data = buffer.getvalue()
        with builtins.open(f, "wb") as file:
            for i in range(0, len(data), PIECE):
                file.write(data[i:i + PIECE])

    torch.save = save
    _skorch_logging.time = _Time(world.SimClock(list(jumps), run))
    try:
        yield
    finally:
        torch.save, _skorch_logging.time = real_save, real_time


FILES = ("network_path", "optimizer_path", "history_path", "input_scaler_path",
         "output_scaler_path")


def directory(key):
    return os.path.dirname(NETWORK_TYPES[key].network_path)


def paths(key):
    return [getattr(NETWORK_TYPES[key], name) for name in FILES]


def samples(spec):
    """Training data: SPEC = {"seed", "n", "scale", "shift", "constant"}."""
    rng = np.random.default_rng(spec["seed"])
    x = rng.normal(2.0, 0.5, size=(spec["n"], 8))
    if spec.get("constant") is not None:
        x[:, spec["constant"]] = 1.5
    y = np.stack([np.sin(x[:, 0] - x[:, 2]), x[:, 1] - x[:, 3] * x[:, 4]], axis=1)
    y = spec["shift"] + spec["scale"] * y
    return x.astype(np.float32), y.astype(np.float32)


def random_samples(rng):
    return {"seed": rng.randrange(1000), "n": rng.randint(12, 60),
            "scale": rng.choice([1.0, 1.0, 1e-3, 50.0]), "shift": rng.choice([0.0, 0.0, 3.0, -20.0]),
            "constant": rng.choice([None, None, None, 0, 5])}


def probe():
    x = np.random.default_rng(4711).normal(2.0, 0.7, size=(7, 8))
    return x.astype(np.float32)


def predict(network):
    """Predictions at fixed inputs, or None if the network refuses."""
    result = []
    outcome = world.attempt(lambda: result.append(np.array(network.predict(probe()))))
    return None if outcome.error is not None else result[0]
