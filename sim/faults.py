"""Fault injectors working on the seams of sim.world."""
import contextlib

import numpy as np

from .world import Hooks, SimulatedFault, repo_caller

ERRORS = {
    "error": SimulatedFault,
    "memory": MemoryError,
    "interrupt": KeyboardInterrupt,
    "value": ValueError,
    "arithmetic": FloatingPointError,
}


class RhsFault(Hooks):
    """Counts evaluations; disturbs evaluation number AT (from 1)."""

    def __init__(self, fault=None, at=None, run=None):
        self.fault, self.at, self.run = fault, at, run
        self.calls = 0
        self.fired = False

    def _raise(self, when):
        self.fired = True
        if self.run:
            self.run.fault(f"evaluation raises {self.fault['error']} ({when})")
        raise ERRORS[self.fault["error"]]("injected")

    def before(self, hooked, time, value):
        self.calls += 1
        if self.fault and self.calls == self.at and self.fault["kind"] == "rhs-before":
            self._raise("before")

    def after(self, hooked, time, value, result):
        if self.fault and self.calls == self.at:
            if self.fault["kind"] == "rhs-after":
                self._raise("after")
            if self.fault["kind"] == "rhs-poison":
                self.fired = True
                if self.run:
                    self.run.fault(f"evaluation returns {self.fault['poison']}")
                result = np.array(result, dtype=float, copy=True, order="C")
                flat = result.reshape(-1)
                flat[int(self.fault["where"] * flat.size) % flat.size] = float(self.fault["poison"])
        return result


ALLOCATORS = ["append", "array", "zeros", "empty", "ones", "concatenate", "sum", "maximum",
              "minimum", "abs", "full", "stack", "vstack", "copy", "isfinite", "diff"]


class AllocationFault:
    """MemoryError out of the AT-th array allocation made by the code under test."""

    def __init__(self, at=None, run=None):
        self.at, self.run, self.calls, self.fired = at, run, 0, False

    def _hit(self):
        self.calls += 1
        if self.calls == self.at:
            self.fired = True
            if self.run:
                self.run.fault("allocation fails")
            raise MemoryError("injected")

    @contextlib.contextmanager
    def installed(self):
        saved = {}

        def wrap(name, original):
            def wrapper(*args, **kwargs):
                if repo_caller():
                    self._hit()
                return original(*args, **kwargs)
            return wrapper

        for name in ALLOCATORS:
            original = getattr(np, name)
            if isinstance(original, np.ufunc):
                continue
            saved[name] = original
            setattr(np, name, wrap(name, original))
        try:
            yield self
        finally:
            for name, original in saved.items():
                setattr(np, name, original)


@contextlib.contextmanager
def poisoned_memory(value=float("nan")):
    """numpy.empty & co. return recognisable garbage when the code under test asks."""
    saved = {name: getattr(np, name) for name in ("empty", "empty_like")}

    def empty(*args, **kwargs):
        result = saved["empty"](*args, **kwargs)
        if repo_caller() and result.dtype.kind == "f":
            result.fill(value)
        return result

    def empty_like(*args, **kwargs):
        result = saved["empty_like"](*args, **kwargs)
        if repo_caller() and result.dtype.kind == "f":
            result.fill(value)
        return result

    np.empty, np.empty_like = empty, empty_like
    try:
        yield
    finally:
        np.empty, np.empty_like = saved["empty"], saved["empty_like"]
