"""Violations, fingerprints and the per-run record every scenario fills in."""
import hashlib
import os
import random
import struct
import traceback

import numpy as np

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


class Violation(Exception):
    """The property is broken. KIND is a stable class used while minimising."""

    def __init__(self, kind, message, **detail):
        super().__init__(f"{kind}: {message}")
        self.kind, self.message, self.detail = kind, message, detail

    def __reduce__(self):
        return _rebuild_violation, (self.kind, self.message, self.detail)


def _rebuild_violation(kind, message, detail):
    return Violation(kind, message, **detail)


class Inconclusive(Exception):
    """The scenario left the preconditions of the property: nothing is claimed."""


class HarnessError(Exception):
    """The harness itself is broken; never reported as a violation."""


def passes_repo(error):
    """Whether an exception passed through the code under test."""
    return any(
        os.path.realpath(f.filename).startswith(REPO + os.sep)
        for f in traceback.extract_tb(error.__traceback__)
    )


def check(condition, kind, message, **detail):
    if not condition:
        raise Violation(kind, message() if callable(message) else message, **detail)


def _feed(h, x):
    if isinstance(x, np.ndarray):
        h.update(b"A" + str(x.dtype).encode() + str(x.shape).encode())
        h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (float, np.floating)):
        h.update(b"F" + struct.pack("<d", float(x)))
    elif isinstance(x, (bool, np.bool_)):
        h.update(b"B1" if x else b"B0")
    elif isinstance(x, (int, np.integer)):
        h.update(b"I" + str(int(x)).encode())
    elif isinstance(x, str):
        h.update(b"S" + x.encode())
    elif isinstance(x, bytes):
        h.update(b"Y" + x)
    elif x is None:
        h.update(b"N")
    elif isinstance(x, (list, tuple)):
        h.update(b"L%d" % len(x))
        for y in x:
            _feed(h, y)
    elif isinstance(x, dict):
        h.update(b"D%d" % len(x))
        for k in sorted(x, key=str):
            _feed(h, str(k))
            _feed(h, x[k])
    else:
        raise HarnessError(f"cannot fingerprint {type(x)}")


def fingerprint(*xs):
    h = hashlib.sha256()
    for x in xs:
        _feed(h, x)
    return h.hexdigest()[:16]


def rng_for(*keys):
    seed = hashlib.sha256("/".join(str(k) for k in keys).encode()).digest()
    return random.Random(int.from_bytes(seed[:8], "big"))


class Run:
    """What one simulated execution did: used for evidence and for the digest
    that a replay has to reproduce."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.sim_time = 0.0
        self.counts = {}
        self.faults = {}
        self.states = set()
        self.schedules = set()
        self.trace = []
        self._trace_hash = hashlib.sha256()
        self.nontrivial = False

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True
        self.event("fault", kind)

    def state(self, *xs):
        """An abstract state reached (the coverage measure)."""
        self.states.add(fingerprint(*xs)[:12])

    def event(self, *xs):
        """Something observable happened: part of the run's digest."""
        _feed(self._trace_hash, list(xs))
        if len(self.trace) < 400:
            self.trace.append(" ".join(_short(x) for x in xs))

    @property
    def digest(self):
        return self._trace_hash.hexdigest()[:24]


def _short(x):
    if isinstance(x, np.ndarray):
        return f"array{x.shape}#{fingerprint(x)[:8]}"
    if isinstance(x, float):
        return repr(x)
    return str(x)[:120]
