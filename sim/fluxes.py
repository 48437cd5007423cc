"""Stand-ins for the fluxes inside limiters and corrections."""
import finite_volume
import finite_volume.shallow_water as swe
import numpy as np

from .base import HarnessError


class RoughFlux(finite_volume.NumericalFlux):
    """An arbitrary, single-valued function of the neighbouring states."""

    def __init__(self, seed, size, radius):
        self.input_dimension = 2 * radius
        self.seed, self.size = seed, size

    def __call__(self, *values):
        u = np.concatenate([np.asarray(v) for v in values], axis=1)
        rng = np.random.default_rng(self.seed)
        a = rng.uniform(-1, 1, (u.shape[1], 2))
        flux = self.size * np.sin(np.sum(u[:, :, None] * a[None], axis=1) * 2.0 + 1.0)
        return -flux, flux


class RoughFluxGetter(swe.FluxGetter):
    def __init__(self, seed, size, radius):
        self.arguments = (seed, size, radius)

    def __call__(self, benchmark, space, bathymetry=None):
        return RoughFlux(*self.arguments)


class BrokenFlux(finite_volume.NumericalFlux):
    """Anything at all: different at every call, huge, with both sides unrelated."""

    def __init__(self, kind, seed, size, radius, record):
        self.input_dimension = 2 * radius
        self.kind, self.size, self.record = kind, size, record
        self.rng = np.random.default_rng(seed)

    def __call__(self, *values):
        self.record(self.kind)
        shape = np.shape(values[0])
        if self.kind == "zero":
            flux = np.zeros(shape)
        elif self.kind == "random":
            flux = self.size * self.rng.standard_normal(shape)
        elif self.kind == "huge":
            flux = self.size * 1e6 * self.rng.choice([-1.0, 1.0], shape)
        elif self.kind == "drain":
            # pulls everything out of single cells
            flux = np.zeros(shape)
            flux[:, 0] = self.size * 100 * (-1.0) ** np.arange(shape[0])
        elif self.kind == "spike":
            flux = np.zeros(shape)
            flux[self.rng.integers(shape[0])] = self.size * 1e3 * self.rng.choice([-1.0, 1.0], 2)
        elif self.kind == "unrelated":
            return (self.size * self.rng.standard_normal(shape),
                    self.size * self.rng.standard_normal(shape))
        elif self.kind == "momentum":
            flux = np.zeros(shape)
            flux[:, 1] = self.size * 1e3 * self.rng.choice([-1.0, 1.0], shape[0])
        else:
            raise HarnessError(self.kind)
        return -flux, flux


class BrokenFluxGetter(swe.FluxGetter):
    KINDS = ["zero", "random", "huge", "drain", "spike", "unrelated", "momentum"]

    def __init__(self, kind, seed, size, radius, record=lambda kind: None):
        self.arguments = (kind, seed, size, radius, record)

    def __call__(self, benchmark, space, bathymetry=None):
        return BrokenFlux(*self.arguments)
