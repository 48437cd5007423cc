"""Executable reference models of the schemes: what the time derivative of a state is by definition.

Written node by node from the definitions, without looking at speed and independent of the code under
test, which only supplies benchmarks. All states are wet."""
import math
import os
import pickle

import numpy as np
from numpy.polynomial import polynomial as P

from .base import check

GAUSS = (0.5 - math.sqrt(1 / 12), 0.5 + math.sqrt(1 / 12))


def reference(bench, benchmark, solver):
    """(time, state) -> time derivative, of the solver specified by SOLVER."""
    if bench["problem"] == "swe":
        return Water(bench, benchmark, solver)
    if solver["cls"] in ("cg", "cg-low", "mcl-fem"):
        return Elements(bench, solver)
    return Scalar(bench, benchmark, solver)


# ---------------------------------------------------------------- finite volumes
class FiniteVolumes:
    """Cells between nodes; a scheme says what each node contributes to the cells beside it."""

    def __init__(self, bench, benchmark, solver):
        self.benchmark, self.bc = benchmark, [bench["bc"][0], bench["bc"][-1]]
        self.n = solver["mesh"]
        self.a, self.dx = bench["a"], (bench["b"] - bench["a"]) / self.n

    def average(self, function):
        """Cell averages with two Gauss points."""
        return np.array([sum(np.asarray(function(self.a + (i + s) * self.dx), float) for s in GAUSS) / 2
                         for i in range(self.n)])

    def initial(self):
        return self.average(self.benchmark.initial_data)

    def ghosts(self, time, u):
        return [self._ghost(side, time, u) for side in (0, 1)]

    def outer(self, time, u):
        """Ghost cells beyond the first ones, of schemes which look two cells far."""
        inner = u[1:-1]
        return [self._ghost(side, time, inner) if self.bc[side] in ("wall", "periodic") else
                self._ghost(side, time, u) for side in (0, 1)]

    def _ghost(self, side, time, u):
        own, other = (u[0], u[-1]) if side == 0 else (u[-1], u[0])
        if self.bc[side] == "periodic":
            return other
        if self.bc[side] == "outflow":
            return own
        if self.bc[side] == "wall":
            return np.array([own[0], -own[1]])
        return (self.benchmark.inflow_left, self.benchmark.inflow_right)[side](time)

    def __call__(self, time, u):
        left, right = self.ghosts(time, u)
        cells = [left, *u, right]
        self.beyond = self.outer(time, u)
        self.uncertainty = 0.0
        nodes = self.nodes(cells)
        # what cell i gets from the node on its left and the node on its right
        return np.array([(nodes[i][1] + nodes[i + 1][0]) / self.dx for i in range(self.n)])


def limited(f, speed, to_left, to_right, bounds_left, bounds_right):
    """Monolithic limiting: how much of F may flow from the left into the right cell."""
    (low_l, high_l), (low_r, high_r) = bounds_left, bounds_right
    return max(speed * max(low_r - to_right, to_left - high_l),
               min(speed * min(high_r - to_right, to_left - low_l), f))


class Scalar(FiniteVolumes):
    def __init__(self, bench, benchmark, solver):
        super().__init__(bench, benchmark, solver)
        self.scheme, self.problem = solver["cls"], bench["problem"]

    def flux(self, u):
        return u if self.problem == "advection" else u * u / 2

    def speed(self, a, b):
        return 1.0 if self.problem == "advection" else max(abs(a), abs(b))

    def nodes(self, cells):
        result = []
        for k in range(len(cells) - 1):
            a, b = cells[k], cells[k + 1]
            central = (self.flux(a) + self.flux(b)) / 2
            diffusion = self.speed(a, b) * (b - a) / 2
            if self.scheme == "central":
                f = central
            elif self.scheme == "llf":
                f = central - diffusion
            else:
                f = central - diffusion + self._limited(cells, k, diffusion)
            result.append((-f, f))
        return result

    def _limited(self, cells, k, f):
        a, b = cells[k], cells[k + 1]
        speed = self.speed(a, b)
        if speed == 0:
            return 0.0
        bar = (a + b) / 2 - (self.flux(b) - self.flux(a)) / (2 * speed)
        return limited(f, speed, bar, bar, self._bounds(cells, k), self._bounds(cells, k + 1))

    def _bounds(self, cells, i):
        if self.bc[0] == "periodic" and i in (0, len(cells) - 1):
            i = len(cells) - 2 if i == 0 else 1
        around = cells[max(i - 1, 0):i + 2]
        return min(around), max(around)


class Water(FiniteVolumes):
    ambiguous, most_wins = False, False
    step = None  # only the Lax-Wendroff flux depends on it

    def __init__(self, bench, benchmark, solver):
        super().__init__(bench, benchmark, solver)
        self.g, self.solver = bench["g"], solver
        bottom = self.average(lambda x: float(benchmark.bathymetry(x)))
        if np.ptp(bottom) < 1e-14:
            bottom = np.zeros(self.n)
        bottom = [bottom[0], *bottom, bottom[-1]]
        self.bottom = bottom
        self.steps = np.diff(bottom)
        self.networks = {}

    def flux(self, u):
        return np.array([u[1], u[1] ** 2 / u[0] + self.g * u[0] ** 2 / 2])

    def speed(self, a, b):
        return max(abs(u[1] / u[0]) + math.sqrt(self.g * u[0]) for u in (a, b))

    def nodes(self, cells):
        cls, flux = self.solver["cls"], self.solver.get("flux")
        if cls == "coarse":
            return self.simple(flux or "llf", cells)
        if cls == "antidiffusion":
            gamma = self.solver.get("gamma", 0.1)
            result = []
            for k, (to_left, to_right) in enumerate(self.simple(flux or "llf", cells)):
                more = gamma * (cells[k + 1] - cells[k]) / self.dx
                result.append((to_left - more, to_right + more))
            return result
        if cls == "lw":
            return [(to_left - more, to_right + more) for (to_left, to_right), more in zip(
                self.simple("llf", cells), [self.step / self.dx * self.speed(a, b) * (b - a)
                                            for a, b in zip(cells, cells[1:])])]
        if cls == "mcl":
            return self.mcl(self.simple(flux or "central", cells), cells)
        return self.simple(cls, cells)

    def simple(self, flux, cells):
        if flux.startswith("reduced"):
            if flux not in self.networks:
                self.networks[flux] = Network(f"data/{flux}")
            around = [self.beyond[0], *cells, self.beyond[1]]
            more, uncertain = self.networks[flux](
                [np.concatenate(around[k:k + 4]) for k in range(len(cells) - 1)])
            self.uncertainty = 2 * uncertain / self.dx
            return [(left - f, right + f) for (left, right), f in zip(self.simple("llf", cells), more)]
        return [self._node(flux, k, cells[k], cells[k + 1]) for k in range(len(cells) - 1)]

    def _node(self, flux, k, a, b):
        step = self.steps[k]
        if flux == "low-order":
            parts = self._parts(k, a, b)
            speed = parts["speed"]
            return (speed * (parts["to_left"] - a) - self.flux(a),
                    speed * (parts["to_right"] - b) + self.flux(b))
        mean = (a + b) / 2
        if flux == "central":
            f = (self.flux(a) + self.flux(b)) / 2
        elif flux == "llf":
            f = (self.flux(a) + self.flux(b)) / 2 - self.speed(a, b) * (b - a) / 2
        elif flux == "es":
            f = self.flux(mean)
        elif flux == "es1":
            f = self.flux(mean) - self._dissipation(k, a, b)
        source = np.array([0.0, self.g / 2 * mean[0] * step])
        return -f - source, f - source

    def _dissipation(self, k, a, b):
        mean = (a + b) / 2
        v, c = mean[1] / mean[0], math.sqrt(self.g * mean[0])
        norm = 1 / math.sqrt(2 * self.g)
        R = norm * np.array([[1.0, 1.0], [v - c, v + c]])
        L = norm * np.diag([abs(v - c), abs(v + c)])
        jump = self._entropy(b, self.bottom[k + 1]) - self._entropy(a, self.bottom[k])
        return R @ L @ R.T @ jump / 2

    def _entropy(self, u, bottom):
        v = u[1] / u[0]
        return np.array([self.g * (u[0] + bottom) - v * v / 2, v])

    def _parts(self, k, a, b):
        """Bar states of Hajduk and Kuzmin."""
        speed = self.speed(a, b)
        bar = (a + b) / 2 - (self.flux(b) - self.flux(a)) / (2 * speed)
        step = self.steps[k]
        fix = math.copysign(min(abs(step) / 2, bar[0]), step) if step else 0.0
        source = -self.g * (a[0] + b[0]) / 2 * fix / speed
        moved = fix * np.array([1.0, (a[1] / a[0] + b[1] / b[0]) / 2])
        both = np.array([0.0, source])
        return {"speed": speed, "bar": bar, "to_left": bar + moved + both, "to_right": bar - moved + both}

    def mcl(self, high, cells):
        parts = [self._parts(k, cells[k], cells[k + 1]) for k in range(len(cells) - 1)]
        low = self.simple("low-order", cells)
        heights = self._around(lambda p: p["to_left"][0], lambda p: p["to_right"][0], parts)
        for p in parts:
            p["v"] = (p["to_left"][1] + p["to_right"][1]) / (p["to_left"][0] + p["to_right"][0])
        velocities = self._around(lambda p: (p["v"], p["to_left"][1] / p["bar"][0]),
                                  lambda p: (p["v"], p["to_right"][1] / p["bar"][0]), parts)
        result = []
        for k, p in enumerate(parts):
            speed = p["speed"]
            fh, fq = high[k][1] - low[k][1]
            fh = limited(fh, speed, p["to_left"][0], p["to_right"][0], heights[k], heights[k + 1])
            h_l, h_r = p["bar"][0] - fh / speed, p["bar"][0] + fh / speed
            own = speed * (p["to_right"][1] - h_r * p["v"])
            (low_l, high_l), (low_r, high_r) = velocities[k], velocities[k + 1]
            least = speed * max(h_r * (low_r - p["v"]), h_l * (p["v"] - high_l))
            most = speed * min(h_r * (high_r - p["v"]), h_l * (p["v"] - low_l))
            if least > most:  # bounds which exclude each other (negative limited heights) decide nothing
                self.ambiguous = True
            fv = min(most, max(least, fq + own)) if self.most_wins else max(least, min(most, fq + own))
            more = np.array([fh, fv - own])
            result.append((low[k][0] - more, low[k][1] + more))
        return result

    def _around(self, of_right_node, of_left_node, parts):
        """Bounds of each cell (ghost cells included) by the states at its nodes."""
        m = len(parts) + 1
        result = []
        for i in range(m):
            if self.bc[0] == "periodic" and i in (0, m - 1):
                left, right = (parts[-2], parts[0]) if i == 0 else (parts[-1], parts[1])
            else:
                left = parts[i - 1] if i > 0 else None
                right = parts[i] if i < m - 1 else None
            values = [] if left is None else list(np.atleast_1d(of_left_node(left)))
            values += [] if right is None else list(np.atleast_1d(of_right_node(right)))
            result.append((min(values), max(values)))
        return result


class Network:
    """Standardised inputs, linear layers with leaky rectifiers between them, scaled outputs."""

    def __init__(self, directory):
        import torch
        for name in ("model", "input_scaler", "output_scaler"):
            check(os.path.exists(f"{directory}/{name}.pkl"), "network-files",
                  f"the network saved has no file {directory}/{name}.pkl")
        layers = list(torch.load(f"{directory}/model.pkl").values())
        layers = [x.detach().numpy().astype(float) for x in layers]
        self.layers = list(zip(layers[::2], layers[1::2]))
        with open(f"{directory}/input_scaler.pkl", "rb") as f:
            scaler = pickle.load(f)
        self.mean, self.scale = scaler.mean_, scaler.scale_
        with open(f"{directory}/output_scaler.pkl", "rb") as f:
            scaler = pickle.load(f)
        self.out_mean, self.out_scale = scaler.mean_, scaler.scale_

    def __call__(self, inputs):
        """(outputs, how large rounding errors in single precision may be)"""
        x = np.asarray(inputs, np.float32).astype(float)
        y, size = (x - self.mean) / self.scale, (abs(x) + abs(self.mean)) / self.scale
        for k, (weight, bias) in enumerate(self.layers):
            if k:
                y = np.where(y > 0, y, 0.01 * y)
            y, size = y @ weight.T + bias, size @ abs(weight).T + abs(bias)
        size = self.out_scale * size + abs(self.out_mean)
        return self.out_scale * y + self.out_mean, 3e-6 * float(size.max())


# ---------------------------------------------------------------- finite elements
class Elements:
    """Continuous periodic Lagrange elements with equidistant nodes, exactly integrated."""

    def __init__(self, bench, solver):
        self.scheme, self.problem = solver["cls"], bench["problem"]
        self.exact = solver.get("exact_flux", False)
        p, n = solver.get("degree", 1), solver["mesh"]
        self.p, self.n, self.h = p, n, (bench["b"] - bench["a"]) / n
        self.a, self.N = bench["a"], n * p
        nodes = [i / p for i in range(p + 1)]
        self.basis = []
        for i in range(p + 1):
            others = [x for j, x in enumerate(nodes) if j != i]
            self.basis.append(P.polyfromroots(others) / math.prod(nodes[i] - x for x in others))
        self.index = [[(c * p + i) % self.N for i in range(p + 1)] for c in range(n)]
        self.mass, self.gradient = np.zeros((self.N, self.N)), np.zeros((self.N, self.N))
        for row in self.index:
            for i, I in enumerate(row):
                for j, J in enumerate(row):
                    b, d = self.basis[i], self.basis[j]
                    self.mass[I, J] += self.h * _integral(P.polymul(b, d))
                    self.gradient[I, J] += _integral(P.polymul(b, P.polyder(d)))
        self.lumped = self.mass.sum(axis=1)
        self.neighbours = [sorted({J for row in self.index if I in row for J in row}) for I in range(self.N)]

    def initial(self, benchmark):
        return np.array([float(benchmark.initial_data(self.a + self.h * k / self.p)) for k in range(self.N)])

    def flux(self, u):
        return u if self.problem == "advection" else u * u / 2

    def __call__(self, time, u):
        if self.scheme == "cg":
            return np.linalg.solve(self.mass, self._galerkin(u))
        if self.scheme == "cg-low":
            return self._low(u)
        return self._mcl(u)

    def _galerkin(self, u):
        if not self.exact or self.problem == "advection":
            return -self.gradient @ self.flux(u)
        result = np.zeros(self.N)
        for row in self.index:
            inside = sum(u[I] * b for I, b in zip(row, self.basis))
            for i, I in enumerate(row):
                result[I] += _integral(P.polymul(P.polymul(inside, inside) / 2, P.polyder(self.basis[i])))
        return result

    def _diffusion(self, i, j, u):
        c, d = self.gradient[i, j], self.gradient[j, i]
        if self.problem == "advection":
            return max(abs(c), abs(d))
        return max(abs(c * u[j]), abs(d * u[i]))

    def _low(self, u):
        f = self.flux(u)
        return np.array([sum(self._diffusion(i, j, u) * (u[j] - u[i]) - self.gradient[i, j] * (f[j] - f[i])
                             for j in self.neighbours[i] if j != i) / self.lumped[i] for i in range(self.N)])

    def _mcl(self, u):
        low, f = self._low(u), self.flux(u)
        high = [max(u[j] for j in self.neighbours[i]) for i in range(self.N)]
        least = [min(u[j] for j in self.neighbours[i]) for i in range(self.N)]
        more = np.zeros(self.N)
        for row in self.index:
            for s, i in enumerate(row):
                for j in row[s + 1:]:
                    d, c = self._diffusion(i, j, u), self.gradient[i, j]
                    target = self.mass[i, j] * (low[i] - low[j]) + d * (u[i] - u[j])
                    w_i = d * (u[i] + u[j]) + (f[i] - f[j]) * c
                    w_j = d * (u[i] + u[j]) + (f[j] - f[i]) * self.gradient[j, i]
                    flow = max(max(2 * d * least[i] - w_i, w_j - 2 * d * high[j]),
                               min(min(2 * d * high[i] - w_i, w_j - 2 * d * least[j]), target))
                    more[i] += flow
                    more[j] -= flow
        return low + more / self.lumped

    def step(self, u):
        """Largest admissible step of the low order and the limited scheme."""
        sums = [sum(self._diffusion(i, j, u) for j in self.neighbours[i] if j != i) for i in range(self.N)]
        return min((m / (2 * s) if s else math.inf) for m, s in zip(self.lumped, sums))


def _integral(p):
    antiderivative = P.polyint(p)
    return P.polyval(1.0, antiderivative) - P.polyval(0.0, antiderivative)
