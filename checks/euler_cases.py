"""Base states and probes of the linearised Euler operator, shared by C19, C20 and C22."""
import numpy as np
import aerokit.stability.Euler as Euler
import aerokit.aero.model1D as m1d
from c17 import poly
from vf import guarded, EXC, RAISED, SHAPE


class Case:
    """polynomial base state on an interval"""

    def __init__(self, rng, n, a, b, g, uniform=False, subsonic=None, nondim=False):
        self.n, self.a, self.b, self.g = n, float(a), float(b), float(g)
        rho0, a0 = np.exp(rng.uniform(-2, 2)), np.exp(rng.uniform(-1, 3))
        if nondim:
            rho0, a0 = np.exp(rng.uniform(-0.5, 0.5, 2))
        p0 = rho0 * a0 ** 2 / g
        m = rng.uniform(1.4 * ((g - 1) / (2 * g)) ** 0.5, 0.9) if subsonic else rng.uniform(-2, 2)
        k = 0.0 if uniform else 0.15
        self.rho = rho0 * np.array([1, *rng.uniform(-k, k, 2)])
        self.u = a0 * np.array([m, *rng.uniform(-k, k, 2)])
        self.p = p0 * np.array([1, *rng.uniform(-k, k, 2)])
        if subsonic:
            self.u = a0 * m * np.array([1, *rng.uniform(-k, k, 2) * 0.5])

    def fields(self):
        return (self.n, self.a, self.b, self.g, *self.rho, *self.u, *self.p)

    def t(self):
        return -np.cos(np.pi * np.arange(self.n) / (self.n - 1))

    def state(self, garray=False):
        t = self.t()
        one = np.ones(self.n)
        return m1d.state(rho=poly(self.rho, t) * one, u=poly(self.u, t) * one, p=poly(self.p, t) * one, gamma=self.g * one if garray else self.g)

    def perturbation(self, rng):
        scale = [abs(self.rho[0]), abs(self.u).max() + 0.1, self.p[0]]
        c = [rng.uniform(-1, 1, 3) * s for s in scale]
        t = self.t()
        return c, np.concatenate([poly(k, t) for k in c])


def probe(tr, op, case, mats, i, extra=(), name=None, pre=None, note=""):
    """record rows of B and At of the three equations at point i applied to a random perturbation"""
    n = case.n
    c, q = case.perturbation(tr.nrng)
    fl = 0
    out = [EXC] * 6
    if mats is EXC:
        fl = RAISED
    else:
        B, A = mats
        if B.shape != A.shape or B.shape[0] < 3 * n:
            fl = SHAPE
        else:
            rows = [i, n + i, 2 * n + i]
            out = [B[r, :3 * n] @ q for r in rows] + [A[r, :3 * n] @ q for r in rows]
            if any(abs(np.imag(o)) > 0 for o in out):
                fl = SHAPE
            out = [float(np.real(o)) for o in out]
    head = case.fields() if pre is None else pre
    tr.ev(name or "Inside", *head, i, *c[0], *c[1], *c[2], *out, flags=fl, note=note + f" point {i}")


def shock_rows(op, case, mats):
    """three rows (rho', u', p', dx, s) of the shock condition at the left, and the largest other entry of the time operator"""
    n = case.n
    if mats is EXC:
        return [EXC] * 16, RAISED
    B, A = mats
    if B.shape != (3 * n + 1, 3 * n + 1) or A.shape != B.shape:
        return [EXC] * 16, SHAPE
    out = []
    other = 0.0
    for r in (0, 3 * n, 2 * n):
        row = B[r].copy()
        out += [row[0], row[n], row[2 * n], row[3 * n], -A[r, 3 * n]]
        row[[0, n, 2 * n, 3 * n]] = 0
        other = max(other, np.abs(row).max(), np.abs(A[r, :3 * n]).max())
    return out + [other], 0
