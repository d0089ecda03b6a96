"""Flows and probes of the Orr-Sommerfeld operator, shared by C19, C21 and C22."""
import numpy as np
from c17 import poly
from vf import EXC, RAISED, SHAPE


class Flow:
    def __init__(self, rng, n, a, b, complexk=False, poiseuille=False):
        self.n, self.a, self.b = n, float(a), float(b)
        k = np.exp(rng.uniform(-2, 1.5)) * rng.choice([1, 1, -1])
        self.k = complex(k, rng.uniform(-0.5, 0.5)) if complexk else float(k)
        self.re = float(np.exp(rng.uniform(0, 10) if rng.random() < 0.7 else rng.uniform(10, 18)))
        self.u = rng.uniform(-2, 2, 3)
        if poiseuille:
            self.k, self.u = abs(float(k)), np.array([1.0, 0.0, -1.0])

    def fields(self):
        k = complex(self.k)
        return (self.n, self.a, self.b, k.real, k.imag, self.re, *self.u)

    def t(self):
        return -np.cos(np.pi * np.arange(self.n) / (self.n - 1))

    def profile(self, x):
        return poly(self.u, (x - 0.5 * (self.a + self.b)) / (0.5 * (self.b - self.a)))

    def base(self):
        return {"alpha": self.k, "Reynolds": self.re, "uprofile": self.profile}


def parts(*zs):
    out = []
    for z in zs:
        out += [EXC, EXC] if z is EXC else [float(np.real(z)), float(np.imag(z))]
    return out


def probe(tr, flow, mats, i, name="Inside", pre=None, note=""):
    n = flow.n
    c = tr.nrng.uniform(-1, 1, 6)
    v = poly(c, flow.t())
    fl, out = 0, [EXC] * 2
    wall = name.endswith("Wall")
    rows = [i] if not wall else [0, 1] if i == 0 else [n - 2, n - 1]
    out = [EXC] * (2 * len(rows))
    if mats is EXC:
        fl = RAISED
    elif np.shape(mats[0]) != (n, n) or np.shape(mats[1]) != (n, n):
        fl = SHAPE
    else:
        out = [mats[0][r] @ v for r in rows] + [mats[1][r] @ v for r in rows]
    tr.ev(name, *(flow.fields() if pre is None else pre), i, *c, *parts(*out), flags=fl, note=note + f" point {i}")
