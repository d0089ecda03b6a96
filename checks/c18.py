import numpy as np
import aerokit.common.numspectral as ns
from aerokit.common._dev import lazyprop
from c17 import poly
from vf import generate, picks, guarded, EXC, RAISED, MUTATED, SHAPE, REPEAT

RULE = "histories of matder (any order of orders), points, interpolation and fit on two objects, generated by the specification"
N = [5, 6, 8, 4, 11, 9]
AB = [(-1.0, 1.0), (0.0, 10.0), (-0.5, 0.8), (3.0, 2.0)]


class Holder:
    def __init__(self, k):
        self.k, self.count = k, 0

    @lazyprop
    def value(self):
        self.count += 1
        return self.k ** 2 + 1.0

    @lazyprop
    def other(self):
        return -self.k


def drive(tr):
    for h, states in enumerate(generate("C18gen", "C18gen", tr.rng.randrange(2 ** 31), tr.n(120, 1600), 16, invariant="inv")):
        tr.begin()
        tr.ev("Begin")
        replay(tr, states)
        hs = [Holder(float(k)) for k in (2, 3, 0)]
        for k in (0, 1, 0, 2, 2, 1, 0):
            o, _ = guarded(lambda: hs[k].other)
            r, err = guarded(lambda: hs[k].value)
            tr.ev("Cached", k, hs[k].k, r if not err else EXC, hs[k].count, flags=RAISED if err else REPEAT if o != -hs[k].k else 0, note=f"cached property of holder {k}")
        tr.end()


def replay(tr, states):
    rng = tr.nrng
    objs = [None, None]
    handed, buffers = [], {}

    def own(key, z):
        """the values in an array of the caller, half of the time one used before"""
        z = np.array(z, dtype=float)
        if rng.integers(2):
            b = buffers.setdefault((key, z.shape), z)
            b[...] = z
            return b
        return z

    def frozen():
        return 0 if all(np.array_equal(x, y) for x, y in handed) else MUTATED

    for st in states[1:]:
        a, p = st["mbt::actionTaken"], picks(st)
        o = p["o"]
        if a == "New":
            n, (xa, xb) = N[p["dim"]], AB[p["interval"]]
            like = objs[1 - o] or objs[o]
            if like and rng.random() < 0.6:      # an operator much like another one
                _, n, xa, xb = like
                n, xa, xb = [(n, xb, xa), (n, -xa, -xb), (n, xa + 1.0, xb + 1.0), (n + 1, xa, xb), (n, xa, xa + 2 * (xb - xa)), (n, -xb, -xa), (n, xa, xb)][rng.integers(7)]
            op, err = guarded(ns.ChebCollocation, n, xa, xb)
            tr.ev("New", o, n, xa, xb, flags=RAISED if err else 0, note=f"object {o} = ChebCollocation({n}, {xa}, {xb})")
            objs[o] = (op, n, xa, xb) if not err else None
            continue
        if objs[o] is None:
            continue
        op, n, xa, xb = objs[o]
        t = -np.cos(np.pi * np.arange(n) / (n - 1))
        x = 0.5 * (xa + xb) + 0.5 * (xb - xa) * t
        c = np.concatenate([rng.uniform(-1, 1, min(n, 5)), np.zeros(5)])[:5]
        if a == "Matder":
            D, err = guarded(op.matder, p["k"])
            fl = RAISED if err else 0 if np.shape(D) == (n, n) else SHAPE
            d = D @ poly(c, t) if not fl else [EXC] * n
            if not fl:
                handed.append((D, np.array(D)))
            for i in rng.permutation(n)[:3]:
                tr.ev("Deriv", o, p["k"], x[i], d[i], *c, flags=fl | frozen(), note=f"object {o}: matder({p['k']}) at point {i} {err or ''}")
        elif a == "Points":
            r, err = guarded(lambda: (op.x, op.xi))
            fl = RAISED if err else 0 if np.shape(r[0]) == (n,) == np.shape(r[1]) else SHAPE
            if not fl:
                handed += [(q, q.copy()) for q in r]
            for i in rng.permutation(n)[:3]:
                tr.ev("Point", o, int(i), r[0][i] if not fl else EXC, r[1][i] if not fl else EXC, flags=fl | frozen(), note=f"points of object {o} {err or ''}")
        elif a == "Interp":
            y = 0.5 * (xa + xb) + 0.5 * (xb - xa) * rng.uniform(-1, 1, 3)
            r, err = guarded(op.extrapol, own((o, 0), poly(c, t)), own((o, 1), y))
            fl = RAISED if err else 0 if np.shape(r) == (3,) else SHAPE
            for i in range(2):
                tr.ev("Interp", o, 0, y[i], r[i] if not fl else EXC, *c, flags=fl | frozen(), note=f"object {o}: extrapol {err or ''}")
        elif a == "Fit":
            s = np.concatenate([t * 0.99, rng.uniform(-1, 1, 4)])
            r, err = guarded(op.fit_to_gauss, own((o, 2), 0.5 * (xa + xb) + 0.5 * (xb - xa) * s), own((o, 3), poly(c, s)))
            fl = RAISED if err else 0 if np.shape(r) == (n,) else SHAPE
            for i in rng.permutation(n)[:2]:
                tr.ev("Fit", o, 0, x[i], r[i] if not fl else EXC, *c, flags=fl | frozen(), note=f"object {o}: fit_to_gauss {err or ''}")
        elif a == "BadOrder":
            guarded(op.matder, 0)
