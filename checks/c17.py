import numpy as np
import aerokit.common.numspectral as ns
from vf import guarded, EXC, RAISED, MUTATED, SHAPE

RULE = "polynomials of random degree and coefficients on random intervals; every order of differentiation, all the points of small grids, some of large ones"
ASSUMPTIONS = ["up to 40 points for first and second derivatives, 16 for third and fourth (beyond, rounding dominates)"]


def poly(c, t):
    return sum(ck * t ** k for k, ck in enumerate(c))


def drive(tr):
    rng = tr.nrng
    for case in range(tr.n(160, 3000)):
        n = int([2, 3, 4, 5, 6, 7, 8, 11, 12, 16, 25, 40][case % 12])
        a, b = [(None, None), (0, 10.0), (-0.5, 0.8), (2.0, 2.5), (-300.0, 100.0), (1.0, -1.0), (0.0, 1e-3), (None, 3.0), (-4, None), (-2.5, 0.0), (None, 0.0)][case % 11]
        if case >= 36:
            a = float(rng.uniform(-10, 10))
            b = a + float(np.exp(rng.uniform(-5, 5)))
        kw = {k: x for k, x in (("xmin", a), ("xmax", b)) if x is not None}
        op, err = guarded(lambda: ns.ChebCollocation(n, **kw) if case % 2 else ns.ChebCollocation(n, a, b))
        a, b = -1.0 if a is None else a, 1.0 if b is None else b
        who = f"ChebCollocation({n}, {a}, {b})"
        (x, xi), err = guarded(lambda: (op.x, op.xi))[0] if not err else (EXC, EXC), err
        if err or np.shape(x) != (n,) or np.shape(xi) != (n,):
            tr.ev("Point", n, a, b, 0, 0, 0, flags=RAISED if err else SHAPE, note=f"{who}.x {err or ''}")
            continue
        keep = x.copy()
        for i in (range(n) if n < 9 else rng.permutation(n)[:6]):
            tr.ev("Point", n, a, b, int(i), x[i], xi[i], note=who)
        m = min(n, 6)
        mid, h = 0.5 * (a + b), 0.5 * (b - a)
        c = rng.uniform(-1, 1, m) * 10 ** rng.uniform(-2, 2)
        f = poly(c, (x - mid) / h)
        for k in ([1, 2, 3, 4] if n <= 16 else [2, 1]):
            D, err = guarded(op.matder, k)
            fl = RAISED if err else 0
            if not err and np.shape(D) != (n, n):
                fl, err = SHAPE, "shape"
            d = D @ f if not err else [EXC] * n
            for i in (range(n) if n < 6 else rng.permutation(n)[:4]):
                tr.ev("Deriv", n, a, b, k, keep[i], d[i], *c, flags=fl, note=f"{who}.matder({k}) on polynomial {c} at point {i} {err or ''}")
        y = mid + h * rng.uniform(-1, 1, 6)
        y[0], y[1] = a, x[n // 2]
        ff = f.copy()
        shape = [lambda z: z, lambda z: z.reshape(2, 3), lambda z: z[::-1], float][case % 4]
        if shape is float:
            r, err = guarded(op.extrapol, ff, float(y[2]))
            tr.ev("Interp", n, a, b, 0, y[2], r if not err else EXC, *c, flags=RAISED if err else 0, note=f"{who}.extrapol(polynomial {c}, {y[2]}) {err or ''}")
        else:
            z = shape(y.copy())
            zk = z.copy()
            r, err = guarded(op.extrapol, ff, z)
            fl = RAISED if err else 0 if np.shape(r) == np.shape(z) else SHAPE
            if not np.array_equal(f, ff) or not np.array_equal(z, zk):
                fl |= MUTATED
            for i in range(6):
                tr.ev("Interp", n, a, b, 0, zk.ravel()[i], np.ravel(r)[i] if not fl & (RAISED | SHAPE) else EXC, *c, flags=fl,
                      note=f"{who}.extrapol(polynomial {c}) {err or ''}")
        # a complex field: both parts are interpolated
        c2 = rng.uniform(-1, 1, len(c)) * np.max(np.abs(c)) * 10 ** rng.uniform(-6, 0)
        z = mid + h * rng.uniform(-1, 1, 3)
        r, err = guarded(op.extrapol, f + 1j * poly(c2, (x - mid) / h), z.copy())
        fl = RAISED if err else 0 if np.shape(r) == np.shape(z) else SHAPE
        for i in range(3):
            for part, cc in ((np.real, c), (np.imag, c2)):
                tr.ev("Interp", n, a, b, 0, z[i], part(r)[i] if not fl else EXC, *cc, flags=fl, note=f"{who}.extrapol({part.__name__} part of complex polynomials {c}, {c2}) {err or ''}")
        if n <= 16 and case % 3 == 0:
            z = mid + h * np.cos(np.pi * (np.arange(2 * n) + 0.5) / (2 * n))
            r, err = guarded(op.fit_to_gauss, z, poly(c, (z - mid) / h) + 1j * poly(c2, (z - mid) / h))
            fl = RAISED if err else 0 if np.shape(r) == (n,) else SHAPE
            for part, cc in ((np.real, c), (np.imag, c2)):
                tr.ev("Fit", n, a, b, 0, keep[n // 2], part(r)[n // 2] if not fl else EXC, *cc, flags=fl, note=f"{who}.fit_to_gauss({part.__name__} part of complex polynomials {c}, {c2}) {err or ''}")
        if n <= 16:
            z = mid + h * np.concatenate([np.cos(np.pi * (np.arange(2 * n) + 0.5) / (2 * n)), rng.uniform(-1, 1, 3)])
            z = z[rng.permutation(len(z))]
            r, err = guarded(op.fit_to_gauss, z, poly(c, (z - mid) / h))
            fl = RAISED if err else 0 if np.shape(r) == (n,) else SHAPE
            for i in rng.permutation(n)[:4]:
                tr.ev("Fit", n, a, b, 0, keep[i], r[i] if not fl else EXC, *c, flags=fl, note=f"{who}.fit_to_gauss(polynomial {c}) {err or ''}")
        if n <= 6:
            m = n + 3
            z = mid + h * np.sort(rng.uniform(-1, 1, m))
            data = rng.uniform(-1, 1, m)
            r, err = guarded(lambda: op.extrapol(op.fit_to_gauss(z, data), z))
            fl = RAISED if err else 0
            flat = []
            for i in range(m):
                flat += [z[i], data[i], r[i] if not err else EXC]
            tr.ev("Best", n, a, b, m, *flat, flags=fl, note=f"{who}: fit of {m} arbitrary data {err or ''}")
        if not np.array_equal(keep, op.x):
            tr.ev("Point", n, a, b, 0, op.x[0], 0, flags=MUTATED, note=who + " points changed")
