import numpy as np
import aerokit.aero.degree as d
from vf import guarded, EXC, RAISED, SHAPE, MUTATED

RULE = "multiples of 15 degrees and random angles up to 3e5 degrees, values in [-1, 1] and beyond, points in all directions, at lengths from 1e-6 to 3e6, and on the axes; scalars and arrays of any shape"


def call(f, *a):
    keep = [np.array(z, copy=True) for z in a]
    r, err = guarded(f, *a)
    fl = RAISED if err else SHAPE if np.shape(r) != np.broadcast(*keep).shape else 0
    if any(not np.array_equal(p, q) for p, q in zip(keep, a)):
        fl |= MUTATED
    return np.ravel(r) if not fl & (RAISED | SHAPE) else np.full(np.broadcast(*keep).size, EXC), fl


def drive(tr):
    rng = tr.nrng
    for k in range(tr.n(320, 4000)):
        shape = [(), (5,), (2, 3), (1,)][k % 4]
        n = int(np.prod(shape)) if shape else 1
        ways = (k // 4) % 4
        a = (rng.integers(-50, 50, n) * 15.0, rng.uniform(-400, 400, n), rng.uniform(-1, 1, n) * 10 ** rng.uniform(-6, 4, n),
             rng.choice([-1, 1]) * 10 ** rng.uniform(3, 5.5, n))[ways]
        x = rng.uniform(-1, 1, n) if k % 3 else rng.choice([-1, -0.5, 0, 0.5, 1.0], n)
        t = rng.uniform(-1, 1, n) * 10 ** rng.uniform(-4, 4, n)
        # one length for the whole call and one direction per point or one quadrant for all of them
        far = 10 ** rng.uniform(-6, 6) if k % 5 else 1e4
        py, px = far * rng.uniform(-3, 3, n), far * rng.uniform(-3, 3, n)
        if ways % 2:
            py, px = rng.choice([-1, 1]) * np.abs(py), rng.choice([-1, 1]) * np.abs(px)
        if k % 3 == 0:
            py[rng.integers(n)] = 0.0
        if k % 3 == 1:
            px[rng.integers(n)] = 0.0
        a, x, t, py, px = [z.reshape(shape) if shape else float(z[0]) for z in (a, x, t, py, px)]
        if k % 12 == 4:
            px = float(np.ravel(px)[0])
        c, f1 = call(d.cos, a)
        s, f2 = call(d.sin, a)
        tg, f3 = call(d.tan, a)
        ac, g1 = call(d.acos, x)
        asn, g2 = call(d.asin, x)
        at, g3 = call(d.atan, t)
        ar, h = call(d.atan2, py, px)
        for i in range(n):
            tr.ev("Direct", np.ravel(a)[i], c[i], s[i], tg[i], flags=f1 | f2 | f3, note=f"angle {np.ravel(a)[i]} shape {shape}")
            tr.ev("Inverse", np.ravel(x)[i], ac[i], asn[i], np.ravel(t)[i], at[i], flags=g1 | g2 | g3, note=f"values {np.ravel(x)[i]} {np.ravel(t)[i]} shape {shape}")
            y0, x0 = np.broadcast_arrays(py, px)
            tr.ev("Arg", np.ravel(y0)[i], np.ravel(x0)[i], ar[i], flags=h, note=f"atan2({np.ravel(y0)[i]}, {np.ravel(x0)[i]}) shape {shape}")
