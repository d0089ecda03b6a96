import numpy as np
import aerokit.aero.Propulsion as P
from common import plan, gam
from vf import guarded, EXC, RAISED, SHAPE, MUTATED

RULE = "Mach 0.05 to 12, gamma 1.1 to 1.67 (default, positional, keyword); inverse from default and given starts, scalars and arrays"
ASSUMPTIONS = ["inverse: Mach 1.25 to 3 from the default start, 0.4 to 0.8 from 0.5, where the secant iteration converges"]


def shaped(x, k):
    return float(x[0]) if k == 0 else x if k == 1 else x.reshape(2, -1) if k == 2 else x[:1]


def call(f, *a, **kw):
    keep = [np.array(z, copy=True) for z in a]
    r, err = guarded(f, *a, **kw)
    shape = np.broadcast(*keep).shape
    fl = RAISED if err else SHAPE if np.shape(r) != shape else 0
    if any(not np.array_equal(p, q) for p, q in zip(keep, a)):
        fl |= MUTATED
    return np.ravel(r) if not fl & (RAISED | SHAPE) else np.full(int(np.prod(shape)), EXC), fl, err


def drive(tr):
    rng = tr.nrng
    for k in range(tr.n(120, 4000)):
        g = [1.4, 1.4, 1.3, float(rng.uniform(1.1, 1.67))][k % 4]
        kw = {} if k % 4 == 0 else dict(gamma=g)
        m = np.exp(rng.uniform(np.log(0.05), np.log(12 if g > 1.2 else 6), 4))
        if k % 5 == 0:
            m[1] = 1.0
        x = shaped(m, (k // 4) % 4)
        r, fl, err = call(P.ThrustFunction, x, **kw) if k % 3 else call(lambda z: P.ThrustFunction(z, g), x)
        for i, z in enumerate(np.ravel(x)):
            tr.ev("Direct", g, z, r[i], flags=fl, note=f"ThrustFunction({z}, {kw or g}) {err or ''}")
        sup = (k // 2) % 2
        m = rng.uniform(1.25, 3, 4) if sup else rng.uniform(0.4, 0.8, 4)
        # thrust of the flow, computed here
        t = (1 + g * m ** 2) / m * ((2 / (g + 1)) * (1 + (g - 1) / 2 * m * m)) ** ((g + 1) / 2 / (g - 1)) / (1 + (g - 1) / 2 * m * m) ** (g / (g - 1))
        t = shaped(t, (k // 4) % 4)
        start = {} if sup and k % 4 < 2 else dict(Mach=float(rng.uniform(1.6, 2.4)) if sup else 0.5)
        if start and k % 7 == 0 and np.ndim(t):
            start = dict(Mach=np.full(np.shape(t), start["Mach"]))
        if k % 5 == 3 and np.size(t) == 4:  # both branches in one array
            m = np.where([True, False, True, False], rng.uniform(1.3, 2.9, 4), rng.uniform(0.45, 0.75, 4)).reshape(np.shape(t))
            t = (1 + g * m ** 2) / m * ((2 / (g + 1)) * (1 + (g - 1) / 2 * m * m)) ** ((g + 1) / 2 / (g - 1)) / (1 + (g - 1) / 2 * m * m) ** (g / (g - 1))
            start = dict(Mach=np.where(m > 1, 2.0, 0.5))
        r, fl, err = call(P.Mach_ThrustFunction, t, **start, **kw)
        for i, z in enumerate(np.ravel(t)):
            tr.ev("Inverse", g, z, np.broadcast_to(start.get("Mach", 2.0), np.shape(t)).ravel()[i], r[i], flags=fl, note=f"Mach_ThrustFunction({z}, {start}, {kw}) {err or ''}")
