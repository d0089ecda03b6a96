import numpy as np
import aerokit.instance.riemann as ri
from common import gam
from vf import guarded, EXC, RAISED, MUTATED, SHAPE, REPEAT
from riemann_cases import cases, state, units
from c10 import flat

RULE = "one behaviour per Riemann problem: the solution, then every sampled point, in several orders, in and around every wave"
SHARD = 250
ASSUMPTIONS = ["samples taken as one-dimensional arrays of x/t"]


def drive(tr):
    for i, (L, R) in enumerate(cases(tr, tr.n(150, 3000))):
        unit = units(tr, i)

        def f():
            qL, qR = state(L, 0, unit), state(R, 0, unit)
            p = ri.riemann_pb(qL, qR)
            if i % 2:  # the states belong to the caller, who goes on with them
                for q in (qL, qR):
                    q.compute_from_pt_rtt_M(3.0 * q.p, 2.0 * q.p / q.rho, 0.7)
            return p, (flat(p.qstarL(), unit) + flat(p.qstarR(), unit)
                       + [p.pstar() / unit[0] / unit[1] ** 2, p.ustar() / unit[1], p.left_fastest() / unit[1], p.right_fastest() / unit[1]])
        r, err = guarded(f)
        tr.begin()
        tr.ev("Problem", *L, *R, *(r[1] if not err else [EXC] * 12), flags=RAISED if err else 0, note=f"riemann_pb({L}, {R}) {err or ''}")
        if err:
            tr.end()
            continue
        p, s = r
        aL, aR = np.sqrt(s[0] * s[3] / s[1]), np.sqrt(s[4] * s[7] / s[5])
        b = [float(x) for x in (s[10], s[2] - aL, s[9], s[6] + aR, s[11])]
        w = max(b) - min(b)
        xs = []
        for k in range(5):
            xs += [b[k] - 1e-4 * w, b[k] + 1e-4 * w]
            if k < 4:
                lo, hi = min(b[k], b[k + 1]), max(b[k], b[k + 1])
                xs += list(tr.nrng.uniform(lo, hi, 2))
        xs += [min(b) - w, max(b) + w, 0.0] + b
        x = np.array(xs, dtype=float) * unit[1]
        if i % 3 == 0:
            x = np.sort(x)
        elif i % 3 == 1:
            x = x[tr.nrng.permutation(len(x))]
        parts = [x] if i % 4 else [x[:1], x[1:]]
        for xx in parts:
            keep = xx.copy()
            q, err = guarded(p.qsol, xx)
            fl = 0
            if err:
                tr.ev("Sample", xx[0] / unit[1], *[EXC] * 4, flags=RAISED, note=f"qsol({xx}) raised {err}")
                continue
            if not np.array_equal(xx, keep):
                fl |= MUTATED
            if any(np.shape(y) != np.shape(keep) for y in (q.rho, q.u, q.p)):
                fl |= SHAPE
            q2, err = guarded(p.qsol, keep.copy())
            if err or not (np.array_equal(q.rho, q2.rho, equal_nan=True) and np.array_equal(q.p, q2.p, equal_nan=True)):
                fl |= REPEAT
            g = np.broadcast_to(gam(q), keep.shape)
            for j in range(len(keep)):
                tr.ev("Sample", keep[j] / unit[1], g[j], *[np.ravel(y)[j] / z if np.size(y) > j else EXC for y, z in ((q.rho, unit[0]), (q.u, unit[1]), (q.p, unit[0] * unit[1] ** 2))], flags=fl,
                      note=f"qsol at x/t={keep[j]!r} of riemann_pb({L}, {R}) in units {unit}")
        tr.end()
