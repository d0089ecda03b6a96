import numpy as np
import aerokit.instance.riemann as ri
from common import gam
from vf import guarded, EXC, RAISED, Raw
from riemann_cases import cases, state, units

RULE = "one event per Riemann problem, built from a chosen star state: all combinations of waves and strengths, mixed gases, units of all sizes"
SHARD = 60
ASSUMPTIONS = ["initial pressures within 1/1000..1000 times the star pressure (120 times for two gases); no vacuum"]


def flat(o, unit=(1.0, 1.0)):
    return [gam(o), o.rho / unit[0], o.u / unit[1], o.p / unit[0] / unit[1] ** 2]


def solve(L, R, how=0, unit=(1.0, 1.0)):
    def f():
        qL, qR = state(L, how, unit), state(R, how, unit)
        p = ri.riemann_pb(qL, qR)
        sl, sr = p.qstarL(), p.qstarR()
        return flat(sl, unit) + flat(sr, unit) + [p.pstar() / unit[0] / unit[1] ** 2, p.ustar() / unit[1], p.left_fastest() / unit[1], p.right_fastest() / unit[1]]
    return guarded(f)


def drive(tr):
    for i, (L, R) in enumerate(cases(tr, tr.n(500, 8000))):
        unit = units(tr, i)
        r, err = solve(L, R, i % 2, unit)
        tr.ev("Solve", *L, *R, *(r if not err else [EXC] * 12), flags=RAISED if err else 0, note=f"riemann_pb({L}, {R}) in units {unit} {err or ''}")
        if err or i % 3:
            continue
        c = 0.0
        m = (i // 3) % 2
        if m:
            L2, R2 = (R[0], R[1], -R[2], R[3]), (L[0], L[1], -L[2], L[3])
        else:
            c = float(tr.nrng.normal()) * np.sqrt(L[3] / L[1])
            L2, R2 = (L[0], L[1], L[2] - c, L[3]), (R[0], R[1], R[2] - c, R[3])
        r2, err = solve(L2, R2)
        tr.ev("Same", *r[:8], *(r2[:8] if not err else [EXC] * 8), c, m, flags=RAISED if err else 0, note=f"riemann_pb({L2}, {R2}) against {L}, {R} {err or ''}")
