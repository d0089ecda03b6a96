import numpy as np
import aerokit.instance.unsteady_inflow as ui
from common import gam
from vf import guarded, EXC, RAISED
from riemann_cases import side, state, units
from c10 import flat

RULE = "one behaviour per initial state: several reservoirs solved one after another with the same object"
SHARD = 60
ASSUMPTIONS = ["subsonic inflow (Mach 0.05..0.95, or backwards up to Mach 0.2 from a reservoir at least as hot), initial pressure within 0.3..5 times the solution"]


def num(x):
    return x if x is EXC else np.ravel(x)[0]


def drive(tr):
    G = [1.4, 1.3, 5 / 3, 1.1, 1.2, 2.0]
    for i in range(tr.n(160, 12000)):
        g = G[i % 6] if i < 24 else float(tr.nrng.uniform(1.1, 2.0))
        scale = [1.0, 1e5][i % 2]
        rho, p = float(np.exp(tr.nrng.uniform(-1, 1))), scale * float(np.exp(tr.nrng.uniform(-0.5, 0.5)))
        # reservoirs reached from this state: choose p*, velocity from a common frame
        u = 0.0
        ks = [float(k) for k in np.exp(tr.nrng.uniform(np.log(0.35), np.log(3.0), 3))]
        du = [side(g, rho, p, p / k) for k in ks]
        rts = p / rho * float(np.exp(tr.nrng.uniform(-0.7, 0.7)))
        back = i % 4 == 1                  # a slow flow back into the reservoir
        if back:
            ks, du, rts = [max(k, 0.6) for k in ks], [], max(rts, p / rho)
            du = [side(g, rho, p, p / k) for k in ks]
        a = np.sqrt(g * rts)
        # velocity of the initial state so that every reservoir gives an inflow
        m1, m2 = (-0.2, 0.02) if back else (0.06, 0.9)
        lo = max([m1 * a - d for d in du])
        hi = min([m2 * a - d for d in du])
        if lo > hi:
            ks, du = ks[:1], du[:1]
            lo, hi = m1 * a - du[0], m2 * a - du[0]
        u = float(tr.nrng.uniform(lo, hi))
        unit = units(tr, i)
        up = unit[0] * unit[1] ** 2
        q = state((g, rho, u, p), 0, unit)
        tr.begin()
        tr.ev("New", g, rho, u, p, note=f"inflow_pb(rho={rho}, u={u}, p={p}, gamma={g})")
        pb, err = guarded(ui.inflow_pb, q)
        if err:
            tr.ev("New", g, rho, u, p, flags=RAISED, note=f"inflow_pb raised {err}")
            continue
        given = flat(q, unit)
        if i % 3 == 0:  # the state belongs to the caller, who goes on with it
            q.compute_from_pt_rtt_M(3.0 * p * up, 2.0 * p / rho * unit[1] ** 2, 0.7)
        held = flat(q, unit)
        for k, d in zip(ks + ks[:1], du + du[:1]):
            ps, us = p / k, u + d
            m2 = us ** 2 / (g * rts)
            tt = 1 + 0.5 * (g - 1) * m2
            pt0, rtt0 = float(ps * tt ** (g / (g - 1))), float(rts * tt)

            def f():
                pb.solve_with_pt0_rtt0(pt0 * up, rtt0 * unit[1] ** 2)
                return flat(pb.qstarL(), unit) + flat(pb.qstarR(), unit) + [pb.pstar() / up, pb.ustar() / unit[1]]
            r, err = guarded(f)
            tr.ev("Solve", *(given if flat(q, unit) == held else flat(q, unit)), pt0, rtt0, *([num(x) for x in r] if not err else [EXC] * 10), flags=RAISED if err else 0,
                  note=f"solve_with_pt0_rtt0({pt0}, {rtt0}) from rho={rho}, u={u}, p={p}, gamma={g} in units {unit} {err or ''}")
        tr.end()
