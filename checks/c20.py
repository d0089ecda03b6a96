import numpy as np
import aerokit.stability.Euler as Euler
from euler_cases import Case, probe, shock_rows
from vf import guarded, EXC

SHARD = 150
RULE = "random polynomial base states, intervals, gas and boundary conditions; random polynomial perturbations at interior and boundary points"
ASSUMPTIONS = ["base state and perturbations are quadratic in x on 4 to 14 points (the operator is exact for them)", "shock condition at the left end with the upstream Mach gradient given"]


def drive(tr):
    rng = tr.nrng
    for k in range(tr.n(300, 12000)):
        kind = ["sym", "per", "RH", "sym"][k % 4]
        n = int([4, 5, 7, 10, 14][k % 5])
        a, b = [(0.0, 1.0), (-1.0, 1.0), (2.0, 2.25), (-3.0, 7.0), (1.0, -1.0)][(k // 2) % 5]
        grad = 0.0
        if kind == "RH":
            a, b = [(0.0, 1e-4), (3.0, 3.0005), (-0.001, 0.0)][k % 3]
            grad = float(rng.uniform(-3, 3)) if k % 3 else [0.0, 1, 0, -2.5][k // 3 % 4]     # also a uniform upstream flow
        case = Case(rng, n, a, b, rng.uniform(1.1, 2.0), uniform=k % 7 == 6, subsonic=kind == "RH")
        st = case.state(garray=k % 6 == 5)
        if k % 3:
            op, err = guarded(Euler.Euler1D, n, a, b, basestate=st)
        else:
            op, err = guarded(Euler.Euler1D, n, xmin=a, xmax=b)
            guarded(lambda: op.set_basestate(st))
        who = f"Euler1D({n}, {a}, {b}) gamma {case.g:.3f} {kind}"
        if kind == "RH":
            bc = ({"type": "RH", "dM0dx": grad}, "sym")
        else:
            bc = [(kind, kind), ({"type": kind}, {"type": kind})][k % 2]
        guarded(lambda: op.set_BC(*bc))
        mats, err = guarded(lambda: op.get_RHS_time_matrices())
        who += f" {err or ''}"
        for i in (range(1, n - 1) if n < 6 else 1 + rng.permutation(n - 2)[:4]):
            probe(tr, op, case, mats, int(i), name="Inside", note=who)
        if kind == "per":
            probe(tr, op, case, mats, 0, name="Per", note=who)
            probe(tr, op, case, mats, n - 1, name="Per", note=who)
        else:
            probe(tr, op, case, mats, n - 1, name="Sym", note=who)
            if kind == "sym":
                probe(tr, op, case, mats, 0, name="Sym", note=who)
            else:
                probe(tr, op, case, mats, 0, name="Momentum", note=who)
                rows, fl = shock_rows(op, case, mats)
                tr.ev("Shock", *case.fields(), grad, *rows, flags=fl, note=who + f" dM0dx={grad}")
