import numpy as np
import aerokit.stability.OrrSommerfeld as OS
from os_cases import Flow, probe
from vf import guarded, EXC

SHARD = 150
RULE = "random parabolic profiles, intervals, real and complex wave numbers, Reynolds 1 to 6e7; random perturbations of degree 5 at interior points and walls"
ASSUMPTIONS = ["7 to 16 points: the operator is exact for these polynomials, and rounding of the fourth derivative stays small"]


def drive(tr):
    rng = tr.nrng
    for k in range(tr.n(160, 4500)):
        n = int([7, 9, 12, 16][k % 4])
        pois = k % 5 == 4
        a, b = (-1.0, 1.0) if pois else [(-1.0, 1.0), (0.0, 5.0), (0.5, 0.8), (1.0, -1.0), (-10, 30)][(k // 2) % 5]
        f = Flow(rng, n, a, b, complexk=k % 4 == 3, poiseuille=pois)
        who = f"n {n} [{a},{b}] alpha {f.k:.3f} Re {f.re:.1f} U {f.u}"
        if pois:
            op, err = guarded(OS.Poiseuille, n, f.k, f.re) if k % 2 else guarded(lambda: OS.Poiseuille(n=n, alpha=f.k, Reynolds=f.re))
            who = "Poiseuille " + who
        elif k % 3:
            op, err = guarded(OS.OrrSommerfeldModel, n, a, b, f.base())
        else:
            op, err = guarded(OS.OrrSommerfeldModel, n, xmin=a, xmax=b)
            guarded(lambda: op.set_basestate({**f.base(), "comment": "not used"}))
        if not pois:
            guarded(lambda: op.set_BC(*[("wall", "wall"), ({"type": "wall"}, "wall")][k % 2]))
        mats, err = guarded(lambda: op.get_RHS_time_matrices())
        who += f" {err or ''}"
        for i in 2 + rng.permutation(n - 4)[:4]:
            probe(tr, f, mats, int(i), note=who)
        probe(tr, f, mats, 0, name="Wall", note=who)
        probe(tr, f, mats, n - 1, name="Wall", note=who)
        if k % 5 == 0:
            keys = ["alpha", "Reynolds", "uprofile"]
            drop = [keys[:1], keys[1:2], keys[2:], keys[:2], keys[1:], keys][(k // 5) % 6]
            bad = {x: y for x, y in f.base().items() if x not in drop}
            _, err = guarded(lambda: OS.OrrSommerfeldModel(n, a, b, basestate=bad))
            tr.ev("Bad", bool(err and err.startswith("DictKeyError")), note=f"base state without {drop}: {err}")
