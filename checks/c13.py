import numpy as np
import aerokit.instance.nozzle as nz
import aerokit.aero.nozzle as nza
from vf import guarded, EXC, RAISED, MUTATED, SHAPE

RULE = "one behaviour per section ratio: its limits, then pressure ratios inside, around and exactly at every limit"
ASSUMPTIONS = ["the functions have no gamma argument: the gas is the initial default one (gamma 1.4)", "section ratios up to 40 (exit Mach 5.5)"]
SHARD = 300


def drive(tr):
    n = tr.n(180, 2500)
    A = np.concatenate([[1.0001, 1.01, 1.1, 1.8, 2.0, 3.0, 6.0, 10.0, 25.0, 40.0], np.exp(tr.nrng.uniform(np.log(1.001), np.log(30.0), n - 10))])
    fs = (nz.NPR_choked_subsonic, nz.NPR_shock_at_exit, nz.NPR_choked_supersonic)
    # the limits of many nozzles at once
    for k in range(0, n, 18):
        Ak = A[k:k + 18]
        how = (k // 18) % 3
        arg = Ak.copy() if how == 0 else Ak.reshape(3, -1).copy() if how == 1 else Ak
        keep = np.array(arg)
        fl, lim, note = 0, [], "limits of an array of section ratios"
        for f in fs:
            r, err = guarded(f, arg)
            if err:
                fl |= RAISED
                lim.append(np.full(len(Ak), np.nan))
                note += f" {f.__name__} raised {err}"
                continue
            if np.shape(r) != np.shape(keep):
                fl |= SHAPE
            lim.append(np.ravel(r) if np.size(r) == len(Ak) else np.full(len(Ak), np.nan))
        if not np.array_equal(keep, arg):
            fl |= MUTATED
        for i, a in enumerate(Ak):
            tr.begin()
            tr.ev("Limits", keep.ravel()[i], *[x[i] for x in lim], flags=fl, note=note + f" {a}")
            flows(tr, float(keep.ravel()[i]), [float(x[i]) for x in lim], nza if i % 7 == 0 else nz)
            tr.end()
    for a in (1, 2, 3, 7):
        tr.begin()
        r = [guarded(f, a)[0] for f in fs]
        tr.ev("Limits", a, *r, note=f"limits of {a}")
        flows(tr, a, [float(x) for x in r], nz)
        tr.end()


def flows(tr, a, lim, mod):
    if not all(np.isfinite(lim)):
        return
    n0, nsw, n1 = lim
    u = tr.nrng.uniform
    pts = [1 + (n0 - 1) * u(0.05, 0.95), 1 + (n0 - 1) * 0.999, n0 * (1 + 1e-4 * (nsw / n0 - 1)), n0 + (nsw - n0) * u(0.1, 0.5),
           n0 + (nsw - n0) * u(0.5, 0.95), nsw * (1 - 1e-5), nsw * (1 + 1e-5), nsw + (n1 - nsw) * u(0.05, 0.5), nsw + (n1 - nsw) * u(0.5, 0.95),
           n1 * (1 + 1e-9), n1 * u(1.01, 2), n1 * u(2, 20)]
    take = tr.nrng.permutation(len(pts))[:tr.n(9, 12)]
    for k in take:
        x = float(pts[k])
        if x <= 1:
            continue
        r1, e1 = guarded(mod.Ms_from_AsAc_NPR, a, x)
        r2, e2 = guarded(mod.Madapt_from_AsAc_NPR, a, x)
        fl = RAISED if e1 or e2 else 0
        if not fl and (np.size(r1) != 1 or np.size(r2) != 1):
            fl |= SHAPE
        tr.ev("Flow", x, r1 if not e1 else EXC, r2 if not e2 else EXC, flags=fl, note=f"exit/adapted Mach of As/Ac={a!r}, NPR={x!r} {e1 or ''} {e2 or ''}")
