import numpy as np
import aerokit.aero.Isentropic as Is
from common import plan, machs, pick, scalarlike

SPEC = "C01"
RULE = "one event per point of a call; stratified gamma, Mach, shape of the input and way of passing gamma"


def drive(tr):
    for g, gmode, mode in plan(tr):
        M = machs(tr, 0.0, 30.0, 5, special=(0.0, 1e-3, 0.5, 1.0, 2.0))
        c = pick(tr, M, mode)
        tr.sweep("TtTs", Is.TtTs_Mach, c, g, gmode, mode)
        tr.sweep("PtPs", Is.PtPs_Mach, c, g, gmode, mode)
        T = np.concatenate([[1.0, 1.2], 1 + 0.5 * (g - 1) * machs(tr, 1e-3, 30, 6) ** 2])
        tr.sweep("InvT", Is.Mach_TtTs, pick(tr, T, mode), g, gmode, mode)
        P = np.concatenate([[1.0, 1.892929158737854], (1 + 0.5 * (g - 1) * machs(tr, 1e-3, 12, 6) ** 2) ** (g / (g - 1))])
        tr.sweep("InvP", Is.Mach_PtPs, pick(tr, P, mode), g, gmode, mode)
        # round trip through the code: observed ratios are inverted
        t = np.asarray(Is.TtTs_Mach(M, g))
        p = np.asarray(Is.PtPs_Mach(M[M < 12], g))
        tr.sweep("InvT", Is.Mach_TtTs, pick(tr, t, mode), g, gmode, mode)
        tr.sweep("InvP", Is.Mach_PtPs, pick(tr, p, mode), g, gmode, mode)
        r = 287.1 if gmode == "omit" else float(tr.nrng.uniform(50, 4200))
        c = pick(tr, [M, tr.nrng.uniform(10, 4000, len(M))], mode)
        if gmode == "omit":
            tr.sweep("Vel", Is.Velocity_MachTt, c, g, gmode, mode, pre=(r,))
        elif gmode == "kw":
            tr.sweep("Vel", Is.Velocity_MachTt, c, g, gmode, mode, pre=(r,), kw={"r": r})
        else:
            tr.sweep("Vel", lambda m, t, gam: Is.Velocity_MachTt(m, t, r, gam), c, g, gmode, mode, pre=(r,))
    # integer inputs
    for g in (1.4, 1.3):
        c = [np.arange(0.0, 6.0)]
        for mode in ("int", "intarr"):
            tr.sweep("TtTs", Is.TtTs_Mach, c, g, "kw", mode)
            tr.sweep("PtPs", Is.PtPs_Mach, c, g, "kw", mode)
