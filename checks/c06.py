import numpy as np
import aerokit.aero.Supersonic as sup
from common import plan, machs, pick, scalarlike, loguni

RULE = "one event per point; stratified gamma, Mach 1..50, turning in both directions, shape and way of passing gamma"


def pm(M, g):
    c = np.sqrt((g + 1) / (g - 1))
    b = np.sqrt(M ** 2 - 1)
    return np.degrees(c * np.arctan(b / c) - np.arctan(b))


def drive(tr):
    gam = [1.4, 1.05, 1.1, 1.2, 1.3, 1.3333, 1.5, 5 / 3, 1.8, 2.0, 2.5]
    for g, gmode, mode in plan(tr, gammas=gam):
        M = machs(tr, 1.0, 40.0, 8, special=(1.0, 1.001, 1.1, 1.5, 2.0, 3.0, 5.0, 10.0))
        tr.sweep("PM", sup.PrandtlMeyer_Mach, pick(tr, M, mode), g, gmode, mode)
        om = pm(M[M > 1.0005], g)
        imode = "float" if mode == "size1" else mode  # a single answer comes back as a number
        tr.sweep("Inv", sup.Mach_PrandtlMeyer, pick(tr, om, imode), g, gmode, imode)
        tr.sweep("Inv", sup.Mach_PrandtlMeyer, pick(tr, np.asarray(sup.PrandtlMeyer_Mach(M[1:], g)), imode), g, gmode, imode)
        M2 = M[M > 1.0005]
        tr.sweep("PMmu", sup.Mach_PMFmmu, pick(tr, pm(M2, g) - np.degrees(np.arcsin(1 / M2)), mode), g, gmode, mode)
        M3 = machs(tr, 1.02, 8.0, 8, special=(1.1, 2.0, 4.0))
        n = len(M3)
        # arrival Mach number, either side
        Ma = 1.0 + (M3 - 1) * tr.nrng.uniform(0.1, 2.5, n) + 1e-3
        pr = ((1 + 0.5 * (g - 1) * M3 ** 2) / (1 + 0.5 * (g - 1) * Ma ** 2)) ** (g / (g - 1))
        tr.sweep("Turn", sup.deflection_Mach_IsentropicPsratio, pick(tr, [M3, pr], mode), g, gmode, mode)
        dev = pm(M3, g) - pm(Ma, g)
        tr.sweep("Pressure", sup.IsentropicPsratio_Mach_deflection, pick(tr, [M3, dev], imode), g, gmode, imode)
        # no turning, no change
        tr.sweep("Turn", sup.deflection_Mach_IsentropicPsratio, pick(tr, [M3, 0 * M3 + 1.0], mode), g, gmode, mode)
        tr.sweep("Pressure", sup.IsentropicPsratio_Mach_deflection, pick(tr, [M3, 0 * M3], imode), g, gmode, imode)
    tr.sweep("PM", sup.PrandtlMeyer_Mach, [np.arange(1.0, 8.0)], 1.4, "kw", "int")
    tr.sweep("PM", sup.PrandtlMeyer_Mach, [np.arange(1.0, 8.0)], 1.3, "kw", "intarr")
    tr.sweep("Inv", sup.Mach_PrandtlMeyer, [np.arange(5.0, 60.0, 5.0)], 1.4, "kw", "int")
    tr.sweep("Inv", sup.Mach_PrandtlMeyer, [np.arange(5.0, 60.0, 5.0)], 1.3, "kw", "intarr")
    n = tr.n(300, 4000)
    for g in (1.4, 1.2, 5 / 3):
        M = loguni(tr, 1.002, 30.0, n)
        tr.sweep("Inv", sup.Mach_PrandtlMeyer, [pm(M, g)], g, "kw", "arr")
