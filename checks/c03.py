import numpy as np
import aerokit.aero.ShockWave as sw
from common import plan, machs, pick, scalarlike, loguni

RULE = "one event per shock (all its ratios) or per inverse; stratified gamma, Mach, shape and way of passing gamma"
ASSUMPTIONS = ["Mach number from the total pressure ratio claimed for scalar ratios of shocks with 1.03 <= Mn <= 6"]


def jump(Mn, gamma=None):
    k = () if gamma is None else (gamma,)
    return sw.Ps_ratio(Mn, *k), sw.Rho_ratio(Mn, *k), sw.Ts_ratio(Mn, *k), sw.downstream_Mn(Mn, *k), sw.Pt_ratio(Mn, *k)


def pt(M, g):
    p = 1 + 2 * g / (g + 1) * (M ** 2 - 1)
    r = (g + 1) * M ** 2 / (2 + (g - 1) * M ** 2)
    return (p * r ** (-g)) ** (-1 / (g - 1))


def drive(tr):
    gam = [1.4, 1.05, 1.1, 1.2, 1.3, 1.3333, 1.5, 5 / 3, 1.8, 2.0, 2.5]
    for g, gmode, mode in plan(tr, gammas=gam):
        top = 25.0 if g >= 1.25 else 14.0  # resolution of the total pressure ratio
        M = machs(tr, 1.0, top, 10, special=(1.0, 1.0 + 1e-6, 1.01, 1.5, 2.0, 3.0, 5.0, 10.0, 16.0, 25.0))
        if scalarlike(mode):  # called point by point: one more point in the strong half
            tr.sweep("Shock", jump, [loguni(tr, 10.0, top, 1)], g, gmode, mode, nout=5)
        tr.sweep("Shock", jump, pick(tr, M, mode), g, gmode, mode, nout=5)
        P = 1 + 2 * g / (g + 1) * (M ** 2 - 1)
        tr.sweep("InvP", sw.Mn_Ps_ratio, pick(tr, P, mode), g, gmode, mode)
        p = np.asarray(sw.Ps_ratio(M, g))
        tr.sweep("InvP", sw.Mn_Ps_ratio, pick(tr, p, mode), g, gmode, mode)
        if scalarlike(mode):
            Mt = np.concatenate([[1.03, 1.2, 2.0, 3.0, 5.0], loguni(tr, 1.03, 6.0, 8)])
            tr.sweep("InvPt", sw.Mn_Pt_ratio, pick(tr, pt(Mt, g), mode, 6), g, gmode, "float")
            tr.sweep("InvPt", sw.Mn_Pt_ratio, pick(tr, np.array([float(sw.Pt_ratio(m, g)) for m in Mt]), mode, 3), g, gmode, "float")
        a = loguni(tr, 1.0, 8.0, 4)
        b = a * tr.nrng.uniform(1.05, 2.0, 4)
        def two(x, y, gamma=1.4):
            j, k = jump(x, gamma), jump(y, gamma)
            return j[0], k[0], j[1], k[1], j[3], k[3], j[4], k[4]
        tr.sweep("Order", two, [a, b], g, gmode, mode, nout=8)
    for g in (1.4, 1.3):
        tr.sweep("Shock", jump, [np.arange(1.0, 7.0)], g, "kw", "int", nout=5)
        tr.sweep("Shock", jump, [np.arange(1.0, 7.0)], g, "pos", "intarr", nout=5)
        tr.sweep("InvP", sw.Mn_Ps_ratio, [np.arange(1.0, 9.0)], g, "kw", "int")
    n = tr.n(250, 4000)
    for g in (1.4, 1.2, 5 / 3):
        tr.sweep("Shock", jump, [loguni(tr, 1.0, 25.0 if g > 1.2 else 14.0, n)], g, "kw", "arr", nout=5)
