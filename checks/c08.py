import numpy as np
import aerokit.aero.Rayleigh as ra
from common import plan, machs, pick, loguni

RULE = "one event per station (all its ratios), inverse or duct; stratified gamma, Mach on both branches, shape and way of passing gamma"


def state(M, gamma=None):
    k = () if gamma is None else (gamma,)
    return (ra.Ps_Pscri(M, *k), ra.Ts_Tscri(M, *k), ra.Ti_Ticri(M, *k), ra.Rho_Rhocri(M, *k), ra.Pi_Picri(M, *k), ra.V_Vcri(M, *k),
            ra.NormdS(M, *k))


def ti(M, g):
    return 2 * (g + 1) * M ** 2 / (1 + g * M ** 2) ** 2 * (1 + (g - 1) / 2 * M ** 2)


def drive(tr):
    gam = [1.4, 1.05, 1.1, 1.2, 1.3, 1.3333, 1.5, 5 / 3, 1.8, 2.0, 2.5]
    for g, gmode, mode in plan(tr, gammas=gam):
        M = np.append(machs(tr, 0.004, 8.0, 10, special=(0.02, 0.1, 0.5, 0.999, 1.0, 1.001, 1.5, 2.0, 3.0, 6.0)), loguni(tr, 6.0, 20.0, 2))
        tr.sweep("State", state, pick(tr, M, mode, 6), g, gmode, mode, nout=7)
        tr.sweep("Heat", ra.maxTiratio_Mach, pick(tr, M, mode), g, gmode, mode)
        Ms = np.concatenate([[0.01, 0.3, 0.9, 1.0], loguni(tr, 0.01, 1.0, 5)])
        Mp = np.concatenate([[1.0, 1.1, 2.0, 4.0], loguni(tr, 1.0, 6.0, 5)])
        tr.sweep("Sub", ra.SubMach_TiTicri, pick(tr, np.minimum(ti(Ms, g), 1.0), mode), g, gmode, mode)
        tr.sweep("Sup", ra.SupMach_TiTicri, pick(tr, np.minimum(ti(Mp, g), 1.0), mode), g, gmode, mode)
        tr.sweep("Sub", ra.SubMach_TiTicri, pick(tr, np.minimum(np.asarray(ra.Ti_Ticri(Ms, g)), 1.0), mode), g, gmode, mode)

        def duct(a, b, gamma=None):
            x, y = state(a, gamma), state(b, gamma)
            return x[2], y[2], x[6], y[6], x[4], y[4]
        a = np.concatenate([loguni(tr, 0.05, 0.95, 4), loguni(tr, 1.05, 6.0, 4)])
        b = 1 + (a - 1) * tr.nrng.uniform(0.05, 0.95, 8)
        tr.sweep("Duct", duct, pick(tr, [a, b], mode), g, gmode, mode, nout=6)
    for g in (1.4, 1.3):
        tr.sweep("State", state, [np.arange(1.0, 7.0)], g, "kw", "int", nout=7)
        tr.sweep("State", state, [np.arange(1.0, 7.0)], g, "pos", "intarr", nout=7)
    n = tr.n(300, 4000)
    for g in (1.4, 1.2, 5 / 3):
        tr.sweep("State", state, [loguni(tr, 0.01, 10.0, n)], g, "kw", "arr", nout=7)
