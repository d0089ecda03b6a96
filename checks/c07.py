import numpy as np
import aerokit.aero.Fanno as fa
from common import plan, machs, pick, loguni

RULE = "one event per station (all its ratios) or per duct; stratified gamma, Mach on both branches, shape and way of passing gamma"


def state(M, gamma=None):
    k = () if gamma is None else (gamma,)
    return (fa.Ps_Pscri(M, *k), fa.Ts_Tscri(M, *k), fa.Rho_Rhocri(M, *k), fa.Pi_Picri(M, *k), fa.V_Vcri(M, *k), fa.NormdS(M, *k),
            fa.maxFparam_Mach(M, *k))


def kwstate(M, gamma=None):
    k = {} if gamma is None else {"gamma": gamma}
    return (fa.Ps_Pscri(Mach=M, **k), fa.Ts_Tscri(Mach=M, **k), fa.Rho_Rhocri(Mach=M, **k), fa.Pi_Picri(Mach=M, **k),
            fa.V_Vcri(Mach=M, **k), fa.NormdS(Mach=M, **k), fa.maxFparam_Mach(Mach=M, **k))


def drive(tr):
    gam = [1.4, 1.05, 1.1, 1.2, 1.3, 1.3333, 1.5, 5 / 3, 1.8, 2.0, 2.5]
    for g, gmode, mode in plan(tr, gammas=gam):
        M = np.append(machs(tr, 0.004, 8.0, 10, special=(0.02, 0.1, 0.5, 0.999, 1.0, 1.001, 1.5, 2.0, 3.0, 6.0)), loguni(tr, 6.0, 20.0, 2))
        f = state if gmode != "kw" else kwstate
        tr.sweep("State", f, pick(tr, M, mode, 6), g, gmode, mode, nout=7)

        def duct(a, b, gamma=None):
            x, y = f(a, gamma), f(b, gamma)
            return x[6], y[6], x[5], y[5], x[3], y[3]
        a = np.concatenate([loguni(tr, 0.05, 0.95, 4), loguni(tr, 1.05, 6.0, 4)])
        b = 1 + (a - 1) * tr.nrng.uniform(0.05, 0.95, 8)
        tr.sweep("Duct", duct, pick(tr, [a, b], mode), g, gmode, mode, nout=6)
    for g in (1.4, 1.3):
        tr.sweep("State", state, [np.arange(1.0, 7.0)], g, "kw", "int", nout=7)
        tr.sweep("State", state, [np.arange(1.0, 7.0)], g, "pos", "intarr", nout=7)
    n = tr.n(300, 4000)
    for g in (1.4, 1.2, 5 / 3):
        tr.sweep("State", state, [loguni(tr, 0.01, 10.0, n)], g, "kw", "arr", nout=7)
