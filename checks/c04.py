import numpy as np
import aerokit.aero.ShockWave as sw
from common import plan, machs, pick, scalarlike, loguni

RULE = "one event per oblique shock; stratified gamma, Mach, angle between the Mach angle and 90 degrees, shape and way of passing gamma"
ASSUMPTIONS = ["closed-form weak/strong angles claimed for scalar arguments and deflections in [0, 0.99 maximum deflection]",
               "iterative angle claimed for |deflection| <= 0.97 of the maximum"]


def smax(M, g):
    M2 = M ** 2
    return np.degrees(np.arcsin(np.sqrt(((g + 1) * M2 - 4 + np.sqrt((g + 1) * ((g + 1) * M2 ** 2 + 8 * (g - 1) * M2 + 16))) / (4 * g * M2))))


def dmax(M, g):
    s = np.radians(smax(M, g))
    mn2 = (M * np.sin(s)) ** 2
    rr = (g + 1) * mn2 / (2 + (g - 1) * mn2)
    return np.degrees(s - np.arctan(np.tan(s) / rr))


def drive(tr):
    gam = [1.4, 1.05, 1.1, 1.2, 1.3, 1.3333, 1.5, 5 / 3, 1.8, 2.0, 2.5]
    for g, gmode, mode in plan(tr, gammas=gam):
        k = {} if gmode == "omit" else {"gamma": g}
        M = machs(tr, 1.05, 25.0, 8, special=(1.05, 1.3, 2.0, 3.0, 5.0, 10.0))
        n = len(M)
        mu = np.degrees(np.arcsin(1 / M))
        f = tr.nrng.uniform(0, 1, n)
        f[0], f[1], f[2] = 0.0, 1.0, 0.5
        s = mu + (90 - mu) * f
        tr.sweep("Defl", sw.deflection_Mach_sigma, pick(tr, [M, s], mode), g, gmode, mode)
        mn = 1 + (M - 1) * tr.nrng.uniform(0, 0.99, n)
        mn[0] = 1.0
        P = 1 + 2 * g / (g + 1) * (mn ** 2 - 1)
        P[0] = 1.0

        def by_pressure(m, p, gamma=None):
            a = () if gamma is None else (gamma,)
            return sw.deflection_Mach_ShockPsratio(m, p, *a), sw.downstreamMach_Mach_ShockPsratio(m, p, *a)
        tr.sweep("Pr", by_pressure, pick(tr, [M, P], mode), g, gmode, mode, nout=2)

        def limits(m, gamma=None):
            a = {} if gamma is None else {"gamma": gamma}
            return sw.sigma_DevMax(m, **a), sw.dev_Max(m, **a), sw.sigma_Sonic(m, **a), sw.dev_Sonic(m, **a)
        tr.sweep("Limits", limits, pick(tr, M, mode), g, gmode, mode, nout=4)
        # angles from deflections
        fr = tr.nrng.uniform(0.01, 0.97, n)
        fr[:3] = [0.02, 0.5, 0.97]
        d = dmax(M, g) * fr
        sgn = np.where(tr.nrng.uniform(size=n) < 0.5, -1.0, 1.0)
        if gmode == "pos":
            it = lambda m, x, gm: sw.sigma_Mach_deflection(m, x, None, gm)
        else:
            it = sw.sigma_Mach_deflection
        if scalarlike(mode):
            tr.sweep("Iter", it, pick(tr, [M, d * sgn], mode), g, gmode, "np64" if mode == "np64" else "float")
        else:  # several deflections of one flow
            for m0 in (M[tr.rng.randrange(n)], M[tr.rng.randrange(n)]):
                one = (lambda x, *a, m0=m0, **kw: it(m0, x, *a, **kw))
                tr.sweep("Iter", one, [dmax(m0, g) * fr * sgn], g, gmode, mode, mid=(m0,))
        if scalarlike(mode):
            for sc in (d, d * 0):
                c = pick(tr, [M, sc], mode)
                tr.sweep("Weak", sw.weaksigma_Mach_deflection, c, g, gmode, "float")
                tr.sweep("Strong", sw.strongsigma_Mach_deflection, c, g, gmode, "float")
            tr.sweep("Iter", it, [M[:3], M[:3] * 0], g, gmode, "float")
            # more than the flow can be turned by an attached shock
            dd = dmax(M, g)
            over = dd + (85 - dd) * tr.nrng.uniform(0.02, 1, n)
            over[:2] = dd[:2] + np.array([0.02, 1.0])

            def detached(m, x, gamma=None):
                a = () if gamma is None else (gamma,)
                return sw.weaksigma_Mach_deflection(m, x, *a), sw.strongsigma_Mach_deflection(m, x, *a)
            tr.sweep("Detached", detached, pick(tr, [M, over], mode), g, gmode, "float", nout=2)

            def branches(m, x, gamma=None):
                a = {} if gamma is None else {"gamma": gamma}
                return (sw.weaksigma_Mach_deflection(m, x, **a), sw.strongsigma_Mach_deflection(m, x, **a), sw.sigma_Mach_deflection(m, x, **a))
            tr.sweep("Branches", branches, pick(tr, [M, d], mode, 6), g, gmode, "float", nout=3)
            # started close to the strong or to the weak solution
            i = np.array([0, 1, 3])
            st = np.array([float(sw.strongsigma_Mach_deflection(M[q], 0.8 * d[q], gamma=g)) for q in i])
            tr.sweep("IterInit", lambda m, x, s0, gamma=None: sw.sigma_Mach_deflection(m, x, init=s0, **({} if gamma is None else {"gamma": gamma})),
                     [M[i], 0.8 * d[i], st - 0.5], g, gmode, "float")
    tr.sweep("Defl", sw.deflection_Mach_sigma, [np.array([2.0, 3.0, 4.0]), np.array([35.0, 40.0, 60.0])], 1.4, "kw", "int")
    tr.sweep("Iter", sw.sigma_Mach_deflection, [np.array([2.0, 3.0, 4.0]), np.array([10.0, -10.0, 20.0])], 1.4, "kw", "int")
    tr.sweep("Weak", sw.weaksigma_Mach_deflection, [np.array([2.0, 3.0, 4.0]), np.array([10.0, 10.0, 20.0])], 1.4, "kw", "int")
