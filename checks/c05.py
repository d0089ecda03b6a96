import numpy as np
import aerokit.aero.ShockWave as sw
from vf import guarded
from common import loguni

SHARD = 60
RULE = "one event per cone; gamma 1.1..5/3, Mach 1.1..12, shock angle as a fraction between the Mach angle and 90 degrees"
ASSUMPTIONS = ["shock angle of a cone claimed on the part of the weak branch where the library converges (fraction <= 0.3 at Mach 1.1, 0.5 above Mach 2)",
               "Mach number of a cone and a shock claimed for fraction >= 0.1"]


def drive(tr):
    gam = [1.4, 1.1, 1.2, 1.3, 5 / 3, 1.4, 1.3333, 1.5]
    n = tr.n(160, 1500)
    pts = []
    for i in range(n):
        g = gam[i % len(gam)] if i < 60 else float(tr.nrng.uniform(1.1, 5 / 3))
        M = [1.1, 1.5, 2.0, 3.0, 5.0, 8.0][i % 6] if i < 36 else float(loguni(tr, 1.1, 12.0, 1)[0])
        pts.append((g, M, float(tr.nrng.uniform(0.02, 0.85))))
    tr.each(pts, cone)


def cone(tr, i, point):
    g, M, f = point
    mu = np.degrees(np.arcsin(1 / M))
    how = ("omit", "kw", "pos")[i % 3] if g == 1.4 else ("kw", "pos")[i % 2]
    s = mu + f * (90 - mu)
    mode = ("float", "np64")[i % 2]
    tr.sweep("Cone", sw.conical_deflection_Mach_sigma, [[M], [s]], g, how, mode)
    # inverses, from the cone the library itself gives
    fmax = 0.3 if M < 1.5 else 0.4 if M < 2 else 0.5
    f2 = 0.02 + (fmax - 0.02) * f
    s2 = mu + f2 * (90 - mu)
    d2, err = guarded(sw.conical_deflection_Mach_sigma, M, s2, g)
    if err:
        return
    tr.sweep("Sigma", sw.conical_sigma_Mach_walldeflection, [[M], [float(d2)]], g, how, mode)
    f3 = 0.1 + 0.4 * f
    s3 = mu + f3 * (90 - mu)
    d3, err = guarded(sw.conical_deflection_Mach_sigma, M, s3, g)
    if err:
        return
    tr.sweep("Mach", sw.conical_Mach_walldeflection_sigma, [[float(d3)], [s3]], g, how, mode, timeout=10)
