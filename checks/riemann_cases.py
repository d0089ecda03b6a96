"""Riemann problems built from a chosen star state."""
import numpy as np
import aerokit.aero.unsteady1D as u1


def side(g, rho, p, ps):
    """velocity change across the wave from (rho, p) to the star pressure"""
    if ps > p:
        return (ps - p) * np.sqrt(2 / rho / ((g + 1) * ps + (g - 1) * p))
    a = np.sqrt(g * p / rho)
    return 2 * a / (g - 1) * ((ps / p) ** ((g - 1) / (2 * g)) - 1)


def cases(tr, n):
    """(left, right) as (g, rho, u, p)"""
    out = []
    G = [1.4, 1.4, 1.3, 5 / 3, 1.1, 1.2, 2.0]
    K = [0.002, 0.03, 0.2, 0.7, 0.99, 1.0, 1.02, 1.6, 5.0, 40.0, 110.0]
    m = len(K)
    i = 0
    while len(out) < n:
        scale = [1.0, 1e5, 1.0, 101325.0][i % 4]
        same = i % 3 != 0
        gL = G[i % 7] if i < 40 else float(tr.nrng.uniform(1.1, 2.0))
        gR = gL if same else G[(i // 7) % 7]
        if i < m * m:
            kL, kR = K[i % m], K[(i // m + i % m) % m]
        else:
            kL, kR = np.exp(tr.nrng.uniform(np.log(0.001), np.log(1000.0 if gL == gR else 120.0), 2))
        if i >= m * m and i % 3 == 1:  # weak waves on one side or both
            kL, kR = [float(np.exp(tr.nrng.choice([-1, 1]) * 10 ** tr.nrng.uniform(-7, -1))) if (i // 3) % 3 != j else k for j, k in enumerate((kL, kR))]
        ps = scale * float(np.exp(tr.nrng.uniform(-1, 1)))
        pL, pR = float(ps * kL), float(ps * kR)
        rL, rR = [float(x) for x in np.exp(tr.nrng.uniform(-2, 2, 2))]
        us = float(tr.nrng.normal()) * np.sqrt(ps / np.sqrt(rL * rR)) * [0.0, 1.0, 3.0][i % 3]
        uL = float(us + side(gL, rL, pL, ps))
        uR = float(us - side(gR, rR, pR, ps))
        out.append(((gL, rL, uL, pL), (gR, rR, uR, pR)))
        i += 1
    # textbook problems
    out += [((1.4, 1.0, 0.0, 1.0), (1.4, 0.125, 0.0, 0.1)), ((1.4, 1.0, -2.0, 0.4), (1.4, 1.0, 2.0, 0.4)),
            ((1.4, 5.99924, 19.5975, 460.894), (1.4, 5.99242, -6.19633, 46.0950)), ((1.4, 1.0, 0.0, 1.0), (1.4, 1.0, 0.0, 1.0)),
            ((1.4, 1.0, 0.75, 1.0), (1.4, 0.125, 0.0, 0.1)), ((1.4, 1.2, 30.0, 1e5), (1.3, 0.4, 30.0, 1e5)),
            ((1.4, 1.0, 2.0, 1.0), (1.4, 1.0, -2.0, 1.0)), ((1.6, 1.0, 3.0, 1.0), (1.2, 0.5, 3.0, 1.0))]
    # no wave but the contact
    for k in range(max(4, n // 10)):
        p0 = float(np.exp(tr.nrng.uniform(-3, 12)))
        u0 = float(tr.nrng.normal() * np.sqrt(p0))
        a, b = [float(x) for x in np.exp(tr.nrng.uniform(-2, 2, 2))]
        out.append(((1.4, a, u0, p0), (1.3 if k % 2 else 1.4, b, u0, p0)))
    return out


def units(tr, i):
    """(density, velocity) of other units in which the same problem is given: powers of two, so that nothing is rounded"""
    if i % 4 != 2:
        return 1.0, 1.0
    a, b = int(tr.nrng.integers(-30, 31)), int(tr.nrng.integers(-20, 21))
    return 2.0 ** a, 2.0 ** b


def state(q, how=0, unit=(1.0, 1.0)):
    g, rho, u, p = q
    rho, u, p = rho * unit[0], u * unit[1], p * unit[0] * unit[1] ** 2
    if how == 1 and g == 1.4:
        return u1.unsteady_state(rho, u, p)
    return u1.unsteady_state(rho=rho, u=u, p=p, gamma=g)
