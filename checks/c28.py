import numpy as np
import aerokit.common.defaultgas as defg
import aerokit.aero.CompressibleFlow as cf
import aerokit.aero.Isentropic as Is
import aerokit.aero.ShockWave as sw
import aerokit.aero.nozzle as oldnoz
import aerokit.instance.nozzle as newnoz
import aerokit.aero.riemann as oldriem
import aerokit.instance.riemann as newriem
import aerokit.aero.unsteady1D as uq
from vf import guarded, EXC, RAISED, SHAPE, MUTATED

RULE = "random arguments in every form (scalar, array, gamma given or not, default gas changed or not) of the legacy functions and of the aliases; random nozzles and Riemann problems"
NAMES = ["TtTs_Mach", "PtPs_Mach", "Mach_TtTs", "Mach_PtPs", "Velocity_MachTi", "PrandtlMeyer_Mach", "Mach_PrandtlMeyer",
         "deflection_Mach_IsentropicPsratio", "IsentropicPsratio_Mach_deflection", "WeightMassFlow", "Sigma_Mach", "Mach_Sigma"]


def drive(tr):
    rng = tr.nrng
    g0 = defg.gamma()
    try:
        for k in range(tr.n(240, 6000)):
            legacy(tr, rng, k)
        for k in range(tr.n(90, 2000)):
            alias(tr, rng, k)
        for k in range(tr.n(15, 300)):
            instances(tr, rng, k)
    finally:
        defg.set_gamma(g0)


def legacy(tr, rng, k):
    f = k % 12
    g = 1.4 if (k // 12) % 2 == 0 else float(rng.uniform(1.15, 1.67))
    n = [1, 3][(k // 24) % 2]
    vec = n > 1
    sup = lambda: rng.uniform(1.1, 4, n)
    b = c = np.zeros(n)
    pm = lambda m: np.degrees(np.sqrt((g + 1) / (g - 1)) * np.arctan(np.sqrt((g - 1) / (g + 1) * (m * m - 1))) - np.arctan(np.sqrt(m * m - 1)))
    args, kw = [], {}
    if f in (0, 1, 10):
        a = rng.uniform(0.1, 4, n)
    elif f == 2:
        a = rng.uniform(1, 4, n)
    elif f == 3:
        a = np.exp(rng.uniform(0, 4, n))
    elif f == 4:
        a, b = rng.uniform(0.1, 4, n), rng.uniform(200, 2000, n)
        c = np.full(n, 287.1 if (k // 12) % 3 == 0 else float(rng.uniform(200, 500)))
    elif f == 5:
        a = sup()
    elif f == 6:
        a = pm(sup())
    elif f == 7:
        a, b = rng.uniform(2, 4, n), np.exp(rng.uniform(-0.7, 0.7, n))
    elif f == 8:
        a = rng.uniform(2, 4, n)
        b = rng.uniform(-10, 10, n)
    elif f == 9:
        a = rng.uniform(0.1, 4, n)
        c = np.full(n, 287.1 if (k // 12) % 3 == 0 else float(rng.uniform(200, 500)))
    else:
        s = (k // 12) % 3
        m = rng.uniform(0.2, 0.8, n) if s == 1 else rng.uniform(1.4, 3.5, n)
        b = np.full(n, 0.5 if s == 1 else 2.0 if s else 3.3)
        a = ((2 / (g + 1)) * (1 + (g - 1) / 2 * m * m)) ** ((g + 1) / 2 / (g - 1)) / m
    z = lambda q: q if vec else float(q[0])
    args = [z(a)]
    if f in (4, 7, 8):
        args.append(z(b))
    if f in (4, 9):
        if c[0] != 287.1:
            if k % 3 == 0:
                kw["r"] = float(c[0])
            else:
                args.append(float(c[0]))
    if f == 11 and b[0] != 2.0:
        kw["Mach"] = float(b[0])
    if g != 1.4 or k % 5 == 0:
        kw["gamma"] = g
    other = k % 3 == 2
    defg.set_gamma(1.3 if other else 1.4)
    keep = [np.array(q) for q in args]
    r, err = guarded(getattr(cf, NAMES[f]), *args, **kw)
    fl = RAISED if err else SHAPE if np.shape(r) != np.shape(args[0]) else 0
    if any(not np.array_equal(p, q) for p, q in zip(keep, args)):
        fl |= MUTATED
    defg.set_gamma(1.4)
    for i in range(n):
        tr.ev("Legacy", f, g, a[i], b[i], c[i], np.ravel(r)[i] if not fl else EXC, flags=fl,
              note=f"CompressibleFlow.{NAMES[f]}({args}, {kw}) default gas {1.3 if other else 1.4} {err or ''}")


ALIASES = [(Is, "TiTs_Mach", "TtTs_Mach"), (Is, "PiPs_Mach", "PtPs_Mach"), (Is, "Mach_TiTs", "Mach_TtTs"), (Is, "Mach_PiPs", "Mach_PtPs"),
           (Is, "Velocity_MachTi", "Velocity_MachTt"), (sw, "Pi_ratio", "Pt_ratio"), (sw, "Mn_Pi_ratio", "Mn_Pt_ratio")]


def alias(tr, rng, k):
    mod, old, new = ALIASES[k % len(ALIASES)]
    n = [1, 3][(k // 7) % 2]
    x = rng.uniform(1.1, 3, n) if not old.startswith("Mn") else rng.uniform(0.3, 0.99, n)
    if old.startswith("Mn"):  # scalar only
        n = 1
    x = x if n > 1 else float(x[0])
    args = [x] + ([300.0] if "Velocity" in old else [])
    kw = {} if k % 2 else dict(gamma=float(rng.uniform(1.2, 1.6)))
    defg.set_gamma([1.4, 1.25][(k // 3) % 2])
    r, err = guarded(lambda: getattr(mod, old)(*args, **kw))
    s, err2 = guarded(lambda: getattr(mod, new)(*args, **kw))
    defg.set_gamma(1.4)
    fl = RAISED if err or err2 else SHAPE if np.shape(r) != np.shape(s) else 0
    for i in range(n):
        tr.ev("Alias", *([np.ravel(r)[i], np.ravel(s)[i]] if not fl else [EXC, EXC]), flags=fl, note=f"{old}({args}, {kw}) and {new} {err or ''} {err2 or ''}")


def instances(tr, rng, k):
    for old, new in ((oldnoz, newnoz), (oldriem, newriem)):
        for name in [z for z in dir(new) if not z.startswith("_")]:
            if k == 0 and callable(getattr(new, name)):
                tr.ev("Alias", 1, int(callable(getattr(old, name, None))), note=f"{old.__name__} gives {name}")
    x = np.linspace(0, 1, 21)
    area = 1.0 + float(rng.uniform(0.5, 3)) * (x - 0.4) ** 2
    npr = float(np.exp(rng.uniform(0.01, 1.5)))
    g = float(rng.uniform(1.2, 1.6))

    def run(mod):
        nz = mod.nozzle(x, area, gamma=g)
        nz.set_NPR(npr)
        return np.concatenate([np.ravel(nz.Mach()), np.ravel(nz.Ps()), np.ravel(nz.Ptot())])
    compare(tr, run, oldnoz, newnoz, f"nozzle gamma {g} NPR {npr}", rng)
    s = [float(z) for z in rng.uniform(0.3, 2, 4)] + [float(z) for z in rng.uniform(-0.5, 0.5, 2)]

    def riem(mod):
        l, r = uq.unsteady_state(s[0], s[4], s[1], gamma=g), uq.unsteady_state(s[2], s[5], s[3], gamma=g)
        p = mod.riemann_pb(l, r)
        q = p.qsol(np.linspace(-3, 3, 9))
        return np.concatenate([np.ravel(p.pstar()), np.ravel(p.ustar()), np.ravel(q.rho), np.ravel(q.u), np.ravel(q.p), np.ravel(p.qstarL().rho), np.ravel(p.qstarR().rho)])
    compare(tr, riem, oldriem, newriem, f"Riemann problem {s} gamma {g}", rng)


def compare(tr, run, old, new, what, rng):
    a, err = guarded(run, old)
    b, err2 = guarded(run, new)
    fl = RAISED if err or err2 else SHAPE if np.shape(a) != np.shape(b) else 0
    n = len(b) if not fl else 1
    for i in rng.permutation(n)[:8]:
        tr.ev("Alias", *([a[i], b[i]] if not fl else [EXC, EXC]), flags=fl, note=f"{what} through {old.__name__} {err or ''} {err2 or ''}")
