"""Purity: histories of calls generated by spec/C29gen.qnt, replayed with functions of all the modules in every form of arguments."""
import numpy as np
import aerokit.common.defaultgas as dg
import aerokit.aero.Isentropic as Is
import aerokit.aero.MassFlow as mf
import aerokit.aero.ShockWave as sw
import aerokit.aero.Supersonic as su
import aerokit.aero.Fanno as fa
import aerokit.aero.Rayleigh as ra
import aerokit.aero.CompressibleFlow as cf
import aerokit.aero.Propulsion as pr
import aerokit.aero.degree as deg
import aerokit.instance.nozzle as nz
from vf import generate, guarded, EXC, RAISED, SHAPE, MUTATED

RULE = "histories of calls of three functions of the library on a few points and gases, in ten forms, with changes of the default gas, failing calls and writing in results in between, generated by the specification"
# where in its range the next point is taken: all parts of a range in four points
QUARTER = [0]


def draw(rng, a, b):
    QUARTER[0] += 1
    return a + (b - a) * (QUARTER[0] % 4 + rng.uniform(0, 1)) / 4


U = lambda a, b: (lambda rng, g: draw(rng, a, b))
MACH, SUP, SUB = U(0.1, 4), U(1.2, 4), U(0.1, 0.9)


def nu(m, g):
    k = np.sqrt((g + 1) / (g - 1))
    return np.degrees(k * np.arctan(np.sqrt(m * m - 1) / k) - np.arctan(np.sqrt(m * m - 1)))


def sig(m, g):
    return (2 / (g + 1) * (1 + (g - 1) / 2 * m * m)) ** ((g + 1) / 2 / (g - 1)) / m


def ti(m, g):
    return 2 * (g + 1) * m * m * (1 + (g - 1) / 2 * m * m) / (1 + g * m * m) ** 2


OF = lambda f, a, b: (lambda rng, g: f(draw(rng, a, b), g))
EXACT, ITER = 1e-11, 3e-5
# function, arguments, gamma accepted, number of dimensions allowed (0: numbers only, 1: first argument a number, 2: both arrays), precision
F = []


def add(mod, names, *args, gas=True, dims=2, prec=EXACT):
    for n in names.split():
        F.append((mod, n, args, gas, dims, prec))


add(Is, "TtTs_Mach PtPs_Mach", MACH)
add(Is, "Mach_TtTs Mach_PtPs", U(1.01, 4))
add(Is, "Velocity_MachTi", U(0.2, 3), U(250, 900))
add(mf, "WeightMassFlow", MACH)
add(mf, "Sigma_Mach", MACH)
add(mf, "MachSub_Sigma", OF(sig, 0.1, 0.9), prec=ITER)
add(mf, "MachSup_Sigma", OF(sig, 1.2, 4), prec=ITER)
add(mf, "Mach_Sigma", OF(sig, 1.2, 4), U(1.5, 4), prec=ITER)
add(sw, "Ps_ratio Rho_ratio Ts_ratio downstream_Mn Pt_ratio dev_Max dev_Sonic sigma_DevMax sigma_Sonic", SUP)
add(sw, "Mn_Ps_ratio", U(1.1, 20))
add(sw, "Mn_Pt_ratio", U(0.1, 0.95), dims=0, prec=ITER)
add(sw, "deflection_Mach_sigma", U(2, 4), U(40, 80))
add(sw, "deflection_Mach_ShockPsratio downstreamMach_Mach_ShockPsratio", U(2.5, 4), U(1.5, 5))
add(sw, "weaksigma_Mach_deflection strongsigma_Mach_deflection", U(2.5, 4), U(2, 18), dims=0)
add(sw, "sigma_Mach_deflection", U(2.5, 4), U(2, 18), dims=1, prec=ITER)
add(sw, "conical_deflection_Mach_sigma", U(2, 4), U(40, 70), dims=0, prec=ITER)
add(su, "PrandtlMeyer_Mach", SUP)
add(su, "Mach_PrandtlMeyer", OF(nu, 1.3, 3.5), prec=ITER)
add(su, "Mach_PMFmmu", OF(lambda m, g: nu(m, g) - np.degrees(np.arcsin(1 / m)), 1.3, 3.5), prec=ITER)
add(su, "deflection_Mach_IsentropicPsratio", U(2, 4), U(0.7, 1.5))
add(su, "IsentropicPsratio_Mach_deflection", U(2, 4), U(-9, 9), prec=ITER)
add(fa, "maxFparam_Mach Ps_Pscri Ts_Tscri Rho_Rhocri Pi_Picri V_Vcri NormdS", MACH)
add(ra, "maxTiratio_Mach Ps_Pscri Ts_Tscri Ti_Ticri Rho_Rhocri Pi_Picri V_Vcri NormdS", MACH)
add(ra, "SubMach_TiTicri", OF(ti, 0.1, 0.9))
add(ra, "SupMach_TiTicri", OF(ti, 1.2, 3))
add(cf, "TtTs_Mach PtPs_Mach Sigma_Mach", MACH)
add(cf, "Mach_TtTs Mach_PtPs", U(1.01, 4))
add(cf, "Velocity_MachTi", U(0.2, 3), U(250, 900))
add(cf, "PrandtlMeyer_Mach", SUP)
add(cf, "Mach_PrandtlMeyer", OF(nu, 1.3, 3.5), prec=ITER)
add(cf, "deflection_Mach_IsentropicPsratio", U(2, 4), U(0.7, 1.5))
add(cf, "IsentropicPsratio_Mach_deflection", U(2, 4), U(-9, 9), prec=ITER)
add(cf, "Mach_Sigma", OF(sig, 1.2, 4), U(1.5, 4), prec=ITER)
add(pr, "ThrustFunction", MACH)
add(pr, "Mach_ThrustFunction", lambda rng, g: pr.ThrustFunction(draw(rng, 1.4, 2.8), g), U(1.8, 2.2), prec=ITER)
add(deg, "cos sin tan atan", U(-400, 400), gas=None)
add(deg, "acos asin", U(-1, 1), gas=None)
add(deg, "atan2", U(-2, 2), U(-2, 2), gas=None)
add(nz, "NPR_choked_subsonic NPR_choked_supersonic NPR_shock_at_exit", U(1.1, 8), gas=False, prec=ITER)
add(nz, "Ms_from_AsAc_NPR Madapt_from_AsAc_NPR", U(1.2, 5), U(1.02, 20), gas=False, dims=0, prec=ITER)
GAS = [None, 1.33, 1.6]


def form_of(form, xs):
    """the points in one of the forms of the specification; keeps the surrounding array of strided ones out of reach"""
    if form == 0:
        return float(xs[0])
    if form == 1:
        return np.float64(xs[0])
    if form == 2:
        return np.array(xs[0])
    if form == 5:
        z = np.full(2 * len(xs), 1.5)
        z[::2] = xs
        return z[::2]
    if form == 7:
        return np.array(xs).reshape(2, 2)
    return np.array(xs, dtype=float)


SIZE = [1, 1, 1, 1, 3, 3, 4, 4, 2, 2]


def drive(tr):
    gas = (dg.gamma(), dg.r_ideal())
    order = []
    try:
        for states in generate("C29gen", "C29gen", tr.rng.randrange(2 ** 31), tr.n(300, 3000), 22, invariant="inv"):
            if len(order) < 3:
                order = order + [F[i] for i in tr.nrng.permutation(len(F))]
            three, order = order[:3], order[3:]
            if tr.rng.random() < 0.4:  # also two functions of one name or of one module
                three[1] = tr.rng.choice([f for f in F if f[0] is three[0][0]])
            if tr.rng.random() < 0.2:
                three[2] = tr.rng.choice([f for f in F if f[1] == three[0][1]])
            session(tr, three, states)
    finally:
        dg.set_gamma(gas[0])
        dg.set_r_ideal(gas[1])


def points(rng, g, samplers):
    cols = [rng.permutation([s(rng, g) for _ in range(4)]) for s in samplers]
    return [[float(c[i]) for c in cols] for i in range(4)]


def session(tr, three, states):
    rng = tr.nrng
    default = 1.4
    dg.set_gamma(default)
    pts = [points(rng, 1.4, f[2]) for f in three]  # the same for all gases
    pts = [[z, z, z] for z in pts]
    handed, buffers = [], {}
    tr.begin()
    tr.ev("Begin", *[f[5] for f in three], note=", ".join(f[0].__name__ + "." + f[1] for f in three))
    default_ix = 0
    for st in states[1:]:
        p = st["call"]
        a = p["op"]
        if a == "gas":
            default_ix = p["g"]
            dg.set_gamma([1.4, 1.25, 1.5][default_ix])
            tr.ev("Between", 1, note=f"defaultgas.set_gamma({dg.gamma()})")
        elif a == "write":
            for arr, _ in handed[-3:]:
                if isinstance(arr, np.ndarray) and arr.flags.writeable:
                    arr[...] = -7.0
            del handed[-3:]
            tr.ev("Between", 2, note="the last arrays are overwritten by their owner")
        elif a == "fail":
            f = three[p["f"]]
            fn = getattr(f[0], f[1])
            bad = [("wrong",) * len(f[2]), (np.array([1.0, 2.0, 3.0]),) * (len(f[2]) - 1) + (np.array(["a", "b"]),), (None,) * len(f[2])][p["form"]]
            guarded(fn, *bad, **({"gamma": 1.7} if f[3] else {}))
            tr.ev("Between", 3, note=f"{f[1]}{bad}")
        elif a == "ask":
            ask(tr, three, pts, p, handed, buffers, default_ix)
    tr.end()


def ask(tr, three, pts, p, handed, buffers, default_ix):
    fi, gi, form, ids = p["f"], p["g"], p["form"], p["pts"]
    mod, name, samplers, gas, dims, prec = three[fi]
    if dims == 0:
        form = form % 2
    if form > 7 and (dims == 1 or len(samplers) < 2):
        form = 3
    n = SIZE[form]
    ids = ids[:n]
    two = len(samplers) == 2
    xi = yi = ids
    if form == 8:
        yi = ids[:1] * n
    if form == 9:
        xi = ids[:1] * n
    if dims == 1:
        xi = ids[:1] * n
    shape = {2: (), 3: (1,), 4: (3,), 5: (3,), 6: (4,), 7: (2, 2), 8: (2,), 9: (2,)}.get(form, ())
    xs = [pts[fi][gi][i][0] for i in xi]
    args = [float(xs[0]) if two and (dims == 1 or form == 9) else form_of(form, xs)]
    if two:
        ys = [pts[fi][gi][i][1] for i in yi]
        args.append(float(ys[0]) if form == 8 else form_of(form, ys))
    mine = []
    if p["reuse"]:
        for k, z in enumerate(args):
            if isinstance(z, np.ndarray):
                old = buffers.setdefault((fi, k, form if form in (5, 7) else z.shape), z)
                old[...] = z
                args[k] = old
                mine.append(k)
    kw = {"gamma": GAS[gi]} if gas and GAS[gi] else {}
    keep = [np.array(z, copy=True) for z in args]
    r, err = guarded(getattr(mod, name), *args, **kw)
    note = f"{mod.__name__}.{name}({', '.join(map(repr, args))}, {kw}) {'same arrays as before' if mine else ''} {err or ''}".replace("\n", "")
    fl = RAISED if err else 0
    if not fl and np.size(r) != n:
        fl |= SHAPE
    if not fl and np.shape(r) != shape and n > 1:
        fl |= SHAPE
    if any(not np.array_equal(x, y) for x, y in zip(keep, args)) or any(not np.array_equal(x, y, equal_nan=True) for x, y in handed):
        fl |= MUTATED
    out = np.ravel(r) if not fl & (RAISED | SHAPE) else [EXC] * n
    out = [complex(z).real if z is not EXC else z for z in out]
    # what a function without gas, or without gamma given, answers may depend on the default gas
    g = gi if kw or gas is None else 10 * (gi + 1) + default_ix
    for i in range(n):
        tr.ev("Answer", fi, g, xi[i], yi[i] if two else 0, out[i], flags=fl, note=note)
    if not err:
        handed += [(z, c) for k, (z, c) in enumerate(zip(args, keep)) if k not in mine] + [(r, np.array(r, copy=True))]
