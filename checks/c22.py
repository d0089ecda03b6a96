import numpy as np
import aerokit.stability.Euler as Euler
import aerokit.stability.OrrSommerfeld as OS
import aerokit.aero.model1D as m1d
from euler_cases import Case
from os_cases import Flow
from c19 import pairs
from vf import guarded, EXC, RAISED, SHAPE

SHARD = 60
RULE = "spectra of random flows: eigenpairs against the equations, window selections, convergence from perturbed pairs; exact spectra of uniform ducts and streams; published channel values"


def parts(z):
    return (float(np.real(z)), float(np.imag(z)))


def drive(tr):
    small(tr)
    ducts(tr)
    streams(tr)
    for c, (al, re) in enumerate([(1.0, 1e4), (1.02056, 5772.22)]):
        for n in [64] + tr.n([], [81]):
            def go():
                op = OS.Poiseuille(n, al, re)
                op.solve_eig()
                v, ve, o = op.select_and_sort(sort="imag")
                return v[o[0]], ve[:, o[0]], op
            r, err = guarded(go)
            z = r[0] if not err else EXC
            if not err:
                noise = 1e-3 * tr.nrng.normal(size=n) / n
                q, e2 = guarded(lambda: r[2].converge_eigenpair(z * 1.001, r[1] / np.linalg.norm(r[1]) + noise))
                tr.ev("Converged", *parts(z), *(parts(q[0]) if not e2 else (EXC, EXC)), flags=RAISED if e2 else 0, note=f"Poiseuille({n}, {al}, {re}).converge_eigenpair: {e2 or q[0]}")
            tr.ev("Channel", c, *(parts(z) if not err else (EXC, EXC)), flags=RAISED if err else 0, note=f"Poiseuille({n}, {al}, {re}): {z} {err or ''}")


def small(tr):
    rng = tr.nrng
    for k in range(tr.n(48, 700)):
        if k % 3 < 2:
            n = int(rng.integers(4, 9))
            kind = k % 2
            case = Case(rng, n, *[(0.0, 1.0), (-2.0, 1.0), (1.0, 1.3)][k % 3 if k % 5 else 2], rng.uniform(1.1, 2), nondim=True, uniform=k % 8 == 7)
            op = Euler.Euler1D(n, case.a, case.b, basestate=case.state())
            op.set_BC(*[("sym", "sym"), ("per", "per")][kind])
            who = f"Euler1D({n}) {['sym', 'per'][kind]}"
        else:
            n = int(rng.integers(7, 12))
            case = Flow(rng, n, *[(-1.0, 1.0), (0.0, 3.0)][k % 2], complexk=k % 4 == 1)
            case.re = float(np.exp(rng.uniform(0, 5)))
            op = OS.OrrSommerfeldModel(n, case.a, case.b, case.base())
            op.set_BC("wall", "wall")
            who = f"OrrSommerfeld({n})"
            kind = 2
        r, err = guarded(lambda: op.solve_eig())
        if err:
            tr.ev("Mode" if kind < 2 else "Wave", flags=RAISED, note=f"{who} {err}")
            continue
        vals, vects = r
        o = 2 if kind == 2 else 0
        name = "Wave" if kind == 2 else "Mode"
        pairs(tr, rng, o, (n,), vals, vects, range(len(vals)), who, count=3, name=name, pre=case.fields())
        if kind < 2:
            pairs(tr, rng, o, (n,), vals, vects, range(len(vals)), who, count=1, name="ModeEnds", pre=case.fields())
            tr.sessions[-1][-1] = fix_point(tr.sessions[-1][-1], kind)
        select(tr, rng, op, vals, vects, n, o, name, case, who, k)
        converge(tr, rng, op, vals, vects, n, o, name, case, who)


def fix_point(e, kind):
    """the point of a ModeEnds event is replaced by the kind of boundary"""
    f = list(e[1])
    if len(f) > 14:
        f[14] = kind
    return (e[0], tuple(f), e[2])


def select(tr, rng, op, vals, vects, n, o, name, case, who, k):
    fin = vals[np.isfinite(vals)]
    size = np.median(np.abs(fin)) + 1e-3
    for t in range(2):
        sort = ["real", "imag"][(k + t) % 2]
        kw = {}
        if (k + t) % 3 == 0:
            kw = dict(realmin=-size * rng.uniform(0.5, 3), realmax=size * rng.uniform(0, 3), imagmin=-size * rng.uniform(0, 2), imagmax=size * rng.uniform(0, 2))
        elif (k + t) % 3 == 1:
            # exactly at an eigenvalue (numbers closer than 2^-100 are not told apart by the recorder)
            kw = {}
            for key, col in (("realmin", fin.real), ("imagmax", fin.imag)):
                col = col[np.abs(col) > 1e-3]
                if len(col):
                    kw[key] = float(col[rng.integers(len(col))])
        b = {**dict(realmin=0.0, realmax=1e99, imagmin=-1e10, imagmax=1e10), **kw}
        if sort == "imag" or k % 2:
            kw["sort"] = sort
        else:
            sort = "real"
        r, err = guarded(lambda: op.select_and_sort(**kw))
        note = f"{who} select_and_sort({kw}) {err or ''}"
        if err or len(r) != 3 or len(r[0]) != len(r[2]) or np.shape(r[1]) != (len(vects), len(r[0])):
            tr.ev("Pick", *b.values(), 0, 0, 0, flags=RAISED if err else SHAPE, note=note)
            continue
        kv = r[0][r[2]]
        flat = [x for z in list(vals) + list(kv) for x in parts(z)]
        tr.ev("Pick", b["realmin"], b["realmax"], b["imagmin"], b["imagmax"], 0 if sort == "real" else 1, len(vals), len(kv), *flat, note=note)
        if len(kv):
            pairs(tr, rng, o, (n,), r[0], r[1], r[2], who + " selected", count=1, name=name, pre=case.fields())


def converge(tr, rng, op, vals, vects, n, o, name, case, who):
    """from a slightly wrong eigenvalue and vector of an isolated mode"""
    lim = np.median(np.abs(vals[np.isfinite(vals)])) * 20 + 1.0
    good = [j for j in range(len(vals)) if np.isfinite(vals[j]) and 1e-2 < abs(vals[j]) < lim]
    good = [j for j in good if min([abs(vals[j] - vals[i]) for i in range(len(vals)) if i != j and np.isfinite(vals[i])] + [1e9]) > 0.1 * abs(vals[j])]
    if not good:
        return
    j = good[int(rng.integers(len(good)))]
    v = vects[:, j] / np.linalg.norm(vects[:, j])
    z0 = vals[j] * (1 + 1e-5 * rng.uniform(-1, 1))
    start = v * (2 - 1j) + 1e-5 * rng.normal(size=len(v)) / len(v)
    keep = start.copy()
    others = [abs(vals[i] - z0.real) for i in range(len(vals)) if i != j and np.isfinite(vals[i])] + [1e9]
    if min(others) > 0.3 * abs(vals[j].imag) and rng.random() < 0.5:
        z0 = float(z0.real)  # an estimate given as a real number
    r, err = guarded(lambda: op.converge_eigenpair(z0, start))
    note = f"{who} converge_eigenpair from {z0} to {vals[j]}: {err or r[0]}"
    fl = RAISED if err else SHAPE if len(r) != 2 or np.shape(r[1]) != np.shape(v) else 0
    if not np.array_equal(keep, start):
        fl |= 1
    tr.ev("Converged", *parts(vals[j]), *(parts(r[0]) if not fl & (RAISED | SHAPE) else (EXC, EXC)), flags=fl, note=note)
    if not fl:
        pairs(tr, rng, o, (n,), np.array([r[0]]), r[1][:, None], [0], note, count=1, name=name, pre=case.fields())


def ducts(tr):
    rng = tr.nrng
    for k in range(tr.n(16, 180)):
        n = [24, 31][k % 2]
        x0, L = float(rng.uniform(-2, 2)), float(np.exp(rng.uniform(-1, 1)))
        a, rho, g = float(np.exp(rng.uniform(-1, 2))), float(np.exp(rng.uniform(-1, 1))), float(rng.uniform(1.1, 2))
        per = k % 3 < 2
        u = a * float(rng.uniform(-1.5, 1.5)) if per else 0.0
        one = np.ones(n)

        def go():
            op = Euler.Euler1D(n, x0, x0 + L, basestate=m1d.state(rho * one, u * one, rho * a * a / g * one, g))
            op.set_BC(*(("per", "per") if per else ("sym", "sym")))
            return op.solve_eig()[0]
        vals, err = guarded(go)
        for fam in ((-1, 0, 1) if per else (2,)):
            for c in ((1, -1, 2, -2) if per else (1, -1, 2, 3)):
                z = EXC
                want = 2 * np.pi * c / L * (a / 2 if fam == 2 else u + fam * a)
                if not err:
                    fin = vals[np.isfinite(vals)]
                    z = fin[np.argmin(np.abs(fin - want))]
                tr.ev("Duct", fam, c, u, a, L, *(parts(z) if not err else (EXC, EXC)), flags=RAISED if err else 0,
                      note=f"uniform {'periodic' if per else 'closed'} duct, {n} points, wave {c} of family {fam}: {z} {err or ''}")


def streams(tr):
    rng = tr.nrng
    for k in range(tr.n(12, 150)):
        al, re, u, h = float(np.exp(rng.uniform(-1, 1))), float(np.exp(rng.uniform(0, 5))), float(rng.uniform(-1, 2)), [1.0, 0.5, 2.0][k % 3]

        def go():
            op = OS.OrrSommerfeldModel(32, 3 - h, 3 + h, {"alpha": al, "Reynolds": re, "uprofile": lambda y: u + 0 * y})
            op.set_BC("wall", "wall")
            op.solve_eig()
            v, _, o = op.select_and_sort(-1e9, 1e9, -1e9, 1e9, sort="imag")
            return v[o]
        v, err = guarded(go)
        for j in range(4):
            tr.ev("Stokes", al, re, u, h, j, *(parts(v[j]) if not err and len(v) > j else (EXC, EXC)), flags=RAISED if err else 0,
                  note=f"uniform stream U={u:.4f} alpha={al:.4f} Re={re:.2f} half width {h}, mode {j} {err or v[j]}")
