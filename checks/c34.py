"""Waves in a tube (spec/C34gen.qnt): the states one problem gives are the start of the next ones."""
import numpy as np
import aerokit.aero.unsteady1D as u1
import aerokit.instance.riemann as ri
import aerokit.instance.unsteady_inflow as ui
from common import gam
from vf import generate, picks, guarded, model_check, EXC, RAISED, MUTATED
from riemann_cases import side

RULE = "histories of meetings, walls, reservoirs, mirrors and frames generated by the specification; the library's own states are led from one problem to the next"
ASSUMPTIONS = ["pressures within 1/900..900 times the star pressure (100 times for two gases), no vacuum; reservoirs as in C12"]
LEVEL = "model_checking"
SHARD = 40
GASES = [(1.4, 1.4), (1.4, 1.3), (5 / 3, 5 / 3), (1.2, 5 / 3), (1.1, 1.1), (2.0, 1.4)]
NODES = 0.5 + 0.5 * np.polynomial.legendre.leggauss(6)[0]


def flat(o):
    return [float(np.ravel(x)[0]) for x in (gam(o), o.rho, o.u, o.p)]


def star(a, b):
    """pressure between the cells (own bisection) or None when they part"""
    def f(p):
        return side(a[0], a[1], a[3], p) + side(b[0], b[1], b[3], p) + b[2] - a[2]
    lo, hi = min(a[3], b[3]) * 1e-4, max(a[3], b[3]) * 1e4
    if f(lo) > 0 or f(hi) < 0:
        return None
    for _ in range(80):
        m = np.sqrt(lo * hi)
        lo, hi = (m, hi) if f(m) < 0 else (lo, m)
    return lo


def within(a, b):
    p = star(a, b)
    k = 900 if a[0] == b[0] else 100
    return p is not None and all(1 / k < q[3] / p < k for q in (a, b)) and max(a[3], b[3]) < 1e12 and min(a[3], b[3]) > 1e-8


def solve(qa, qb):
    def f():
        p = ri.riemann_pb(qa, qb)
        return p.qstarL(), p.qstarR(), p, flat(p.qstarL()) + flat(p.qstarR()) + [float(x) for x in (p.pstar(), p.ustar(), p.left_fastest(), p.right_fastest())]
    return guarded(f)


class Tube:
    def __init__(self, tr):
        self.tr, self.q, self.links = tr, [], []

    def see(self, name, *fields, err=None, note=""):
        now = [flat(q) for q in self.q]
        fl = (RAISED if err else 0) | (MUTATED if now != self.kept else 0)
        self.tr.ev(name, *fields, flags=fl, note=f"{note} {err or ''}")
        return not fl

    def frame(self, c):
        self.q = [u1.unsteady_state(q.rho, q.u - c, q.p, q._gamma) if k % 2 else shifted(q, c) for k, q in enumerate(self.q)]
        self.kept = [flat(q) for q in self.q]
        return self.see("Move", c, *[x for q in self.kept for x in q], note=f"the tube {self.kept} seen from a frame moving at {c!r}")


def shifted(q, c):
    z = q.copy()
    z.u = z.u - c
    return z


def drive(tr):
    tr.extra["mc_states"], tr.extra["mc_transitions"] = model_check("C34gen", "C34gen", "inv")
    rng = tr.nrng
    for h, states in enumerate(generate("C34gen", "C34gen", tr.rng.randrange(2 ** 31), tr.n(80, 450), 20, invariant="inv")):
        tr.begin()
        tr.ev("Begin")
        t = Tube(tr)
        for st in states[1:]:
            if not one(tr, rng, t, st["mbt::actionTaken"], picks(st), h):
                break
        tr.end()


def one(tr, rng, t, a, p, h):
    if a == "Fill":
        scale, ga = [1.0, 1e5][h % 2], GASES[p["gas"]]
        for k in range(p["n"]):
            g = ga[k % 2]
            rho, pr = np.exp(rng.uniform(-1.5, 1.5)), scale * np.exp(rng.uniform(-1.5, 1.5))
            t.q.append(u1.unsteady_state(float(rho), float(rng.normal() * np.sqrt(g * pr / rho) * (0, 0.5, 1.5)[int(rng.integers(3))]), float(pr), g))
        t.links = [0] * (p["n"] - 1)
        t.kept = [flat(q) for q in t.q]
        return t.see("Fill", p["n"], *[x for q in t.kept for x in q], note=f"tube of {t.kept}")
    if a is None or not t.q:
        return True
    n = len(t.q)
    i = min(p.get("i", 0), n - 2)
    if a == "Meet":
        if t.links[i] == 0 and (n > 7 or not within(t.kept[i], t.kept[i + 1])):
            return True
        r, err = solve(t.q[i], t.q[i + 1])
        ok = t.see("Meet", i, *(r[3] if not err else [EXC] * 12), err=err, note=f"riemann_pb of cells {i}, {i + 1} ({t.kept[i]}, {t.kept[i + 1]}), joined by {t.links[i]}")
        if ok and t.links[i] == 0:
            t.q[i + 1:i + 1] = [r[0], r[1]]
            t.links[i:i + 1] = [1, 2, 3]
    elif a in ("WallRight", "WallLeft"):
        right = a == "WallRight"
        c = t.q[-1 if right else 0]
        m = c.copysymmetric()
        qa, qb = (c, m) if right else (m, c)
        if n > 7 or not within(flat(qa), flat(qb)):
            return True
        r, err = solve(qa, qb)
        ok = t.see("Wall", 1 if right else 0, *(r[3] if not err else [EXC] * 12), err=err, note=f"wall at the {'right' if right else 'left'} of {flat(c)}")
        if ok and right:
            t.q.append(r[0])
            t.links.append(1)
        elif ok:
            t.q.insert(0, r[1])
            t.links.insert(0, 3)
    elif a == "Inflow":
        if n > 6:
            return True
        g, rho, u, pr = t.kept[0]
        k = float(np.exp(rng.uniform(np.log(0.4), np.log(2.5))))
        du = side(g, rho, pr, pr / k)
        temp = pr / rho * float(np.exp(rng.uniform(-0.6, 0.6)))
        c = u + du - float(rng.uniform(0.08, 0.85)) * np.sqrt(g * temp)
        if not t.frame(float(c)):
            return False
        g, rho, u, pr = t.kept[0]
        us, ps = u + du, pr / k
        tt = 1 + 0.5 * (g - 1) * us ** 2 / (g * temp)
        pt0, rtt0 = float(ps * tt ** (g / (g - 1))), float(temp * tt)

        def f():
            b = ui.inflow_pb(t.q[0])
            b.solve_with_pt0_rtt0(pt0, rtt0)
            return b.qstarL(), b.qstarR()
        r, err = guarded(f)
        ok = t.see("Inflow", pt0, rtt0, *(flat(r[0]) + flat(r[1]) if not err else [EXC] * 8), err=err, note=f"reservoir of {pt0}, {rtt0} opened to {t.kept[0]}")
        if ok:
            t.q[0:0] = [u1.unsteady_state(z[1], z[2], z[3], z[0]) for z in (flat(r[0]), flat(r[1]))]
            t.links[0:0] = [2, 3]
    elif a in ("Drop", "Cut"):
        if n < 3:
            return True
        j = (0 if p["left"] else n - 1) if a == "Cut" else min(max(p["i"], 1), n - 2)
        ok = t.see("Drop", j, note=f"cell {j} vanishes")
        del t.q[j]
        if 0 < j < n - 1:
            t.links[j - 1:j + 1] = [0]
        else:
            del t.links[0 if j == 0 else -1]
    elif a == "Mirror":
        r, err = guarded(lambda: [q.copysymmetric() for q in reversed(t.q)])
        ok = t.see("Mirror", *([x for q in r for x in flat(q)] if not err else [EXC] * (4 * n)), err=err, note=f"mirror image of {t.kept}")
        if ok:
            t.q, t.links = r, [{1: 3, 3: 1}.get(k, k) for k in reversed(t.links)]
    elif a == "Move":
        z = t.kept[[0, n - 1, int(rng.integers(n))][int(rng.integers(3))]]
        a = np.sqrt(z[3] / z[1])
        # a cell at rest, any frame, a cell almost at rest
        return t.frame(float([z[2], rng.normal() * a, z[2] + rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -1) * a][p["c"]]))
    elif a == "Budget":
        if not within(t.kept[i], t.kept[i + 1]):
            return True
        r, err = solve(t.q[i], t.q[i + 1])
        if err:
            return t.see("Meet", i, *[EXC] * 12, err=err, note=f"riemann_pb of cells {i}, {i + 1} ({t.kept[i]}, {t.kept[i + 1]})")
        v = r[3]
        e = [v[10], v[2] - np.sqrt(v[0] * v[3] / v[1]), v[9], v[6] + np.sqrt(v[4] * v[7] / v[5]), v[11]]
        if v[3] > t.kept[i][3]:
            e[1] = e[0]
        if v[3] > t.kept[i + 1][3]:
            e[3] = e[4]
        e = [float(x) for x in np.maximum.accumulate(e)]
        w = e[4] - e[0]
        e = [e[0] - 0.3 * w, *e, e[4] + 0.2 * w]
        x = np.concatenate([lo + (hi - lo) * NODES for lo, hi in zip(e, e[1:])])
        s, err = guarded(r[2].qsol, x.copy())
        out = []
        if not err:
            gs = np.broadcast_to(gam(s), x.shape)
            out = [y for k in range(36) for y in (x[k], gs[k], s.rho[k], s.u[k], s.p[k])]
        ok = t.see("Budget", i, *e, *(out or [EXC] * 180), err=err, note=f"profile of riemann_pb({t.kept[i]}, {t.kept[i + 1]}) between the rays {e}")
    else:
        return True
    t.kept = [flat(q) for q in t.q]
    return ok
