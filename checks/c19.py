"""Life of stability operators: TLC on spec/C19gen.qnt, its histories replayed into Euler1D and OrrSommerfeldModel."""
import numpy as np
import aerokit.stability.Euler as Euler
import aerokit.stability.OrrSommerfeld as OS
import euler_cases
import os_cases
from vf import generate, picks, guarded, model_check, EXC, RAISED, SHAPE

LEVEL = "model_checking"
SHARD = 150
RULE = "histories of base state/boundary condition (also refused ones)/matrices/eigenvalues on three operators generated by the specification"
AB = [(0.0, 1e-4), (2.0, 2.0003)]


def drive(tr):
    tr.extra["mc_states"], tr.extra["mc_transitions"] = model_check("C19gen", "C19small", "inv", "begin", "small")
    for h, states in enumerate(generate("C19gen", "C19gen", tr.rng.randrange(2 ** 31), tr.n(36, 800), 40, invariant="inv")):
        tr.begin()
        tr.ev("Begin")
        History(tr, h).run(states)
        tr.end()


class History:
    def __init__(self, tr, h):
        rng = tr.nrng
        self.tr, self.rng, self.h = tr, rng, h
        n, (a, b) = 5 + h % 2, AB[h % 2]
        self.dims = [(n, a, b), (5, *AB[1 - h % 2]), (7, -1.0, 1.0)]
        self.cases = [[euler_cases.Case(rng, *self.dims[o], g, uniform=k == 2, subsonic=True, nondim=True) for k, g in enumerate(rng.uniform(1.1, 1.8, 3))] for o in (0, 1)]
        self.cases.append([os_cases.Flow(rng, *self.dims[2]) for k in range(3)])
        for f in self.cases[2]:
            f.re = float(np.exp(rng.uniform(0, 5)))
        self.ops = [Euler.Euler1D(*self.dims[0]), Euler.Euler1D(*self.dims[1]), OS.OrrSommerfeldModel(*self.dims[2])]
        self.case = [None, None, None]
        self.own = [None, None, None]
        self.grad = 0.0

    def run(self, states):
        for k, st in enumerate(states[1:]):
            p = picks(st)
            self.k = k
            getattr(self, st["mbt::actionTaken"])(p["o"], p)

    def SetBase(self, o, p):
        c = self.case[o] = self.cases[o][p["b"]]
        base = c.base() if o == 2 else c.state()
        if self.own[o] is not None and self.rng.integers(2):      # the object given before, with other values
            if o == 2:
                self.own[o].clear()
                self.own[o].update(base)
            else:
                self.own[o].__dict__.update(base.__dict__)
        else:
            self.own[o] = base
        _, err = guarded(lambda: self.ops[o].set_basestate(self.own[o]))
        self.tr.ev("SetBase", o, *c.fields(), flags=RAISED if err else 0, note=f"operator {o}: base state {p['b']} {err or ''}")

    def SetBoundary(self, o, p):
        c = p["c"]
        self.grad = float(self.rng.uniform(-2, 2)) if self.rng.integers(5) else 0.0
        if o == 2:
            bc = [("wall", "wall"), ({"type": "wall"}, {"type": "wall"})][self.k % 2]
        else:
            bc = [("sym", "sym"), ("per", "per"), ({"type": "RH", "dM0dx": self.grad}, {"type": "sym"}),
                  [("sym", "per"), ("per", "sym")][self.k % 2], ("RH", "sym")][c]
        self.keep = [dict(x) if isinstance(x, dict) else x for x in bc]
        _, err = guarded(lambda: self.ops[o].set_BC(*bc))
        self.tr.ev("SetBoundary", o, c, self.grad, flags=RAISED if err else 0, note=f"operator {o}: boundary conditions {bc} {err or ''}")

    def BadBase(self, o, p):
        if o < 2:
            return
        keys = ["alpha", "Reynolds", "uprofile"]
        bad = {k: v for i, (k, v) in enumerate(self.cases[2][0].base().items()) if i != self.k % 3}
        _, err = guarded(lambda: self.ops[o].set_basestate(bad))
        self.tr.ev("Bad", o, bool(err), note=f"operator {o}: base state with only {list(bad)}: {err}")

    def BadBoundary(self, o, p):
        bc = [("nothing", "sym"), ("sym" if o < 2 else "wall", "inlet"), ({"type": "wal"}, {"type": "per"})][p["c"]]
        _, err = guarded(lambda: self.ops[o].set_BC(*bc))
        self.tr.ev("Bad", o, bool(err), note=f"operator {o}: boundary conditions {bc}: {err}")

    def Get(self, o, p):
        mats, err = guarded(lambda: self.ops[o].get_RHS_time_matrices())
        if err:
            self.tr.ev("Refused", o, note=f"operator {o}: matrices: {err}")
            return
        if self.case[o] is None:
            self.tr.ev("NoShock", o, note=f"operator {o}: matrices without base state")
            return
        who = f"operator {o}: matrices"
        case = self.case[o]
        n = case.n
        if o == 2:
            os_cases.probe(self.tr, case, mats, int(self.rng.integers(2, n - 2)), "OsRow", (o,), who)
            os_cases.probe(self.tr, case, mats, 0, "OsWall", (o,), who) if self.k % 2 else os_cases.probe(self.tr, case, mats, n - 1, "OsWall", (o,), who)
            return
        for i, name in ((int(self.rng.integers(1, n - 1)), "Row"), (0, "End"), (n - 1, "End")):
            euler_cases.probe(self.tr, self.ops[o], case, mats, i, name=name, pre=(o,), note=who)
        if mats[0].shape[0] > 3 * n:
            rows, fl = euler_cases.shock_rows(self.ops[o], case, mats)
            self.tr.ev("Shock", o, *rows, flags=fl, note=who)
        else:
            self.tr.ev("NoShock", o, note=who)

    def Solve(self, o, p):
        r, err = guarded(lambda: self.ops[o].solve_eig())
        if err:
            self.tr.ev("Refused", o, note=f"operator {o}: eigenvalues: {err}")
            return
        self.tr.ev("Solve", o, note=f"operator {o}: eigenvalues")
        self.modes(o, *r, range(len(r[0])), f"operator {o}: eigenvalue")

    def Pick(self, o, p):
        kw = dict(realmin=-1e300, realmax=1e300, imagmin=-1e300, imagmax=1e300)
        r, err = guarded(lambda: self.ops[o].select_and_sort(**kw, sort=["real", "imag"][p["sorting"]]))
        if err:
            self.tr.ev("NoPair", o, note=f"operator {o}: selection: {err}")
            return
        self.modes(o, *r, f"operator {o}: selected eigenvalue")

    def modes(self, o, vals, vects, order, note):
        pairs(self.tr, self.rng, o, self.dims[o], vals, vects, order, note)
        if o < 2:
            pairs(self.tr, self.rng, o, self.dims[o], vals, vects, order, note + " at the ends", count=1, name="PairEnds")


def coefs(case, vals):
    """monomial coefficients of the polynomial through the values at the points"""
    n = case if isinstance(case, int) else case.n
    t = -np.cos(np.pi * np.arange(n) / (n - 1))
    return np.linalg.solve(np.vander(t, n, increasing=True), vals)


def pairs(tr, rng, o, dims, vals, vects, order, note, count=2, name="Pair", pre=None):
    n = dims[0]
    lim = np.median(np.abs(vals[np.isfinite(vals)])) * 1e4 + 1.0
    good = [int(j) for j in order if np.isfinite(vals[j]) and abs(vals[j]) < lim]
    if not good and len(vals):
        tr.ev(name, *((o,) if pre is None else pre), 1, 0, 0, 0, flags=SHAPE, note=note + ": no finite eigenvalue")
    for j in (good if len(good) <= count else [good[i] for i in rng.permutation(len(good))[:count]]):
        v = vects[:, j]
        v = v[:n] if o == 2 else v[:3 * n]
        v = v / max(np.abs(v).max(), 1e-300)
        c = [coefs(n, v[i:i + n]) for i in range(0, len(v), n)]
        i = int(rng.integers(2, n - 2) if o == 2 else rng.integers(1, n - 1))
        re = [x for q in c for x in q.real]
        im = [x for q in c for x in q.imag]
        tr.ev(name, *((o,) if pre is None else pre), i, n, vals[j].real, vals[j].imag, *re, *im, note=f"{note} {vals[j]} at point {i}")
