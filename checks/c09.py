"""Replays histories generated from spec/C09gen.qnt into the 1D state classes and
records the slots after every operation; spec/C09.qnt judges them."""
import numpy as np
import aerokit.aero.model1D as m1
import aerokit.aero.unsteady1D as u1
from common import gam
from vf import generate, picks, guarded, EXC, RAISED, SHAPE, Raw

RULE = ("histories of create/copy/jump/isentropic/recompute/query on three objects generated by the specification and replayed; "
        "one behaviour per array element")
SHARD = 350
G = [1.4, 1.3, 5 / 3, 1.1, 1.2, 2.0, 1.05, 1.5, 1.8, 1.3333, 1.25, 1.6]
RHO = [1.0, 1.2, 0.1, 8.0, 0.01, 3.3, 0.5, 1.0, 25.0, 1.7, 0.3, 2.0]
PP = [1.0, 1e5, 0.4, 25.0, 101325.0, 3.0, 1e-2, 7.0, 2e6, 0.7, 5e3, 1.3]
MM = [0.0, 0.5, 2.0, -0.4, 1.5, 3.0, 0.01, -2.5, 1.0, 0.9, 4.0, 1.2]


def drive(tr):
    hist = generate("C09gen", "C09gen", tr.rng.randrange(2 ** 31), tr.n(130, 1000), 14, invariant="inv")
    # 0: python floats
    tr.each(hist, lambda t, h, states: replay(t, states, [0, 1, 3, 2][h % 4], h))


def replay(tr, states, n, h):
    m = max(n, 1)
    objs = [None, None, None]
    sess = [[] for _ in range(m)]
    rng = tr.nrng

    def val(x):
        """the value of a parameter for all the elements"""
        return float(x) if n == 0 else np.asarray(x) * (1 + 0.1 * np.arange(n))

    def el(x, i):
        return x if n == 0 or np.ndim(x) == 0 else np.ravel(x)[i] if np.size(x) > i else EXC

    def snap(i):
        out = []
        for o in objs:
            if o is None:
                out += [0, 0, 0, 0, 0]
            else:
                out += [1, el(gam(o), i), el(o.rho, i), el(o.u, i), el(o.p, i)]
        return out

    def record(op, s, d, par, extra=(), err=None, note=None):
        for i in range(m):
            fl = RAISED if err else 0
            shp = () if n == 0 else (n,)
            if d >= 0 and objs[d] is not None and not err:
                o = objs[d]
                if any(np.shape(x) != shp for x in (o.rho, o.u, o.p)):
                    fl |= SHAPE
            f = [max(s, 0), max(d, 0)] + [el(p, i) for p in par] + [0] * (3 - len(par)) + snap(i) + [el(e, i) for e in extra]
            sess[i].append((op, (Raw(fl),) + tuple(f), (note or op) + (f" raised {err}" if err else "") + f" (history {h}, element {i})"))

    def do(op, s, d, fn, par, note):
        res, err = guarded(fn)
        if not err and d >= 0:
            objs[d] = res
        record(op, s, d, par, err=err, note=note)
        return err

    for i in range(m):
        sess[i].append(("Begin", (Raw(0),), "begin"))

    def query(s):
        o = objs[s]
        res, err = guarded(lambda: (o.asound(), o.left_acoustic(), o.right_acoustic(), o.Mach(), o.massflow(), o.Ptot(), o.rTtot()))
        record("Query", s, -1, [], res if not err else [EXC] * 7, err, note=f"queries of slot {s}")
        if not err:
            for i in range(m):
                sess[i].append(("Size", (Raw(0), int(o.size), max(n, 1)), "size"))

    def mirrored(s, d, go_on):
        do("CopySymmetric", s, d, lambda: objs[s].copysymmetric(), [], f"slot {d} = symmetric copy of slot {s}")
        if objs[d] is not None and n:  # the mirror image of arrays shares them
            objs[d] = objs[d].copy()
        elif objs[d] is not None and s != d and go_on:  # one of both goes on
            k = (s, d)[h // 2 % 2]
            par = [float(objs[s].p) * 1.3, float(objs[s].p / objs[s].rho) * 0.8, 0.6]
            _, err = guarded(lambda: objs[k].compute_from_pt_rtt_M(*par))
            record("ByM", k, k, par, err=err, note=f"slot {k} recomputed from {par}")

    for st in states[1:]:
        a = st["mbt::actionTaken"]
        p = picks(st)
        s, d = p.get("s", -1), p.get("d", -1)
        if s >= 0 and objs[s] is None:
            continue
        if a == "New":
            g = G[p["a"]]
            many = n > 1 and (p["a"] + p["b"]) % 3 == 1      # a mixture of gases in one array
            if many:
                g = np.array([G[(p["a"] + 5 * k) % len(G)] for k in range(n)])
            rho, pr = val(RHO[p["b"]]), val(PP[p["c"]])
            u = val(MM[0 if (p["a"] + 2 * p["b"]) % 4 == 1 else (p["a"] + p["b"] + p["c"]) % 12]) * np.sqrt(g * PP[p["c"]] / RHO[p["b"]])
            cls = u1.unsteady_state if p["cls"] == "unsteady" else m1.state
            how = (p["a"] + p["c"]) % 3 if not many and g == 1.4 else 1 + p["c"] % 2
            if how == 0:
                f = lambda: cls(rho, u, pr)
            elif how == 1:
                f = lambda: cls(rho=rho, u=u, p=pr, gamma=g)
            else:
                f = lambda: cls(rho, u, pr, g)
            res, err = guarded(f)
            if not err:
                objs[d] = res
            par = [rho.copy() if n else rho, u.copy() if n else u, pr.copy() if n else pr]
            for i in range(m):
                pass
            record("New", 0, d, par, (np.copy(g) if many else g,), err, note=f"{cls.__name__}({rho}, {u}, {pr}, {g})")
            if objs[d] is not None:
                query(d)
            if objs[d] is not None and not n and u == 0 and cls is u1.unsteady_state:
                mirrored(d, (d + 1) % 3, True)
        elif a == "Copy":
            do("Copy", s, d, lambda: objs[s].copy(), [], f"slot {d} = copy of slot {s}")
        elif a == "CopySymmetric":
            if not hasattr(objs[s], "copysymmetric"):
                continue
            mirrored(s, d, (p.get("a", 0) + len(sess[0]) + h) % 2)
        elif a == "CopyAndChange":
            if not isinstance(objs[s], u1.unsteady_state):
                continue

            def f():
                o = objs[s].copy()
                o.rho *= 1.5
                o.u *= 0.75
                o.p *= 2.5
                return o
            do("CopyAndChange", s, d, f, [1.5, 0.75, 2.5], f"slot {d} = copy of slot {s}, changed in place")
        elif a == "Jump":
            mach, err = guarded(lambda: np.min(np.abs(objs[s].Mach())))
            if err or not mach > 1.0001:
                do("Copy", s, d, lambda: objs[s].copy(), [], f"slot {d} = copy of slot {s}") if s != d else None
                continue
            do("Jump", s, d, lambda: objs[s].state_RH(), [], f"slot {d} = jump state of slot {s}")
            query(d)
        elif a == "Isentropic":
            M = val(abs(MM[p["a"]]))
            do("Isentropic", s, d, lambda: objs[s].state_isentropic_Mach(M), [M], f"slot {d} = isentropic state of slot {s} at Mach {M}")
            if objs[d] is not None:
                query(d)
        elif a == "Recompute":
            g = gam(objs[s])
            pt, rtt = val(PP[p["a"]] * 2), val(PP[p["b"]] / RHO[p["b"]])
            M = val(abs(MM[p["c"]]) * (0.9 if p["by"] == "u" else 1))
            op, third, f = {
                "M": ("ByM", M, lambda: objs[s].compute_from_pt_rtt_M(pt, rtt, M)),
                "u": ("ByU", None, None), "p": ("ByP", None, None)}[p["by"]]
            if p["by"] == "u":
                sg = -1.0 if p["a"] % 3 == 0 else 1.0
                third = sg * M * np.sqrt(g * rtt / (1 + 0.5 * (g - 1) * M ** 2))
                f = lambda: objs[s].compute_from_pt_rtt_u(pt, rtt, third)
            elif p["by"] == "p":
                third = pt / (1 + 0.5 * (g - 1) * M ** 2) ** (g / (g - 1))
                f = lambda: objs[s].compute_from_pt_rtt_p(pt, rtt, third)
            _, err = guarded(f)
            record(op, s, s, [pt, rtt, third], err=err, note=f"slot {s} recomputed from {pt}, {rtt}, {third} ({op})")
            query(s)
        elif a == "Waves":
            if not isinstance(objs[s], u1.unsteady_state):
                continue
            o = objs[s]
            k = [1.01, 1.5, 3.0, 10.0, 50.0, 1.001, 900.0][p["a"] % 7]
            e = [0.99, 0.5, 0.1, 0.02, 1e-3][p["a"] % 5]
            ps, pe = o.p * k, o.p * e
            res, err = guarded(lambda: (o.rho_through_shock(ps), o.delta_u_shock(ps), o.rho_through_isentropic(pe), o.delta_u_expansion(pe)))
            record("Waves", s, -1, [ps, pe], res if not err else [EXC] * 4, err, note=f"waves from slot {s} to {ps}, {pe}")
            if hasattr(o, "_rankinehugoniot_from_ushock"):
                mn = [1.05, 1.5, 3.0, 8.0, 1.2][p["a"] % 5] * (-1 if p["a"] % 2 else 1)
                w = o.u - mn * np.sqrt(gam(o) * o.p / o.rho)
                q, err = guarded(lambda: o._rankinehugoniot_from_ushock(w))
                record("MovingShock", s, -1, [w], (q.rho, q.u, q.p, gam(q)) if not err else [EXC] * 4, err, note=f"state behind a shock of speed {w} from slot {s}")
        elif a == "Element" and n > 0:
            o = objs[s]
            for i in range(m):
                j = i - n if p.get("a", h) % 2 else i
                q, err = guarded(lambda: o[j])
                ex = [EXC] * 4 if err else [gam(q), q.rho, q.u, q.p]
                if n > 1 and not err:      # the same element in a part of the array
                    part, err = guarded(lambda: o[i:] if h % 2 else o[np.arange(n) == i])
                    if not err and not (np.size(part.rho) == (n - i if h % 2 else 1) and el(gam(part), 0) == el(gam(o), i)
                                        and all(np.ravel(getattr(part, c))[0] == np.ravel(getattr(o, c))[i] for c in ("rho", "u", "p"))):
                        ex[0] = EXC
                f = [s, 0, 0, 0, 0] + snap(i) + ex
                sess[i].append(("Element", (Raw(RAISED if err else 0),) + tuple(f), f"element {i} of slot {s} (history {h})"))
    for x in sess:
        tr.begin()
        for e in x:
            tr.open.append(e)
        tr.end()
