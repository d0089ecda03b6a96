"""Replays histories generated from spec/C14gen.qnt into the nozzle class; spec/C14.qnt judges every node of every distribution."""
import numpy as np
import aerokit.instance.nozzle as nz
import aerokit.aero.nozzle as nza
from vf import generate, picks, guarded, EXC, RAISED, MUTATED, SHAPE, REPEAT, Raw

RULE = "histories of build/set/set again/look on two nozzles generated by the specification, every node judged in order"
ASSUMPTIONS = ["section ratios 1 to 5 at the inlet, 1 to 20 (5 above gamma 1.5) at the exit, gamma 1.1 to 2, 5 to 200 nodes, pressure ratios at least 1e-4 away from a limit between regimes"]
SHARD = 260
G = [1.4, 1.1, 1.2, 1.3, 1.3333, 5 / 3, 2.0, 1.5]


def section(shape, rng, big, g):
    """x, section law, As/Ac to give or None"""
    n = int(rng.choice([5, 6, 9, 14, 23])) if not big else 120
    x = np.linspace(0.0, 1.0, n)
    ai, ae = 1 + 4 * rng.uniform(0.01, 1), 1 + 4 * rng.uniform(0.01, 1)
    if g <= 1.5 and rng.random() < 0.25:
        ae = float(np.exp(rng.uniform(np.log(5), np.log(20))))  # a large diffuser
    xt = rng.uniform(0.15, 0.6)
    give = None
    if shape in (0, 1, 2):
        k = 1.0 if shape == 0 else 2.0
        s = np.where(x < xt, 1 + (ai - 1) * np.abs((xt - x) / xt) ** k, 1 + (ae - 1) * ((x - xt) / (1 - xt)) ** k)
        if shape == 2:
            s *= rng.uniform(0.01, 50)      # any unit of area
    elif shape == 3:                        # convergent
        s = np.linspace(ai, 1.0, n)
    elif shape == 4:                        # divergent
        s = np.linspace(1.0, ae, n)
    elif shape == 5:                        # the throat lies on a node, As/Ac is given, scaled section
        it = max(1, int(xt * n))
        s = np.where(np.arange(n) < it, 1 + (ai - 1) * (1 - np.arange(n) / it), 1 + (ae - 1) * (np.arange(n) - it) / (n - 1 - it))
        give = s[-1] / s[it]
        s *= rng.uniform(0.5, 3)
    else:                                   # straight throat
        s = np.maximum(1.0, np.where(x < xt, 1 + (ai - 1) * (0.8 - x / xt), 1 + (ae - 1) * ((x - xt) / (1 - xt) - 0.25) / 0.75))
    return x, s, give


def drive(tr):
    hist = generate("C14gen", "C14gen", tr.rng.randrange(2 ** 31), tr.n(32, 240), 9, invariant="inv")
    tr.each(hist, lambda t, h, states: replay(t, states, h, t.thorough and h % 10 == 0))


def npr_of(z, regime, level, rng):
    n0, nsw, n1 = float(z.NPR0), float(z.NPRsw), float(z.NPR1)
    f = [0.02, 0.3, 0.7, 0.97][level] + rng.uniform(-0.015, 0.015)
    if regime == 1 and nsw - n0 < 0.01:
        regime = 0
    if regime == 2 and n1 - nsw < 0.01:
        regime = 3
    return [1 + (n0 - 1) * f, n0 + (nsw - n0) * f, nsw + (n1 - nsw) * f, n1 * (1 + 4 * f)][regime]


def replay(tr, states, h, big):
    tr.begin()
    tr.ev("Begin")
    rng = tr.nrng
    obj = [None, None]

    def nodes(i, fl0=0):
        o = obj[i]
        z = o["z"]
        vals, fl = [], 0
        for f in (z.Mach, z.Ps, z.Ptot):
            r, err = guarded(f)
            if err:
                vals.append(np.full(len(o["s"]), np.nan))
                fl |= RAISED
            elif np.shape(r) != o["s"].shape:
                vals.append(np.full(len(o["s"]), np.nan))
                fl |= SHAPE
            else:
                vals.append(np.array(r, dtype=float))
        if not np.array_equal(o["s"], o["given"]) or not np.array_equal(o["x"], o["xg"]):
            fl |= MUTATED
        for r, k in o["handed"]:
            if not np.array_equal(r, k):
                fl |= MUTATED      # arrays handed out before
        o["handed"] = [(f(), np.array(f())) for f in (z.Mach, z.Ps, z.Ptot)] if not fl & RAISED else []
        if o.get("repeat") is not None and not all(np.allclose(a, b, rtol=1e-12, atol=0) for a, b in zip(o["repeat"], vals)):
            fl |= REPEAT
        o["repeat"] = None
        o["last"] = vals
        a = o["s"] / np.min(o["s"])
        if o["give"]:
            a = o["s"] / o["s"][-1] * o["give"]
        it = int(np.argmin(a))
        n = len(a)
        for k in range(n):
            tr.ev("Node", i, k, a[k], float(np.sign(k - it)) if a[k] != a[it] else 0.0, vals[0][k], vals[1][k], vals[2][k], a[k + 1] if k + 1 < n else None,
                  flags=fl | fl0, note=f"history {h}: node {k} of nozzle {i} {o['note']} at NPR {o['npr']}")

    for st in states[1:]:
        a, p = st["mbt::actionTaken"], picks(st)
        i = p["i"]
        if a == "Build":
            x, s, give = section(p["shape"], rng, big, G[p["gas"]])
            g = G[p["gas"]]
            kw = {} if g == 1.4 else {"gamma": g}
            if give:
                kw["AsoAc"] = give
            asac = give or s[-1] / np.min(s)
            o = dict(x=x.copy(), xg=x, s=s.copy(), given=s, give=give, handed=[], note=f"(shape {p['shape']}, {len(s)} nodes, {kw})", npr=None)
            z, err = guarded(nz.nozzle, x, s, **kw)
            if not err and p["regime"] >= 0:
                npr = npr_of(z, p["regime"], p["level"], rng)
                z, err = guarded((nza if h % 5 == 0 else nz).nozzle, x, s, NPR=npr, **kw)
                o["npr"] = npr
            if err:
                tr.ev("Build", i, g, asac, o["npr"], EXC, EXC, EXC, EXC, flags=RAISED, note=o["note"] + err)
                obj[i] = None
                continue
            o["z"] = z
            obj[i] = o
            tr.ev("Build", i, g, asac, o["npr"], z.NPR0, z.NPRsw, z.NPR1, z.AsoAc, note=o["note"])
            if o["npr"]:
                nodes(i)
        elif obj[i] is None:
            continue
        elif a == "Set_NPR":
            o = obj[i]
            o["npr"] = npr_of(o["z"], p["regime"], p["level"], rng)
            _, err = guarded(o["z"].set_NPR, o["npr"])
            tr.ev("Set", i, o["npr"], flags=RAISED if err else 0, note=f"set_NPR({o['npr']}) {o['note']} {err or ''}")
            if not err:
                nodes(i)
        elif a == "Again" and obj[i]["npr"]:
            o = obj[i]
            o["repeat"] = o.get("last")
            _, err = guarded(o["z"].set_NPR, o["npr"])
            tr.ev("Set", i, o["npr"], flags=RAISED if err else 0, note=f"set_NPR({o['npr']}) again {o['note']} {err or ''}")
            if not err:
                nodes(i)
        elif a == "Look" and obj[i]["npr"]:
            tr.ev("Look", i, obj[i]["npr"], note="look")
            nodes(i)
    tr.end()
