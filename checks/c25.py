import numpy as np
import aerokit.engine.gasgenerator as gg
import aerokit.engine.turbojet as tj
import aerokit.engine.turbofan as tf
from vf import generate, picks, guarded, EXC, RAISED, SHAPE

SHARD = 60
RULE = "histories of making, flying, changing, updating and reading three engines at a time (generator, turbojet, turbofan), generated by the specification; random parameters, scalar or array"
NAMES = ["OPR", "Tt4", "gam_cold", "gam_hot", "r_cold", "r_hot", "xi_inlet", "xi_cc", "eta_cc", "Pci", "etapolCHP", "etapolTHP", "eta_shaft",
         "xi_nozzle", "bpr", "fanpower_ratio", "etapolTBP", "etapolfan"]
GASES = [(1.4, 1.33, 287.0, 290.0), None, (1.38, 1.3, 285.0, 292.0), (1.42, 1.36, 287.1, 288.0)]
RANGE = {"OPR": (4, 25), "Tt4": (1400, 1900), "gam_cold": (1.36, 1.42), "gam_hot": (1.28, 1.4), "r_cold": (280, 290), "r_hot": (285, 295), "Pci": (38e6, 46e6),
         "bpr": (0.5, 12), "fanpower_ratio": (0.1, 0.85)}
CORE = ["Tt0", "Pt0", "V0", "Pt2", "Tt2", "Pt3", "Tt3", "Pt4", "far", "Tt45", "Pt45"]
JET = ["Pt9", "M9", "V9"]
FAN = ["Tt5", "Pt5", "Tt17", "Pt17", "Tt19", "Pt19", "M19", "V19"]
CLASSES = [gg.base, tj.turbojet_opt, tf.turbofan_adapt]


def drive(tr):
    for states in generate("C25gen", "C25gen", tr.rng.randrange(2 ** 31), tr.n(90, 2000), 18, invariant="inv"):
        tr.begin()
        tr.ev("Begin")
        replay(tr, states)
        tr.end()
    for k in range(tr.n(6, 90)):
        tr.begin()
        tr.ev("Begin")
        replay(tr, one_by_one(tr.nrng, k % 3))
        tr.end()


def one_by_one(rng, kind):
    """the history (also one of the specification's) in which every parameter is changed in turn"""
    def act(a, **p):
        return {"mbt::actionTaken": a, "mbt::nondetPicks": {k: {"tag": "Some", "value": v} for k, v in dict(p, o=0).items()}}
    return ([None, act("New", kind=kind, gases=1 + int(rng.integers(3)) % 4), act("Flight", where=1), act("Update")]
            + [a for m in rng.permutation(len(NAMES)) for a in (act("Change", par=int(m)), act("Update"), act("State"))])


FAST = {"OPR": (1.3, 4), "Tt4": (1600, 2000)}  # engines of supersonic flight


def draw(rng, name, vec=False, fast=False):
    a, b = (FAST if fast and name in FAST else RANGE).get(name, (0.82, 1.0))
    return rng.uniform(a, b, 3) if vec else float(rng.uniform(a, b))


def replay(tr, states):
    rng = tr.nrng
    es = [None] * 3

    def get(e, name):
        z = getattr(e["obj"], name)
        return element(e, z)

    def element(e, z):
        z = np.asarray(z, dtype=float)
        if z.ndim == 0:
            return float(z)
        return float(z[e["i"]]) if z.shape == (3,) else EXC

    def read(e, names):
        r, err = guarded(lambda: [get(e, m) for m in names])
        return (r, 0, "") if not err else ([EXC] * len(names), RAISED, err)

    for st in states[1:]:
        a, p = st["mbt::actionTaken"], picks(st)
        o = p["o"]
        if a == "New":
            kind, gas = p["kind"], GASES[p["gases"]]
            vec = rng.random() < 0.4
            fast = rng.random() < 0.3
            par = {m: draw(rng, m, vec and m in ("OPR", "Tt4", "bpr", "etapolTHP"), fast) for m in NAMES}
            if gas:
                par.update(zip(NAMES[2:6], gas))
            else:
                par.update(zip(NAMES[2:6], (1.4, 1.4, 287.1, 287.1)))
            if kind == 1 and not fast and rng.random() < 0.3:
                # too weak a gas generator: the nozzle has nothing to expand
                par.update(OPR=float(rng.uniform(33, 40)), Tt4=float(rng.uniform(1200, 1250)))
                par.update({m: float(rng.uniform(0.78, 0.85)) for m in ("xi_inlet", "xi_cc", "etapolTHP", "xi_nozzle")})
                short = False
            elif rng.random() < 0.3:
                for m in NAMES[6:14] + NAMES[16:]:
                    par[m] = 42.8e6 if m == "Pci" else 1.0
                short = True
            else:
                short = False
            first = NAMES[:2] + (NAMES[14:16] if kind == 2 else [])
            skip = set(NAMES[13:] if kind == 0 else NAMES[14:] if kind == 1 else []) | set(NAMES[6:14] + NAMES[16:] if short else []) | set(NAMES[2:6] if not gas else [])
            kw = {m: par[m] for m in NAMES if m not in skip and m not in first}
            obj, err = guarded(lambda: CLASSES[kind](*[par[m] for m in first], **kw))
            e = es[o] = dict(obj=obj, i=int(rng.integers(3)), kind=kind, vec=vec, par=par, fast=fast)
            e["what"] = f"{CLASSES[kind].__name__} " + " ".join(f"{m} {element(e, par[m]):.5g}" for m in NAMES)
            tr.ev("New", o, kind, *[element(e, par[m]) for m in NAMES], flags=RAISED if err else 0, note=f"engine {o}: {e['what']} {err or ''}")
            continue
        e = es[o]
        obj = e["obj"]
        if a == "Flight":
            if p["where"] == 0:
                c, kw = (1.0, 1.0, 0.0), {}
                c = (288.15, 101325.0, 0.0)
                kw = dict(T0=c[0], P0=c[1])
            else:
                top = 3.2 if e["fast"] else 1.1
                c = (float(rng.uniform(215, 300)), float(np.exp(rng.uniform(9, 11.6))), float(rng.uniform(0, top)))
                if e["vec"]:  # a flight envelope: points of very different altitude and speed
                    c = tuple(v if rng.random() < 0.4 else np.array([rng.uniform(215, 300, 3), np.exp(rng.uniform(9, 11.6, 3)), rng.uniform(0, top, 3)][q])
                              for q, v in enumerate(c))
                kw = dict(T0=c[0], P0=c[1], M0=c[2])
            _, err = guarded(lambda: obj.flight_conditions(**kw))
            v = [element(e, z) for z in c]
            tr.ev("Flight", o, *v, flags=RAISED if err else 0, note=f"engine {o}: flight_conditions{tuple(v)} {err or ''}")
        elif a == "Change":
            m = NAMES[p["par"]]
            if e["kind"] < 2 and p["par"] > 13 or e["kind"] == 0 and p["par"] == 13:
                continue
            v = draw(rng, m, fast=e["fast"])
            setattr(obj, m, v)
            tr.ev("Change", o, p["par"], v, note=f"engine {o}: {m} = {v}")
            if hasattr(obj, "Tt45") and rng.random() < 0.6:
                update(tr, e, o)
                state(tr, e, o, read)
        elif a == "Update":
            update(tr, e, o)
        elif a == "State":
            state(tr, e, o, read)
        elif a == "Perf":
            state(tr, e, o, read)
            p0 = element(e, obj.P0)
            p19 = p0 * float(rng.uniform(0.8, 1.3))
            jet = e["kind"] > 0

            def perf():
                r = [obj.Wsp_cc(), obj.Wsp_TBP_ideal(), p19, obj.Wsp_TBP_ideal(p19), obj.thermal_efficiency()]
                if jet:
                    r += [obj.Wsp_kinEn(), obj.norm_thrust(), obj.spec_thrust(), obj.propulsive_efficiency(), obj.thermoprop_efficiency(), obj.Sfc()]
                return [element(e, z) for z in r]
            r, err = guarded(perf)
            tr.ev("Perf", o, *(r if not err else [EXC] * (11 if jet else 5)), flags=RAISED if err else 0, note=f"engine {o}: performance {e['what']} {err or ''}")
            state(tr, e, o, read)


def update(tr, e, o):
    _, err = guarded(e["obj"].update)
    tr.ev("Update", o, flags=RAISED if err else 0, note=f"engine {o}: update() {err or ''}")


def state(tr, e, o, read):
    names = CORE + (JET if e["kind"] else []) + (FAN if e["kind"] == 2 else [])
    r, fl, err = read(e, names)
    tr.ev("State", o, *r, flags=fl, note=f"state of engine {o}: {e['what']} {err}")
