import contextlib
import io
import re
import numpy as np
import matplotlib
matplotlib.use("Agg")
import aerokit.engine.Cycle_Turbofan as ct
import aerokit.engine.propu_be as pb
import aerokit.engine.propu_be_double_corps as pd
from vf import generate, picks, guarded, model_check, EXC, RAISED

SHARD = 60
LEVEL = "model_checking"
RULE = "histories of stages, completions, prints and restarts with other parameters of pairs of staged cycles, generated by the specification; functional cycles with random parameters"
CORE, GIVEN, DRIVEN = 0, 1, 2
PAR = ["lambda_", "pi_c", "Tt4", "m", "g", "rg", "h", "rh", "P_k", "par", "P0", "T0", "M0", "xi_e", "eta_c", "eta_f", "eta_comb", "xi_cc", "eta_m", "eta_turb", "xi_tuy"]
VAL = ["Pt0", "Tt0", "V0", "Tt2", "Pt2", "m_c", "Tt3", "Pt3", "wu_c", "m_k", "alpha", "Pt4", "m_f", "Tt13", "Pt13", "wu_f", "pi_f",
       "Pt19", "Tt19", "P19", "M19", "V19", "F_f", "Tt4_etoile", "pi_t_c", "Pt4_etoile", "Tt5", "pi_t", "Pt5", "wu_fan",
       "Tt9", "Pt9", "P9", "M9", "V9", "F_c", "F", "F_spe", "mk_spe", "eta_th", "eta_prop", "eta"]
OPS = {1: "InitialValues", 2: "stage_2", 3: "stage_3", 4: "stage_4", 14: "calculs_1_to_4", 13: "stage_13", 19: "stage_19", 40: "stage_4_etoile",
       5: "stage_5", 9: "stage_9", 100: "perfo", 59: "calculs_5_to_9", 0: "show_perfo"}
NOMINAL = dict(lambda_=6.1, pi_c=32.8, Tt4=1410.0, m=180.0, g=1.4, rg=287.0, h=1.33, rh=291.6, P_k=42800e3, par=1.6, P0=22700.0, T0=217.0, M0=0.8,
               xi_e=0.97, eta_c=0.90, eta_f=0.89, eta_comb=0.99, xi_cc=0.95, eta_m=0.98, eta_turb=0.88, xi_tuy=0.97)
GROUPS = [["M0", "P0", "T0"], ["Tt4", "pi_c"], PAR[13:], ["m", "lambda_"], ["par"]]


def expands(kind, c):
    """both nozzles have something to expand (else the cycle has no solution)"""
    cp, ch = c["rg"] * c["g"] / (c["g"] - 1), c["rh"] * c["h"] / (c["h"] - 1)
    t0 = c["T0"] * (1 + (c["g"] - 1) / 2 * c["M0"] ** 2)
    p2 = (t0 / c["T0"]) ** (c["g"] / (c["g"] - 1)) * c["xi_e"]
    t3 = t0 * c["pi_c"] ** ((c["g"] - 1) / c["g"] / c["eta_c"])
    far = (ch * c["Tt4"] - cp * t3) / (c["eta_comb"] * c["P_k"] - ch * c["Tt4"])
    if far < 0.003:
        return False
    if kind == GIVEN:
        t13 = t0 * c["par"] ** ((c["g"] - 1) / c["g"] / c["eta_f"])
        p13 = p2 * c["par"]
        t5 = c["Tt4"] - (cp * (t3 - t0) + c["lambda_"] * cp * (t13 - t0)) / ((1 + far) * ch * c["eta_m"])
        if t5 < 200:
            return False
        p5 = p2 * c["pi_c"] * c["xi_cc"] * (t5 / c["Tt4"]) ** (c["h"] / (c["h"] - 1) / c["eta_turb"])
    else:
        ts = c["Tt4"] - cp * (t3 - t0) / ((1 + far) * ch * c["eta_m"])
        if ts < 300:
            return False
        ps = p2 * c["pi_c"] * c["xi_cc"] * (ts / c["Tt4"]) ** (c["h"] / (c["h"] - 1) / c["eta_turb"])
        if ps < 1.2:
            return False
        t5 = ts - c["par"] * ts * (1 - ps ** (-(c["h"] - 1) / c["h"]))
        p5 = ps * (t5 / ts) ** (c["h"] / (c["h"] - 1) / c["eta_turb"])
        t13 = t0 + (ts - t5) * (1 + far) * ch * c["eta_m"] / (c["lambda_"] * cp)
        p13 = p2 * (t13 / t0) ** (c["eta_f"] * c["g"] / (c["g"] - 1))
    return min(p5, p13) * c["xi_tuy"] > 1.1


def draw(rng, kind, base, names):
    for _ in range(1000):
        c = dict(base)
        for m in names:
            a, b = {"lambda_": (0.6, 11), "pi_c": (6, 40), "Tt4": (1250, 1850), "m": (20, 400), "g": (1.37, 1.41), "rg": (284, 290), "h": (1.29, 1.36), "rh": (286, 295),
                    "P_k": (40e6, 45e6), "P0": (15e3, 105e3), "T0": (205, 295), "M0": (0.0, 0.95) if rng.random() < 0.7 else (0.95, 1.7), "par": (1.2, 2.2) if kind == GIVEN else (0.2, 0.85)}.get(m, (0.85, 0.999))
            c[m] = float(rng.uniform(a, b))
            if m == "par" and kind == GIVEN and rng.random() < 0.3:      # a fan which hardly compresses
                c[m] = float(rng.uniform(1.0, 1.2))
        if expands(kind, c):
            return c
    return dict(base)


def nominal(kind):
    return dict(NOMINAL, par=0.5 if kind == DRIVEN else 1.6)


def quiet(f, *a, **k):
    out = io.StringIO()

    def call():
        with contextlib.redirect_stdout(out):
            return f(*a, **k)
    r, err = guarded(call)
    return r, err, out.getvalue()


def drive(tr):
    tr.extra["mc_states"], tr.extra["mc_transitions"] = model_check("C26gen", "C26gen", "inv", "begin", "small")
    rng = tr.nrng
    hist = list(generate("C26gen", "C26gen", tr.rng.randrange(2 ** 31), tr.n(60, 1200), 20, invariant="inv"))
    for k in range(0, len(hist) - 1, 2):
        tr.begin()
        tr.ev("Begin")
        objs = [None, None]
        left = [list(hist[k]), list(hist[k + 1])]
        while any(left):
            o = int(rng.integers(2))
            if left[o]:
                act(tr, objs, o, left[o].pop(0), len(left[o]))
        tr.end()
    tr.begin()
    tr.ev("Begin")
    for k in range(tr.n(60, 600)):
        function(tr, k)
    tr.end()


def act(tr, objs, o, st, left):
    rng = tr.nrng
    a, p = st["mbt::actionTaken"], picks(st)
    if a in ("init", "Make") or objs[o] is None:
        kind = st["obj"]["kind"] if a == "init" else p["kind"]
        kind = int(kind["#bigint"]) if isinstance(kind, dict) else int(kind)
        c = nominal(kind) if rng.random() < 0.2 else draw(rng, kind, nominal(kind), PAR)
        plain = rng.random() < 0.4

        def make():
            g, h = ct.Gaz(gamma=c["g"], r=c["rg"]), ct.Gaz(c["h"], c["rh"], c["P_k"])
            args = (c["lambda_"], c["pi_c"], c["Tt4"], c["m"], g, h)
            if kind == CORE:
                return ct.cycle_1_to_4(*args)
            if kind == GIVEN:
                return ct.cycle_taux_fan_fixe(*args, c["par"])
            return ct.cycle_taux_fan_calcule(*args, taux_meca=c["par"]) if c["par"] != 0.5 else ct.cycle_taux_fan_calcule(*args)
        # the conditions are those of the class when the object is made
        for m in PAR[10:]:
            c[m] = NOMINAL[m]
        if not expands(kind, c):
            c = nominal(kind)
        obj, err, _ = quiet(make)
        e = objs[o] = dict(obj=obj, kind=kind, c=c, v=[EXC] * len(VAL), dead=bool(err))
        tr.ev("Make", o, kind, *[c[m] for m in PAR], *read(e), flags=RAISED if err else 0, note=f"object {o}: kind {kind} {c} {err or ''}")
        return
    e = objs[o]
    if e["dead"]:
        return
    if a == "Restart":
        e["c"] = c = draw(rng, e["kind"], e["c"], GROUPS[p["what"]])
        for m in PAR[:4] + PAR[10:]:
            setattr(e["obj"], m, c[m])
        if e["kind"]:
            setattr(e["obj"], "pi_f" if e["kind"] == GIVEN else "taux_meca", c["par"])
        tr.ev("Change", o, 0, *[c[m] for m in PAR], note=f"object {o}: other {GROUPS[p['what']]}")
        op = 1
    else:
        op = p["op"]
    name = OPS[op]
    if e["kind"] == CORE and op not in (0, 1, 2, 3, 4, 14) or e["kind"] == GIVEN and op == 40:
        return
    if op == 0 and e["kind"] == CORE:
        name = "show_attributes"
    _, err, _ = quiet(lambda: getattr(e["obj"], name)())
    tr.ev("Do", o, op, *read(e), flags=RAISED if err else 0, note=f"object {o} (kind {e['kind']}, {e['c']}): {name}() {err or ''}")


def read(e):
    obj = e["obj"]
    corps, fan = getattr(obj, "current_stage_corps", EXC), getattr(obj, "current_stage_fan", 0)
    new = []
    for i, m in enumerate(VAL):
        if m == "pi_f" and e["kind"] != DRIVEN:
            continue
        if m == "pi_t" and e["kind"] == DRIVEN:
            m = "pi_t_f"
        try:
            z = float(getattr(obj, m))
        except Exception:
            z = EXC
        if z != e["v"][i] and not (z != z and e["v"][i] != e["v"][i]):
            new += [i, z]
            e["v"][i] = z
    return [corps, fan if fan is not None else EXC, len(new) // 2] + new


def function(tr, k):
    rng = tr.nrng
    kind = [GIVEN, DRIVEN, DRIVEN][k % 3]
    mod = pb if kind == GIVEN else pd
    c = nominal(kind) if k < 3 else draw(rng, kind, nominal(kind), PAR[:4] + ["par"] if k % 2 else PAR)
    names = dict(zip(["r", "r_", "gamma", "gamma_"], (c["rg"], c["rh"], c["g"], c["h"])), **{m: c[m] for m in ["P_k"] + PAR[10:]})
    keep = {m: getattr(mod, m, None) for m in names}
    try:
        for m in names:
            setattr(mod, m, names[m])
        if kind == GIVEN:
            r, err, txt = quiet(mod.calculs, c["lambda_"], c["pi_c"], c["Tt4"], c["par"], c["m"])
            r = [float(z) for z in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", txt)]
            r = (r + [EXC] * 9)[:9]
        elif k % 3 == 2:
            _, err, txt = quiet(mod.calculs_tau_optimum, c["lambda_"], c["pi_c"], c["Tt4"], c["m"])
            r = [float(z) for z in re.findall(r"^\s*([-+]?\d+\.?\d*(?:e[-+]?\d+)?)\s*$", txt, re.M)]
            r = (r + [EXC] * 5)[:5]
        else:
            r, err, _ = quiet(mod.calculs, c["lambda_"], c["pi_c"], c["Tt4"], c["m"], c["par"])
            r = list(r) if not err else [EXC] * 6
    finally:
        for m in names:
            setattr(mod, m, keep[m])
    op = "Optimum" if k % 3 == 2 else "Function"
    tr.ev(op, kind, *[c[m] for m in PAR], *r, flags=RAISED if err else 0, note=f"{mod.__name__} {op} {c} {err or ''}")
