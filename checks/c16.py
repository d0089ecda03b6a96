"""Variable denominations: TLC on spec/C16gen.qnt, its histories replayed into aerokit.common.dicovar and extendvar."""
import contextlib
import io
import math
import os
import re
with contextlib.redirect_stdout(io.StringIO()):
    import aerokit.common.dicovar as dv
    import aerokit.common.extendvar as ev
from vf import generate, picks, guarded, model_check, RAISED
import vf

LEVEL = "model_checking"
RULE = "histories of select/add/change/get/print/expressions generated by the specification; the whole table compared after every operation"
ALIAS = {"ic3": ["IC3", "ic3", "CharlesX", "cx", "charlesx", "CX", "Ic3"], "of": ["OpenFOAM", "of", "openfoam", "ofoam", "OF", "OPENFOAM", "OFoam"]}
UNKNOWN = ["fluent", "", "icx", "open foam", "hybrid"]
_txt = open(os.path.join(vf.SPEC, "C16.qnt")).read()
NAMES, DENOM = [re.findall(r'"([^"]*)"', re.search(rf"pure val {k} = \[(.*?)\]", _txt).group(1)) for k in ("NAMES", "DENOM")]
VALUE = {"A": "AAA", "B": "BBB"}


def num(d):
    return DENOM.index(d) if d in DENOM else -2


def drive(tr):
    tr.extra["mc_states"], tr.extra["mc_transitions"] = model_check("C16gen", "C16gen", "inv")
    for h, states in enumerate(generate("C16gen", "C16gen", tr.rng.randrange(2 ** 31), tr.n(100, 1200), 18, invariant="inv")):
        tr.begin()
        _, err = guarded(dv.setDicoVar, "IC3")
        tr.ev("Begin", flags=RAISED if err else 0)
        # the names of the generated history stand for others in two histories of three (the names of the expressions too)
        other = {"new": ("new", "Mach", "S", "a", "Mx", "alpha", "Pt", "mach")[h % 8], "u_avg": ("u_avg", "T", "V", "Vy")[h % 4]} if h % 3 else {}
        for k, st in enumerate(states[1:]):
            p = picks(st)
            one(tr, st["mbt::actionTaken"], {**p, "n": other.get(p["n"], p["n"])} if "n" in p else p, h + k)
            table(tr)
        # names of the whole table
        for n in range(0, len(NAMES)):
            get(tr, NAMES[n], n % 3)
        tr.end()
    guarded(dv.setDicoVar, "IC3")


def get(tr, name, way):
    d = dv.dicoVar
    r, err = guarded([lambda: d.get(name), lambda: d[name], lambda: d(name)][way])
    tr.ev("Get", NAMES.index(name), -1 if err else num(r), note=f"lookup {way} of {name!r}: {err or repr(r)}")


def table(tr):
    keys, err = guarded(lambda: list(dv.dicoVar.keys()))
    if err:
        tr.ev("All", flags=RAISED, note=err)
        return
    out = []
    for n in NAMES:
        r, e = guarded(dv.dicoVar.get, n) if n in keys else (None, True)
        out.append(-1 if e else num(r))
    tr.ev("All", len(keys), *out, note=f"all the names {sorted(keys)}")


def one(tr, a, p, k):
    d = dv.dicoVar
    if a == "Select":
        s = ALIAS[p["s"]][p["alias"]]
        _, err = guarded(dv.setDicoVar, s)
        tr.ev("Select", 0 if p["s"] == "ic3" else 1, 1 if err else 0, note=f"select {s} {err or ''}")
    elif a == "SelectUnknown":
        s = UNKNOWN[k % len(UNKNOWN)]
        _, err = guarded(dv.setDicoVar, s)
        tr.ev("Select", 2, 1 if err else 0, note=f"select {s!r} {err or ''}")
    elif a in ("Add", "Assign"):
        n = p["n"]
        if k % 4 == 3:
            n = {"new": "NEW", "u_avg": "U_avg", "rho": "RHO"}.get(n, n)
        _, err = guarded(d.addVar if a == "Add" else d.setVar, n, VALUE[p["x"]])
        tr.ev(a, NAMES.index(n), num(VALUE[p["x"]]), 1 if err else 0, note=f"{a} {n} {VALUE[p['x']]} {err or ''}")
    elif a == "Get":
        n = p["n"]
        if p["spelling"] == 1:
            n = {"u_avg": "U_avg", "rho": "RHO", "p": "P", "new": "NEW", "P": "p", "Mach": "mach", "mach": "Mach"}.get(n, n)
        elif p["spelling"] == 2:
            n = {"P": "pS", "p": "nothing"}.get(n, n)
        get(tr, n, p["way"])
    elif a == "Show":
        guarded(dv.printDicoVar)
    elif a == "Expressions":
        expressions(tr, k)


def expressions(tr, k):
    ex, err = guarded(ev.expressions_from_rhopv)
    if err:
        tr.ev("Refused", note=f"expressions: {err}")
        return
    d = dv.dicoVar
    new = ("Pt", "T", "S", "V", "a", "Mach", "Mx", "alpha")
    tr.ev("Copied", sum(1 for n in d.keys() if n not in new and ex.get(n) != d[n]))
    names = {w: d[n] for w, n in (("rho", "rho"), ("p", "P"), ("u", "V"), ("vx", "Vx"), ("vy", "Vy"))}
    if len(set(names.values())) < 5 or any(not v.isidentifier() for v in names.values()):
        return      # two variables of the same denomination: the expressions cannot be evaluated
    rho, p = math.exp(tr.rng.uniform(-3, 3)), math.exp(tr.rng.uniform(-3, 12))
    v = [tr.rng.uniform(0.05, 2) * math.sqrt(p / rho) * s for s in ((1, 1, 0), (1, -1, 1), (2, 0, 0), (-1, 1, 1))[k % 4]]
    env = {names["rho"]: rho, names["p"]: p, names["vx"]: v[0], names["vy"]: v[1], names["u"]: v, "sqrt": math.sqrt, "ln": math.log, "atan": math.atan,
           "acos": math.acos, "mag": lambda x: math.sqrt(sum(c * c for c in x)), "__builtins__": {}}
    out = []
    for n in new:
        r, e = guarded(lambda: eval(ex[n].replace("^", "**"), dict(env)))
        out.append(None if e else r)
    tr.ev("Expr", rho, p, *v, *out, note=f"expressions {[ex.get(n) for n in new]} at rho={rho}, p={p}, v={v}")
