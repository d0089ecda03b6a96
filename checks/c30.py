import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import aerokit.aero.plot.shockpolar as sp
import aerokit.aero.plot.isentropicpolar as ip
import aerokit.aero.plot.defaultstyle as ds
from vf import guarded, EXC, RAISED

SHARD = 60
RULE = "random Mach 1.05 to 20 (isentropic polars: 8) and gamma 1.1 to 1.67 (or default), number of points, reference state, sides and marks; isentropic polars over random ranges of deviation"


def curves(ax):
    """lines and marks drawn, in order"""
    lines = [(np.asarray(z.get_xdata(), dtype=float).ravel(), np.asarray(z.get_ydata(), dtype=float).ravel(), z) for z in ax.get_lines()]
    return [z for z in lines if z[2].get_linestyle() not in ("None", "", " ")], [z for z in lines if z[2].get_linestyle() in ("None", "", " ")]


def drive(tr):
    rng = tr.nrng
    for k in range(tr.n(36, 400)):
        what = k % 3
        g = [1.4, 1.4, 1.3, float(rng.uniform(1.1, 1.67))][(k // 3) % 4]
        kw = {} if (k // 3) % 4 == 0 else dict(gamma=g)
        m = float(np.exp(rng.uniform(np.log(1.05), np.log(20 if k % 5 == 0 and what < 2 else 8)))) if k % 7 else 1.05
        npts = [100, 7, 1, 40][(k // 2) % 4]
        if npts != 100:
            kw["npts"] = npts
        th, p = 0.0, 1.0
        if what and k % 4:
            th, p = float(rng.uniform(-20, 20)), float(np.exp(rng.uniform(-3, 3)))
            kw.update(thet_init=th, p_init=p)
        marks = 0
        if what < 2:
            curve = ["both", "left", "right"][(k // 5) % 3]
            if curve != "both" or k % 2:
                kw["curve"] = curve
            sides = dict(both=[1, -1], left=[-1], right=[1])[curve]
            for name in ("devmax", "sonic"):
                if rng.random() < 0.6:
                    kw[name] = True
                    marks += 1
        else:
            curve = ["C+", "C-", "both", "c+", "c-"][(k // 3) % 5]
            if curve != "C+" or k % 2:
                kw["curve"] = curve
            sides = [1, -1] if curve == "both" else [1] if "+" in curve else [-1]
            from_pm = np.sqrt((g + 1) / (g - 1)) * np.arctan(np.sqrt((g - 1) / (g + 1) * (m * m - 1))) - np.arctan(np.sqrt(m * m - 1))
            a = np.degrees(from_pm) * 0.9
            rg = (float(-rng.uniform(0.1, 1) * min(a, 30)), float(rng.uniform(0.1, 1) * min(a, 30)))
            rg = rg if k % 2 else rg[::-1]
        plt.close("all")
        _, err0 = guarded([ds.figure_theta_sigma, ds.figure_theta_pressure, ds.figure_theta_pressure][what])
        ax = plt.gca()
        try:
            n0 = len(ax.get_lines())
        except Exception:
            n0 = 0
        style = dict(color="b", linestyle="--", linewidth=1.5) if k % 3 == 1 else {}
        if what == 1 and k % 2 and not err0:
            # not the current axes
            f2, ax2 = plt.subplots()
            plt.sca(ax)
            kw["ax"] = ax2
            ax = ax2
            n0 = 0
        fn = [sp.plot_theta_sigma, sp.plot_theta_pressure, ip.plot_theta_pressure][what]
        args = (m,) if what < 2 else (m, rg)
        _, err = guarded(lambda: fn(*args, **style, **kw))
        kw.pop("ax", None)
        who = f"{fn.__module__}.{fn.__name__}{args} {kw} {err or err0 or ''}"
        tr.begin()
        ls, ms = curves(ax)
        tr.ev("Figure", len(ls) - n0, len(sides), len(ms), marks * len(sides), flags=RAISED if err or err0 else 0, note=who)
        if len(ls) - n0 == len(sides):
            for (x, y, _), side in zip(ls[n0:], sides):
                tr.ev("Curve", what, g, m, th, p, side, note=who)
                idx = range(len(x)) if len(x) < 12 else sorted({0, len(x) - 1, *rng.permutation(len(x))[:8]})
                for i in idx:
                    tr.ev("Point", x[i], y[i], note=who + f" side {side} point {i}")
                tr.ev("End", len(x), npts, *(rg if what == 2 else (0.0, 0.0)), x[0], x[-1], note=who + f" side {side}")
        if len(ms) == marks * len(sides):
            names = [i for i, q in enumerate(("devmax", "sonic")) if kw.get(q)]
            for (x, y, _), (kind, side) in zip(ms, [(i, s) for i in names for s in ([1, -1] if len(sides) == 2 else sides)]):
                tr.ev("Curve", what, g, m, th, p, side, note=who)
                tr.ev("Mark", kind, x[0], y[0], note=who + f" mark {kind} side {side}")
        tr.end()
    plt.close("all")
