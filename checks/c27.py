import numpy as np
import aerokit.aero.ThermoRealGas as air
import aerokit.aero.ThermoKerosen as fuel
from vf import guarded, EXC, RAISED

RULE = "random temperatures 150 to 6000 K (air) and 250 to 1800 K (fuel), intervals of 1 to 30 K"
G = np.array([-np.sqrt(0.6), 0.0, np.sqrt(0.6)])


def drive(tr):
    rng = tr.nrng
    for k in range(tr.n(600, 12000)):
        gas = k % 2
        mod = fuel if gas else air
        lo, hi = (250, 1800) if gas else (150, 6000)
        t = float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
        dt = float(np.exp(rng.uniform(0, np.log(30))))
        if not gas and t < 400:
            dt = min(dt, 5.0)
        ts = [float(z) for z in t + dt / 2 + dt / 2 * G]
        if k % 17 == 0:
            t = float(int(t))
            dt = 4.0
            ts = [float(z) for z in t + dt / 2 + dt / 2 * G]
        r, err = guarded(lambda: [mod.Cp(z) for z in ts] + [mod.Enthalpy(t), mod.Enthalpy(t + dt), mod.Phi(t), mod.Phi(t + dt)])
        tr.ev("Integral", gas, *ts, *(r if not err else [EXC] * 7), t, t + dt, flags=RAISED if err else 0, note=f"{mod.__name__} between {t} and {t + dt} {err or ''}")
        if gas:
            r, err = guarded(lambda: [mod.Pc_eff(t), mod.Pc_inf(), mod.Enthalpy(t), mod.Pc_eff(298.15), mod.Enthalpy(298.15)])
            tr.ev("Heating", t, *(r if not err else [EXC] * 5), flags=RAISED if err else 0, note=f"heating value at {t} {err or ''}")
        else:
            r, err = guarded(lambda: [mod.Gamma(t), mod.Cp(t)])
            tr.ev("Ratio", t, *(r if not err else [EXC] * 2), flags=RAISED if err else 0, note=f"air at {t} {err or ''}")
