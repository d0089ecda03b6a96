"""Default gas: exhaustive model checking of spec/C15gen.qnt with TLC, histories of it replayed in aerokit.common.defaultgas
interleaved with calls of the whole library."""
import numpy as np
import aerokit.common.defaultgas as dg
import aerokit.aero.Isentropic as Is
import aerokit.aero.MassFlow as mf
import aerokit.aero.ShockWave as sw
import aerokit.aero.Supersonic as su
import aerokit.aero.Fanno as fa
import aerokit.aero.Rayleigh as ra
import aerokit.aero.CompressibleFlow as cf
import aerokit.aero.model1D as m1
import aerokit.aero.unsteady1D as u1
import aerokit.instance.nozzle as nz
import aerokit.instance.riemann as ri
import aerokit.instance.unsteady_inflow as ui
import aerokit.engine.gasgenerator as gg
import aerokit.engine.turbojet as tj
import aerokit.engine.turbofan as tf
import aerokit.engine.Cycle_Turbofan as cyc
import aerokit.aero.Propulsion as pr
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import aerokit.aero.plot.shockpolar as sp
import aerokit.aero.plot.isentropicpolar as ip
import aerokit.stability.Euler as eul
import aerokit.stability.OrrSommerfeld as orr
from vf import generate, picks, guarded, model_check, EXC, RAISED

LEVEL = "model_checking"
RULE = "histories of set/save/restore and library calls (also failing ones) on the default gas, generated by the specification; one event per operation"
ASSUMPTIONS = ["restoring before any save is not covered (the library raises NameError)"]
G = [1.4, 1.3, 1.6667, 1.1]
R = [287.1, 518.0, 1.0]
X = np.linspace(0, 1, 12)
S = 1 + 3 * (X - 0.4) ** 2


def bad_nozzle():
    return nz.nozzle(X, S, AsoAc="wrong", gamma=1.25, NPR=2.0)


def bad_npr():
    z = nz.nozzle(X, S, gamma=1.2)
    return z.set_NPR("wrong")


def engine(e):
    e.flight_conditions(T0=250.0, P0=3e4, M0=0.8)
    e.update()
    return e.Wsp_cc()


def figure(f):
    try:
        f(plt.gca())
    finally:
        plt.close("all")


def euler(g, left, right):
    m = eul.Euler1D(8, 0.0, 1.0)
    m.set_basestate(m1.state(1.0 + 0.1 * m.x, 0.4 + 0.0 * m.x, 1.0 + 0.0 * m.x, g))
    m.set_BC(left, right)
    return m


def eigen(m):
    return m.solve_eig()


def staged(g):
    return cyc.cycle_taux_fan_fixe(6.1, 32.8, 1410.0, 180.0, cyc.Gaz(g), cyc.Gaz(1.33, 291.6, 42800e3), 1.6)


CALLS = [
    lambda: nz.nozzle(X, S, gamma=1.3, NPR=1.2),
    lambda: nz.nozzle(X, S, gamma=1.25).set_NPR(4.0),
    lambda: nz.nozzle(X, S, NPR=1.05),
    bad_nozzle, bad_npr,
    lambda: nz.Ms_from_AsAc_NPR(2.0, 1.3),
    lambda: (nz.NPR_choked_subsonic(2.0), nz.NPR_choked_supersonic(2.0), nz.NPR_shock_at_exit(2.0), nz.Madapt_from_AsAc_NPR(2.0, 5.0)),
    lambda: (Is.TtTs_Mach(2.0, gamma=1.2), Is.Velocity_MachTi(1.0, 300.0, 300.0, 1.2), mf.MachSub_Sigma(2.0, gamma=1.2)),
    lambda: (sw.sigma_Mach_deflection(2.0, 10.0, gamma=1.3), sw.conical_deflection_Mach_sigma(2.0, 45.0, gamma=1.3), sw.Mn_Pi_ratio(0.7, 1.2)),
    lambda: (fa.NormdS(0.5, gamma=1.2), ra.NormdS(0.5, gamma=1.2), su.Mach_PrandtlMeyer(20.0, gamma=1.2), cf.TtTs_Mach(0.4, 1.3)),
    lambda: m1.state(1.0, 300.0, 1e5, 1.3).state_isentropic_Mach(0.5),
    lambda: ri.riemann_pb(u1.unsteady_state(1.0, 0.0, 1.0, 1.2), u1.unsteady_state(0.125, 0.0, 0.1, 1.6)).qsol(X),
    lambda: ui.inflow_pb(u1.unsteady_state(1.0, 0.5, 1.0, 1.2)).solve_with_pt0_rtt0(1.5, 1.3),
    lambda: engine(gg.base(10.0, 1500.0, gam_cold=1.4, gam_hot=1.3)),
    lambda: (engine(tj.turbojet_opt(10.0, 1500.0)), engine(tf.turbofan_adapt(10.0, 1500.0, bpr=5.0, fanpower_ratio=0.5, gam_hot=1.3))),
    lambda: Is.Mach_PtPs("wrong"),
    lambda: nz.nozzle(X, S, gamma="wrong"),
    lambda: nz.nozzle(X, S, AsoAc=1.5, gamma=None),
    lambda: nz.nozzle(X, S, AsoAc=0.5, gamma=1.3, NPR=3.0),
    lambda: nz.nozzle(X, list(S), gamma=1.3, NPR=3.0),
    lambda: nz.nozzle(None, None),
    lambda: nz.nozzle(X, S, gamma=1.2, NPR="wrong"),
    lambda: ri.riemann_pb(u1.unsteady_state(1.0, -50.0, 1.0, 1.2), u1.unsteady_state(1.0, 50.0, 1.0, 1.6)),
    lambda: ri.riemann_pb(u1.unsteady_state(1.0, 0.0, 1.0, "wrong"), u1.unsteady_state(0.125, 0.0, 0.1, 1.6)),
    lambda: ui.inflow_pb(u1.unsteady_state(1.0, 0.5, 1.0, 1.2)).solve_with_pt0_rtt0(None, 1.3),
    lambda: u1.unsteady_state(1.0, 2.0, 1.0, 1.3).compute_from_pt_rtt_M(2.0, 1.0, "wrong"),
    lambda: m1.state(1.0, 2.0, 1.0, 1.3).state_RH(),
    lambda: engine(gg.base("wrong", 1500.0, gam_cold=1.3)),
    lambda: engine(tf.turbofan_adapt(10.0, 1500.0, bpr=5.0, fanpower_ratio=None, gam_hot=1.3)),
    lambda: sw.conical_sigma_Mach_walldeflection(2.0, 10.0, gamma=1.3),
    lambda: sw.conical_Mach_walldeflection_sigma(20.0, 10.0, gamma=1.3),
    lambda: pr.Mach_ThrustFunction(1.3, Mach=2.0, gamma=1.3),
    lambda: figure(lambda ax: sp.plot_theta_pressure(2.0, gamma=1.3, devmax=True, sonic=True)),
    lambda: figure(lambda ax: (sp.plot_theta_sigma(2.5, gamma=1.2), ip.plot_theta_pressure(2.5, [-10.0, 10.0], gamma=1.2))),
    lambda: figure(lambda ax: sp.plot_theta_sigma("wrong", gamma=1.2)),
    lambda: eigen(euler(1.3, "sym", "sym")),
    lambda: eigen(euler(1.2, {"type": "RH", "dM0dx": 0.5}, "sym")),
    lambda: eigen(euler(1.2, {"type": "RH"}, "sym")),
    lambda: eigen(orr.Poiseuille(12, 1.0, 1000.0)),
    lambda: staged(1.3).calculs_5_to_9(),
]


def drive(tr):
    d, g = model_check("C15gen", "C15gen", "inv")
    tr.extra["mc_states"], tr.extra["mc_transitions"] = d, g
    initial = (dg.gamma(), dg.r_ideal())
    try:
        for states in generate("C15gen", "C15gen", tr.rng.randrange(2 ** 31), tr.n(120, 2500), 20, invariant="inv"):
            tr.begin()
            dg.set_gamma(initial[0])
            dg.set_r_ideal(initial[1])
            tr.ev("Begin", 0, *initial)
            for st in states[1:]:
                one(tr, st["mbt::actionTaken"], picks(st))
            tr.end()
    finally:
        dg.set_gamma(initial[0])
        dg.set_r_ideal(initial[1])


def one(tr, a, p):
    def done(op, par, err, *more, note=""):
        tr.ev(op, par, dg.gamma(), dg.r_ideal(), *more, flags=RAISED if err else 0, note=f"{op} {note} {err or ''}")
    if a == "SetGamma":
        done(a, G[p["g"]], guarded(dg.set_gamma, G[p["g"]])[1], note=str(G[p["g"]]))
    elif a == "SetR":
        done(a, R[p["r"]], guarded(dg.set_r_ideal, R[p["r"]])[1], note=str(R[p["r"]]))
    elif a == "Save":
        done(a, 0, guarded(dg.save_default)[1])
    elif a == "Restore":
        done(a, 0, guarded(dg.restore_default)[1])
    elif a == "Call":
        guarded(CALLS[p["c"]])     # whether it raises is not the question here
        done(a, p["c"], None, note=f"library call {p['c']}")
    elif a == "Default":
        d = p["d"]
        x, y = round(tr.rng.uniform(1.1, 3.0), 3), round(tr.rng.uniform(0.1, 3.0), 3)
        if d in (4, 5):
            x, y = round(tr.rng.uniform(1.5, 3.0), 3), round(tr.rng.uniform(1.3, 1.5), 3)
            f = lambda: [nz.Ms_from_AsAc_NPR(x, y), nz.NPR_choked_subsonic(x), nz.NPR_shock_at_exit(x), nz.NPR_choked_supersonic(x)]
            d = 4
        else:
            h = [lambda: Is.TtTs_Mach(x), lambda: mf.Sigma_Mach(x), lambda: sw.Ps_ratio(x), lambda: m1.state(y, 0.0, x).asound()][d]
            f = lambda: [h()]
        res, err = guarded(f)
        done(a, d, err, x, y, *(res if not err else [EXC]), note=f"function {d} at {x}, {y}")
