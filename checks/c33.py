"""Streams: histories generated by spec/C33gen.qnt, led through the elements of all the modules."""
import numpy as np
import aerokit.aero.Isentropic as Is
import aerokit.aero.MassFlow as mf
import aerokit.aero.ShockWave as sw
import aerokit.aero.Supersonic as su
import aerokit.aero.Fanno as fa
import aerokit.aero.Rayleigh as ra
import aerokit.aero.CompressibleFlow as cf
import aerokit.aero.Propulsion as pr
import aerokit.aero.degree as deg
import aerokit.aero.model1D as m1
import aerokit.aero.unsteady1D as u1
from vf import generate, picks, guarded, model_check, EXC, RAISED, SHAPE, MUTATED

SHARD = 150
LEVEL = "model_checking"
RULE = "histories of two streams (numbers or arrays) led through shocks, turns, sections and ducts, generated by the specification; random gases, Mach numbers and amplitudes"
ASSUMPTIONS = ["Mach 0.1..7, gamma 1.1..5/3, deflections up to 0.95 of the maximum, sections of Mach 0.1..0.97 and 1.05..6"]
GASES = [1.4, 1.1, 1.2, 1.3, 1.33, 1.5, 5 / 3, 1.4]
KINDS = ["Normal", "Oblique", "Strong", "Turn", "PressureTo", "Section", "Friction", "Heat", "ShockTo"]


def nu(m, g):
    k = np.sqrt((g + 1) / (g - 1))
    return np.degrees(k * np.arctan(np.sqrt(m * m - 1) / k) - np.arctan(np.sqrt(m * m - 1)))


def sig(m, g):
    return (2 / (g + 1) * (1 + (g - 1) / 2 * m * m)) ** ((g + 1) / 2 / (g - 1)) / m


def ptps(m, g):
    return (1 + (g - 1) / 2 * m * m) ** (g / (g - 1))


def tti(m, g):
    return 2 * (g + 1) * m * m * (1 + (g - 1) / 2 * m * m) / (1 + g * m * m) ** 2


def each(f, *a):
    """functions of numbers only"""
    b = np.broadcast_arrays(*a)
    if b[0].ndim == 0:
        return f(*[float(z) for z in b])
    return np.array([f(*[float(z) for z in q]) for q in zip(*[z.ravel() for z in b])]).reshape(b[0].shape)


class Stream:
    def __init__(self, rng, g, form, sup):
        self.g, self.shape = g, [(), (3,), (2, 2), ()][form]
        self.index = int(rng.integers(int(np.prod(self.shape))))
        self.m = self.draw(rng, *((1.3, 6) if sup else (0.12, 0.95)))
        self.p, self.t, self.a = self.draw(rng, 0.2, 5), self.draw(rng, 0.5, 3), self.draw(rng, 0.5, 2)
        if form == 3:
            self.m, self.p = np.float64(self.m), np.float64(self.p)

    def draw(self, rng, a, b):
        x = np.exp(rng.uniform(np.log(a), np.log(b), self.shape or None))
        return float(x) if self.shape == () else x

    def fill(self, rng, f):
        return float(f()) if self.shape == () else np.array([f() for _ in range(int(np.prod(self.shape)))]).reshape(self.shape)

    def of(self, z):
        z = np.asarray(z, dtype=float)
        return float(z.ravel()[self.index]) if z.shape == self.shape else float(z) if z.ndim == 0 else EXC

    def vals(self):
        return [self.of(z) for z in (self.m, self.p, self.t, self.a)]


def between(rng, lo, hi):
    """a random value for each point between the bounds of the point"""
    return lo + (hi - lo) * rng.uniform(0.05, 0.95, np.shape(lo) or None)


def lead(s, kind, how, rng, sup, more):
    """(request, answer of the element, new m p t a) or None when the stream is out of the range of the element"""
    g, m, p, t, a = s.g, s.m, s.p, s.t, s.a
    amin, amax = np.min(m), np.max(m)
    if kind == "Normal":
        if amin < 1.02:
            return None
        if how == 0:
            return lambda: (0.0, 0.0, sw.downstream_Mn(m, g), p * sw.Ps_ratio(m, g), t * sw.Ts_ratio(m, g), a)
        if how == 1:
            def run():
                z = m1.state(p / t, m * np.sqrt(g * t), p, g).state_RH()
                return 0.0, 0.0, z.Mach(), z.p, z.p / z.rho, a
            return run

        def run():
            z = u1.unsteady_state(p / t, m * np.sqrt(g * t), p, g)
            q = p * sw.Ps_ratio(m, gamma=g)
            rho = z.rho_through_shock(q)
            y = u1.unsteady_state(rho, z.u - z.delta_u_shock(q), q, g)
            return 0.0, 0.0, y.Mach(), y.p, y.p / y.rho, a
        return run
    if kind in ("Oblique", "Strong"):
        if amin < 1.3 or amax > 7:
            return None
        d = between(rng, 0.05 * np.ones(s.shape), 0.95 * np.ones(s.shape)) * sw.dev_Max(m, gamma=g)
        sgn = -1.0 if kind == "Oblique" and how == 1 and rng.random() < 0.5 else 1.0
        d = d if s.shape else float(d)

        def run():
            if kind == "Strong":
                b = each(lambda x, y: sw.strongsigma_Mach_deflection(x, y, g), m, d)
            elif how == 0:
                b = each(lambda x, y: sw.weaksigma_Mach_deflection(x, y, gamma=g), m, d)
            else:
                b = each(lambda x, y: sw.sigma_Mach_deflection(x, y, gamma=g), m, sgn * d)
            mn = m * deg.sin(np.abs(b))
            dd = deg.sin(np.abs(b) - d)
            return sgn * d, b, sw.downstream_Mn(mn, g) / dd, p * sw.Ps_ratio(mn, g), t * sw.Ts_ratio(mn, g), a * dd / deg.sin(np.abs(b))
        return run
    if kind == "ShockTo":
        if amin < 1.2:
            return None
        mn = between(rng, np.ones(s.shape), np.asarray(m) * 0.99)
        x = 1 + 2 * g / (g + 1) * (mn ** 2 - 1)
        x = x if s.shape else float(x)

        def run():
            b = deg.asin(sw.Mn_Ps_ratio(x, g) / m)
            d = sw.deflection_Mach_ShockPsratio(m, x, g)
            if how == 0:
                rho = (p / t) * sw.Rho_ratio(sw.Mn_Ps_ratio(x, gamma=g), gamma=g)
            else:
                rho = u1.unsteady_state(p / t, 0.0 * m, p, g).rho_through_shock(p * x)
            return x, d, sw.downstreamMach_Mach_ShockPsratio(m, x, g), p * x, p * x / rho, a * deg.sin(b - d) / deg.sin(b)
        return run
    if kind == "Turn":
        if amin < 1.1:
            return None
        m2 = s.draw(rng, 1.1, 7)
        if how % 2:  # not far
            m2 = between(rng, np.maximum(np.asarray(m) * 0.85, 1.05), np.minimum(np.asarray(m) * 1.2, 7.0))
        d = nu(m2, g) - nu(m, g)
        d = d if s.shape else float(d)
        mod = [su, cf, su, cf][how]

        def run():
            n = mod.Mach_PrandtlMeyer(mod.PrandtlMeyer_Mach(m, gamma=g) + d, gamma=g)
            k = Is.PtPs_Mach(m, g) / Is.PtPs_Mach(n, g)
            if how > 1:
                k = mod.IsentropicPsratio_Mach_deflection(m, -d, gamma=g)
            return d, 0.0, n, p * k, t * Is.TtTs_Mach(m, g) / Is.TtTs_Mach(n, g), a * mf.Sigma_Mach(n, g) / mf.Sigma_Mach(m, g)
        return run
    if kind == "PressureTo":
        m2 = s.draw(rng, *((1.02, 7) if sup else (0.1, 0.98)))
        x = ptps(m, g) / ptps(m2, g)

        def run():
            pt, tt = p * Is.PtPs_Mach(m, gamma=g), t * Is.TtTs_Mach(m, gamma=g)
            y = 0.0
            if how == 0:
                n = Is.Mach_PtPs(pt / (p * x), gamma=g)
                u = tt / Is.TtTs_Mach(n, gamma=g)
            elif how == 1:
                n = cf.Mach_PtPs(pt / (p * x), gamma=g)
                u = tt / cf.TtTs_Mach(n, gamma=g)
            else:
                z = m1.state(p / t, m * np.sqrt(g * t), p, g)
                z.compute_from_pt_rtt_p(z.Ptot(), z.rTtot(), p * x)
                n, u = z.Mach(), z.p / z.rho
                if s.index % 2:
                    u = p * x / u1.unsteady_state(p / t, 0.0 * m, p, g).rho_through_isentropic(p * x)
            if amin > 1 and sup:
                y = su.deflection_Mach_IsentropicPsratio(m, x, gamma=g)
            return x, y, n, p * x, u, a * mf.Sigma_Mach(n, gamma=g) / mf.Sigma_Mach(m, gamma=g)
        return run
    if kind == "Section":
        m2 = s.draw(rng, *((1.05, 6) if sup else (0.1, 0.97)))
        x = sig(m2, g) / sig(m, g)

        def run():
            z = mf.Sigma_Mach(m, g) * x
            if how == 0:
                n = (mf.MachSup_Sigma if sup else mf.MachSub_Sigma)(z, gamma=g)
            elif how == 1:
                n = mf.Mach_Sigma(z, (2.0 if sup else 0.5), g)
            else:
                n = cf.Mach_Sigma(z, Mach=(m * 0 + 2.5 if sup else m * 0 + 0.3), gamma=g)
            k = Is.PtPs_Mach(m, g) / Is.PtPs_Mach(n, g)
            return x, 0.0, n, p * k, t * Is.TtTs_Mach(m, g) / Is.TtTs_Mach(n, g), a * x
        return run
    if kind == "Friction":
        m2 = between(rng, np.asarray(m), np.ones(s.shape))
        m2 = m2 if s.shape else float(m2)

        def run():
            f = fa.maxFparam_Mach(m, g) - fa.maxFparam_Mach(m2, g)
            return m2, f, m2, p * fa.Ps_Pscri(m2, g) / fa.Ps_Pscri(m, g), t * fa.Ts_Tscri(m2, gamma=g) / fa.Ts_Tscri(m, gamma=g), a
        return run
    if kind == "Heat":
        sp = amin > 1
        if more:
            m2 = between(rng, np.asarray(m), np.ones(s.shape))
        else:
            m2 = between(rng, np.asarray(m), (np.maximum(6.5, np.asarray(m)) if sp else np.minimum(0.1, np.asarray(m))))
        x = tti(m2, g) / tti(m, g)
        x = x if s.shape else float(x)

        def run():
            n = (ra.SupMach_TiTicri if sp else ra.SubMach_TiTicri)(ra.Ti_Ticri(m, gamma=g) * x, gamma=g)
            rho = (p / t) * ra.Rho_Rhocri(n, g) / ra.Rho_Rhocri(m, g)
            q = p * ra.Ps_Pscri(n, g) / ra.Ps_Pscri(m, g)
            return x, 0.0, n, q, q / rho, a
        return run


def measure(s, how):
    g, m, p, t, a = s.g, s.m, s.p, s.t, s.a
    if how == 0:
        pt, tt = p * Is.PtPs_Mach(m, g), t * Is.TtTs_Mach(m, g)
        flow = mf.WeightMassFlow(m, 1.0, g) * pt * a / np.sqrt(tt)
        v = Is.Velocity_MachTi(m, tt, r=1.0, gamma=g)
    else:
        z = m1.state(p / t, m * np.sqrt(g * t), p, g)
        pt, tt, flow, v = z.Ptot(), z.rTtot(), z.massflow() * a, z.u
    throat = a / mf.Sigma_Mach(m, gamma=g)
    return pt, tt, flow, v, pr.ThrustFunction(m, gamma=g) * pt * throat, throat


def drive(tr):
    tr.extra["mc_states"], tr.extra["mc_transitions"] = model_check("C33gen", "C33gen", "inv")
    rng = tr.nrng
    for states in generate("C33gen", "C33gen", tr.rng.randrange(2 ** 31), tr.n(75, 900), 25, invariant="inv"):
        tr.begin()
        tr.ev("Begin")
        ss = [None, None]
        for st in states[1:]:
            o, what, q = st["who"], st["last"], picks(st)
            if what == "Start":
                g = GASES[q["gas"]] if rng.random() < 0.8 else float(rng.uniform(1.1, 1.67))
                s = ss[o] = Stream(rng, g, q["form"], q["sup"])
                tr.ev("Start", o, g, *s.vals(), note=f"stream {o}: gamma {g} Mach, p, rT, A {s.vals()} of {s.shape or 'number'}")
                continue
            s = ss[o]
            if what == "Measure":
                r, err = guarded(measure, s, q["how"])
                tr.ev("Measure", o, *([s.of(z) for z in r] if not err else [EXC] * 6), flags=RAISED if err else 0, note=f"stream {o} measured {s.vals()} {err or ''}")
                continue
            sup, how = q.get("sup"), q.get("how", 0)
            run = lead(s, what, how, rng, sup, q.get("more"))
            if run is None or (what in ("Normal", "Oblique", "Strong", "Turn", "ShockTo") and np.min(s.m) <= 1):
                continue
            keep = [np.array(z) for z in (s.m, s.p, s.t, s.a)]
            was = s.vals()
            r, err = guarded(run)
            fl = RAISED if err else 0
            if not err and any(np.shape(z) != s.shape for z in r[2:6]):
                fl |= SHAPE
            if any(not np.array_equal(x, y) for x, y in zip(keep, (s.m, s.p, s.t, s.a))):
                fl |= MUTATED
            out = [EXC] * 6 if fl & (RAISED | SHAPE) else [s.of(z) for z in r]
            tr.ev("Step", o, KINDS.index(what), out[0], how + (3 if what == "Section" and sup else 0), *out[2:], out[1], flags=fl,
                  note=f"stream {o}: {what} {out[0]:.8g} ({how}) gamma {s.g} from Mach, p, rT, A {was} to {out[2:]} {err or ''}")
            if fl & (RAISED | SHAPE) or not np.all([np.all(np.isfinite(z)) and np.all(np.asarray(z) > 0) for z in r[2:6]]):
                break
            s.m, s.p, s.t, s.a = r[2:6]
            ok = 0.08 < np.min(s.m) and np.max(s.m) < 7.2 and 1e-5 < np.min(s.p) and np.max(s.p) < 1e6 and not np.any(np.abs(np.asarray(s.m) - 1) < 1e-3)
            if not ok or (np.min(s.m) < 1 < np.max(s.m)):  # out of the range of the elements: another stream
                s = ss[o] = Stream(rng, s.g, 0, bool(st["s"][o]["sup"]))
                tr.ev("Start", o, s.g, *s.vals(), note=f"stream {o}: gamma {s.g} Mach, p, rT, A {s.vals()}")
        tr.end()
