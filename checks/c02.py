import numpy as np
import aerokit.aero.MassFlow as mf
from vf import guarded, EXC, RAISED, SHAPE
from common import plan, machs, pick, scalarlike, loguni

RULE = "one event per point of a call; both branches, stratified gamma, Mach, shape of the input and way of passing gamma"
ASSUMPTIONS = ["supersonic inverse claimed for gamma >= 1.1 and Mach <= 6 (the domain where the initial guess of the library converges)"]


def sigma(M, g):
    return (2 / (g + 1) * (1 + 0.5 * (g - 1) * M ** 2)) ** (0.5 * (g + 1) / (g - 1)) / M


def drive(tr):
    for g, gmode, mode in plan(tr, gammas=[1.4, 1.05, 1.1, 1.2, 1.3, 1.3333, 1.5, 5 / 3, 1.8, 2.0, 2.5]):
        M = np.append(machs(tr, 1e-3, 8.0, 5, special=(1e-3, 0.5, 1.0, 2.0)), loguni(tr, 5.0, 20.0 if g >= 1.25 else 8.0, 1))
        c = pick(tr, M, mode)
        tr.sweep("Sigma", mf.Sigma_Mach, c, g, gmode, mode)
        if gmode == "pos":
            tr.sweep("Weight", lambda m, gam: mf.WeightMassFlow(m, 287.1, gam), c, g, gmode, mode)
        else:
            tr.sweep("Weight", mf.WeightMassFlow, c, g, gmode, mode)
        Ms = np.concatenate([[1e-3, 0.02, 0.3, 0.9, 0.99, 0.999], loguni(tr, 1e-3, 0.999, 6)])
        tr.sweep("Sub", mf.MachSub_Sigma, pick(tr, sigma(Ms, g), mode, 5), g, gmode, mode)
        if g >= 1.1:
            Mp = np.concatenate([[1.001, 1.01, 1.1, 2.0, 3.0, 6.0], loguni(tr, 1.001, 6.0, 6)])
            tr.sweep("Sup", mf.MachSup_Sigma, pick(tr, sigma(Mp, g), mode, 5), g, gmode, mode)
            # the branch is chosen point by point
            Mm = np.concatenate([Ms[:6], Mp[:6]])[tr.nrng.permutation(12)]
            near = np.where(Mm > 1, tr.nrng.uniform(1.02, 6.0, 12), tr.nrng.uniform(0.01, 0.98, 12))
            if not scalarlike(mode):
                f = (lambda s, m, gam=None: mf.Mach_Sigma(s, m, gam)) if gmode == "pos" else mf.Mach_Sigma
                if gmode == "omit":
                    tr.sweep("Guess", mf.Mach_Sigma, [sigma(Mm, g), near], g, gmode, mode)
                else:
                    tr.sweep("Guess", f, [sigma(Mm, g), near], g, gmode, mode)
            else:
                k = tr.nrng.permutation(12)[:4]
                k = [i for i in k if abs(Mm[i] - 1) > 0.05]
                if k:
                    tr.sweep("Guess", mf.Mach_Sigma, [sigma(Mm[k], g), near[k]], g, "kw" if gmode == "pos" else gmode, mode)
            # no start: the supersonic Mach number is documented by the default
            m = float(tr.nrng.uniform(1.05, 6))
            res, err = guarded(mf.Mach_Sigma, sigma(m, g), gamma=g)
            tr.ev("Guess", g, sigma(m, g), 2.0, res if not err else EXC, flags=RAISED if err else 0, note=f"Mach_Sigma(sigma of {m}, gamma={g}) {err or ''}")
            # one start for a vector of sections of the same branch
            for part in (Mm[Mm > 1], Mm[Mm < 1]):
                start = float(near[Mm > 1][0] if part[0] > 1 else near[Mm < 1][0])
                res, err = guarded(lambda: mf.Mach_Sigma(sigma(part, g), start, g) if tr.nrng.integers(2) else mf.Mach_Sigma(sigma(part, g), Mach=start, gamma=g))
                fl = RAISED if err else SHAPE if np.shape(res) != np.shape(part) else 0
                for i in range(len(part)):
                    tr.ev("Guess", g, sigma(part[i], g), start, res[i] if not fl else EXC, flags=fl, note=f"Mach_Sigma(sigma of {part}, {start}, {g}) {err or ''}")
        # conserved mass flow, with the code at both ends
        def both(m, gamma=1.4):
            return mf.Sigma_Mach(m, gamma), mf.WeightMassFlow(m, gamma=gamma), mf.WeightMassFlow(1.0 + 0 * m, gamma=gamma)
        tr.sweep("Cons", both, pick(tr, M[M > 0.01], mode), g, gmode, mode, nout=3)
    for g in (1.4, 1.3):
        tr.sweep("Sigma", mf.Sigma_Mach, [np.arange(1.0, 6.0)], g, "kw", "int")
        tr.sweep("Sigma", mf.Sigma_Mach, [np.arange(1.0, 6.0)], g, "kw", "intarr")
        tr.sweep("Sub", mf.MachSub_Sigma, [np.arange(2.0, 8.0)], g, "kw", "int")
        tr.sweep("Sup", mf.MachSup_Sigma, [np.arange(2.0, 8.0)], g, "kw", "int")
        tr.sweep("Sup", mf.MachSup_Sigma, [np.arange(2.0, 8.0)], g, "kw", "intarr")
    # large arrays, one solve
    n = tr.n(400, 4000)
    for g in (1.4, 1.2, 5 / 3):
        Ms = loguni(tr, 1e-2, 0.999, n)
        Mp = loguni(tr, 1.001, 6.0, n)
        tr.sweep("Sub", mf.MachSub_Sigma, [sigma(Ms, g)], g, "kw", "arr")
        tr.sweep("Sup", mf.MachSup_Sigma, [sigma(Mp, g)], g, "kw", "arr")
