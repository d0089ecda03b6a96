"""Input stratification shared by the drivers."""
import numpy as np

GAMMAS = [1.4, 1.05, 1.1, 1.2, 1.3, 1.3333, 1.5, 5.0 / 3.0, 1.8, 2.0]


def plan(tr, gammas=None, k=None):
    """(gamma, how gamma is given, shape of the inputs): every shape and way of
    passing gamma occurs, every gamma occurs with several shapes"""
    gammas = list(gammas or GAMMAS)
    modes = ["float", "arr", "2d", "strided", "np64", "size1", "0d", "rev", "colmajor", "big"]
    out = [(1.4, "omit", "float"), (1.4, "omit", "arr"), (1.4, "pos", "float"), (1.4, "kw", "2d")]
    k = k or tr.n(48, 400)
    i = 0
    while len(out) < k:
        if i < 2 * len(gammas):
            g = gammas[i % len(gammas)]
        else:
            g = round(tr.rng.uniform(min(gammas), max(gammas)), 4)
        out.append((g, ["kw", "pos"][(i // len(modes)) % 2 if i % 2 else 1 - (i // len(modes)) % 2], modes[i % len(modes)]))
        i += 1
    return out


def scalarlike(mode):
    return mode in ("float", "np64", "size1", "0d", "int")


def loguni(tr, a, b, n):
    return np.exp(tr.nrng.uniform(np.log(a), np.log(b), n))


def machs(tr, lo, hi, n, special=()):
    """stratified Mach numbers: special values first, then log-uniform"""
    x = np.concatenate([np.array([s for s in special if lo <= s <= hi], dtype=float), loguni(tr, max(lo, 1e-6), hi, n)])
    return x


def pick(tr, x, mode, nscal=4):
    """fewer points for the shapes that are called point by point"""
    if scalarlike(mode):
        idx = tr.nrng.permutation(len(x))[:nscal]
        return [c[idx] for c in (x if isinstance(x, list) else [x])]
    return x if isinstance(x, list) else [x]


def gam(o):
    """specific heat ratio held by a state object (observed through the speed of sound if not stored under its documented name)"""
    for name in ("_gamma", "gamma"):
        v = getattr(o, name, None)
        if v is not None and not callable(v):
            return v
    return o.asound() ** 2 * o.rho / o.p
