import numpy as np
from aerokit.aero.IterativeSolve import secant_solve
from vf import guarded, EXC, RAISED, MUTATED, SHAPE

RULE = "increasing functions (straight, cubic, exponential, root), values and starts around the solution (also zero and negative), scalar, arrays of values, of starts, of both"
ASSUMPTIONS = ["starts from which the secant iteration converges within its 20 iterations"]


def fun(kind, a, b):
    return [lambda x: a * x + b, lambda x: a * x ** 3 + b * x, lambda x: b * np.exp(a * x), lambda x: np.sqrt(b + a * x)][kind]


def drive(tr):
    rng = tr.nrng
    for k in range(tr.n(300, 10000)):
        kind = k % 4
        a, b = float(np.exp(rng.uniform(-1, 1))), float(np.exp(rng.uniform(-1, 1)))
        m = [1, 3, 4][k % 3]
        root = rng.uniform(-2, 2, m) if kind < 3 else rng.uniform(0.2, 4, m)
        if kind == 2:
            root = rng.uniform(-1, 1, m) / a
        start = root + rng.uniform(-0.3, 0.3, m)
        if kind == 3:
            start = np.abs(start)
        if k % 10 == 0 and kind != 1:
            start[0] = 0.0
        f = fun(kind, a, b)
        y = f(root)
        kw = {}
        tol = 0.00001
        if k % 5 == 1:
            tol = float(10 ** rng.uniform(-9, -2))
            kw = dict(tol=tol)
        mode = k % 6
        args = {0: (y, start), 1: (y, float(start[0])), 2: (float(y[0]), start), 3: (float(y[0]), float(start[0])), 4: (y, start), 5: (y, start)}[mode]
        if mode == 5:
            args = (y.reshape(-1, 1), start.reshape(-1, 1))
        keep = [np.array(z, copy=True) for z in args]
        r, err = guarded(lambda: secant_solve(f, *args, **kw))
        Y, X = np.broadcast_arrays(*keep)
        fl = RAISED if err else SHAPE if np.shape(r) != Y.shape else 0
        if any(not np.array_equal(p, q) for p, q in zip(keep, args)):
            fl |= MUTATED
        for i in range(Y.size):
            # from a start far away only the straight line is sure to converge
            if kind and abs(X.ravel()[i] - (root[0] if np.ndim(args[0]) == 0 else root[i])) > 0.4:
                continue
            tr.ev("Solve", kind, a, b, Y.ravel()[i], X.ravel()[i], tol, np.ravel(r)[i] if not fl & (RAISED | SHAPE) else EXC, flags=fl,
                  note=f"secant_solve(function {kind} ({a:.4f}, {b:.4f}), {Y.ravel()[i]}, {X.ravel()[i]}, {kw}) mode {mode} {err or ''}")
