import numpy as np
import aerokit.common._ode as ode
from vf import guarded, EXC, RAISED, MUTATED, SHAPE

SHARD = 120
RULE = "random systems of two equations with linear, bilinear and polynomial terms; fixed steps dividing or not the range, adaptive integration forwards and backwards with tolerances 1e-3 to 1e-9 and bad first steps"


def drive(tr):
    rng = tr.nrng
    for k in range(tr.n(90, 2500)):
        c = rng.uniform(-1, 1, 10)
        if k % 5 == 1:
            c[2:5] = 0
            c[7:] = 0
        if k % 5 == 2:
            c[[4, 9]] *= 3
        y0 = rng.uniform(-1, 1, 2)
        x0 = float(rng.uniform(-1, 1)) if k % 4 else 0.0
        L = float(np.exp(rng.uniform(-2, 1)))
        adaptive = k % 2
        far = k % 10 == 7   # a long way through oscillations
        if far:
            c[:] = 0
            c[3] = float(rng.uniform(0.5, 2))
            c[7] = -float(rng.uniform(0.5, 2))
            c[[2, 8]] = rng.uniform(-0.02, 0.0, 2)
            c[1] = 1e-3
            L = float(rng.uniform(20, 60))
        tol = 1.0
        back = adaptive and k % 6 == 3
        end = x0 - L if back else x0 + L
        if adaptive:
            tol = float(10 ** rng.uniform(-9, -3))
            h = L * [1e-3, 0.3, 1.0, 5.0][(k // 2) % 4] * (-1 if back else 1)
        else:
            h = L / int(rng.integers(1, 12)) if k % 4 else L * float(rng.uniform(0.05, 1.5))
            if k % 6 == 0:  # the range is hardly longer or shorter than a whole number of steps
                end += h * float(rng.choice([-1, 1]) * 10 ** rng.uniform(-10.5, -2)) if k % 4 else h * (round(L / h) + 10 ** rng.uniform(-10.5, -2)) - L

        def F(x, y):
            ab = y[0] * y[1]
            return np.array([c[0] + c[1] * x + c[2] * y[0] + c[3] * y[1] + c[4] * ab, c[5] + c[6] * x + c[7] * y[0] + c[8] * y[1] + c[9] * ab])
        y = y0.copy()
        name = "RKF45" if adaptive else "RK4"
        if adaptive:
            r, err = guarded(lambda: ode.RKF45(F, x0, y, end, h, tol) if k % 3 else ode.RKF45(F, x0, y, end, h, tol=tol))
        else:
            r, err = guarded(ode.RK4, F, x0, y, end, h)
        note = f"{name} from {x0} to {end}, step {h}, tol {tol}, {list(np.round(c, 3))} {err or ''}"
        tr.begin()
        tr.ev("Begin", bool(adaptive), x0, *y0, end, h, tol, *c, flags=RAISED if err else MUTATED if not np.array_equal(y, y0) else 0, note=note)
        if not err:
            X, Y = r
            ok = np.ndim(X) == 1 and np.shape(Y) == (len(X), 2)
            m = min(len(X), 60)
            # solutions which blow up are followed only as long as they are moderate
            if ok:
                big = np.flatnonzero(~(np.abs(Y).max(axis=1) < 100))
                m = min(m, int(big[0])) if len(big) else m
            for i in range(m if ok else 0):
                tr.ev("First" if i == 0 else "Next", X[i], *Y[i], note=note + f": point {i}")
            if ok and m == 60 < len(X) and np.abs(Y).max() < 100:
                e = 3 if X[-2] == X[-1] else 2      # the last step may have no length
                at = 59
                for to in sorted({int(t) for t in rng.integers(60, len(X), 12)} | {len(X) - e}):
                    if to <= at or to > len(X) - e:
                        continue
                    tr.ev("Skip", to - at, X[to], *Y[to], note=note + f": point {to}")
                    at = to
                    for i in range(to + 1, min(to + 4, len(X)) if to < len(X) - e - 4 else to + 1 if to < len(X) - e else len(X)):
                        tr.ev("Next", X[i], *Y[i], note=note + f": point {i}")
                        at = i
                m = len(X)
            if m == len(X) or not ok:
                tr.ev("End", len(X), flags=0 if ok else SHAPE, note=note)
        tr.end()
