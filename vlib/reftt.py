"""First arrivals by Fermat's principle: for every set of layers a path may visit, T(X) = max over the slowness p of
pX + sum of vertical delays (the dual of the least-time crossing points); the first arrival is the least over all sets."""
import numpy as np


def _tmax(X, hs, vs, pmax):
    hs, vs = np.asarray(hs, float), np.asarray(vs, float)
    f = lambda p: p * X + np.sum(hs * np.sqrt(np.maximum(1 / vs ** 2 - p * p, 0.0)))
    g = lambda p: X - np.sum(hs * p / np.sqrt(np.maximum(1 / vs ** 2 - p * p, 1e-300)))
    lo, hi = 0.0, pmax
    if g(pmax * (1 - 1e-15)) >= 0:
        return f(pmax)
    for _ in range(200):
        m = 0.5 * (lo + hi)
        if g(m) > 0:
            lo = m
        else:
            hi = m
    return f(0.5 * (lo + hi))


def first(layers, col, ds, dr, X):
    """col 1: P, 2: S. Returns (time or None, label of the fastest path, margin to the next)."""
    z = np.concatenate([[0.0], np.cumsum([l[0] for l in layers[:-1]]), [np.inf]])
    v = np.array([l[col] for l in layers], float)
    n = len(layers)
    a, b = min(ds, dr), max(ds, dr)
    own = lambda d: next(i for i in range(n) if d <= z[i + 1])   # the upper medium on an interface
    ia, ib = own(a), own(b)
    if (v[ia:ib + 1] <= 0).any():
        return None, "undefined"

    def part(lo, hi):
        hs, vs = [], []
        for i in range(n):
            t, u = max(lo, z[i]), min(hi, z[i + 1])
            if u > t:
                hs.append(u - t); vs.append(v[i])
        return hs, vs
    H0, V0 = part(a, b)
    best = []
    # no excursion; on one level the path runs in its own layer
    cap = 1 / max(V0 + [v[ia] if ia == ib else 0]) if V0 or ia == ib else None
    if cap is None:
        cap = 1 / v[ia]
    best.append((_tmax(X, H0, V0, cap), "direct"))
    for j in range(1, n):          # interface j at depth z[j], medium j below it, j-1 above
        if z[j] >= b and v[j] > 0:
            h, w = part(b, z[j])
            if all(x > 0 for x in w):
                vm = max(V0 + w + [v[j]])
                best.append((_tmax(X, H0 + [2 * x for x in h], V0 + w, 1 / vm), f"down{j}"))
        if z[j] <= a and v[j - 1] > 0:
            h, w = part(z[j], a)
            if all(x > 0 for x in w):
                vm = max(V0 + w + [v[j - 1]])
                best.append((_tmax(X, H0 + [2 * x for x in h], V0 + w, 1 / vm), f"up{j}"))
    return min(best)
