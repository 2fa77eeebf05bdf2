"""Random layered models and their textual descriptions."""
import numpy as np


def fmt(x):
    return repr(round(float(x), 6))


def model(rng, kind=None, nmax=6, q=None, hmax=3.0):
    """Returns (layers, kind). Layers: [h, vp, vs, rho, qp, qs]; last is the half space (h=0 in text)."""
    kinds = ["incr", "lvz", "half", "two", "thin", "contrast", "liqtop", "liqmid", "rand", "equal"]
    if kind is None:
        kind = kinds[rng.integers(len(kinds))]
    n = int(rng.integers(3, nmax + 1))
    if kind == "half":
        n = 1
    if kind == "two":
        n = 2
    h = rng.uniform(0.3, hmax, n)
    if kind == "thin":
        h[rng.integers(n)] = 0.02
    vs = np.sort(rng.uniform(1.2, 4.2, n))
    if kind in ("lvz", "rand"):
        rng.shuffle(vs)
        if kind == "lvz" and n > 2:
            vs[-1] = max(vs) * 1.1
            vs[0] = min(vs[0], vs[-1] * 0.8)
    if kind == "contrast":
        vs[0] = 0.5; vs[-1] = 4.5
    if kind == "equal" and n > 2:
        vs[1] = vs[0]
    ratio = rng.uniform(1.55, 2.1, n)
    if kind == "equal" and n > 2:
        ratio[1] = ratio[0]
    vp = vs * ratio
    rho = 1.6 + 0.25 * vp
    if kind == "equal" and n > 2:
        rho[1] = rho[0]
    if kind == "liqtop":
        vs[0] = 0.0; vp[0] = 1.5; rho[0] = 1.03
    if kind == "liqmid" and n > 2:
        i = int(rng.integers(1, n - 1)); vs[i] = 0.0; vp[i] = 1.7; rho[i] = 1.2
    withq = rng.random() < 0.6 if q is None else q
    qp = np.zeros(n); qs = np.zeros(n)
    if withq:
        qs = rng.uniform(20, 300, n); qp = qs * rng.uniform(1.2, 2.5, n)
        qs[vs == 0] = 100.0
    h = np.maximum(np.round(h * 64), 1) / 64  # exact in binary: interface depths are unambiguous
    L = [[round(float(v), 6 if i == 0 else 4) for i, v in enumerate(row)] for row in np.c_[h, vp, vs, rho, qp, qs]]
    L[-1][0] = 0.0
    return L, kind


def solid(rng, **kw):
    while True:
        kind = kw.pop("kind", None) or ["incr", "lvz", "half", "two", "thin", "contrast", "rand", "equal"][rng.integers(8)]
        return model(rng, kind=kind, **kw)


def text(layers, style="thick", rng=None, withq=None):
    """styles: thick (thickness column), depth (top-depth column), noisy (comments, blanks, tabs)."""
    if withq is None:
        withq = any(l[4] > 0 or l[5] > 0 for l in layers)
    rows = []
    z = 0.0
    for i, l in enumerate(layers):
        first = l[0] if style != "depth" else z
        if style != "depth" and i == len(layers) - 1:
            first = 0.0
        z += l[0]
        cols = [first] + list(l[1:4]) + (list(l[4:6]) if withq else [])
        rows.append(" ".join(f"{c:.10g}" for c in cols))
    if len(layers) == 1:
        rows[0] = "0.0 " + rows[0].split(" ", 1)[1]
    return "\n".join(rows) + "\n"


def interfaces(layers):
    return np.concatenate([[0.0], np.cumsum([l[0] for l in layers[:-1]])])


def depth(rng, layers, mode=None, maxd=None, solid_only=True):
    """A depth: surface / inside / on an interface / in the half space."""
    z = interfaces(layers)
    for _ in range(200):
        m = mode or ["surf", "in", "in", "iface", "deep"][rng.integers(5)]
        if m == "surf":
            d = 0.0
        elif m == "iface":
            d = float(z[rng.integers(len(z))])
        elif m == "deep":
            d = float(z[-1] + rng.uniform(0.2, 2.0))
        else:
            d = float(rng.uniform(0.05, max(z[-1], 1.0)))
        d = d if m == "iface" else round(d, 4)
        # layer (upper one on an interface)
        i = len(layers) - 1
        for j in range(len(layers) - 1):
            if d <= z[j + 1] + 1e-12:
                i = j
                break
        if solid_only and layers[i][2] == 0:
            if mode in ("surf", "iface"):
                mode = None
            continue
        if maxd is not None and d > maxd:
            mode = None
            continue
        return d
    return 0.0
