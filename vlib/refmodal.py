"""Exact mode counts of a layered half-space (Wittrick-Williams), independent of any secular function used by the program.

count_*(layers, w, c): number of surface-wave modes with k > w/c at angular frequency w, for an array of c (< half-space shear velocity;
< its sound velocity if it is liquid).  layers: rows (thickness, vp, vs, rho), last one the half-space; vs=0 is liquid.
The dynamic stiffness of every layer is assembled; the number of modes equals the number of negative eigenvalues of the assembled matrix plus
the modes of the layers with clamped faces (none for the thin solid sublayers used here, known in closed form for the liquid layers),
minus the zero-frequency modes of the liquid surfaces.
"""
import numpy as np


def _expm(A, n=18):
    """batched exponential of small matrices with norm up to a few"""
    s = 4
    B = A / 2.0**s
    E = np.broadcast_to(np.eye(A.shape[-1]), A.shape).copy()
    T = E.copy()
    for i in range(1, n):
        T = T @ B / i
        E = E + T
    for _ in range(s):
        E = E @ E
    return E


def _solid(vp, vs, rho, d, w, k):
    """stiffness blocks (tt, tb, bt, bb) of a solid sublayer, arrays over k; unknowns (r1, r2), tractions scaled by rho vs^2 k"""
    mu = rho * vs * vs; lm = rho * vp * vp - 2 * mu; M = lm + 2 * mu
    z = 4 * mu * (lm + mu) / M
    sc = mu * k
    A = np.zeros((len(k), 4, 4))
    A[:, 0, 1] = k; A[:, 0, 2] = sc / mu
    A[:, 1, 0] = -k * lm / M; A[:, 1, 3] = sc / M
    A[:, 2, 0] = (k * k * z - w * w * rho) / sc; A[:, 2, 3] = k * lm / M
    A[:, 3, 1] = -w * w * rho / sc; A[:, 3, 2] = -k
    P = _expm(A * d)
    P11, P12, P21, P22 = P[:, :2, :2], P[:, :2, 2:], P[:, 2:, :2], P[:, 2:, 2:]
    I = np.linalg.inv(P12)
    s = sc[:, None, None]
    tt = (I @ P11) * s              # force on top = -t_top
    tb = -I * s
    bb = (P22 @ I) * s
    bt = np.swapaxes(tb, 1, 2)
    return (tt + np.swapaxes(tt, 1, 2)) / 2, tb, bt, (bb + np.swapaxes(bb, 1, 2)) / 2


def _hsolid(vp, vs, rho, w, k):
    mu = rho * vs * vs; lm = rho * vp * vp - 2 * mu
    g = np.sqrt(k * k - (w / vp)**2); h = np.sqrt(k * k - (w / vs)**2)
    # decaying solutions of the motion-stress system: P (k, g), S (h, k)
    U = np.zeros((len(k), 2, 2)); T = np.zeros_like(U)
    for j, (r1, r2, q) in enumerate(((k, g, g), (h, k, h))):
        U[:, 0, j] = r1; U[:, 1, j] = r2
        T[:, 0, j] = mu * (-q * r1 - k * r2)
        T[:, 1, j] = -q * (lm + 2 * mu) * r2 + k * lm * r1
    K = -T @ np.linalg.inv(U)
    return (K + np.swapaxes(K, 1, 2)) / 2


def _liquid(vp, rho, d, w, k):
    """(tt, tb, bb) scalars and number of clamped modes"""
    x2 = k * k - (w / vp)**2
    x = np.sqrt(np.abs(x2)); f = w * w * rho
    a = x * d
    with np.errstate(all="ignore"):
        e = np.exp(-2 * np.minimum(a, 300))
        ct = (1 + e) / (1 - e); cs = 2 * np.exp(-np.minimum(a, 300)) / (1 - e)
        tt = np.where(x2 > 0, -f / x * ct, f / x * (np.cos(a) / np.sin(a)))
        tb = np.where(x2 > 0, f / x * cs, -f / x / np.sin(a))
    n = np.where(x2 > 0, 0, np.floor(a / np.pi) + 1)
    return tt, tb, tt, n


def _hliquid(vp, rho, w, k):
    return -w * w * rho / np.sqrt(k * k - (w / vp)**2)


def _neg2(D):
    det = D[:, 0, 0] * D[:, 1, 1] - D[:, 0, 1] * D[:, 1, 0]
    tr = D[:, 0, 0] + D[:, 1, 1]
    return np.where(det < 0, 1, np.where(tr < 0, 2, 0))


def rayleigh(layers, w, c):
    c = np.atleast_1d(np.asarray(c, float)); k = w / c
    L = [tuple(map(float, l[:4])) for l in layers]
    L = [l for l in L[:-1] if l[0] > 0] + [L[-1]]
    n = np.zeros(len(k)); nzero = 0
    # running Schur complement: 'S' is the force/displacement matrix at the current interface from everything above
    S = None; kind = None           # kind: 's' (2x2) or 'l' (scalar), None at the free surface
    for i, (d, vp, vs, rho) in enumerate(L):
        last = i == len(L) - 1
        liq = vs <= 0
        # interface: convert what is above to the unknowns of this layer
        if kind == "s" and liq:      # eliminate horizontal displacement (free of shear traction)
            n += S[:, 0, 0] < 0
            S = S[:, 1, 1] - S[:, 0, 1]**2 / S[:, 0, 0]
        elif kind == "l" and not liq:
            T = np.zeros((len(k), 2, 2)); T[:, 1, 1] = S; S = T
        if S is None:
            S = np.zeros(len(k)) if liq else np.zeros((len(k), 2, 2))
        if liq:
            if i == 0 or L[i - 1][2] <= 0: nzero += 1
            if last:
                n += (S + _hliquid(vp, rho, w, k)) < 0
                break
            tt, tb, bb, m = _liquid(vp, rho, d, w, k)
            n += m
            D = S + tt
            n += D < 0
            S = bb - tb * tb / D
            kind = "l"
        else:
            if last:
                n += _neg2(S + _hsolid(vp, vs, rho, w, k))
                break
            kmax = k.max()
            q = np.sqrt(max((w / vs)**2 - k.min()**2, 0.0))
            m = int(np.ceil(max(kmax * d / 1.5, q * d / 1.5, w / vs * d / 1.5, 1)))
            # far evanescent part of a very thick layer: keep the number of sublayers bounded
            tt, tb, bt, bb = _solid(vp, vs, rho, d / m, w, k)
            for _ in range(m):
                D = S + tt
                n += _neg2(D)
                S = bb - bt @ np.linalg.inv(D) @ tb
                S = (S + np.swapaxes(S, 1, 2)) / 2
            kind = "s"
    return (n - nzero).astype(int)


def love(layers, w, c):
    c = np.atleast_1d(np.asarray(c, float)); k = w / c
    L = [tuple(map(float, l[:4])) for l in layers]
    n = np.zeros(len(k)); S = np.zeros(len(k)); live = False
    for i, (d, vp, vs, rho) in enumerate(L):
        last = i == len(L) - 1
        if vs <= 0:
            if live: n += S < 0
            S = np.zeros(len(k)); live = False
            continue
        mu = rho * vs * vs
        x2 = k * k - (w / vs)**2; x = np.sqrt(np.abs(x2))
        if last:
            n += (S + mu * x) < 0
            break
        if d <= 0: continue
        a = x * d
        with np.errstate(all="ignore"):
            e = np.exp(-2 * np.minimum(a, 300))
            tt = np.where(x2 > 0, mu * x * (1 + e) / (1 - e), mu * x * np.cos(a) / np.sin(a))
            tb = np.where(x2 > 0, -mu * x * 2 * np.exp(-np.minimum(a, 300)) / (1 - e), -mu * x / np.sin(a))
        n += np.where(x2 > 0, 0, np.floor(a / np.pi))
        D = S + tt
        n += D < 0
        S = tt - tb * tb / D
        live = True
    return n.astype(int)


def count(layers, w, c, wtype):
    return rayleigh(layers, w, c) if wtype == "R" else love(layers, w, c)


def roots(layers, w, wtype, cmin, cmax, tol=1e-10):
    """all modes with cmin < c < cmax by bisection on the count (valid when the count increases with c); returns (array, monotonic)"""
    n0, n1 = count(layers, w, [cmin, cmax], wtype)
    out = []; mono = True
    for j in range(n0, n1):
        a, b = cmin, cmax
        while b - a > tol * b:
            x = np.linspace(a, b, 34)[1:-1]
            v = count(layers, w, x, wtype)
            if np.any(np.diff(v) < 0): mono = False
            i = np.searchsorted(v > j, True) if np.any(v > j) else len(x)
            a2 = x[i - 1] if i > 0 else a
            b2 = x[i] if i < len(x) else b
            if not (a2 < b2) or (a2 == a and b2 == b): break
            a, b = a2, b2
        out.append(0.5 * (a + b))
    return np.array(out), mono


def nth(layers, w, wtype, j, c0, span=4e-3, tol=2e-14):
    """phase velocity of the mode number j (by the exact count) near c0, or None if it is not within the span"""
    vn = layers[-1][2] if layers[-1][2] > 0 else layers[-1][1]
    a, b = c0 * (1 - span), min(c0 * (1 + span), vn * (1 - 1e-9))
    na, nb = count(layers, w, [a, b], wtype)
    if not (na <= j < nb): return None
    while b - a > tol * b:
        x = np.linspace(a, b, 34)[1:-1]
        v = count(layers, w, x, wtype)
        i = int(np.argmax(v > j)) if np.any(v > j) else len(x)
        a2 = x[i - 1] if i > 0 else a
        b2 = x[i] if i < len(x) else b
        if not (a2 < b2) or (a2 == a and b2 == b): break
        a, b = a2, b2
    return 0.5 * (a + b)


def transfer_solid(vp, vs, rho, d, w, k):
    """y(z+d) = P y(z), y = (r1, r2, t1/(k mu), t2/(k mu)) with r1 = q, r2 = -w, t1 = tau, t2 = -sigma; array of d"""
    mu = rho * vs * vs; lm = rho * vp * vp - 2 * mu; M = lm + 2 * mu
    z = 4 * mu * (lm + mu) / M; sc = mu * k
    A = np.zeros((4, 4))
    A[0, 1] = k; A[0, 2] = sc / mu
    A[1, 0] = -k * lm / M; A[1, 3] = sc / M
    A[2, 0] = (k * k * z - w * w * rho) / sc; A[2, 3] = k * lm / M
    A[3, 1] = -w * w * rho / sc; A[3, 2] = -k
    return _expm(A[None] * np.atleast_1d(d)[:, None, None])


def transfer_liquid(vp, rho, d, w, k):
    """(r2, t2) in a liquid"""
    A = np.array([[0, -k * k / (rho * w * w) + 1 / (rho * vp * vp)], [-w * w * rho, 0]])
    x2 = k * k - (w / vp)**2
    x = np.sqrt(complex(x2))
    ch = np.cosh(x * d).real; sh = (np.sinh(x * d) / x).real
    return np.array([[ch, A[0, 1] * sh], [A[1, 0] * sh, ch]])


def half_stiffness(layer, w, k):
    _, vp, vs, rho = layer[:4]
    return _hsolid(vp, vs, rho, w, np.array([k]))[0]
