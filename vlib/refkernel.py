"""Independent reference for the wavenumber-domain response of a layered model.

Global-matrix solution of the elastodynamic (or elastostatic) boundary-value
problem in surface harmonics (Aki & Richards conventions, z down):
    u = q B + w P + v C,  B = grad_h(Y)/k,  P = Y e_z,  C = curl-type harmonic.
It shares nothing with PyGRT's reflection/transmission recursion: unknowns are
wave amplitudes in every layer and one linear system is solved per wavenumber.

Source jumps follow from f_i = F_i delta or f_i = -d_j(M_ij delta).
"""
import numpy as np

SRC = ["EX", "VF", "HF", "DD", "DS", "SS"]
I2PI = 1.0 / (2 * np.pi)


class Model:
    """Layers: list of (thickness, Vp, Vs, rho, Qp, Qs); last = half space. Q<=0 or inf: elastic."""

    def __init__(self, layers, top="f", bot="H"):
        a = np.array([list(l) + [0, 0] * (len(l) < 6) for l in layers], float)
        self.h = a[:, 0]; self.vp = a[:, 1]; self.vs = a[:, 2]; self.rho = a[:, 3]
        self.qp = a[:, 4]; self.qs = a[:, 5]
        self.top, self.bot = top, bot
        self.z = np.concatenate([[0.0], np.cumsum(self.h[:-1])])

    def layer_of(self, dep):
        """layer containing dep; on an interface: the upper one."""
        n = len(self.h)
        for i in range(n - 1):
            if dep <= self.z[i + 1] + 1e-12:
                return i
        return n - 1


def cvel(v, q, omega, omgref):
    if omega is None or q is None or q <= 0 or not np.isfinite(q):
        return complex(v)
    return v * (1.0 + np.log(omega / omgref) / (np.pi * q) + 0.5j / q)


def jumps(src, k, lam, mu):
    """Jump of (q,w,tB,tZ) and (v,tC) across the source level; arrays over k."""
    z = np.zeros_like(k, dtype=complex)
    l2m = lam + 2 * mu
    J = [z.copy() for _ in range(4)]; S = [z.copy(), z.copy()]
    if src == "EX":
        J[1] += I2PI / l2m; J[2] += k * I2PI * (1 - lam / l2m)
    elif src == "VF":
        J[3] += -I2PI
    elif src == "HF":
        J[2] += -I2PI; S[1] += -I2PI
    elif src == "DD":
        J[1] += 2 * I2PI / l2m; J[2] += -k * I2PI * (1 + 2 * lam / l2m)
    elif src == "DS":
        J[0] += -I2PI / mu; S[0] += -I2PI / mu
    elif src == "SS":
        J[2] += -k * I2PI; S[1] += -k * I2PI
    return np.array(J), np.array(S)


def solve(model, depsrc, deprcv, omega, ks, omgref=1.0, rcv_below=None):
    """Returns dict (src, comp) -> array over ks for comp in q,w,v and qz,wz,vz (d/dz, z down).

    omega: complex (dynamic) or None (static).  rcv_below: side when depths coincide.
    """
    ks = np.asarray(ks); ks = ks if np.iscomplexobj(ks) else ks.astype(float)
    K = len(ks)
    static = omega is None
    n0 = len(model.h)
    isrc = model.layer_of(depsrc)
    ircv0 = model.layer_of(deprcv)
    # split the source layer
    lay = []  # (thick, orig index, ztop)
    for i in range(n0):
        if i == isrc:
            lay.append((depsrc - model.z[i], i, model.z[i]))
            ht = (model.z[i + 1] - depsrc) if i < n0 - 1 else np.inf
            lay.append((max(ht, 0.0), i, depsrc))
        else:
            lay.append((model.h[i] if i < n0 - 1 else np.inf, i, model.z[i]))
    bot = model.bot
    if bot in "FR":
        lay = lay[:-1]
    n = len(lay)
    below = deprcv > depsrc or (deprcv == depsrc and rcv_below)
    # receiver layer (in split list)
    cand = [j for j in range(n) if lay[j][1] == ircv0]
    if len(cand) == 2:
        jr = cand[1] if below else cand[0]
    else:
        jr = cand[0]
    js = isrc  # upper part of the source layer has list index isrc
    al = np.array([cvel(model.vp[o], model.qp[o], omega, omgref) for _, o, _ in lay])
    be = np.array([cvel(model.vs[o], model.qs[o], omega, omgref) if model.vs[o] > 0 else 0 for _, o, _ in lay])
    rho = np.array([model.rho[o] for _, o, _ in lay])
    mu = rho * be ** 2; lam = rho * al ** 2 - 2 * mu
    liq = np.array([model.vs[o] == 0 for _, o, _ in lay])
    out = {}

    def nu(v):
        if static:
            return ks + 0j
        r = np.sqrt(ks ** 2 - (omega / v) ** 2 + 0j)
        return np.where(r.real < 0, -r, r)

    # ---------------- P-SV
    # Each wave: (sgn, decay rate v, func(z) -> 6 components at z relative to the
    # normalisation plane): sgn<0 decays downward (plane = layer top, z>=0),
    # sgn>0 decays upward (plane = layer bottom, z<=0).
    def basis(j):
        k = ks + 0j
        l, m = lam[j], mu[j]
        cols = []

        def pack(q, w, qz, wz):
            return np.array([q, w, m * (qz + k * w), (l + 2 * m) * wz - l * k * q, qz, wz])
        if static:
            for sgn in (-1, 1):
                def f1(z, sgn=sgn):
                    e = np.exp(sgn * k * z)
                    return pack(e, sgn * e, sgn * k * e, k * e)

                def f2(z, sgn=sgn):
                    # with t = -sgn*z: q = k t, w = -sgn*(Bc - k t)   (mirror image for the upgoing one)
                    t = -sgn * z
                    e = np.exp(-k * t)
                    Bc = -(l + 3 * m) / (l + m)
                    q = k * t * e; w = -sgn * (Bc - k * t) * e
                    qt = (k - k * k * t) * e; wt = -sgn * (-k - k * Bc + k * k * t) * e
                    return pack(q, w, -sgn * qt, -sgn * wt)
                cols += [(sgn, k, f1), (sgn, k, f2)]
            return cols
        na = nu(al[j])
        for sgn in (-1, 1):
            def f(z, sgn=sgn):
                e = np.exp(sgn * na * z)
                return pack(k * e, sgn * na * e, sgn * na * k * e, na * na * e)
            cols.append((sgn, na, f))
        if not liq[j]:
            nb = nu(be[j])
            for sgn in (-1, 1):
                def f(z, sgn=sgn):
                    e = np.exp(sgn * nb * z)
                    return pack(sgn * nb * e, k * e, nb * nb * e, sgn * nb * k * e)
                cols.append((sgn, nb, f))
        return cols

    bases = [basis(j) for j in range(n)]
    use = []
    for j in range(n):
        c = list(range(len(bases[j])))
        if j == n - 1 and bot == "H":
            c = [i for i in c if bases[j][i][0] < 0]
        if j == 0 and model.top == "h":
            pass
        use.append(c)
    off = np.cumsum([0] + [len(u) for u in use])
    N = off[-1]

    cache = {}

    def val(j, i, where):
        """wave vector at top or bottom of layer j."""
        if (j, i, where) not in cache:
            sg, v, f = bases[j][i]
            h = lay[j][0]
            if sg < 0:
                z = 0.0 if where == "top" else h
            else:
                z = -h if where == "top" else 0.0
            cache[j, i, where] = f(z) / np.max(np.abs(f(0.0)), axis=0)
        return cache[j, i, where]

    rows = []  # each: list of (col, coef array K), rhs per source
    rhs = []
    srcs = SRC
    JS = {s: jumps(s, ks + 0j, lam[js], mu[js] if not liq[js] or s == "EX" else 1.0) for s in srcs}

    def add(terms, r=None):
        rows.append(terms)
        rhs.append(r)

    # top
    if model.top == "f":
        comps = [3] if liq[0] else [2, 3]
        for cp in comps:
            add([(off[0] + a, val(0, i, "top")[cp]) for a, i in enumerate(use[0])])
    elif model.top == "r":
        comps = [1] if liq[0] else [0, 1]
        for cp in comps:
            add([(off[0] + a, val(0, i, "top")[cp]) for a, i in enumerate(use[0])])
    else:  # half space above: no downgoing waves at the top
        for a, i in enumerate(use[0]):
            if bases[0][i][0] < 0:
                add([(off[0] + a, np.ones(K, complex))])
    for j in range(n - 1):
        issrc = (j == js)
        la, lb = liq[j], liq[j + 1]
        if issrc:
            comps = [1, 3] if la else [0, 1, 2, 3]
        elif la or lb:
            comps = [1, 3]
        else:
            comps = [0, 1, 2, 3]
        for cp in comps:
            t = [(off[j] + a, -val(j, i, "bot")[cp]) for a, i in enumerate(use[j])]
            t += [(off[j + 1] + a, val(j + 1, i, "top")[cp]) for a, i in enumerate(use[j + 1])]
            add(t, {s: JS[s][0][cp] for s in srcs} if issrc else None)
        if not issrc:
            if la and not lb:
                add([(off[j + 1] + a, val(j + 1, i, "top")[2]) for a, i in enumerate(use[j + 1])])
            if lb and not la:
                add([(off[j] + a, val(j, i, "bot")[2]) for a, i in enumerate(use[j])])
    if bot == "F":
        for cp in ([3] if liq[n - 1] else [2, 3]):
            add([(off[n - 1] + a, val(n - 1, i, "bot")[cp]) for a, i in enumerate(use[n - 1])])
    elif bot == "R":
        for cp in ([1] if liq[n - 1] else [0, 1]):
            add([(off[n - 1] + a, val(n - 1, i, "bot")[cp]) for a, i in enumerate(use[n - 1])])
    assert len(rows) == N, (len(rows), N)
    A = np.zeros((K, N, N), complex); b = np.zeros((K, N, len(srcs)), complex)
    for r, t in enumerate(rows):
        for c, x in t:
            A[:, r, c] += x
        if rhs[r] is not None:
            for si, s in enumerate(srcs):
                b[:, r, si] += rhs[r][s]
    sc = np.max(np.abs(A), axis=2, keepdims=True)
    X = np.linalg.solve(A / sc, b / sc)
    zr = deprcv - lay[jr][2]
    h = lay[jr][0]
    for si, s in enumerate(srcs):
        q = np.zeros(K, complex); w = q.copy(); qz = q.copy(); wz = q.copy()
        for a, i in enumerate(use[jr]):
            sg, v, f = bases[jr][i]
            c = f(zr if sg < 0 else zr - h) / np.max(np.abs(f(0.0)), axis=0)
            x = X[:, off[jr] + a, si]
            q += x * c[0]; w += x * c[1]; qz += x * c[4]; wz += x * c[5]
        out[s, "q"], out[s, "w"], out[s, "qz"], out[s, "wz"] = q, w, qz, wz

    # ---------------- SH: contiguous solid stack around the source
    zero = np.zeros(K, complex)
    for s in srcs:
        out[s, "v"] = zero; out[s, "vz"] = zero
    if not liq[js] and not liq[jr]:
        lo = js
        while lo > 0 and not liq[lo - 1]:
            lo -= 1
        hi = js + 1
        while hi < n - 1 and not liq[hi + 1]:
            hi += 1
        if lo <= jr <= hi:
            L = list(range(lo, hi + 1))
            m = len(L)
            nb = [nu(be[j]) for j in L]
            M = 2 * m
            last_open = (hi == n - 1 and bot == "H")
            A = np.zeros((K, M, M), complex); b = np.zeros((K, M, len(srcs)), complex)
            r = 0

            def e(a):
                hh = lay[L[a]][0]
                return np.exp(-nb[a] * hh) if np.isfinite(hh) else np.zeros(K)
            if lo > 0 or model.top == "f":
                A[:, r, 0] = -1; A[:, r, 1] = e(0); r += 1
            elif model.top == "r":
                A[:, r, 0] = 1; A[:, r, 1] = e(0); r += 1
            else:
                A[:, r, 0] = 1; r += 1
            for a in range(m - 1):
                ma, mb = mu[L[a]], mu[L[a + 1]]
                sw = max(abs(ma), abs(mb))
                A[:, r, 2 * a] = -e(a); A[:, r, 2 * a + 1] = -1
                A[:, r, 2 * a + 2] = 1; A[:, r, 2 * a + 3] = e(a + 1)
                kk = ks + 0j
                A[:, r + 1, 2 * a] = ma / sw * nb[a] / kk * e(a); A[:, r + 1, 2 * a + 1] = -ma / sw * nb[a] / kk
                A[:, r + 1, 2 * a + 2] = -mb / sw * nb[a + 1] / kk; A[:, r + 1, 2 * a + 3] = mb / sw * nb[a + 1] / kk * e(a + 1)
                if L[a] == js:
                    for si, s in enumerate(srcs):
                        b[:, r, si] = JS[s][1][0]; b[:, r + 1, si] = JS[s][1][1] / sw / kk
                r += 2
            if last_open:
                A[:, r, M - 1] = 1
            elif hi < n - 1 or bot == "F":
                A[:, r, M - 2] = -e(m - 1); A[:, r, M - 1] = 1
            else:
                A[:, r, M - 2] = e(m - 1); A[:, r, M - 1] = 1
            r += 1
            X = np.linalg.solve(A, b)
            a = L.index(jr)
            ed = np.exp(-nb[a] * zr)
            eu = np.exp(-nb[a] * (h - zr)) if np.isfinite(h) else zero
            for si, s in enumerate(srcs):
                out[s, "v"] = X[:, 2 * a, si] * ed + X[:, 2 * a + 1, si] * eu
                out[s, "vz"] = nb[a] * (-X[:, 2 * a, si] * ed + X[:, 2 * a + 1, si] * eu)
    return out
