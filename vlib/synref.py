"""Radiation patterns derived from the moment tensor, and references for synthetic seismograms."""
import numpy as np

CHN = {"EX": "ZR", "VF": "ZR", "HF": "ZRT", "DD": "ZR", "DS": "ZRT", "SS": "ZRT"}


def normal_slip(strike, dip, rake):
    s, d, r = np.radians([strike, dip, rake])
    n = np.array([-np.sin(d) * np.sin(s), np.sin(d) * np.cos(s), -np.cos(d)])
    u = np.array([np.cos(r) * np.cos(s) + np.sin(r) * np.cos(d) * np.sin(s),
                  np.cos(r) * np.sin(s) - np.sin(r) * np.cos(d) * np.cos(s), -np.sin(r) * np.sin(d)])
    return n, u


def moment(kind, par, vpvs=None):
    """3x3 moment tensor (x north, y east, z down) of unit scale."""
    if kind == "EX":
        return np.eye(3)
    if kind == "DC":
        n, u = normal_slip(*par)
        return np.outer(n, u) + np.outer(u, n)
    if kind == "TS":
        n, _ = normal_slip(par[0], par[1], 0.0)
        # lambda/mu I + 2 n n
        return (vpvs ** 2 - 2) * np.eye(3) + 2 * np.outer(n, n)
    a, b, c, d, e, f = par
    return np.array([[a, b, c], [b, d, e], [c, e, f]], float)


def coefs(kind, par, az, vpvs=None, theta=False):
    """{(source, channel): coefficient}; theta: derivative with respect to azimuth."""
    a = np.radians(az)
    c, s, c2, s2 = np.cos(a), np.sin(a), np.cos(2 * a), np.sin(2 * a)
    if kind == "SF":
        fn, fe, fz = par
        rad = {"VF": (fz, None), "HF": (fn * c + fe * s, -fn * s + fe * c)}
        der = {"VF": (0.0, None), "HF": (-fn * s + fe * c, -fn * c - fe * s)}
    else:
        M = moment(kind, par, vpvs)
        iso = np.trace(M) / 3
        dd = (2 * M[2, 2] - M[0, 0] - M[1, 1]) / 6
        ds = (-(M[0, 2] * c + M[1, 2] * s), M[0, 2] * s - M[1, 2] * c)
        h = (M[0, 0] - M[1, 1]) / 2
        ss = (h * c2 + M[0, 1] * s2, -h * s2 + M[0, 1] * c2)
        rad = {"EX": (iso, None), "DD": (dd, None), "DS": ds, "SS": ss}
        der = {"EX": (0.0, None), "DD": (0.0, None), "DS": (ds[1], -ds[0]), "SS": (2 * ss[1], -2 * ss[0])}
    use = der if theta else rad
    out = {}
    for n, (zr, t) in use.items():
        if kind == "DC" and n == "EX":
            continue
        if kind == "EX" and n != "EX":
            continue
        out[n, "Z"] = out[n, "R"] = zr
        if t is not None:
            out[n, "T"] = t
    return out


def unit(kind):
    return 1e-15 if kind == "SF" else 1e-20


def synth(get, kind, par, az, scale, dist, vpvs, deriv=True, keep=False):
    """get(name) -> float64 array (name like EXZ, zEXZ, rEXZ). Returns (vals, mags): channel -> array."""
    u, mag = {}, {}

    def add(key, ch, cf, pre, fac):
        tot = None; mg = 0.0
        top = max([abs(x) for x in cf.values()] + [1.0])
        for (src, c), v in cf.items():
            if c == ch:
                g = get(pre + src + c)
                tot = v * fac * g if tot is None else tot + v * fac * g; mg = mg + (abs(v) + 1e-8 * top) * abs(fac) * np.abs(g)
        if tot is None:
            z = np.zeros_like(get(pre + next(iter(cf))[0] + "Z"))
            tot = z; mg = z
        u[key] = tot; mag[key] = mg
    r0 = dist <= 1e-8
    if r0 and not keep:
        az = 0.0
    sc = scale * unit(kind)
    cf = coefs(kind, par, az, vpvs); ct = coefs(kind, par, az, vpvs, True)
    for ch in "ZRT":
        add(ch, ch, cf, "", sc)
        if deriv:
            add("z" + ch, ch, cf, "z", sc * 1e-5)
            add("r" + ch, ch, cf, "r", sc * 1e-5)
            add("t" + ch, ch, ct, "r" if r0 else "", sc * (1e-5 if r0 else 1e-5 / dist))
    return u, mag


def gradient(u, az, dist, zne=False, keep=False):
    """ZRT synthetic (with derivative traces) -> 3x3 tensor g[i][j] = d u_j / d x_i in the
    orthonormal local frame (Z,R,T), curvature included, or rotated to (Z,N,E)."""
    r0 = dist <= 1e-8
    g = [[u[a.lower() + b] for b in "ZRT"] for a in "ZRT"]
    ur = u["rR"] if r0 else u["R"] * (1e-5 / dist)
    ut = u["rT"] if r0 else u["T"] * (1e-5 / dist)
    g = np.array(g, dtype=np.result_type(*[x for r in g for x in r]))
    g[2, 1] = g[2, 1] - ut
    g[2, 2] = g[2, 2] + ur
    if not zne:
        return g
    Q = rot(0.0 if r0 and not keep else az)
    return np.einsum("ia,jb,ab...->ij...", Q, Q, g)


def rot(az):
    """(Z,R,T) -> (Z,N,E)"""
    a = np.radians(az)
    return np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])


def vec(u, az, dist, zne):
    v = np.array([u[c] for c in "ZRT"])
    return np.einsum("ia,a...->i...", rot(0.0 if dist <= 1e-8 else az), v) if zne else v
