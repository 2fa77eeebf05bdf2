"""C13: okada against Mindlin's point-force solution (differentiated and integrated over the fault), plus slip, additivity and symmetry monitors."""
import os
import numpy as np
from vlib import gio, synref as Y
from checks.c08 import r_
from checks.c12 import line, mechanisms

PROP = "C13"
RULE = ("Random half-spaces (Poisson ratios 0.05-0.48), point sources of each type and Coulomb tables of every Kode, with vertical, horizontal and oblique planes, "
        "receivers at random, near the fault, on the extensions of its edges (exactly and nearly), at the epicentre, on and below the surface; displacement and "
        "gradient are compared with Mindlin's solution differentiated at the source and integrated over the rectangle by adaptive Gauss quadrature.")
ASSUMPTIONS = ["the code treats distances below 1e-6 km as zero: comparisons allow the relative change this can cause",
               "quadrature reference error below 1e-7 (monitored by doubling the order)"]
H = 1e-30


def green(x, y, z, sx, sy, c, nu):
    """Mindlin's tensor times 16 pi G (1-nu), broadcasting, complex allowed; axes (i, j) first."""
    X, Yy = x - sx, y - sy
    r2 = X * X + Yy * Yy
    R1 = np.sqrt(r2 + (z - c) ** 2); R2 = np.sqrt(r2 + (z + c) ** 2)
    a = 3 - 4 * nu; b = 4 * (1 - nu) * (1 - 2 * nu)
    S = R2 + z + c
    fz = (z - c) / R1 ** 3 + a * (z - c) / R2 ** 3 - b / (R2 * S) + 6 * c * z * (z + c) / R2 ** 5
    zz = a / R1 + (8 * (1 - nu) ** 2 - a) / R2 + (z - c) ** 2 / R1 ** 3 + (a * (z + c) ** 2 - 2 * c * z) / R2 ** 3 + 6 * c * z * (z + c) ** 2 / R2 ** 5
    d = a / R1 + 1 / R2 + 2 * c * z / R2 ** 3 + b / S
    e = 1 / R1 ** 3 + a / R2 ** 3 - 6 * c * z / R2 ** 5 - b / (R2 * S * S)
    g = (z - c) / R1 ** 3 + a * (z - c) / R2 ** 3 - 6 * c * z * (z + c) / R2 ** 5 + b / (R2 * S)
    return np.array([[d + X * X * e, X * Yy * e, X * fz], [X * Yy * e, d + Yy * Yy * e, Yy * fz], [X * g, Yy * g, zz]])


def pdisp(P, src, w, M, G, nu):
    """Displacement (n,3; north, east, down; units of M/G/km^2) at points P (n,3) of weighted sources src (m,3) with moment M."""
    k = 1 / (16 * np.pi * G * (1 - nu))
    out = np.zeros((len(P), 3))
    x, y, z = (P[:, i][:, None].astype(complex) for i in range(3))
    for l in range(3):
        s = [src[:, i][None, :].astype(complex) for i in range(3)]
        s[l] = s[l] + 1j * H
        out += np.einsum("ijnm,j,m->ni", green(x, y, z, *s, nu).imag / H, M[:, l], w)
    return k * out


XG, WG = np.polynomial.legendre.leggauss(8)


def quad(P, f, M, G, nu, order=1.0):
    """Integral of point sources over the fault rectangle (per unit slip, lengths in km), one receiver P at a time, panels refined near it."""
    st = np.arctan2(f["e1"] - f["e0"], f["n1"] - f["n0"]); dp = np.radians(f["dip"])
    Lf = np.hypot(f["e1"] - f["e0"], f["n1"] - f["n0"]); W = (f["bot"] - f["top"]) / np.sin(dp)
    o = np.array([f["n0"], f["e0"], f["top"]]); a = np.array([np.cos(st), np.sin(st), 0.0])
    b = np.array([-np.cos(dp) * np.sin(st), np.cos(dp) * np.cos(st), np.sin(dp)])
    pan = [(0.0, Lf, 0.0, W)]; done = []
    while pan:
        l0, l1, w0, w1 = pan.pop()
        mid = o + a * (l0 + l1) / 2 + b * (w0 + w1) / 2
        q = P - mid; size = max(l1 - l0, w1 - w0)
        ta, tb = np.dot(q, a), np.dot(q, b)
        ta = max(0, abs(ta) - (l1 - l0) / 2); tb = max(0, abs(tb) - (w1 - w0) / 2)
        dist = np.sqrt(ta ** 2 + tb ** 2 + np.dot(q, np.cross(a, b)) ** 2)
        if size > 0.7 * dist / order and len(done) + len(pan) < 6000:
            if l1 - l0 > w1 - w0:
                m = (l0 + l1) / 2; pan += [(l0, m, w0, w1), (m, l1, w0, w1)]
            else:
                m = (w0 + w1) / 2; pan += [(l0, l1, w0, m), (l0, l1, m, w1)]
        else:
            done.append((l0, l1, w0, w1))
    S, V = [], []
    for l0, l1, w0, w1 in done:
        u = (l0 + l1) / 2 + (l1 - l0) / 2 * XG; v = (w0 + w1) / 2 + (w1 - w0) / 2 * XG
        S.append((o + u[:, None, None] * a + v[None, :, None] * b).reshape(-1, 3))
        V.append((np.outer(WG, WG) * (l1 - l0) * (w1 - w0) / 4).ravel())
    return np.concatenate(S), np.concatenate(V)


def stencil(P, h):
    q = [P]
    for l in range(3):
        for k in (1, -1, .5, -.5, .25, -.25):
            d = np.zeros(3); d[l] = k * h; q.append(P + d)
    return np.array(q)


def gradient(U, h):
    g = np.zeros((3, 3))
    for l in range(3):
        v = U[1 + 6 * l:7 + 6 * l]
        d1 = (v[0] - v[1]) / (2 * h); d2 = (v[2] - v[3]) / h; d3 = (v[4] - v[5]) / (h / 2)
        r1 = (4 * d2 - d1) / 3; r2 = (4 * d3 - d2) / 3
        g[l] = (16 * r2 - r1) / 15
    return g           # [derivative][component]


Z = np.array([[0, 0, -1], [1, 0, 0], [0, 1, 0.0]])


def tensors(kind, par, G, lam):
    if kind == "TS":
        n, _ = Y.normal_slip(par[0], par[1], 0.0)
        return lam * np.eye(3) + 2 * G * np.outer(n, n)
    return G * Y.moment(kind, par)


def read(ctx, name, zne, e):
    v, dims, at = gio.read_nc(ctx.path(name))
    c = "ZNE" if zne else "ZRT"
    u = np.array([v[x].ravel() for x in c]).T
    g = np.array([[v[a.lower() + b].ravel() for b in c] for a in c]).transpose(2, 0, 1) if e else None
    ctx.check("variables", {x for x in v if x not in ("north", "east", "depth", "rcv_va", "rcv_vb", "rcv_rho", "strike", "dip", "rake")}
              == set(c) | ({a.lower() + b for a in c for b in c} if e else set()), str(sorted(v)))
    return u, g, v, at


def to_zrt(u, g, n, e):
    d = np.hypot(n, e); az = 0.0 if d <= 1e-8 else np.degrees(np.arctan2(e, n))
    Q = Y.rot(az); w = Q.T @ u
    if g is None:
        return w, None
    t = np.einsum("ia,jb,ij->ab", Q, Q, g)
    ur, ut = (t[1, 1], t[1, 2]) if d <= 1e-8 else (w[1] / d, w[2] / d)
    t = t.copy(); t[2, 1] += ut; t[2, 2] -= ur
    return w, t


def medium(rng):
    vs = r_(rng, .5, 4, 3); nu = rng.choice([0.25, rng.uniform(.05, .48)])
    vp = round(float(vs * np.sqrt((1 - nu) / (.5 - nu))), 3); rho = r_(rng, 1.5, 3.5, 3)
    G = rho * vs ** 2 * 1e10; lam = rho * vp ** 2 * 1e10 - 2 * G
    return vp, vs, rho, G, lam, lam / 2 / (lam + G)


def metadata(ctx, v, at, pts, grid, e, zne, typ, med, ds=None):
    vp, vs, rho, G, lam, nu = med
    ctx.check("layout", at["layout"] == ("grid" if grid else "points") and at["computeType"] == typ, str(at))
    ctx.check("flags", int(at["calc_upar"]) == int(e) and int(at["rot2ZNE"]) == int(zne), str(at))
    ctx.close("constants", [float(np.ravel(at[k])[0]) for k in ("alpha", "lambda", "mu")], [(lam + G) / (lam + 2 * G), lam, G], 1e-9, scale=[1, lam + 2 * G, G])
    if ds is not None:
        ctx.close("depsrc", float(np.ravel(at["depsrc"])[0]), ds, 1e-12)
    N, E, D = pts.T
    if grid:
        ctx.close("axes", np.c_[np.repeat(v["north"], len(v["east"])), np.tile(v["east"], len(v["north"]))], np.c_[N, E], 1e-12, atol=1e-12)
        ctx.close("axes", float(np.ravel(at["deprcv"])[0]), D[0], 1e-12)
        got = [float(np.ravel(at["rcv_" + x])[0]) for x in ("va", "vb", "rho")]
        ctx.close("medium", got, [vp, vs, rho], 1e-12)
    else:
        ctx.close("axes", np.c_[v["north"], v["east"], v["depth"]], pts, 1e-12, atol=1e-12)
        ctx.close("medium", np.c_[v["rcv_va"], v["rcv_vb"], v["rcv_rho"]], np.tile([vp, vs, rho], (len(pts), 1)), 1e-12)


def where(ctx, special):
    """Receivers: -Q points (special ones included) or a grid. special: list of (n,e,z)."""
    rng = ctx.rng
    if rng.random() < .6:
        pts = [p for p in special] + [(r_(rng, -6, 6, 3), r_(rng, -6, 6, 3), [0.0, r_(rng, 0, 6, 3)][rng.integers(2)]) for _ in range(5)]
        pts += [(0.0, 0.0, 0.0)] if rng.random() < .3 else []
        order = rng.permutation(len(pts)); pts = [pts[i] for i in order]
        geo = rng.random() < .3
        ctx.write("q", "# points\n" + "\n".join(" ".join(f"{x:.17g}" for x in p) + (" 10 20 30" if geo else "") for p in pts) + "\n")
        ctx.tag("points")
        return np.array(pts, float), ["-Qq"], False
    x0, y0 = r_(rng, -5, 2, 1), r_(rng, -5, 2, 1); nx, ny = rng.integers(1, 5, 2); z = [0.0, r_(rng, 0, 5, 2)][rng.integers(2)]
    if rng.random() < .4:
        x0, y0 = -1.5, -2.0
    N = x0 + 1.5 * np.arange(nx); E = y0 + np.arange(ny)
    ctx.tag("grid")
    return np.array([[n, e, z] for n in N for e in E]), [f"-X{x0}/{x0 + 1.5 * nx - 1.2:.6g}/1.5", f"-Y{y0}/{y0 + ny - .9:.6g}/1", f"-Dr{z}"], True


def point(ctx):
    rng = ctx.rng
    for k in range(5):
        med = vp, vs, rho, G, lam, nu = medium(rng)
        kind = ["EX", "DC", "TS"][rng.integers(3)]
        par = ()
        st = [r_(rng, 0, 360, 2), 0.0, 90.0, 360.0, 270.0][rng.integers(5)]
        dp = [r_(rng, 0, 90, 2), 0.0, 90.0, 89.9999, 0.001][rng.choice(5, p=[.5, .15, .15, .1, .1])]
        rk = [r_(rng, -180, 180, 2), 0.0, 90.0, -90.0, 180.0][rng.integers(5)]
        if kind != "EX":
            par = (st, dp, rk) if kind == "DC" else (st, dp)
        a = [] if kind == "EX" else ["-M" + "/".join(f"{x!r}" for x in par)]
        ds = [r_(rng, .2, 6, 2), 0.0][int(rng.random() < .1)]
        sp = [(0.0, 0.0, 0.0)] if ds > 0 else []
        sp += [(0.0, 0.0, ds + 1.5), (1.2, 0.0, ds), (0.0, -.7, ds)]                      # below, level
        s = np.radians(st); sp.append((2 * np.cos(s), 2 * np.sin(s), ds)); sp.append((0.02, 0.0, 0.0 if ds else .5))   # along strike, almost epicentre
        pts, ra, grid = where(ctx, sp)
        keep = np.hypot(np.hypot(*pts.T[:2]), pts[:, 2] - ds) > .03
        if not keep.all():
            if grid:
                continue
        pts = pts[keep]
        if not grid:
            ctx.write("q", "\n".join(" ".join(f"{x:.17g}" for x in p) for p in pts) + "\n")
        u = rng.random() < .5; zne = rng.random() < .5; e = rng.random() < .8
        sc = float(f"{10 ** (rng.uniform(8, 16) if u else rng.uniform(18, 26)):.4g}")
        ctx.grt("okada", f"-I{vp}/{vs}/{rho}", f"-S{'u' if u else ''}{sc!r}", f"-Ds{ds}", *a, *ra, f"-Op{k}.nc", *(["-N"] if zne else []), *(["-e"] if e else []), *(["-s"] if rng.random() < .5 else []))
        gu, gg, v, at = read(ctx, f"p{k}.nc", zne, e)
        metadata(ctx, v, at, pts, grid, e, zne, kind, med, ds)
        M = tensors(kind, par, G, lam) * (sc if u else sc / G)
        for i, P in enumerate(pts):
            R = np.linalg.norm(P - [0, 0, ds]); h = .02 * R
            U = pdisp(stencil(P, h), np.array([[0, 0, ds]]), np.ones(1), M, G, nu)
            wu, wg = Z @ U[0] * 1e-10, Z @ gradient(U, h) @ Z.T * 1e-15
            amp = np.abs(M).max() / G / 4 / np.pi / R ** 2 * 1e-10
            if not zne:
                w2, g2 = to_zrt(wu * 1e5, wg * 1e10, P[0], P[1])
                wu, wg = w2 / 1e5, g2 / 1e10
            d = f"{kind}{par} ds={ds} nu={nu:.3f} at {P.tolist()}"
            ctx.close("point:u", gu[i], wu, 1e-9 + 2e-5 / R * 1e-1, scale=amp, detail=d)
            if e:
                cyl = 0 if zne or np.hypot(P[0], P[1]) < 1e-8 else R / np.hypot(P[0], P[1]) * 1e-10 + 1e-6 / np.hypot(P[0], P[1])
                ctx.close("point:grad", gg[i], wg, 1e-7 + 1e-5 / R + cyl, scale=amp / R * 1e-5, detail=d)
            ctx.tag("epicentre" if np.hypot(P[0], P[1]) < 1e-9 else "level" if abs(P[2] - ds) < 1e-9 else "surface" if P[2] == 0 else "inside")
        ctx.tag("src:" + kind, "mu" if u else "scale", f"nu:{nu:.1f}", f"dip:{'0' if dp == 0 else '90' if dp == 90 else 'x'}", "zne" if zne else "zrt")


def a_fault(rng, kode=None, surf=None):
    top = [0.0, r_(rng, 0, 3, 2)][int(rng.random() < .6)]
    dip = [90.0, r_(rng, 5, 89, 1), 45.0, 89.9999999, 89.9][rng.choice(5, p=[.3, .4, .1, .1, .1])]
    W = r_(rng, .3, 3, 2); bot = round(top + max(.05, W * float(np.sin(np.radians(dip)))), 3)
    e0, n0 = r_(rng, -2, 2, 1), r_(rng, -2, 2, 1)
    if rng.random() < .5:
        de, dn = [(0, 1.5), (1.2, 0), (0, -.9), (-.6, 0)][rng.integers(4)]
    else:
        de, dn = r_(rng, -3, 3, 2), r_(rng, .3, 3, 2)
    return dict(e0=e0, n0=n0, e1=round(e0 + de, 3), n1=round(n0 + dn, 3), kode=int(kode or [100, 200, 300, 400, 500][rng.integers(5)]),
                v1=r_(rng, -3, 3, 2), v2=r_(rng, -3, 3, 2), dip=dip, top=top, bot=bot)


def frame(f):
    st = np.arctan2(f["e1"] - f["e0"], f["n1"] - f["n0"]); dp = np.radians(f["dip"])
    a = np.array([np.cos(st), np.sin(st), 0.0]); b = np.array([-np.cos(dp) * np.sin(st), np.cos(dp) * np.cos(st), np.sin(dp)])
    return np.array([f["n0"], f["e0"], f["top"]]), a, b, np.hypot(f["e1"] - f["e0"], f["n1"] - f["n0"]), (f["bot"] - f["top"]) / np.sin(dp)


def aligned(rng, f):
    """Receivers near and on extensions of the fault's edges, in its plane, over its trace; never closer than 0.05 km to the fault."""
    o, a, b, Lf, W = frame(f)
    n = np.cross(a, b)
    out = []
    off = lambda: [0.0, 10 ** rng.uniform(-8, -1)][int(rng.random() < .5)] * rng.choice([-1, 1])
    for _ in range(12):
        l = [-rng.uniform(.1, 3), Lf + rng.uniform(.1, 3), rng.uniform(0, Lf), 0.0, Lf][rng.integers(5)]
        w = [-rng.uniform(.1, 3), W + rng.uniform(.1, 3), 0.0, W, rng.uniform(0, W)][rng.integers(5)]
        q = [0.0, rng.uniform(.1, 2), -rng.uniform(.1, 2)][rng.choice(3, p=[.6, .2, .2])]
        dl = max(0, -l, l - Lf); dw = max(0, -w, w - W)
        if np.sqrt(dl ** 2 + dw ** 2 + q * q) < .05:
            continue
        P = o + (l + off()) * a + (w + off()) * b + (q + off()) * n
        if P[2] >= -1e-12:
            P[2] = max(P[2], 0.0)
            out.append(tuple(P.tolist()))
    # mirror plane: edges of the image
    for _ in range(3):
        l = [-rng.uniform(.1, 3), Lf + rng.uniform(.1, 3)][rng.integers(2)]
        P = o * [1, 1, 0] + l * a
        out.append((P[0], P[1], 0.0))
    return out


def expected(f, P, G, lam, nu, h, order=1.0):
    """(u[3], grad) at P, ZNE, cm and dimensionless."""
    o, a, b, Lf, W = frame(f)
    if f["kode"] >= 400:
        src, w = (o + a * Lf / 2 + b * W / 2)[None], np.array([1e6 / 1e15])     # m^3 -> km^2 cm
    else:
        src, w = quad(P, f, None, G, nu, order); w = w * 100
    M = np.zeros((3, 3))
    for kd, par, s in mechanisms(f, False):
        M = M + tensors(kd, par, G, lam) * s
    if f["kode"] >= 400:
        w = w * 1e5
    U = pdisp(stencil(P, h), src, w, M, G, nu)
    return Z @ U[0], Z @ gradient(U, h) @ Z.T * 1e-5


def dist(f, P):
    o, a, b, Lf, W = frame(f)
    q = P - o
    l, w, n = q @ a, q @ b, q @ np.cross(a, b)
    if f["kode"] >= 400:
        return np.linalg.norm(P - (o + a * Lf / 2 + b * W / 2))
    return np.sqrt(max(0, -l, l - Lf) ** 2 + max(0, -w, w - W) ** 2 + n * n)


def finite(ctx):
    rng = ctx.rng
    med = vp, vs, rho, G, lam, nu = medium(rng)
    F = [a_fault(rng) for _ in range(int(rng.choice([1, 1, 2, 3])))]
    fname = "f.inp"
    if rng.random() < .2:
        # the other table form: rake (degrees) and net slip
        fname = "f.inr"; ctx.tag("rake-table")
        F = [dict(a_fault(rng, kode=100), v1=r_(rng, -180, 180, 1), v2=r_(rng, .1, 3, 2)) for _ in F]
    ctx.write(fname, "# x y\n xxx xxx\n" + "\n".join(line(f) for f in F) + "\n")
    if fname == "f.inr":
        F = [dict(f, v1=-f["v2"] * float(np.cos(np.radians(f["v1"]))), v2=f["v2"] * float(np.sin(np.radians(f["v1"])))) for f in F]
    pts, ra, grid = where(ctx, sum([aligned(rng, f) for f in F[:2]], []))
    near = np.array([min(dist(f, P) for f in F) for P in pts])
    if near.min() < .02:
        pts = pts[near >= .02]
        ctx.write("q", "\n".join(" ".join(f"{x:.17g}" for x in p) for p in pts) + "\n")
        ra, grid = ["-Qq"], False
    if len(pts) == 0:
        return
    zne = rng.random() < .6; e = rng.random() < .85
    ctx.grt("okada", f"-I{vp}/{vs}/{rho}", "-C" + fname, *ra, "-Of.nc", *(["-N"] if zne else []), *(["-e"] if e else []), threads=int(rng.integers(1, 5)))
    gu, gg, v, at = read(ctx, "f.nc", zne, e)
    metadata(ctx, v, at, pts, grid, e, zne, "FF", med)
    for i, P in enumerate(pts):
        wu = np.zeros(3); wg = np.zeros((3, 3)); amp = gamp = 0.0; tu = tg = 0.0
        for f in F:
            R = dist(f, P); o, a, b, Lf, W = frame(f)
            area = Lf * W * 100 if f["kode"] < 400 else 1e-4 * 1
            if f["kode"] >= 400:
                area = 1e6 / 1e10
            x, y = expected(f, P, G, lam, nu, .02 * R)
            s = (abs(f["v1"]) + abs(f["v2"])) * (lam + 2 * G) / G
            wu += x; wg += y
            A = s * area / 4 / np.pi / R ** 2 if f["kode"] >= 400 else min(s * 100, s * area / 4 / np.pi / R ** 2)
            amp += A; gamp += A / R * 1e-5; tu += A * (1e-8 + 3e-6 / R); tg += A / R * 1e-5 * (3e-7 + 1e-5 / R)
        if not zne:
            wu, wg = to_zrt(wu, wg * 1e5, P[0], P[1]); wg = wg * 1e-5
        d = f"{F} nu={nu:.3f} at {P.tolist()}"
        ctx.close("finite:u", gu[i], wu, 1.0, scale=tu, detail=d)
        if e:
            rr = np.hypot(P[0], P[1]); cyl = 0 if zne or rr < 1e-8 else tu / rr * 1e-5
            ctx.close("finite:grad", gg[i], wg, 1.0, scale=tg + cyl, detail=d)
    for f in F:
        ctx.tag(f"kode:{f['kode']}", "dip90" if f["dip"] == 90 else "dip", "top0" if f["top"] == 0 else "buried")
    ctx.tag("zne" if zne else "zrt")


def run_faults(ctx, name, med, F, ra, extra=()):
    ctx.write(name + ".inp", "a\nb\n" + "\n".join(line(f) for f in F) + "\n")
    ctx.grt("okada", "-I{}/{}/{}".format(*med[:3]), f"-C{name}.inp", *ra, f"-O{name}.nc", "-N", "-e", "-s", *extra)
    return read(ctx, name + ".nc", True, True)[:2]


def laws(ctx):
    """Slip across the fault, cutting, adding, scaling and rotating faults, surface traction."""
    rng = ctx.rng
    med = vp, vs, rho, G, lam, nu = medium(rng)
    f = a_fault(rng, kode=[100, 200, 300][rng.integers(3)])
    o, a, b, Lf, W = frame(f)
    n = np.cross(a, b)
    # slip discontinuity at interior points (off the surface)
    pts = []
    eps = 1e-5
    for _ in range(4):
        P = o + a * Lf * rng.uniform(.1, .9) + b * W * rng.uniform(.1, .9)
        pts += [P + eps * n, P - eps * n]
    pts = np.array(pts)
    far = np.array(aligned(rng, f) + [(r_(rng, -6, 6), r_(rng, -6, 6), r_(rng, 0, 4)) for _ in range(4)])
    surf = np.array([(r_(rng, -6, 6), r_(rng, -6, 6), 0.0) for _ in range(4)])
    surf = surf[[dist(f, P) > .1 for P in surf]]
    allp = np.r_[pts, far, surf]
    wr = lambda nm, Q: ctx.write(nm, "\n".join(" ".join(f"{x:.17g}" for x in p) for p in Q) + "\n")
    wr("q", allp)
    u, g = run_faults(ctx, "one", med, [f], ["-Qq"])
    jump = (u[0:8:2] - u[1:8:2])
    want = np.zeros(3)
    for kd, par, s in mechanisms(f, False):
        nn, sl = Y.normal_slip(par[0], par[1], par[2] if kd == "DC" else 0.0)
        # normal_slip: n points up out of the footwall, slip of the hanging wall
        side = np.sign(nn @ n)
        want = want + side * (sl if kd == "DC" else nn) * s * 100
    ctx.close("slip", jump, np.tile(Z @ want, (4, 1)), 2e-3, scale=100 * (abs(f["v1"]) + abs(f["v2"])), detail=str(f))
    # surface traction
    k = len(pts) + len(far)
    for i in range(k, len(allp)):
        t = g[i]    # [d][c] in Z N E
        tz = (lam * np.trace(t) + 2 * G * t[0, 0]); tn = G * (t[0, 1] + t[1, 0]); te = G * (t[0, 2] + t[2, 0])
        ctx.close("traction", [tz, tn, te], np.zeros(3), 1e-7, scale=(lam + 2 * G) * np.abs(t).max(), detail=str(f))
    # cut into pieces (Kode below 400)
    nl, nw = rng.integers(1, 4, 2)
    def piece(i, j):
        q = dict(f)
        A = o + a * Lf * i / nl + b * W * j / nw; B = A + a * Lf / nl
        # table columns give the surface line shifted down dip to the piece's top edge
        q.update(n0=float(A[0]), e0=float(A[1]), n1=float(B[0]), e1=float(B[1]), top=float(A[2]), bot=float(A[2] + b[2] * W / nw))
        return q
    pc = [piece(i, j) for i in range(nl) for j in range(nw)]
    safe = np.array([P for P in far if min(dist(q, P) for q in pc) > .05])
    wr("q2", safe)
    sel = np.array([min(dist(q, P) for q in pc) > .05 for P in far])
    u2, g2 = run_faults(ctx, "cut", med, pc, ["-Qq2"])
    uf, gf = u[8:k][sel], g[8:k][sel]
    tol = 100 * (abs(f["v1"]) + abs(f["v2"])) * (lam + 2 * G) / G
    ctx.close("cut:u", u2, uf, 1.0, scale=tol * 1e-6, detail=f"{f} {nl}x{nw}")
    ctx.close("cut:grad", g2, gf, 1.0, scale=tol * 4e-5 * 1e-5 / .05, detail=f"{f} {nl}x{nw}")
    # scaling, superposition: rows repeated with other slips
    c1, c2 = r_(rng, -2, 2, 1), r_(rng, -2, 2, 1)
    f1 = dict(f, v1=f["v1"] * c1, v2=f["v2"] * c1); f2 = dict(f, v1=f["v1"] * c2, v2=f["v2"] * c2)
    u3, g3 = run_faults(ctx, "sum", med, [f1, f2], ["-Qq"], [])
    ctx.close("linear:u", u3, (c1 + c2) * u, 1e-8, scale=3 * tol); ctx.close("linear:grad", g3, (c1 + c2) * g, 1e-9, scale=3 * np.maximum(np.abs(g).max((1, 2), keepdims=True), tol * 1e-5))
    # rotate everything about the vertical axis
    r = [90.0, 180.0, r_(rng, 0, 360, 2)][rng.integers(3)]; Q = Y.rot(r); rt = lambda n_, e_: (Q @ np.array([0, n_, e_]))[1:]
    fr = dict(f); fr["n0"], fr["e0"] = map(float, rt(f["n0"], f["e0"])); fr["n1"], fr["e1"] = map(float, rt(f["n1"], f["e1"]))
    rp = np.array([[*rt(p[0], p[1]), p[2]] for p in allp[8:]])
    wr("q3", rp)
    u4, g4 = run_faults(ctx, "rot", med, [fr], ["-Qq3"])
    ctx.close("rotate:u", u4, u[8:] @ Q.T, 1.0, scale=tol * 1e-6, detail=f"{f} by {r}")
    ctx.close("rotate:grad", g4, np.einsum("ij,kl,njl->nik", Q, Q, g[8:]), 1.0, scale=tol * 1e-5 * 4e-5 / .05, detail=f"{f} by {r}")
    ctx.tag(f"laws:{f['kode']}", f"pieces:{nl * nw}")


def singular(ctx):
    """At the source or an edge: refused (faults) or moved aside with a warning (points), never nonsense."""
    rng = ctx.rng
    r = ctx.grt("okada", "-I6/3.4/2.7", "-Su1e12", "-Ds2", "-M30/60/20", "-X-1/1/1", "-Y-1/1/1", "-Dr2", "-N", "-e", "-Op.nc")
    u, g, v, at = read(ctx, "p.nc", True, True)
    ctx.check("singular:finite", np.isfinite(u).all() and np.isfinite(g).all() and "singular" in (r.err + r.out), r.desc())
    f = a_fault(rng, kode=100); o, a, b, Lf, W = frame(f)
    ctx.write("f.inp", "a\nb\n" + line(f) + "\n")
    for i, P in enumerate([o, o + a * Lf, o + a * Lf / 2, o + b * W]):
        ctx.write("q", " ".join(f"{x:.17g}" for x in P) + "\n")
        r = ctx.grt("okada", "-I6/3.4/2.7", "-Cf.inp", "-Qq", "-N", "-e", f"-Oe{i}.nc", expect=None)
        if r.rc == 0:
            u, g, v, at = read(ctx, f"e{i}.nc", True, True)
            ctx.check("singular:edge", np.isfinite(u).all() and np.isfinite(g).all(), r.desc())
        else:
            ctx.check("singular:edge", r.rc == 1 and not os.path.exists(ctx.path(f"e{i}.nc")), r.desc())
    ctx.tag("singular")


def cases(tier, rnd):
    q = 1 if tier == "quick" else 15
    for _ in range(160 * q):
        yield point, {}
    for _ in range(160 * q):
        yield finite, {}
    for _ in range(80 * q):
        yield laws, {}
    for _ in range(8 * q):
        yield singular, {}
