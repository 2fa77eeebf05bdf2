"""C10: requested spatial derivatives against differences of the displacements the program itself returns."""
import numpy as np
from vlib import gen, gio, synref as Y, refgrn as G
from checks import c05, c08

PROP = "C10"
RULE = ("Random models, boundary conditions, depths (inside layers, on interfaces, at the surface, equal depths, zero distance) and sources. "
        "The wavenumber grid is pinned to the same wavenumbers for a stencil of receivers, so the displacement is a smooth function of position and "
        "its fourth-order difference must equal the derivative the program returns: for each Green's function (depth, radial), each synthetic "
        "(depth, radial, tangential, north, east), the static field, the analytic half-space field and the modal sum.")
ASSUMPTIONS = ["on an interface the depth derivative is the one of the upper medium (the documented owner of an interface point)"]


def central(f, h):
    return (8 * (f[1] - f[-1]) - (f[2] - f[-2])) / (12 * h)


def backward(f, h):
    """Derivative at offset 0 from offsets 0,-1..-4 (one-sided)."""
    return (25 * f[0] - 48 * f[-1] + 36 * f[-2] - 16 * f[-3] + 3 * f[-4]) / (12 * h)


def forward(f, h):
    return -(25 * f[0] - 48 * f[1] + 36 * f[2] - 16 * f[3] + 3 * f[4]) / (12 * h)


def geometry(rng, kind, where, solid=False, static=False):
    """Model, depths, the depth stencil."""
    for _ in range(2000):
        L, kd, bt, bb, ds, dr = c05.pick(rng, kind, sep=0.0, solid=solid or static)
        z = gen.interfaces(L)
        if static and bt == "r" and 0 in (ds, dr):
            continue
        if where == "surface":
            dr = 0.0
            if bt == "r":
                continue
        elif where == "iface":
            if len(L) < 2:
                L, kd, bt, bb, ds, dr = c05.pick(rng, "incr", sep=0.0)
                z = gen.interfaces(L)
            i = int(rng.integers(1, len(z)))
            if L[i][2] == 0 or L[i - 1][2] == 0 or (bb != "H" and i == len(z) - 1):
                continue
            dr = float(z[i])
        elif where == "equal":
            dr = ds
            if ds == 0 or L[0][2] == 0 and ds < z[1]:
                continue
        elif dr == 0 or min(abs(z - dr)) < 1e-6:
            continue
        if where != "equal" and abs(ds - dr) < 0.1:
            continue
        return L, kd, bt, bb, ds, dr
    raise RuntimeError("no geometry")


def stencil(L, ds, dr, h, where):
    z = gen.interfaces(L)
    room = min([abs(x - dr) for x in z if abs(x - dr) > 1e-9] + [abs(ds - dr)] * (abs(ds - dr) > 0) + [9])
    if where in ("inside",):
        return [-2, -1, 0, 1, 2], 2, room
    if where == "surface":
        return [0, 1, 2, 3, 4], 4, room
    if where == "iface":
        return [-4, -3, -2, -1, 0], 4, room
    return [0], 0, room


def kmaxes(rng, where, ds, dr):
    d = max(abs(ds - dr), 0.1)
    k0 = float(rng.uniform(1.5, 4)) if d > 0.3 else float(rng.uniform(0.2, 0.5))
    return k0 * np.pi / d


def maxes(D):
    m, kind = {}, {}
    for n, x in D.items():
        if len(n) == 3:
            m[n] = float(np.max(np.abs(x)))
            k = n[:2] in ("VF", "HF")
            kind[k] = max(kind.get(k, 0), m[n])
    return lambda n: m[n[-3:]] + 0.03 * kind[n[-3:-1] in ("VF", "HF")]


def judge(ctx, key, got, want, km, umax, rtol=5e-4, noise=4e-5):
    ctx.close(key, got, want, rtol, atol=noise * km * umax + 1e-300, detail=key)


def fd_trace(fr, h, where):
    """d/d(depth up)"""
    if where == "inside":
        return -central(fr, h)
    return -(forward(fr, h) if where == "surface" else backward(fr, h))


def dyn(ctx, where, kind=None):
    rng = ctx.rng
    L, kind, bt, bb, ds, dr = geometry(rng, kind, where)
    c05.model_tags(ctx, L, kind, bt, bb, ds, dr)
    ctx.tag("where:" + where)
    ctx.write("mod", gen.text(L))
    K = kmaxes(rng, where, ds, dr)
    nt, dt = 16, 0.25
    vmin = max(min(v for l in L for v in (l[1], l[2]) if v > 0), 0.1)
    ampk = 1.2
    km = np.hypot(K, ampk * np.pi / dt / vmin)
    h = float(f"{0.08 / km:.1g}")
    offs, need, room = stencil(L, ds, dr, h, where)
    if room < need * h + 1e-6:
        ctx.tag("no-room"); offs = [0]
    r = round(float(rng.uniform(0.8, 6)), 2)
    rs = [round(r + j * h, 9) for j in (-2, -1, 0, 1, 2)]
    zero = rng.random() < 0.5 and where != "equal"
    if zero:
        rs = [0.0, round(h, 9), round(2 * h, 9)] + rs
    Lk = 2 * np.pi / (rs[-1] * (K / (int(K * r / 1.2) + 0.5)))
    runs = {}
    for j in offs:
        d = round(dr + j * h, 9)
        k0 = K * max(abs(ds - d), 0.1) / np.pi
        ctx.grt("greenfn", "-Mmod", f"-D{ds!r}/{d!r}", "-R" + ",".join(map(repr, rs)), f"-N{nt}/{dt}+a", f"-L{Lk!r}", f"-K+k{k0!r}+s{ampk}+f", "-Cn",
                "-B" + bt + bb, "-e", "-s", f"-Oj{j}")
        runs[j] = [gio.read_dir(c05.subdir(ctx, f"j{j}", repr(x) if x else "0.0")) for x in rs]
    # requesting derivatives does not change the displacements
    ctx.grt("greenfn", "-Mmod", f"-D{ds!r}/{dr!r}", "-R" + ",".join(map(repr, rs)), f"-N{nt}/{dt}+a", f"-L{Lk!r}", f"-K+k{K*max(abs(ds-dr),.1)/np.pi!r}+s{ampk}+f", "-Cn", "-B" + bt + bb, "-s", "-On")
    P = gio.read_dir(c05.subdir(ctx, "n", repr(rs[-3])))
    C = runs[0][-3]
    ctx.check("noe-names", set(P) == {n for n in C if len(n) == 3}, str(sorted(P)))
    for n, t in P.items():
        ctx.close("noe-same", t.data, C[n].data, 1e-6, scale=np.max(np.abs(C[n].data)) + 1e-6 * max(np.max(np.abs(x.data)) for x in P.values()), detail=n)
    f8 = lambda D: {n: t.data.astype(float) for n, t in D.items()}
    c = f8(C); um = maxes(c)
    names = [n for n in c if len(n) == 3]
    rr = {j: f8(runs[0][-3 + j]) for j in (-2, -1, 0, 1, 2)}
    for n in names:
        judge(ctx, "dyn-r:" + n, c["r" + n], central({j: rr[j][n] for j in rr}, h), km, um(n))
    if len(offs) > 1:
        zz = {j: f8(runs[j][-3]) for j in offs}
        for n in names:
            if where == "iface" and not np.any(c[n]):
                continue
            judge(ctx, "dyn-z:" + n, c["z" + n], fd_trace({j: zz[j][n] for j in offs}, h, where), km, um(n), noise=1e-5 if where == "inside" else 1e-4)
        ctx.tag("z-stencil")
    if zero:
        a, b, c0 = f8(runs[0][1]), f8(runs[0][2]), f8(runs[0][0])
        u0 = maxes({n: np.maximum(np.abs(a[n]), np.abs(c0[n])) for n in names})
        for n in names:
            m = G.ORD[n[:2]]
            odd = (m + (n[2] != "Z")) % 2
            want = (8 * a[n] - b[n]) / (6 * h) if odd else np.zeros(nt)
            judge(ctx, "dyn-r0:" + n, c0["r" + n], want, km, u0(n), noise=1e-4)
            # values at the axis: odd functions vanish, order-two vertical too
            if odd or (m == 2):
                judge(ctx, "dyn-axis:" + n, c0[n], 0 * c0[n], km, h * u0(n), noise=1)
        if len(offs) > 1:
            zz = {j: f8(runs[j][0]) for j in offs}
            for n in names:
                judge(ctx, "dyn-z0:" + n, c0["z" + n], fd_trace({j: zz[j][n] for j in offs}, h, where), km, u0(n), noise=1e-4)
        ctx.tag("zero-distance")


def syn_fd(ctx, where, kind=None):
    """Synthetics from a dynamic library, differentiated in space."""
    rng = ctx.rng
    L, kind, bt, bb, ds, dr = geometry(rng, kind, where, solid=True)
    if abs(ds) < 1e-9 and bt == "f":
        ds = 0.05 + dr if dr == 0 else dr / 3
        z = gen.interfaces(L)
        if abs(ds - dr) < 0.1 or min(abs(z - ds)) < 1e-6 or (bb != "H" and ds > z[-1] - 1e-3):
            ctx.tag("skipped"); return
    ctx.tag("where:" + where, "kind:" + kind)
    ctx.write("mod", gen.text(L))
    K = kmaxes(rng, where, ds, dr)
    nt, dt = 16, 0.25
    vmin = min(v for l in L for v in (l[1], l[2]))
    km = np.hypot(K, 1.2 * np.pi / dt / vmin)
    h = float(f"{0.08 / km:.1g}")
    offs, need, room = stencil(L, ds, dr, h, where)
    if room < need * h + 1e-6:
        offs = [0]
    axis = rng.random() < 0.35
    if axis and where == "equal":
        axis = False
    src = c08.source(rng)
    az = round(float(rng.uniform(0, 360)), 2)
    r = 0.0 if axis else round(float(rng.uniform(0.8, 6)), 3)
    x0, y0 = r * np.cos(np.radians(az)), r * np.sin(np.radians(az))
    # receivers: centre, radial, north, east stencils; tangential ones keep the distance
    pts = {("c", 0): (x0, y0)}
    for j in (-2, -1, 1, 2):
        pts["n", j] = (x0 + j * h, y0); pts["e", j] = (x0, y0 + j * h)
        if not axis:
            pts["r", j] = ((r + j * h) * np.cos(np.radians(az)), (r + j * h) * np.sin(np.radians(az)))
            pts["t", j] = (r * np.cos(np.radians(az) + j * h / r), r * np.sin(np.radians(az) + j * h / r))
    dist = {k: (round(float(np.hypot(*p)), 9) if k != ("c", 0) and k[0] != "t" else r) for k, p in pts.items()}
    azm = {k: (float(np.degrees(np.arctan2(p[1], p[0]))) % 360 if dist[k] > 0 else az) for k, p in pts.items()}
    azm["c", 0] = az
    rs = sorted(set(dist.values()))
    if axis:
        rs = rs + [2.0]
    Lk = 2 * np.pi / (rs[-1] * (K / (int(K * rs[-1] / 1.2) + 0.5)))
    scale = 1e20 if src[0] != "SF" else 1e15
    e = f8syn = None

    def synth(lib, k, zne, out, e=True):
        ctx.grt("syn", f"-G{lib}", f"-A{azm[k]!r}", f"-S{scale}", f"-O{out}", *src[2], *(["-N"] if zne else []), *(["-e"] if e else []), "-s")
        return {n: t.data.astype(float) for n, t in gio.read_dir(ctx.path(out)).items()}
    libs = {}
    for j in offs:
        d = round(dr + j * h, 9)
        k0 = K * max(abs(ds - d), 0.1) / np.pi
        ctx.grt("greenfn", "-Mmod", f"-D{ds!r}/{d!r}", "-R" + ",".join(map(repr, rs)), f"-N{nt}/{dt}+a", f"-L{Lk!r}", f"-K+k{k0!r}+s1.2+f", "-Cn", "-B" + bt + bb, "-e", "-s", f"-Oj{j}")
        for x in rs:
            libs[j, x] = c05.subdir(ctx, f"j{j}", repr(x))
    ctx.tag("src:" + src[0], "axis" if axis else "off-axis")
    cz = synth(libs[0, r], ("c", 0), True, "cz"); cr = synth(libs[0, r], ("c", 0), False, "cr")
    noe = synth(libs[0, r], ("c", 0), True, "cne", e=False)
    for n in noe:
        ctx.check("syn-noe-same", np.array_equal(noe[n], cz[n]), n)
    umax = max(np.max(np.abs(cz[c])) for c in "ZNE")
    nz = 1e-4
    S = {k: synth(libs[0, dist[k]], k, True, "s%s%d" % k, e=False) for k in pts if k[0] in "ne"}
    for k in S:
        umax = max(umax, max(np.max(np.abs(S[k][c])) for c in "ZNE"))
    for a in "ne":
        for c in "ZNE":
            judge(ctx, f"syn-{a}{c}", cz[a + c], 1e-5 * central({j: S[a, j][c] for j in (-2, -1, 1, 2)}, h), km, 1e-5 * umax, noise=nz)
    if not axis:
        S = {k: synth(libs[0, dist[k]], k, False, "s%s%d" % k, e=False) for k in pts if k[0] in "rt"}
        for a in "rt":
            for c in "ZRT":
                judge(ctx, f"syn-{a}{c}", cr[a + c], 1e-5 * central({j: S[a, j][c] for j in (-2, -1, 1, 2)}, h), km, 1e-5 * umax, noise=nz)
    if len(offs) > 1:
        for zne in (True, False):
            Z = {j: synth(libs[j, r], ("c", 0), zne, f"z{j}{zne}", e=False) for j in offs}
            for c in "ZNE" if zne else "ZRT":
                judge(ctx, f"syn-z{c}", (cz if zne else cr)["z" + c], 1e-5 * fd_trace({j: Z[j][c] for j in offs}, h, where), km, 1e-5 * umax, noise=nz)
        ctx.tag("z-stencil")


def nc(ctx, f):
    return {n: np.asarray(v, float) for n, v in gio.read_nc(ctx.path(f))[0].items()}


def stat(ctx, where, kind=None):
    """Static Green's functions and static synthetics on a small grid."""
    rng = ctx.rng
    L, kind, bt, bb, ds, dr = geometry(rng, kind, where, static=True)
    ctx.tag("where:" + where, "kind:" + kind, f"bc:{bt}{bb}")
    ctx.write("mod", gen.text(L))
    K = kmaxes(rng, where, ds, dr)
    h = float(f"{0.03 / K:.1g}")
    offs, need, room = stencil(L, ds, dr, h, where)
    if room < need * h + 1e-6:
        offs = [0]
    axis = rng.random() < 0.35 and where != "equal"
    x0, y0 = (0.0, 0.0) if axis else [round(float(x), 2) for x in rng.uniform(0.5, 4, 2) * rng.choice([-1, 1], 2)]
    if rng.random() < 0.2 and not axis:
        y0 = 0.0
    # Green's functions along a line
    r = round(float(rng.uniform(0.8, 6)), 2)
    rs = [round(r + j * h, 9) for j in (-2, -1, 0, 1, 2)]
    if axis:
        rs = [0.0, round(h, 9), round(2 * h, 9)] + rs
    src = c08.source(rng)
    R = {}
    X = {}
    rmax = np.hypot(abs(x0) + 2 * h, abs(y0) + 2 * h)
    for j in offs:
        d = round(dr + j * h, 9)
        k0 = K * max(abs(ds - d), 0.1) / np.pi
        com = ["static", "greenfn", "-Mmod", f"-D{ds!r}/{d!r}", "-Cn", "-B" + bt + bb, "-e"]
        Lk = 2 * np.pi / (rs[-1] * (K / (int(K * r / 1.2) + 0.5)))
        ctx.grt(*com, "-R" + ",".join(map(repr, rs)), f"-L{Lk!r}", f"-K+k{k0!r}+f", f"-Or{j}.nc")
        R[j] = nc(ctx, f"r{j}.nc")
        Lg = 2 * np.pi / (rmax * (K / (int(K * 3) + 0.5)))
        ctx.grt(*com, f"-X{x0-2*h!r}/{x0+2.4*h!r}/{h!r}", f"-Y{y0-2*h!r}/{y0+2.4*h!r}/{h!r}", f"-L{Lg!r}", f"-K+k{k0!r}+f", f"-Og{j}.nc")
        for zne in (True, False):
            o = f"s{j}{int(zne)}.nc"
            ctx.grt("static", "syn", f"-Gg{j}.nc", "-S1e20", *src[2], "-e", *(["-N"] if zne else []), "-O" + o)
            X[j, zne] = nc(ctx, o)
    names = [s + c for s in G.ORD for c in G.CHN[s]]
    pick = lambda D, n, i: D[n].ravel()[i]
    i0 = len(rs) - 3
    um = maxes({n: R[0][n] for n in names})
    nzr, rt = 1e-5, 1e-4
    for n in names:
        f = {j: pick(R[0], n, i0 + j) for j in (-2, -1, 0, 1, 2)}
        judge(ctx, "stat-r:" + n, pick(R[0], "r" + n, i0), central(f, h), K, um(n), rt, nzr)
        if len(offs) > 1:
            judge(ctx, "stat-z:" + n, pick(R[0], "z" + n, i0), fd_trace({j: pick(R[j], n, i0) for j in offs}, h, where), K, um(n), rt, nzr * 3)
        if axis:
            m = G.ORD[n[:2]]
            odd = (m + (n[2] != "Z")) % 2
            a, b = pick(R[0], n, 1), pick(R[0], n, 2)
            judge(ctx, "stat-r0:" + n, pick(R[0], "r" + n, 0), (8 * a - b) / (6 * h) if odd else 0.0, K, um(n), rt, nzr * 3)
            if len(offs) > 1:
                judge(ctx, "stat-z0:" + n, pick(R[0], "z" + n, 0), fd_trace({j: pick(R[j], n, 0) for j in offs}, h, where), K, um(n), rt, nzr * 3)
    ctx.tag("src:" + src[0], "axis" if axis else "off-axis", "z-stencil" if len(offs) > 1 else "no-z")
    if ds == 0 and bt == "f":   # moments acting across a free surface radiate nothing: only rounding is left
        ctx.tag("surface-source"); return
    V = X[0, True]
    if not ctx.check("grid", V["Z"].shape == (5, 5), str(V["Z"].shape)):
        return
    u = max(np.max(np.abs(V[c])) for c in "ZNE")
    for c in "ZNE":
        for a, f in (("n", lambda j: V[c][2 + j, 2]), ("e", lambda j: V[c][2, 2 + j])):
            judge(ctx, f"ssyn-{a}{c}", V[a + c][2, 2], 1e-5 * central({j: f(j) for j in (-2, -1, 1, 2)}, h), K, 1e-5 * u, rt, nzr)
        if len(offs) > 1:
            judge(ctx, f"ssyn-z{c}", V["z" + c][2, 2], 1e-5 * fd_trace({j: X[j, True][c][2, 2] for j in offs}, h, where), K, 1e-5 * u, rt, nzr * 3)
    if not axis:
        # the tensor in the local frame, rebuilt from the north/east differences
        W = X[0, False]
        az = np.degrees(np.arctan2(y0, x0))
        g = Y.gradient({k: W[k][2, 2] for k in W if len(k) <= 2 and k[-1] in "ZRT" and (len(k) == 1 or k[0] in "zrt")}, az, float(np.hypot(x0, y0)), True)
        for i, a in enumerate("zne"):
            for k, c in enumerate("ZNE"):
                judge(ctx, f"ssyn-zrt-{a}{c}", g[i, k], V[a + c][2, 2], K, 1e-5 * u, 1e-5, 1e-6)


def cases(tier, rnd):
    q = tier == "quick"
    W = ["inside", "iface", "surface", "inside", "equal"]
    kinds = ["incr", "lvz", "half", "two", "thin", "contrast", "liqtop", "liqmid", "rand", "equal"]
    sol = [k for k in kinds if not k.startswith("liq")]

    def kk(i, w, ks):
        k = ks[(i // 5) % len(ks)] if w != "surface" else ks[(i // 5) % len(ks)].replace("liqtop", "incr")
        return "incr" if w == "iface" and k == "half" else k
    for i in range(50 if q else 600):
        yield dyn, dict(where=W[i % 5], kind=kk(i, W[i % 5], kinds))
    for i in range(40 if q else 500):
        yield syn_fd, dict(where=W[i % 5], kind=kk(i, W[i % 5], sol))
    for i in range(60 if q else 800):
        yield stat, dict(where=W[i % 5], kind=kk(i, W[i % 5], sol))
