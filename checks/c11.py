"""C11: strain, rotation and stress from the derivatives and the receiver medium (dynamic and static)."""
import os
import numpy as np
from vlib import gen, gio, synref as Y
from checks import c08

PROP = "C11"
RULE = ("Dynamic and static synthetics (random models, sources, azimuths, zero distance, grid and scattered points; samples in part random) followed by "
        "strain/rotation/stress; compared with tensor algebra in the local frame, across ZRT and ZNE output, with the layer moduli, and with the traction-free surface.")
r_ = c08.r_


def tensors(u, dist, az, zne):
    """Gradient g[i][j] = d_i u_j in the output frame from the saved traces."""
    if zne:
        ch = "ZNE"
        return np.array([[u[a.lower() + b] for b in ch] for a in ch]), ch
    return Y.gradient(u, az, dist, False), "ZRT"


def hooke(g, lam, mu):
    e = 0.5 * (g + np.swapaxes(g, 0, 1))
    tr = np.trace(e)
    return lam * tr * np.eye(3).reshape((3, 3) + (1,) * (g.ndim - 2)) + 2 * mu * e


def dyn_stress(g, h, nt):
    """Frequency dependent moduli from the receiver header."""
    nf = nt // 2 + 1
    f = np.arange(nf) / (nt * h.delta); f[0] = 0.01
    fr = (nf - 1) / (nt * h.delta)
    law = lambda q: 1 + q / np.pi * np.log(f / fr) + 0.5j * q
    mu = h.user2 ** 2 * law(h.user5) ** 2 * h.user3 * 1e10
    lam = h.user1 ** 2 * law(h.user4) ** 2 * h.user3 * 1e10 - 2 * mu
    return np.fft.irfft(hooke(np.fft.rfft(g, axis=-1), lam, mu), nt, axis=-1)


def close6(ctx, key, got, want, ch, scale, rtol, sym=True, detail=""):
    for i in range(3):
        for j in range(i if sym else i + 1, 3):
            ctx.close(f"{key}:{ch[i]}{ch[j]}", got[ch[i] + ch[j]], want[i, j], rtol, scale=scale + 1e-300, detail=detail)


def dynamic(ctx, liquid=False, r0=False):
    rng = ctx.rng
    if liquid:
        L, kind = gen.model(rng, kind="liqtop", nmax=4)
        ds = [round(float(L[0][0] + 0.3), 3)]; dr = [round(float(L[0][0] * rng.uniform(0.2, 0.8)), 3)]
    else:
        L, kind = gen.solid(rng, nmax=4); ds = dr = None
    dist = 0.0 if r0 else r_(rng, 0.5, 40, 2)
    nt = int(rng.integers(8, 70))
    L, ds, dr, dirs, nt, dt = c08.library(ctx, [dist], ds=ds, dr=dr, L=L, nt=nt, randomise=rng.random() < 0.6 and not r0)
    gd = "G/" + dirs[0]
    h = gio.Sac(ctx.path(gd, "EXZ.sac"))
    z = gen.interfaces(L)
    j = int(np.searchsorted(z, dr[0], side="right") - 1)
    if min(abs(z[1:] - dr[0]), default=1) > 1e-6:
        m = L[j]
        ctx.check("receiver-medium", np.allclose([h.user1, h.user2, h.user3], m[1:4], rtol=1e-6), f"header {h.user1, h.user2, h.user3} model {m}")
        ctx.check("receiver-Q", np.allclose([h.user4, h.user5], [1 / q if q > 0 else 0 for q in m[4:6]], rtol=1e-5), f"header {h.user4, h.user5} model {m}")
    ctx.tag("kind:" + kind, "Q" if h.user5 or h.user4 else "elastic", "r0" if dist == 0 else "r>0", "odd" if nt % 2 else "even")
    for k in range(3):
        src = c08.source(rng)
        az = r_(rng, 0, 360, 1)
        post = [[], [], ["-I1"], ["-J1"], ["-Dp/%g" % (3 * dt)]][rng.integers(5)]
        res = {}
        for zne in (False, True):
            o = f"s{k}{'n' if zne else 'r'}"
            c08.run(ctx, gd, az, 1e24, False, src[2], zne, True, o, post=post)
            for m in ("strain", "rotation", "stress"):
                ctx.grt(m, o)
            T = gio.read_dir(ctx.path(o))
            u = {n: s.data.astype(float) for n, s in T.items() if len(n) < 3}
            hd = T["Z"]
            d = hd.dist
            ctx.close("dist", d, dist, 1e-6, atol=1e-9)
            g, ch = tensors(u, d, hd.az, zne)
            sg = np.max(np.abs(g))
            if d > 1e-8 and not zne:
                sg = max(sg, *(np.max(np.abs(u[c])) * 1e-5 / d for c in "RT"))
            E = {n[7:]: s.data.astype(float) for n, s in T.items() if n.startswith("strain_")}
            W = {n[9:]: s.data.astype(float) for n, s in T.items() if n.startswith("rotation_")}
            S = {n[7:]: s.data.astype(float) for n, s in T.items() if n.startswith("stress_")}
            want = {ch[i] + ch[j] for i in range(3) for j in range(i, 3)}
            if not ctx.check("files", set(E) == want and set(S) == want and set(W) == {w for w in want if w[0] != w[1]}, f"{set(E)} {set(S)} {set(W)}"):
                continue
            e = 0.5 * (g + np.swapaxes(g, 0, 1)); w = 0.5 * (np.swapaxes(g, 0, 1) - g)
            det = f"{o} {src[2]} dist={d}"
            close6(ctx, f"strain:{'zne' if zne else 'zrt'}", E, e, ch, sg, 2e-6, detail=det)
            close6(ctx, f"rotation:{'zne' if zne else 'zrt'}", W, w, ch, sg, 2e-6, sym=False, detail=det)
            s = dyn_stress(g, h, nt)
            ss = max(np.max(np.abs(s)), sg * h.user1 ** 2 * h.user3 * 1e10)
            close6(ctx, f"stress:{'zne' if zne else 'zrt'}", S, s, ch, ss, 1e-5, detail=det)
            mat = lambda D: np.array([[D.get(a + b, D.get(b + a)) for b in ch] for a in ch])
            res[zne] = (mat(E), mat(S), sg, ss)
        if len(res) == 2 and d > 1e-8:
            Q = Y.rot(hd.az)
            for i, nm in enumerate(("strain", "stress")):
                ctx.close(f"frames:{nm}", res[True][i], np.einsum("ia,jb,abn->ijn", Q, Q, res[False][i]), 2e-5, scale=max(res[0][2 + i], res[1][2 + i]), detail=f"s{k}")
        ctx.tag("src:" + src[0])


def traction(ctx):
    """Receiver on a free surface: the tractions on the horizontal plane vanish."""
    rng = ctx.rng
    static = rng.random() < 0.5
    L, kind = gen.solid(rng, nmax=5, q=False)
    for _ in range(100):
        ds = gen.depth(rng, L)
        if 0.3 < ds < 4:
            break
    else:
        ds = 1.0
    dist = round(ds * float(rng.uniform(0.5, 3)), 2)
    src = c08.source(rng)
    az = r_(rng, 0, 360, 1)
    ctx.write("mod", gen.text(L)); ctx.tag("kind:" + kind, "static" if static else "dynamic", "src:" + src[0])
    zne = rng.random() < 0.5
    if static:
        ctx.grt("static", "greenfn", "-Mmod", f"-D{ds}/0", f"-X{dist!r}/{dist!r}/1", f"-Y{dist/2!r}/{dist/2!r}/1", "-Og.nc", "-e", "-Cn", "-K+k6")
        ctx.grt("static", "syn", "-Gg.nc", "-S1e24", *src[2], "-e", *(["-N"] if zne else []), "-Oo.nc")
        ctx.grt("static", "stress", "o.nc")
        v, _, _ = gio.read_nc(ctx.path("o.nc"))
        S = {k[7:]: v[k].astype(float) for k in v if k.startswith("stress_")}
        tol = 1e-6
    else:
        ctx.grt("greenfn", "-Mmod", f"-D{ds}/0", "-N48/0.2", f"-R{dist!r}", "-OG", "-s", "-e", "-Cn", "-K+k6")
        c08.run(ctx, "G/" + gio.subdirs(ctx.path("G"))[0], az, 1e24, False, src[2], zne, True, "o")
        ctx.grt("stress", "o")
        S = {n[7:]: s.data.astype(float) for n, s in gio.read_dir(ctx.path("o")).items() if n.startswith("stress_")}
        tol = 1e-5
    sc = max(np.max(np.abs(x)) for x in S.values())
    for n, x in S.items():
        if "Z" in n:
            ctx.close("free-surface", x, 0 * x, tol, scale=sc, detail=f"{n} ds={ds} dist={dist}")
    ctx.check("free-surface:nontrivial", sc > 0)


def static(ctx, points=False):
    rng = ctx.rng
    L, kind = gen.solid(rng, nmax=5)
    z = gen.interfaces(L)
    ctx.write("mod", gen.text(L)); ctx.tag("kind:" + kind, "points" if points else "grid")
    ds = round(float(rng.uniform(0.5, 3)), 3)
    src = c08.source(rng); zne = rng.random() < 0.5
    if points:
        dr = sorted({round(float(x), 2) for x in rng.uniform(0, 4, 3)})
        if ds in dr:
            ds += 0.005
        ctx.grt("static", "greenfn", "-Mmod", f"-Ds{ds!r}", "-Dr" + ",".join(map(repr, dr)), "-R0/12/1.5", "-Og.nc", "-e", "-Cn", "-L6", "-K+k2")
        P = []
        for i in range(int(rng.integers(1, 7))):
            P.append([r_(rng, -6, 6, 2), r_(rng, -6, 6, 2), round(float(rng.uniform(dr[0], dr[-1])), 2)])
        if rng.random() < 0.4:
            P.append([0.0, 0.0, dr[0]]); ctx.tag("r0")
        ctx.write("q.txt", "# n e d\n" + "\n".join(" ".join(map(repr, p)) for p in P) + "\n")
        extra = ["-Qq.txt"]
    else:
        dr = r_(rng, 0, 3, 2)
        x0, y0 = (0.0, 0.0) if rng.random() < 0.3 else (r_(rng, -5, 1, 1), r_(rng, -5, 1, 1))
        nx, ny = rng.integers(1, 4, 2)
        ctx.grt("static", "greenfn", "-Mmod", f"-D{ds!r}/{dr!r}", f"-X{x0!r}/{x0+nx*2-1!r}/2", f"-Y{y0!r}/{y0+ny*3-1!r}/3", "-Og.nc", "-e", "-Cn", "-L6", "-K+k2")
        extra = []
        dr = [dr]
    ctx.grt("static", "syn", "-Gg.nc", "-S1e24", *src[2], "-e", *(["-N"] if zne else []), "-Oo.nc", *extra)
    for m in ("strain", "rotation", "stress"):
        ctx.grt("static", m, "o.nc")
    v, dims, at = gio.read_nc(ctx.path("o.nc"))
    shape = v["Z"].shape
    if points:
        N, E = v["north"].astype(float), v["east"].astype(float)
        ctx.close("points:coords", np.c_[N, E, v["depth"]], np.array(P), 1e-9)
    else:
        N, E = np.meshgrid(v["north"].astype(float), v["east"].astype(float), indexing="ij")
    ch = "ZNE" if zne else "ZRT"
    want = {ch[i] + ch[j] for i in range(3) for j in range(i, 3)}
    if not ctx.check("static:vars", all(f"strain_{w}" in v and f"stress_{w}" in v for w in want), sorted(v)):
        return
    for i in np.ndindex(shape):
        d = float(np.hypot(N[i], E[i]))
        u = {n: np.array([float(v[n][i])]) for n in v if n in set("ZRTNE") or (len(n) == 2 and n[0] in "zrtne" and n[1] in "ZRTNE")}
        g, _ = tensors(u, d, None, zne)
        g = g[..., 0]
        if points:
            me = [float(v[f"rcv_{x}"][i]) for x in ("va", "vb", "rho")]
            dep = P[i[0]][2]
        else:
            me = [float(at[f"rcv_{x}"]) for x in ("va", "vb", "rho")]
            dep = dr[0]
        if min(abs(z[1:] - dep), default=1) > 1e-6 and (not points or dep in dr):
            j = int(np.searchsorted(z, dep, side="right") - 1)
            ctx.close("static:medium", me, L[j][1:4], 1e-6, detail=f"depth {dep}")
        mu = me[1] ** 2 * me[2] * 1e10; lam = me[0] ** 2 * me[2] * 1e10 - 2 * mu
        sg = max(np.max(np.abs(g)), *(abs(float(u[c][0])) * 1e-5 / d if d > 1e-8 and not zne else 0 for c in (ch[1], ch[2])))
        e = 0.5 * (g + g.T); w = 0.5 * (g.T - g); s = hooke(g, lam, mu)
        det = f"{src[2]} at {N[i]},{E[i]} {ch}"
        one = lambda p: {n[len(p):]: float(v[n][i]) for n in v if n.startswith(p)}
        close6(ctx, "static-strain", one("strain_"), e, ch, sg, 1e-5, detail=det)
        close6(ctx, "static-rotation", one("rotation_"), w, ch, sg, 1e-5, sym=False, detail=det)
        close6(ctx, "static-stress", one("stress_"), s, ch, sg * me[0] ** 2 * me[2] * 1e10, 1e-5, detail=det)
    ctx.tag("src:" + src[0], ch)


def cases(tier, rnd):
    q = 2 if tier == "quick" else 25
    for i in range(28 * q):
        yield dynamic, dict(liquid=i % 9 == 4, r0=i % 8 == 7)
    for i in range(28 * q):
        yield static, dict(points=i % 2 == 0)
    for i in range(12 * q):
        yield traction, {}
