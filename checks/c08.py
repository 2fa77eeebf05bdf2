"""C08: syn output = sum over sources of radiation coefficient times Green's function."""
import os, shutil
import numpy as np
from vlib import gen, gio, synref as Y
from vlib.core import Halt

PROP = "C08"
RULE = ("Small real Green's-function libraries (random models, depths, distances, single and multi entry), in part with the samples "
        "overwritten by random numbers; every source type at random orientation/azimuth/scale, with and without -e, -N, -Su, root selectors; "
        "each trace is compared with coefficients derived from the moment tensor.")
SRC = ["EX", "VF", "HF", "DD", "DS", "SS"]


def r_(rng, a, b, n=4):
    return round(float(rng.uniform(a, b)), n)


def library(ctx, dists, ds=None, dr=None, nt=None, dt=None, randomise=None, e=True, L=None, out="G", free=False, extra=()):
    rng = ctx.rng
    if L is None:
        L, kind = gen.solid(rng, nmax=4)
        ctx.tag("kind:" + kind)
    ctx.write("mod", gen.text(L))
    if ds is None:
        ds = [gen.depth(rng, L)]
    if dr is None:
        dr = [gen.depth(rng, L)]
    nt = nt or int(rng.integers(8, 40)); dt = dt or [0.05, 0.1, 0.25, 0.7][rng.integers(4)]
    t = lambda v: ",".join(f"{x:.10g}" for x in v)
    # cheap: the physics is judged elsewhere
    ctx.grt("greenfn", "-Mmod", *([f"-D{t(ds)}/{t(dr)}"] if len(ds) == len(dr) == 1 else [f"-Ds{t(ds)}", f"-Dr{t(dr)}"]), f"-N{nt}/{dt}", f"-R{t(dists)}", f"-O{out}", "-s",
            "-L2", "-K+k1", *(["-e"] if e else []), *extra, timeout=120)
    dirs = gio.subdirs(ctx.path(out))
    if randomise:
        for d in dirs:
            for f in os.listdir(ctx.path(out, d)):
                if f.endswith(".sac"):
                    gio.replace_data(ctx.path(out, d, f), rng.normal(size=nt) * 10 ** rng.uniform(-3, 3))
        ctx.tag("random-samples")
    return L, ds, dr, dirs, nt, dt


def source(rng, kind=None):
    """(kind, par, args)"""
    kind = kind or ["EX", "DC", "DC", "TS", "SF", "MT", "MT"][rng.integers(7)]
    if kind == "EX":
        return kind, (), []
    if kind in ("DC", "TS"):
        st = [r_(rng, 0, 360, 2), 0.0, 90.0, 360.0, 180.0][rng.choice(5, p=[.6, .1, .1, .1, .1])]
        dp = [r_(rng, 0, 90, 2), 0.0, 90.0][rng.choice(3, p=[.6, .2, .2])]
        rk = [r_(rng, -180, 180, 2), 0.0, 90.0, -90.0, 180.0][rng.choice(5, p=[.6, .1, .1, .1, .1])]
        if kind == "TS":
            return kind, (st, dp), [f"-M{st!r}/{dp!r}"]
        return kind, (st, dp, rk), [f"-M{st!r}/{dp!r}/{rk!r}"]
    n = 3 if kind == "SF" else 6
    p = [r_(rng, -3, 3, 3) for _ in range(n)]
    if rng.random() < 0.3:
        j = rng.integers(n); p = [p[i] if i == j else 0.0 for i in range(n)]
    return kind, tuple(p), [("-F" if n == 3 else "-T") + "/".join(map(repr, p))]


def gf(d):
    g = gio.read_dir(d)
    return (lambda n: g[n].data.astype(float)), g


def expect(g, sac, kind, par, az, scale, mu, zne, e):
    h = sac["EXZ"] if "EXZ" in sac else next(iter(sac.values()))
    vpvs = h.user6 / h.user7 if h.user7 else 0
    if mu:
        scale = scale * h.user7 ** 2 * h.user8 * 1e10
    u, m = Y.synth(g, kind, par, az, scale, h.dist, vpvs, e)
    if not zne:
        return u, m
    Q = np.abs(Y.rot(0 if h.dist <= 1e-8 else az))
    v = Y.vec(u, az, h.dist, True)
    mv = np.einsum("ia,an->in", Q, np.array([m[c] for c in "ZRT"]))
    o = {c: v[i] for i, c in enumerate("ZNE")}; om = {c: mv[i] for i, c in enumerate("ZNE")}
    if e:
        G = Y.gradient(u, az, h.dist, True)
        mm = np.array([[m[a.lower() + b] for b in "ZRT"] for a in "ZRT"])
        c = (m["rR"] + m["rT"]) if h.dist <= 1e-8 else (m["R"] + m["T"]) * (1e-5 / h.dist)
        mm = mm + c
        mg = np.einsum("ia,jb,abn->ijn", Q, Q, mm)
        for i, a in enumerate("zne"):
            for j, b in enumerate("ZNE"):
                o[a + b] = G[i, j]; om[a + b] = mg[i, j]
    return o, om


def judge(ctx, key, out, want, mags, rtol=6e-7):
    got = gio.read_dir(ctx.path(out))
    names = set(got) - {"sig"}
    ctx.check(key + ":files", names == set(want), f"{out}: files {sorted(names)} want {sorted(want)}")
    for n, w in want.items():
        if n in got:
            ctx.close(f"{key}:{n if len(n) == 1 else n[0] + '*'}", got[n].data.astype(float), w, rtol, scale=mags[n] * 3 + 1e-37,
                      detail=f"{out}/{n}.sac")
    return got


def run(ctx, gdir, az, scale, mu, args, zne, e, out, sel=(), post=()):
    ctx.grt("syn", f"-G{gdir}", f"-A{az!r}", f"-S{'u' if mu else ''}{scale:.10g}", f"-O{out}", *args, *(["-N"] if zne else []),
            *(["-e"] if e else []), *sel, *post, "-s")


def radiation(ctx, kind=None, r0=False):
    """Random sources through one library entry."""
    rng = ctx.rng
    dist = 0.0 if r0 else [r_(rng, 0.5, 30, 3), r_(rng, 30, 120, 2)][int(rng.random() < 0.2)]
    rand = rng.random() < 0.6 and not r0
    L, ds, dr, dirs, nt, dt = library(ctx, [dist], randomise=rand)
    gd = "G/" + dirs[0]
    g, sac = gf(ctx.path(gd))
    ctx.tag("r0" if dist == 0 else "r>0")
    for k in range(6):
        src = source(rng, kind)
        az = [r_(rng, 0, 360, 2), 0.0, 90.0, 180.0, 360.0][rng.choice(5, p=[.6, .1, .1, .1, .1])]
        scale = float(f"{10 ** rng.uniform(-3, 25) * (-1 if rng.random() < .1 else 1):.4g}"); mu = rng.random() < 0.3
        if mu:
            scale = float(f"{10 ** rng.uniform(5, 16):.4g}")
        zne = rng.random() < 0.5; e = rng.random() < 0.7
        o = f"s{k}"
        run(ctx, gd, az, scale, mu, src[2], zne, e, o)
        w, m = expect(g, sac, src[0], src[1], az, scale, mu, zne, e)
        judge(ctx, src[0] + (":zne" if zne else ":zrt"), o, w, m)
        ctx.tag("src:" + src[0], "zne" if zne else "zrt", "e" if e else "no-e", "mu" if mu else "scale", "az-axis" if az % 90 == 0 else "az")


def selectors(ctx, far=False):
    """Root with several entries: each selector combination returns the same traces as the subdirectory."""
    rng = ctx.rng
    L, kind = gen.solid(rng, nmax=4)
    nd = lambda n: sorted(set(gen.depth(rng, L) for _ in range(n)))
    ds, dr = nd(int(rng.integers(1, 4))), nd(int(rng.integers(1, 3)))
    n = int(rng.integers(1, 4))
    R = sorted(set(r_(rng, 150, 900, 3) if far else r_(rng, 0.5, 60, 3) for _ in range(n)))
    if not far and rng.random() < 0.3:
        R.append(round(R[-1] + 0.001, 3))
        ctx.tag("close-distances")
    L, ds, dr, dirs, nt, dt = library(ctx, R, ds, dr, L=L, nt=8, dt=2.0 if far else None, randomise=True, e=False)
    ctx.tag("far" if far else "near", f"entries:{len(ds)}x{len(dr)}x{len(R)}")
    ctx.check("entries", len(dirs) == len(ds) * len(dr) * len(R), f"{dirs} for {ds} {dr} {R}")
    meta = {}
    for d in dirs:
        h = gio.Sac(ctx.path("G", d, "EXZ.sac"))
        meta[d] = (h.evdp, -h.stel / 1e3, h.dist)
    for k in range(6):
        a, b, c = ds[rng.integers(len(ds))], dr[rng.integers(len(dr))], R[rng.integers(len(R))]
        match = [d for d, m in meta.items() if abs(m[0] - a) < 2e-6 * max(1, a) and abs(m[1] - b) < 2e-6 * max(1, b) and abs(m[2] - c) < 1e-7 * max(1, c) + 1e-7]
        if len(match) != 1:
            ctx.check("library-metadata", False, f"no entry for {a},{b},{c} in {meta}")
            continue
        sel = []
        if len(ds) > 1 or rng.random() < 0.4:
            sel.append(f"-Ds{a!r}")
        if len(dr) > 1 or rng.random() < 0.4:
            sel.append(f"-Dr{b!r}")
        if len(R) > 1 or rng.random() < 0.4:
            sel.append(f"-R{c!r}")
        src = source(rng)
        ctx.grt("syn", "-GG", "-A33", "-S1e24", f"-Oa{k}", "-s", *src[2], *sel)
        g, sac = gf(ctx.path("G", match[0]))
        w, m = expect(g, sac, src[0], src[1], 33.0, 1e24, False, False, False)
        judge(ctx, "selected", f"a{k}", w, m)
        ctx.tag("sel:" + ("".join(s[1:3] if s[1] == "D" else "R" for s in sel) or "none"))
    # missing or wrong selector -> clean refusal without output
    bad = []
    if len(ds) > 1:
        bad.append([f"-Dr{dr[0]!r}", f"-R{R[0]!r}"])
    if len(dr) > 1:
        bad.append([f"-Ds{ds[0]!r}", f"-R{R[0]!r}"])
    if len(R) > 1:
        bad.append([f"-Ds{ds[0]!r}", f"-Dr{dr[0]!r}"])
    bad.append([f"-Ds{ds[0]!r}", f"-Dr{dr[0]!r}", f"-R{R[0] + 0.0004!r}"])
    bad.append([f"-Ds{ds[0] + 0.01!r}", f"-Dr{dr[0]!r}", f"-R{R[0]!r}"])
    for i, s in enumerate(bad):
        r = ctx.grt("syn", "-GG", "-A33", "-S1e24", f"-Ob{i}", "-s", *s, expect=None)
        ctx.check("bad-selector", r.rc == 1 and not os.path.exists(ctx.path(f"b{i}")), "should be refused: " + r.desc())


def equivalent(ctx):
    """Same moment tensor by different options; linearity in the source."""
    rng = ctx.rng
    L, ds, dr, dirs, nt, dt = library(ctx, [r_(rng, 1, 30, 2)], randomise=rng.random() < 0.5)
    gd = "G/" + dirs[0]
    h = gio.Sac(ctx.path(gd, "EXZ.sac"))
    az = r_(rng, 0, 360, 2)
    T = lambda M: ["-T" + "/".join(f"{float(x):.12g}" for x in (M[0, 0], M[0, 1], M[0, 2], M[1, 1], M[1, 2], M[2, 2]))]
    zne = rng.random() < .5
    k, p, a = source(rng, "DC")
    run(ctx, gd, az, 1e24, False, a, zne, True, "dc")
    run(ctx, gd, az, 1e24, False, T(Y.moment("DC", p)), zne, True, "dcm")
    cmp(ctx, "dc=mt", "dc", "dcm", mag(ctx, gd, "DC", p, az))
    # auxiliary plane: interchanging normal and slip is the same source
    n, u = Y.normal_slip(*p)
    n2, u2 = (u, n) if u[2] <= 0 else (-u, -n)
    dip = np.degrees(np.arccos(-n2[2])); st = np.degrees(np.arctan2(-n2[0], n2[1])) % 360
    if 0.5 < dip < 90:
        hs = np.array([np.cos(np.radians(st)), np.sin(np.radians(st)), 0]); vd = np.cross(n2, hs)
        rk = np.degrees(np.arctan2(-u2[2] / np.sin(np.radians(dip)), u2 @ hs))
        run(ctx, gd, az, 1e24, False, [f"-M{st:.12g}/{dip:.12g}/{rk:.12g}"], zne, True, "aux")
        cmp(ctx, "auxiliary-plane", "dc", "aux", mag(ctx, gd, "DC", p, az))
        ctx.tag("auxiliary")
    k, p, a = source(rng, "TS")
    run(ctx, gd, az, 1e24, False, a, zne, True, "ts")
    run(ctx, gd, az, 1e24, False, T(Y.moment("TS", p, h.user6 / h.user7)), zne, True, "tsm")
    cmp(ctx, "ts=mt", "ts", "tsm", mag(ctx, gd, "TS", p, az, h.user6 / h.user7))
    run(ctx, gd, az, 2e23, False, [], zne, True, "ex")
    run(ctx, gd, az, 1e23, False, T(np.eye(3) * 2), zne, True, "exm")
    cmp(ctx, "ex=mt", "ex", "exm", mag(ctx, gd, "EX", (), az, s=2e23))
    p1 = [r_(rng, -1, 1) for _ in range(3)]; p2 = [r_(rng, -1, 1) for _ in range(3)]
    for o, q in (("f1", p1), ("f2", p2), ("f3", [a + b for a, b in zip(p1, p2)])):
        run(ctx, gd, az, 1e18, False, ["-F" + "/".join(f"{x:.12g}" for x in q)], zne, True, o)
    A, B, C = (gio.read_dir(ctx.path(o)) for o in ("f1", "f2", "f3"))
    m = mag(ctx, gd, "SF", p1, az, s=1e18); m2 = mag(ctx, gd, "SF", p2, az, s=1e18)
    for n in C:
        ctx.close("linear", C[n].data.astype(float), A[n].data.astype(float) + B[n].data, 3e-6, scale=m[len(n)] + m2[len(n)], detail=n)
    ctx.tag("zne" if zne else "zrt")


def mag(ctx, gd, kind, par, az, vpvs=None, s=1e24):
    g, sac = gf(ctx.path(gd))
    h = next(iter(sac.values()))
    u, m = Y.synth(g, kind, par, az, s, h.dist, vpvs or h.user6 / h.user7, True)
    return {1: sum(m[c] for c in "ZRT"), 2: sum(v for k, v in m.items() if len(k) == 2) + (m["R"] + m["T"]) * 1e-5 / h.dist}


def cmp(ctx, key, a, b, mags):
    A, B = gio.read_dir(ctx.path(a)), gio.read_dir(ctx.path(b))
    ctx.check(key + ":files", set(A) == set(B), f"{set(A)} {set(B)}")
    for n in A:
        ctx.close(key, A[n].data.astype(float), B[n].data.astype(float), 3e-6, scale=mags[len(n)], detail=n)


def origin(ctx):
    """Zero distance equals the limit of small distances in Cartesian components."""
    rng = ctx.rng
    L, kind = gen.solid(rng, nmax=4)
    ds = round(float(rng.uniform(1, 3)), 3)
    z = gen.interfaces(L)
    dr = 0.0
    eps = 1e-4
    ctx.write("mod", gen.text(L)); ctx.tag("kind:" + kind)
    ctx.grt("greenfn", "-Mmod", f"-D{ds}/{dr}", "-N32/0.2", f"-R0,{eps},10", "-OG", "-s", "-e", "-L15", "-K+k5", "-Cn")
    dirs = gio.subdirs(ctx.path("G"))
    for i in range(4):
        k, p, a = source(rng)
        for o, R in (("a", 0.0), ("b", eps)):
            d = next(d for d in dirs if abs(gio.Sac(ctx.path("G", d, "EXZ.sac")).dist - R) < 1e-6)
            run(ctx, "G/" + d, 0.0, 1e24 if k != "SF" else 1e19, False, a, True, True, o + str(i))
        A, B = gio.read_dir(ctx.path(f"a{i}")), gio.read_dir(ctx.path(f"b{i}"))
        sc = {n: max(np.max(np.abs(B[x].data)) for x in B if len(x) == n) for n in (1, 2)}
        for n in A:
            ctx.close("limit", A[n].data.astype(float), B[n].data.astype(float), 1e-2, scale=sc[len(n)] + 1e-30, atol=3e5 * eps * sc[2] if len(n) == 1 else 0, detail=f"{k} {n}")
        ctx.tag("limit:" + k)


def cases(tier, rnd):
    q = 3 if tier == "quick" else 30
    for i in range(40 * q):
        yield radiation, dict(r0=i % 8 == 7, kind=[None, None, "MT", "DC", "TS", "SF", "EX"][i % 7])
    for i in range(16 * q):
        yield selectors, dict(far=i % 3 == 0)
    for _ in range(12 * q):
        yield equivalent, {}
    for _ in range(8 * q):
        yield origin, {}
