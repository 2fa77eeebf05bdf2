"""C06: equivalent descriptions of one problem, reciprocity and scaling (metamorphic monitors)."""
import numpy as np
from vlib import gen, gio, synref, refgrn as G
from checks import c05

PROP = "C06"
RULE = ("Random models and geometries run through the real commands in pairs: the same medium described differently (top-depth column, split layers, "
        "comments and blank space, Q omitted or practically infinite), source and receiver exchanged (force and moment reciprocity from arbitrary "
        "directions), and all lengths, velocities or densities scaled. The wavenumber grid is pinned, so results must agree to rounding.")
ASSUMPTIONS = ["the wavenumber grid is pinned with -L/-K (automatic choices depend on the layering and are covered by C05 and C07 with wider tolerances)"]


def rows(layers, style, withq, rng=None, noisy=False):
    out = []
    z = 0.0
    n = len(layers)
    for i, l in enumerate(layers):
        first = z if style == "depth" else (l[0] if i < n - 1 else float(rng.choice([0.0, 3.0])) if rng is not None and n > 1 else 0.0)
        z += l[0]
        cols = [repr(float(c)) for c in [first] + list(l[1:4]) + (list(l[4:6]) if withq else [])]
        if noisy:
            s = "".join(str(rng.choice(["", " ", "\t", "   "])) if j == 0 else str(rng.choice([" ", "\t", "  ", " \t "])) for j in range(1))
            row = s + cols[0]
            for c in cols[1:]:
                row += str(rng.choice([" ", "\t", "    ", " \t "])) + c
            row += str(rng.choice(["", " ", "\t"]))
            while rng.random() < 0.4:
                out.append(str(rng.choice(["# comment", "#1 2 3 4", "", "   ", "\t", "#"])))
            out.append(row)
        else:
            out.append(" ".join(cols))
    return "\n".join(out) + "\n"


def split(rng, layers, at=(), avoid=()):
    """Cut layers (also the half space) at depths of 1/64 km multiples, and at the given depths."""
    z = gen.interfaces(layers)
    zmax = z[-1] + 4
    cuts = set(np.round(rng.uniform(0.05, zmax, rng.integers(1, 5)) * 64) / 64) | set(at)
    cuts = sorted(c for c in cuts if c > 0 and min(abs(z - c)) > 1e-6 and c not in avoid)
    out = []
    for i, l in enumerate(layers):
        top = z[i]
        bot = z[i + 1] if i + 1 < len(layers) else np.inf
        pts = [top] + [c for c in cuts if top < c < bot] + [bot]
        for a, b in zip(pts[:-1], pts[1:]):
            out.append([float(b - a) if np.isfinite(b) else 0.0] + list(l[1:]))
    return out, len(out) - len(layers)


def variants(ctx, L, ds, dr, bb="H"):
    """[(tag, model text)] all describing the same medium."""
    rng = ctx.rng
    q = any(l[4] > 0 for l in L)
    out = [("depth", rows(L, "depth", q)), ("noisy", rows(L, str(rng.choice(["thick", "depth"])), q, rng, noisy=True))]
    z = gen.interfaces(L)   # a point on any interface of a liquid layer is refused by design: no artificial interface there
    at = [d for d in (ds, dr) if rng.random() < 0.5 and d is not None and L[int(np.searchsorted(z, d, side="left")) - 1 if d > 0 else 0][2] > 0]
    S, n = split(rng, L, at, set() if at else {ds, dr})
    if bb != "H":  # the lower boundary condition sits at the last interface: only the layers above may be cut
        keep = len(gen.interfaces(L))
        S2 = []
        zl = gen.interfaces(L)[-1]
        z = 0.0
        for l in S:
            if z >= zl - 1e-9:
                S2.append([0.0] + list(L[-1][1:])); break
            S2.append(l); z += l[0]
        S = S2; n = len(S) - len(L)
    if n > 0:
        out.append(("split" + ("@src/rcv" if at else ""), rows(S, str(rng.choice(["thick", "depth"])), q)))
    if not q:
        M = [l[:4] + [1e13, 1e13] for l in L]
        out.append(("infQ", rows(M, "thick", True)))
    return out


def group_close(ctx, key, A, B, rtol, skip=(), facs=None, deriv_fac=None):
    """Compare trace dictionaries {name: array}; tolerance relative to the larger of the group and 1e-3 of its kind."""
    if not ctx.check(key + ":names", set(A) == set(B), f"{sorted(set(A) ^ set(B))[:10]}"):
        return
    grp, kind = {}, {}
    for n, x in B.items():
        m = float(np.max(np.abs(x))) if np.size(x) else 0.0
        grp[n[:-1]] = max(grp.get(n[:-1], 0), m)
        k = (n[:-3], "F" if n[-3:-1] in ("VF", "HF") else "M")
        kind[k] = max(kind.get(k, 0), m)
    for n, x in B.items():
        if n[-3:-1] in skip:
            continue
        k = (n[:-3], "F" if n[-3:-1] in ("VF", "HF") else "M")
        ctx.close(f"{key}:{n[:-3]}{n[-3:-1]}{n[-1]}", A[n], x, rtol, scale=grp[n[:-1]] + 1e-2 * kind[k], atol=1e-300, detail=n)


def floats(d):
    return {n: t.data.astype(float) for n, t in gio.read_dir(d).items()}


def pinned(rng, ds, dr, k=None):
    return [f"-L{int(rng.integers(6, 12))}", f"-K+k{round(float(rng.uniform(3, 5)), 2)}+s{round(float(rng.uniform(1.1, 1.5)), 2)}+f", "-Cn"]


def blind(bt, ds, dr):
    if bt == "r" and 0 in (ds, dr):
        return tuple(G.ORD)
    return ("DS",) if bt == "f" and ds == 0 else ()


def dyn_variants(ctx, kind=None):
    rng = ctx.rng
    L, kind, bt, bb, ds, dr = c05.pick(rng, kind)
    c05.model_tags(ctx, L, kind, bt, bb, ds, dr)
    q = any(l[4] > 0 for l in L)
    ctx.write("mod", rows(L, "thick", q))
    r = round(float(rng.uniform(1, 12)), 2)
    com = ["greenfn", f"-D{ds}/{dr}", f"-R{r}", "-N32/0.25+a", "-B" + bt + bb, "-e", "-s", *pinned(rng, ds, dr)]
    ctx.grt(*com, "-Mmod", "-Obase")
    B = gio.read_dir(ctx.path("base", gio.subdirs(ctx.path("base"))[0]))
    h = next(iter(B.values()))
    for tag, txt in variants(ctx, L, ds, dr, bb):
        ctx.tag("variant:" + tag)
        f = "v_" + tag.split("@")[0]
        ctx.write(f, txt)
        ctx.grt(*com, "-M" + f, "-O" + f + "o")
        V = gio.read_dir(ctx.path(f + "o", gio.subdirs(ctx.path(f + "o"))[0]))
        group_close(ctx, f"dyn-{tag.split('@')[0]}", {n: t.data.astype(float) for n, t in V.items()}, {n: t.data.astype(float) for n, t in B.items()}, 5e-6, blind(bt, ds, dr))
        hv = next(iter(V.values()))
        for k in ("t0", "t1", "user1", "user2", "user3", "user6", "user7", "user8", "dist", "evdp", "stel"):
            x, y = getattr(hv, k), getattr(h, k)
            ctx.check(f"dyn-header:{k}", abs(x - y) <= 2e-6 * abs(y) + 1e-9, f"{tag}: {k} {x} vs {y}")


def stat_variants(ctx, kind=None):
    rng = ctx.rng
    from checks import c07
    L, kind, bt, bb, ds, dr = c07.setup(rng, ctx, kind, sep=0.1)
    q = any(l[4] > 0 for l in L)
    ctx.write("mod", rows(L, "thick", q))
    com = ["static", "greenfn", f"-D{ds}/{dr}", "-R0.7,3,9.5", "-B" + bt + bb, "-e", *pinned_static(rng)]
    ctx.grt(*com, "-Mmod", "-Obase.nc")
    B = gio.read_nc(ctx.path("base.nc"))[0]
    for tag, txt in variants(ctx, L, ds, dr, bb):
        ctx.tag("variant:" + tag)
        f = "v_" + tag.split("@")[0]
        ctx.write(f, txt)
        ctx.grt(*com, "-M" + f, f"-O{f}.nc")
        V = gio.read_nc(ctx.path(f + ".nc"))[0]
        group_close(ctx, f"static-{tag.split('@')[0]}", ncn(V), ncn(B), 1e-6, blind(bt, ds, dr))


def ncn(v):
    return {n: np.asarray(x, float).ravel() for n, x in v.items() if n[-3:-1] in G.ORD and len(n) in (3, 4)}


def pinned_static(rng):
    return [f"-L{int(rng.integers(6, 16))}", f"-K+k{round(float(rng.uniform(1.5, 4)), 2)}+f", "-Cn"]


def travel(ctx, model, ds, dr, rs):
    r = ctx.grt("travt", "-M" + model, f"-D{ds}/{dr}", "-R" + ",".join(map(str, rs)))
    out = []
    for line in r.out.splitlines():
        w = line.split()
        if len(w) == 3:
            try:
                out.append([float(x) for x in w])
            except ValueError:
                pass
    return np.array(out)


def trav_variants(ctx, kind=None):
    rng = ctx.rng
    L, kind = gen.model(rng, kind=kind)
    from checks import c14
    ds, dr = c14.point(rng, L), c14.point(rng, L)
    q = any(l[4] > 0 for l in L)
    ctx.tag("kind:" + kind)
    ctx.write("mod", rows(L, "thick", q))
    rs = sorted(set(round(float(x), 2) for x in 10 ** rng.uniform(-0.5, 2.3, 12)))
    B = travel(ctx, "mod", ds, dr, rs)
    ctx.check("travt-rows", B.shape == (len(rs), 3), str(B.shape))
    for tag, txt in variants(ctx, L, ds, dr):
        ctx.tag("variant:" + tag)
        ctx.write("v", txt)
        ctx.close(f"travt-{tag.split('@')[0]}", travel(ctx, "v", ds, dr, rs), B, 1e-6, atol=1.5e-3, detail=f"{tag} {ds} {dr}")
    ctx.close("travt-reciprocal", travel(ctx, "mod", dr, ds, rs), B, 1e-6, atol=1.5e-3, detail=f"{ds} {dr}")
    for a in (2.0, 0.25):
        S = [[l[0] * a] + list(l[1:]) for l in L]
        ctx.write("v", rows(S, "thick", q))
        X = travel(ctx, "v", round(ds * a, 9), round(dr * a, 9), [round(r * a, 9) for r in rs])
        X[:, 0] /= a
        Y = B.copy(); ok = Y > 0
        Y[:, 1:] = np.where(ok[:, 1:], Y[:, 1:] * a, Y[:, 1:])
        ctx.close("travt-length", X, Y, 1e-5, atol=1.5e-3 * max(a, 1), detail=f"{a}")
    S = [[l[0], l[1] * 2, l[2] * 2] + list(l[3:]) for l in L]
    ctx.write("v", rows(S, "thick", q))
    Y = B.copy(); Y[:, 1:] = np.where(Y[:, 1:] > 0, Y[:, 1:] / 2, Y[:, 1:])
    ctx.close("travt-velocity", travel(ctx, "v", ds, dr, rs), Y, 1e-5, atol=1.5e-3)


def disp(ctx, model, wtype, fs, out, n=4):
    f1, f2, df = fs
    ctx.grt("eigenv", "-M" + model, f"-C{out}.nc", "-S" + wtype, f"-F{f1!r}/{f2!r}/{df!r}", f"-N{n}", "-s")
    return gio.read_nc(ctx.path(out + ".nc"))[0]


def disp_variants(ctx, kind="incr"):
    rng = ctx.rng
    while True:
        L, kd = gen.model(rng, kind=kind)
        if kind != "lvz" or L[-1][2] > max(l[2] for l in L[:-1]):
            break
    q = any(l[4] > 0 for l in L)
    w = "RL"[rng.integers(2)]
    ctx.tag("kind:" + kd, "wave:" + w)
    ctx.write("mod", rows(L, "thick", q))
    fs = (0.25, 2.0, 0.25)
    B = disp(ctx, "mod", w, fs, "base")
    pv = [k for k in B if B[k].ndim == 2]
    C = B[pv[0]]
    ok = np.isfinite(C) & (C > 0)
    ctx.check("disp-some", ok.any(), "no mode at all")

    def same(key, V, fac=1.0, det=""):
        D = V[pv[0]]
        if not ctx.check(key + ":modes", D.shape[1] >= 1 and np.array_equal(*pad(np.isfinite(C) & (C > 0), np.isfinite(D) & (D > 0))), f"{det}: modes differ {np.sum(ok)} vs {np.sum(np.isfinite(D) & (D > 0))}"):
            return
        m = min(C.shape[1], D.shape[1])
        o = ok[:, :m]
        ctx.close(key, D[:, :m][o], C[:, :m][o] * fac, 1e-6, detail=det)
    for tag, txt in variants(ctx, L, None, None):
        ctx.tag("variant:" + tag)
        f = "v_" + tag.split("@")[0]
        ctx.write(f, txt)
        same(f"disp-{tag}", disp(ctx, f, w, fs, f), det=tag)
    a = 2.0
    S = [[l[0] * a] + list(l[1:]) for l in L]
    ctx.write("vl", rows(S, "thick", q))
    same("disp-length", disp(ctx, "vl", w, tuple(f / a for f in fs), "vl"), det="length")
    S = [list(l[:3]) + [l[3] * 1.5] + list(l[4:]) for l in L]
    ctx.write("vr", rows(S, "thick", q))
    same("disp-density", disp(ctx, "vr", w, fs, "vr"), det="density")


def pad(a, b):
    m = max(a.shape[1], b.shape[1])
    return (np.pad(a, ((0, 0), (0, m - a.shape[1]))), np.pad(b, ((0, 0), (0, m - b.shape[1]))))


def force_reciprocity(g, h):
    """g: s->r traces, h: r->s traces."""
    return [("VFZ", "VFZ", 1), ("HFR", "HFR", 1), ("HFT", "HFT", 1), ("VFR", "HFZ", 1), ("HFZ", "VFR", 1)]


FLIP = np.diag([-1.0, 1.0, 1.0])


def moment_reciprocity(ctx, key, g, h, r, rtol):
    """Displacement at the receiver along f from moment M at the source equals M : grad u(f) the other way round."""
    rng = ctx.rng
    for _ in range(3):
        az = float(rng.uniform(0, 360))
        f = rng.normal(size=3)           # north, east, down
        M6 = rng.normal(size=6)
        M = synref.moment("MT", M6)      # north, east, down
        u, m1 = synref.synth(lambda n: g[n], "MT", M6, az, 1.0, r, None, deriv=False, keep=True)
        v = synref.vec(u, az, r, True)   # Z up, N, E
        lhs = -f[2] * v[0] + f[0] * v[1] + f[1] * v[2]
        back = (az + 180) % 360
        w, m2 = synref.synth(lambda n: h[n], "SF", f, back, 1.0, r, None, keep=True)
        gr = synref.gradient(w, back, r, True, keep=True)   # d u_j / d x_i, (Z up, N, E)
        order = [1, 2, 0]
        sg = np.array([1, 1, -1.0])
        gn = gr[np.ix_(order, order)] * sg.reshape(3, 1, *([1] * (gr.ndim - 2))) * sg.reshape(1, 3, *([1] * (gr.ndim - 2)))
        rhs = np.einsum("ij,ij...->...", M, gn)
        # units: 1e-20 cm per dyne cm against 1e-15 cm per dyne with the gradient in 1/km
        sc = sum(np.max(np.abs(x)) for x in m1.values())
        ctx.close(key, rhs, lhs, rtol, scale=sc, detail=f"az={az:.1f} f={f} M={M6}")


def dyn_reciprocal(ctx, kind=None):
    rng = ctx.rng
    L, kind, bt, bb, ds, dr = c05.pick(rng, kind, solid=True)
    if bt == "r" and 0 in (ds, dr):
        ctx.tag("rigid-surface"); return
    q = any(l[4] > 0 for l in L)
    ctx.write("mod", rows(L, "thick", q))
    c05.model_tags(ctx, L, kind, bt, bb, ds, dr)
    r = round(float(rng.uniform(1, 12)), 2)
    com = ["greenfn", "-Mmod", f"-R{r}", "-N32/0.25+a", "-B" + bt + bb, "-e", "-s", *pinned(rng, ds, dr)]
    ctx.grt(*com, f"-D{ds}/{dr}", "-Oab"); ctx.grt(*com, f"-D{dr}/{ds}", "-Oba")
    g, h = [floats(ctx.path(d, gio.subdirs(ctx.path(d))[0])) for d in ("ab", "ba")]
    reciprocal(ctx, "dyn", g, h, r, 1e-5)


def reciprocal(ctx, key, g, h, r, rtol):
    top = max(np.max(np.abs(h[n])) for n in ("VFZ", "VFR", "HFZ", "HFR", "HFT"))
    for a, b, s in force_reciprocity(g, h):
        ctx.close(f"{key}-force:{a}", g[a], s * h[b], rtol, scale=max(np.max(np.abs(h[b])), 1e-2 * top), detail=a)
    moment_reciprocity(ctx, key + "-moment", g, h, r, rtol)
    ctx.tag("reciprocity")


def stat_reciprocal(ctx, kind=None):
    rng = ctx.rng
    from checks import c07
    L, kind, bt, bb, ds, dr = c07.setup(rng, ctx, kind, sep=0.1)
    q = any(l[4] > 0 for l in L)
    ctx.write("mod", rows(L, "thick", q))
    r = round(float(rng.uniform(0.5, 12)), 2)
    com = ["static", "greenfn", "-Mmod", f"-R{r}", "-B" + bt + bb, "-e", *pinned_static(rng)]
    ctx.grt(*com, f"-D{ds}/{dr}", "-Oab.nc"); ctx.grt(*com, f"-D{dr}/{ds}", "-Oba.nc")
    g, h = [ncn(gio.read_nc(ctx.path(d + ".nc"))[0]) for d in ("ab", "ba")]
    reciprocal(ctx, "static", g, h, r, 3e-6)


def scaled(traces, force, moment, dfac):
    return {n: x * (force if n[-3:-1] in ("VF", "HF") else moment) * (dfac if len(n) == 4 else 1.0) for n, x in traces.items()}


def dyn_scale(ctx, mode, kind=None):
    rng = ctx.rng
    L, kind, bt, bb, ds, dr = c05.pick(rng, kind, sep=0.4)
    q = any(l[4] > 0 for l in L)
    ctx.write("mod", rows(L, "thick", q))
    c05.model_tags(ctx, L, kind, bt, bb, ds, dr)
    ctx.tag("scale:" + mode)
    r = round(float(rng.uniform(1, 12)), 2)
    a = float(rng.choice([2.0, 4.0, 0.5])) if mode != "density" else float(rng.choice([1.5, 0.7]))
    la = 1.0 if mode == "density" else a
    com = ["greenfn", "-B" + bt + bb, "-e", "-s", *pinned(rng, ds, dr)]
    dt = 0.25
    ctx.grt(*com, "-Mmod", f"-D{ds}/{dr}", f"-R{r}", f"-N32/{dt}+a", "-Ob")
    if mode == "speed":      # lengths and velocities
        S = [[l[0] * a, l[1] * a, l[2] * a] + list(l[3:]) for l in L]; f, m = a ** -3, a ** -4; d2 = dt
    elif mode == "length":   # lengths and times
        S = [[l[0] * a] + list(l[1:]) for l in L]; f, m = a ** -2, a ** -3; d2 = dt * a
    else:
        S = [list(l[:3]) + [l[3] * a] + list(l[4:]) for l in L]; f = m = 1 / a; d2 = dt
    ctx.write("mods", rows(S, "thick", q))
    ctx.grt(*com, "-Mmods", f"-D{ds*la!r}/{dr*la!r}", f"-R{r*la!r}", f"-N32/{d2}+a", "-Os")
    B, S = [floats(ctx.path(d, gio.subdirs(ctx.path(d))[0])) for d in ("b", "s")]
    group_close(ctx, "dyn-scale-" + mode, S, scaled(B, f, m, 1 / la), 5e-6, blind(bt, ds, dr))


def stat_scale(ctx, kind=None):
    rng = ctx.rng
    from checks import c07
    L, kind, bt, bb, ds, dr = c07.setup(rng, ctx, kind, sep=0.4)
    q = any(l[4] > 0 for l in L)
    ctx.write("mod", rows(L, "thick", q))
    a = float(rng.choice([2.0, 4.0, 0.5])); b = float(rng.choice([1.5, 0.7])); v = float(rng.choice([1.25, 0.8]))
    com = ["static", "greenfn", "-B" + bt + bb, "-e", *pinned_static(rng)]
    rs = [0.7, 3.0, 9.5]
    ctx.grt(*com, "-Mmod", f"-D{ds}/{dr}", "-R" + ",".join(map(repr, rs)), "-Ob.nc")
    S = [[l[0] * a, l[1] * v, l[2] * v, l[3] * b] + list(l[4:]) for l in L]
    ctx.write("mods", rows(S, "thick", q))
    ctx.grt(*com, "-Mmods", f"-D{ds*a!r}/{dr*a!r}", "-R" + ",".join(repr(x * a) for x in rs), "-Os.nc")
    B, S = [ncn(gio.read_nc(ctx.path(d + ".nc"))[0]) for d in ("b", "s")]
    mu = v * v * b
    group_close(ctx, "static-scale", S, scaled(B, 1 / (a * mu), 1 / (a * a * mu), 1 / a), 1e-6, blind(bt, ds, dr))
    ctx.tag("scale:static")


def cases(tier, rnd):
    q = tier == "quick"
    kinds = ["incr", "lvz", "half", "two", "thin", "contrast", "liqtop", "liqmid", "rand", "equal"]
    sol = [k for k in kinds if not k.startswith("liq")]
    for i in range(40 if q else 300):
        yield dyn_variants, dict(kind=kinds[i % 10])
    for i in range(48 if q else 300):
        yield stat_variants, dict(kind=sol[i % 8])
    for i in range(80 if q else 600):
        yield trav_variants, dict(kind=kinds[i % 10])
    for i in range(32 if q else 200):
        yield disp_variants, dict(kind=["incr", "two", "contrast", "lvz"][i % 4])
    for i in range(48 if q else 300):
        yield dyn_reciprocal, dict(kind=sol[i % 8])
    for i in range(80 if q else 500):
        yield stat_reciprocal, dict(kind=sol[i % 8])
    for i in range(48 if q else 300):
        yield dyn_scale, dict(mode=["speed", "length", "density"][i % 3], kind=kinds[i % 10])
    for i in range(48 if q else 300):
        yield stat_scale, dict(kind=sol[i % 8])
