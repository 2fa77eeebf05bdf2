"""C07: static Green's functions against independent solutions, and library/option invariants."""
import numpy as np
from vlib import gen, gio, refkernel as R, refgrn as G, refhalf as H

PROP = "C07"
RULE = ("Random all-solid models, boundary conditions, depth pairs, distances, grids and integration options; results are compared with an "
        "independent global-matrix solution summed over wavenumber, with Mindlin's half-space solution, and with entries computed alone.")
NAMES = [p + s + c for p in ("", "z", "r") for s in G.ORD for c in G.CHN[s]]


def setup(rng, ctx, kind=None, sep=None, bcs=True):
    kinds = ["incr", "lvz", "half", "two", "thin", "contrast", "rand", "equal"]
    kind = kind or kinds[rng.integers(8)]
    for _ in range(500):
        L, kind = gen.model(rng, kind=kind)
        bt = "frh"[rng.choice(3, p=[.6, .2, .2])] if bcs else "f"
        bb = "HFR"[rng.choice(3, p=[.6, .15, .25])] if bcs and len(L) > 1 else "H"
        ds, dr = gen.depth(rng, L), gen.depth(rng, L)
        if sep == 0:
            dr = ds
        z = gen.interfaces(L)
        if bb != "H" and max(ds, dr) > z[-1] - 1e-3:
            continue
        if sep and abs(ds - dr) < sep:
            continue
        if bt == "r" and 0 in (ds, dr):
            continue
        break
    ctx.write("mod", gen.text(L))
    on = lambda d: "surface" if d == 0 else "interface" if min(abs(z - d)) < 1e-9 else "inside"
    ctx.tag("kind:" + kind, f"bc:{bt}{bb}", f"src:{on(ds)}", f"rcv:{on(dr)}", "above" if dr < ds else "below" if dr > ds else "equal")
    return L, kind, bt, bb, ds, dr


def sums(mdl, ds, dr, rs, ks, w):
    ker = R.solve(mdl, ds, dr, None, ks, rcv_below=False)
    out = []
    for r in rs:
        c = G.combine(ker, ks, r)
        out.append({n: (float(np.sum(v.real * w)), float(np.sum(np.abs(v) * w))) for n, v in c.items()})
    return out


def compare(ctx, key, v, idx, ref, rtol, skip=(), magtol=0.0, grp=1e-2, atol=None):
    """v: nc variables; idx: index; ref: name -> (value, sum of magnitudes)."""
    gm = {}
    for n, (x, m) in ref.items():
        gm[n[:-1]] = max(gm.get(n[:-1], 0), abs(x))
    for n, (x, m) in ref.items():
        if n[-3:-1] in skip:
            continue
        if n not in v:
            ctx.violate(key + ":missing", n)
            continue
        a = float(v[n][idx])
        ctx.close(f"{key}:{n[:-3]}{n[-3:-1]}{n[-1]}", a, x, rtol, scale=abs(x) + grp * gm[n[:-1]], atol=magtol * m + (atol(n) if atol else 0) + 1e-30, detail=f"{n} at {idx}")


def vanish(bt, ds):
    return ("DS",) if bt == "f" and ds == 0 else ()


def pinned(ctx, kind=None):
    """Fixed wavenumber grid: results equal the independent sum term for term."""
    rng = ctx.rng
    L, kind, bt, bb, ds, dr = setup(rng, ctx, kind, sep=0.1 if rng.random() < 0.8 else None)
    k0 = round(float(rng.uniform(0.5, 5)), 2); Lk = float(rng.integers(5, 20))
    e = rng.random() < 0.8
    if rng.random() < 0.5:
        rs = np.array(sorted(set(round(float(x), 2) for x in rng.uniform(0.3, 20, 4))))
        if rng.random() < 0.3:
            rs = np.r_[0.0, rs]
        geo = ["-R" + ",".join(map(repr, rs.tolist()))]
        N = np.zeros(1); E = rs
        ctx.tag("list")
    else:
        x0, y0 = [round(float(x), 1) for x in rng.uniform(-6, 3, 2)]
        nx, ny = rng.integers(1, 5, 2)
        N = x0 + 1.5 * np.arange(nx); E = y0 + 0.75 * np.arange(ny)
        geo = [f"-X{x0!r}/{x0+1.5*(nx-1)+0.2!r}/1.5", f"-Y{y0!r}/{y0+0.75*(ny-1)+0.1!r}/0.75"]
        ctx.tag("grid")
    if "r0" and np.hypot(N[:, None], E).max() == 0:
        return
    if abs(dr - ds) < 1e-9 and np.hypot(N[:, None], E).min() == 0:
        return
    ctx.tag("deriv" if e else "noderiv")
    ctx.grt("static", "greenfn", "-Mmod", f"-D{ds}/{dr}", *geo, f"-L{Lk}", f"-K+k{k0}+f", "-Cn", "-B" + bt + bb, "-Oo.nc", *(["-e"] if e else []))
    v, dims, at = gio.read_nc(ctx.path("o.nc"))
    want = [n for n in NAMES if e or len(n) == 3]
    ctx.check("names", set(want) == {n for n in v if n in NAMES}, str(sorted(v)))
    ctx.close("north", v["north"], N, 1e-6, atol=1e-5); ctx.close("east", v["east"], E, 1e-6, atol=1e-5)
    ctx.close("depsrc", v["depsrc"], [ds], 1e-6); ctx.close("deprcv", v["deprcv"], [dr], 1e-6)
    rr = np.hypot(N[:, None], E)
    dk = 2 * np.pi / (Lk * rr.max())
    kmax = k0 * np.pi / max(abs(ds - dr), 0.1)
    n = int(np.floor(kmax / dk)) + 1
    ks = dk * np.arange(1, n + 1)
    mdl = R.Model(L, bt, bb)
    ref = sums(mdl, ds, dr, rr.ravel(), ks, dk)
    for j, r in enumerate(rr.ravel()):
        i, k = np.unravel_index(j, rr.shape)
        rf = {x: y for x, y in ref[j].items() if x in want}
        compare(ctx, "pinned", v, (0, 0, i, k), rf, 2e-6, skip=vanish(bt, ds), magtol=1e-8)


def library(ctx, kind=None):
    """An entry of a library equals the entry computed alone on the same wavenumber grid."""
    rng = ctx.rng
    L, kind, bt, bb, ds, dr = setup(rng, ctx, kind)
    z = gen.interfaces(L)
    lim = z[-1] - 2e-3 if bb != "H" else 99
    # round numbers only, so that parsing loses nothing
    S = sorted({ds, *[round(min(float(x), lim), 3) for x in rng.uniform(0.05, 4, int(rng.integers(0, 3)))]})
    Rr = sorted({dr, *[round(min(float(x), lim), 3) for x in rng.uniform(0, 4, int(rng.integers(0, 3)))]})
    if bt == "r":
        S = [x for x in S if x > 0]; Rr = [x for x in Rr if x > 0]
    rs = sorted(set(round(float(x), 2) for x in rng.uniform(0.4, 15, int(rng.integers(2, 5)))))
    if not set(S) & set(Rr) and rng.random() < .5:
        rs = [0.0] + rs
    cv = [[], ["-Cd"], ["-Cp"], ["-Cn"]][rng.integers(4)]
    kk = [[], ["-K+k3+f"], ["-K+k20"]][rng.integers(3)]
    ctx.tag("cv" + "".join(cv), "K" + "".join(kk), f"ns{len(S)}", f"nr{len(Rr)}", f"nd{len(rs)}")
    com = ["static", "greenfn", "-Mmod", "-B" + bt + bb, *cv, *kk]
    f = lambda l: ",".join(map(repr, l))
    ctx.grt(*com, "-Ds" + f(S), "-Dr" + f(Rr), "-R" + f(rs), "-L30", "-e", "-Olib.nc")
    v, dims, at = gio.read_nc(ctx.path("lib.nc"))
    ctx.check("lib-shape", v["EXZ"].shape == (len(S), len(Rr), 1, len(rs)), str(v["EXZ"].shape))
    ctx.close("lib-s", v["depsrc"], S, 1e-6); ctx.close("lib-r", v["deprcv"], Rr, 1e-6)
    for a, s in enumerate(S):
        for b, r in enumerate(Rr):
            if len(S) * len(Rr) > 4 and rng.random() < 0.4:
                continue
            e = rng.random() < 0.5
            ctx.grt(*com, f"-D{s}/{r}", "-R" + f(rs), "-L30", "-Oone.nc", *(["-e"] if e else []))
            o, _, _ = gio.read_nc(ctx.path("one.nc"))
            ref = {n: (o[n], 0) for n in NAMES if n in o}
            for n in ref:
                ctx.close(f"depth-alone", v[n][a, b], o[n][0, 0], 1e-7, scale=np.max(np.abs(o[n])), atol=1e-30, detail=f"{n} depths {s} {r}")
            ctx.check("src-medium", np.allclose([v["src_va"][a], v["src_vb"][a], v["src_rho"][a]], [o["src_va"][0], o["src_vb"][0], o["src_rho"][0]]), "medium")
            if rng.random() < 0.5:
                q = float(rs[rng.integers(rs[0] == 0.0, len(rs))])
                ctx.grt(*com, f"-D{s}/{r}", f"-R{q!r}", f"-L{30*rs[-1]/q!r}", "-Oq.nc", "-e")
                o, _, _ = gio.read_nc(ctx.path("q.nc"))
                i = rs.index(q)
                for n in NAMES:
                    if n[-3:-1] in vanish(bt, s):
                        continue
                    g = max(abs(float(o[n[:-1] + c][0, 0, 0, 0])) for c in G.CHN[n[-3:-1]])
                    ctx.close("distance-alone", float(v[n][a, b, 0, i]), float(o[n][0, 0, 0, 0]), 1e-5, scale=g, atol=1e-30, detail=f"{n} r={q}")
    # a grid that repeats distances in every quadrant
    if rng.random() < 0.6:
        x, y = round(float(rng.uniform(0.5, 3)), 2), round(float(rng.uniform(0.5, 3)), 2)
        ctx.grt(*com, f"-D{S[0]}/{Rr[0]}", f"-X{-x!r}/{x!r}/{x!r}", f"-Y{-y!r}/{y!r}/{2*y!r}", "-L30", "-e", "-Ogrid.nc")
        o, _, _ = gio.read_nc(ctx.path("grid.nc"))
        r1, r2 = y, float(np.hypot(x, y))
        ctx.grt(*com, f"-D{S[0]}/{Rr[0]}", f"-R{r1!r},{r2!r}", "-L30", "-e", "-Oline.nc")
        w, _, _ = gio.read_nc(ctx.path("line.nc"))
        ctx.tag("quadrants")
        for n in NAMES:
            if n[-3:-1] in vanish(bt, S[0]):
                continue
            g = max(np.max(np.abs(w[n[:-1] + c])) for c in G.CHN[n[-3:-1]])
            a = o[n][0, 0]; l = w[n][0, 0, 0]
            if ctx.check("grid-shape", a.shape == (3, 2), f"{a.shape}"):
                ctx.close("grid=line", a, np.array([[l[1]] * 2, [l[0]] * 2, [l[1]] * 2]), 1e-5, scale=g, atol=1e-30, detail=n)


def gl(kmax, dk, n=6):
    x, w = np.polynomial.legendre.leggauss(n)
    ne = int(np.ceil(kmax / dk))
    a = np.linspace(0, kmax, ne + 1)
    k = (a[:-1, None] + a[1:, None]) / 2 + np.outer(np.diff(a) / 2, x)
    return k.ravel(), np.outer(np.diff(a) / 2, w).ravel()


def converged(ctx, kind=None):
    """Default settings against a converged quadrature of the independent kernels."""
    rng = ctx.rng
    L, kind, bt, bb, ds, dr = setup(rng, ctx, kind, sep=0.3)
    if bb == "F" and bt == "f":
        bb = "R"  # a free plate has no static solution under a net force
    if bb == "F" and bt == "h":
        pass
    rs = sorted(set(round(float(x), 2) for x in rng.uniform(0.5, 12, 3)))
    if rng.random() < 0.3:
        rs = [0.0] + rs
    kmax = 25.0 / abs(ds - dr)
    fixed = rng.random() < 0.5
    opt = [["-L100", "-K+k10+f"], ["-L100", "-K+k10+f", "-Cd"], ["-L100", "-K+k10+f", "-Cp"], ["-L100", "-K+k15+f", "-Cn"], ["-L100", "-K+k12+f", "-Cn"], ["-L50", "-K+k10+f"], ["-L60", "-K+k10+f", "-Cd"]] if fixed else [[], ["-L100"], ["-L100", "-Cd"], ["-L100", "-Cp"], ["-L100", "-K+k10"], ["-L100", "-K+k30+e1e-8"], ["-L50"]]
    opt = opt[rng.integers(len(opt))]
    if rs[0] == 0 and "-Cp" in opt:
        opt = ["-L100"]
    Lk = float(opt[0][2:]) if opt else 15
    ctx.tag("opt:" + "_".join(opt))
    ctx.grt("static", "greenfn", "-Mmod", f"-D{ds}/{dr}", "-R" + ",".join(map(repr, rs)), "-B" + bt + bb, "-e", "-Oo.nc", *opt)
    v, _, _ = gio.read_nc(ctx.path("o.nc"))
    ks, w = gl(kmax, 0.6 / max(rs[-1], 1))
    mdl = R.Model(L, bt, bb)
    ref = sums(mdl, ds, dr, rs, ks, w)
    mu = mdl
    dk = 2 * np.pi / (Lk * rs[-1])
    # the rectangle rule leaves out half of the first cell: for forces the integrand does not vanish at k=0
    kk = np.array([1e-3 * dk])
    low = G.combine(R.solve(mdl, ds, dr, None, kk, rcv_below=False), kk, 0.0)
    for i, r in enumerate(rs):
        lowr = G.combine(R.solve(mdl, ds, dr, None, np.array([dk]), rcv_below=False), np.array([dk]), r)
        at = lambda n: 0.8 * dk * max(abs(lowr[n][0]), max(abs(low[n[:-1] + c][0]) for c in G.CHN[n[-3:-1]]))
        if r == 0:  # accidental cancellations between orders: scale by the values next to it
            at0 = at
            at = lambda n: at0(n) + 5e-3 * max(abs(ref[i + 1][n[:-1] + c][0]) for c in G.CHN[n[-3:-1]])
        # the automatic upper limit stops at 1% of the peak amplitude: a few percent in slip sources and derivatives
        tol = (4e-3, 8e-3) if fixed else (5e-2, 0.15)
        for p in (0, 1):
            compare(ctx, ("conv" if fixed else "auto") + ("-r0" if r == 0 else ""), v, (0, 0, 0, i), {n: x for n, x in ref[i].items() if (len(n) > 3) == p},
                    tol[p], skip=vanish(bt, ds), grp=0.3, magtol=1e-3, atol=at)


def halfspace(ctx, split=False):
    """Mindlin's solution for a homogeneous half-space, also when it is cut into identical layers."""
    rng = ctx.rng
    vs = round(float(rng.uniform(1, 4)), 3); vp = round(vs * float(rng.uniform(1.45, 2.3)), 3); rho = round(float(rng.uniform(1.5, 3.3)), 3)
    ds = [0.0, round(float(rng.uniform(0.2, 4)), 2)][int(rng.random() < 0.85)]
    m = rng.integers(4)
    dr = 0.0 if m == 0 else ds if m == 1 else round(float(rng.uniform(0, 5)), 2)
    if dr != ds and abs(dr - ds) < 0.2:
        dr = round(ds + 0.4, 2)
    L = [[0.0, vp, vs, rho, 0, 0]]
    if split:
        n = int(rng.integers(1, 5))
        L = [[float(h), vp, vs, rho, 0, 0] for h in np.round(rng.uniform(0.2, 2, n) * 64) / 64] + L
        ctx.tag("split")
    ctx.write("mod", gen.text(L))
    ctx.tag("surface" if dr == 0 else "buried", "equal" if ds == dr else "sep", f"ds0={ds==0}")
    rs = sorted(set(round(float(x), 2) for x in rng.uniform(0.5, 12, 4)))
    if dr != ds and rng.random() < 0.4:
        rs = [0.0] + rs
        ctx.tag("r=0")
    cv = [[], ["-Cd"], ["-Cp"]][rng.integers(3)] if ds == dr else [[], [], ["-Cn"]][rng.integers(3)]
    if "-Cp" in cv and rs[0] == 0:
        cv = []
    ctx.tag("cv" + "".join(cv))
    Lk = 400
    if "-Cp" in cv:
        # peak-trough averaging on an extremely fine wavenumber grid is dominated by rounding
        Lk = 40; cv = ["-Cp", "-K+k1+f"]
    ctx.grt("static", "greenfn", "-Mmod", f"-D{ds}/{dr}", "-R" + ",".join(map(repr, rs)), "-e", "-Oo.nc", f"-L{Lk}", *cv)
    v, _, _ = gio.read_nc(ctx.path("o.nc"))
    dk = 2 * np.pi / (Lk * rs[-1])
    loose = "-Cp" in cv
    for i, r in enumerate(rs):
        ref = H.greens(max(r, 1e-7), dr, ds, vp, vs, rho)
        mu = rho * vs * vs
        d = lambda n: 3 * dk / (4 * np.pi * mu) * (2 if n[-3:-1] in ("VF", "HF") and len(n) == 3 else dk)
        if r == 0:
            # limits: components vanish by symmetry to first order in the tiny offset
            compare(ctx, "half-r0", v, (0, 0, 0, i), {n: (x, 0) for n, x in ref.items()}, 3e-3, skip=vanish("f", ds), grp=1e-3, atol=lambda n: d(n) + 1e-3 * max(abs(ref[n[:-3] + q]) for q in ("EXR", "EXZ", "DDR", "DDZ", "DSR", "DSZ")) * (1 if n[-3:-1] not in ("VF", "HF") else 0) + 1e-3 * max(abs(ref[n[:-1] + c]) for c in G.CHN[n[-3:-1]]))
        else:
            compare(ctx, "half-ptam" if loose else "half", v, (0, 0, 0, i), {n: (x, 0) for n, x in ref.items()}, 3e-2 if loose else 3e-3, skip=vanish("f", ds), grp=0.3, atol=d)


def cases(tier, rnd):
    f = 1 if tier == "quick" else 12
    kinds = ["incr", "lvz", "half", "two", "thin", "contrast", "rand", "equal"]
    for i in range(96 * f):
        yield pinned, dict(kind=kinds[i % 8])
    for i in range(48 * f):
        yield library, dict(kind=kinds[i % 8])
    for i in range(96 * f):
        yield converged, dict(kind=kinds[i % 8])
    for i in range(96 * f):
        yield halfspace, dict(split=bool(i % 2))
