"""C05: dynamic Green's functions against an independent integration, and option/batching invariants."""
import glob, os
import numpy as np
from vlib import gen, gio, refkernel as R, refgrn as G

PROP = "C05"
RULE = ("Random models, geometries and options; traces are compared with an independent synthesis (global-matrix kernels, own "
        "Bessel sum and inverse transform) and with re-runs of the real code under changed options.")


def subdir(ctx, out, r):
    d = glob.glob(ctx.path(out, f"mod_*_*_{r}"))
    if len(d) != 1:
        ctx.violate("layout", f"{out}: {len(d)} directories for distance {r}")
        raise_halt()
    return d[0]


def raise_halt():
    from vlib.core import Halt
    raise Halt()


def pick(rng, kind=None, sep=0.3, solid=False):
    from checks.c04 import pick as p4
    for _ in range(500):
        L, kd, bt, bb, ds, dr = p4(rng, kind=kind)
        if abs(ds - dr) >= sep and (not solid or all(l[2] > 0 for l in L)):
            return L, kd, bt, bb, ds, dr
    raise RuntimeError("no geometry")


def model_tags(ctx, *a):
    from checks.c04 import tags
    tags(ctx, *a)


def reference(ctx, kind=None):
    """Fully pinned integration: every trace equals the independent synthesis."""
    rng = ctx.rng
    L, kind, bt, bb, ds, dr = pick(rng, kind)
    ctx.write("mod", gen.text(L))
    model_tags(ctx, L, kind, bt, bb, ds, dr)
    nt = int(rng.choice([32, 33, 48, 50])); dt = float(rng.choice([0.125, 0.25, 0.2]))
    zeta = float(rng.choice([0.8, 1.2, 0.4])); ups = int(rng.choice([1, 1, 2, 3]))
    keepall = rng.random() < 0.5; skip = rng.random() < 0.25
    nr = int(rng.integers(1, 4))
    rs = sorted(set(round(float(x), 2) for x in rng.uniform(0.5, 15, nr)))
    if rng.random() < 0.2:
        rs = [0.0] + rs
    Lk = float(rng.integers(6, 12)); k0 = round(float(rng.uniform(3, 6)), 2); ampk = round(float(rng.uniform(1.1, 1.6)), 2)
    if rs == [0.0]:
        rs = [0.0, 3.0]
    opts = ["greenfn", "-Mmod", f"-D{ds}/{dr}", f"-N{nt}/{dt}+w{zeta}" + (f"+n{ups}" if ups > 1 else "") + ("+a" if keepall else "") + ("+f" if skip else ""),
            "-R" + ",".join(map(str, rs)), f"-L{Lk}", f"-K+k{k0}+s{ampk}+f", "-Cn", "-B" + bt + bb, "-Og", "-e", "-s"]
    T = nt * dt
    nf = nt // 2 + 1
    f1 = f2 = None
    hs = None
    b0 = 0.0; v0 = 0.0; refP = False
    m = rng.integers(4)
    if m == 1:
        b0 = round(float(rng.uniform(-2, 3)), 2); opts.append(f"-E{b0}")
        ctx.tag("delay")
    elif m == 2:
        b0 = round(float(rng.uniform(-1, 1)), 2); v0 = round(float(rng.uniform(3, 8)), 1); opts.append(f"-E{b0}/{v0}")
        ctx.tag("delay/v0")
    elif m == 3:
        b0 = round(float(rng.uniform(-1.5, -0.2)), 2); refP = True; opts.append(f"-Ep{b0}")
        ctx.tag("delay/P")
    lo, hi = 0, nf - 1
    if rng.random() < 0.3:
        lo = int(rng.integers(1, nf // 3)); hi = int(rng.integers(nf // 2, nf))
        which = rng.integers(3)
        # stay away from exact multiples of df
        fl = (lo - 0.5) / T; fh = (hi + 0.5) / T
        if which == 0:
            hi = nf - 1; fh = -1.0
        elif which == 1:
            lo = 0; fl = -1.0
        opts.append(f"-H{fl:.6g}/{fh:.6g}")
        ctx.tag(f"band{which}")
    gsel = "".join(c for c in "evhs" if rng.random() < 0.6) or "e"
    if L[R.Model(L).layer_of(ds)][2] == 0 and "e" not in gsel: gsel = "e" + gsel
    if rng.random() < 0.5:
        opts.append("-G" + gsel)
    else:
        gsel = "evhs"
    ctx.tag(f"ups{ups}", f"nt%2={nt%2}", "comp" if not skip else "nocomp", "allfreq" if keepall else "skiplow", f"G{gsel}", f"nr{len(rs)}", "r0" if 0.0 in rs else "r>0")
    ctx.grt(*opts)
    mdl = R.Model(L, bt, bb)
    wI = zeta * np.pi / T
    rmax = max(rs)
    dk = 2 * np.pi / (Lk * rmax)
    vmin = max(min(v for l in L for v in (l[1], l[2]) if v > 0), 0.1)
    kk0 = k0 * np.pi / max(abs(ds - dr), 0.1)
    freqs = np.arange(nf) / T
    ok = [lo <= i <= hi and (keepall or abs(2 * np.pi * freqs[i] - 1j * wI) >= 0.1) for i in range(nf)]
    S = G.spectra(mdl, ds, dr, rs, freqs, wI, dk, lambda w: np.hypot(kk0, ampk * w / vmin), 2 * np.pi * freqs[hi], fsel=lambda i: ok[i])
    S2 = None
    if bt == "r" and 0 in (ds, dr) or bt == "f" and ds == 0:
        # identically vanishing responses: magnitude reference from slightly buried points
        ctx.tag("vanishing")
        S2 = G.spectra(mdl, ds if ds > 0 else 0.2, dr if dr > 0 else 0.2, rs, freqs, wI, dk, lambda w: np.hypot(kk0, ampk * w / vmin), 2 * np.pi * freqs[hi], fsel=lambda i: ok[i])
    liqsrc = L[mdl.layer_of(ds)][2] == 0
    want = set()
    for s, g in (("EX", "e"), ("VF", "v"), ("HF", "h"), ("DD", "s"), ("DS", "s"), ("SS", "s")):
        if g in gsel and (s == "EX" or not liqsrc):
            want |= {p + s + c for p in ("", "z", "r") for c in G.CHN[s]}
    allmag = max(np.abs(v).sum() for k_, v in S.items() if k_[0] != "noise")
    for ir, r in enumerate(rs):
        D = gio.read_dir(subdir(ctx, "g", r))
        ctx.check("fileset", set(D) == want, f"files {sorted(set(D) ^ want)}")
        any_ = next(iter(D.values()))
        if refP:
            b = any_.t0 + b0
            ctx.check("delayP", abs(any_.b - b) < 1e-4 * max(1, abs(b)), f"b={any_.b} want first P {any_.t0}{b0:+}")
            b = any_.b
        else:
            b = b0 + (np.hypot(r, dr - ds) / v0 if v0 > 0 else 0.0)
        for n, tr in D.items():
            if n not in want:
                continue
            ref = G.to_time(S[ir, n], nt, dt, wI, b, ups, not skip)
            ctx.check("b", abs(tr.b - b) < 2e-6 * max(1, abs(b)), f"b={tr.b} want {b}")
            ctx.check("npts", tr.npts == nt * ups and abs(tr.delta * ups / dt - 1) < 1e-6, f"npts={tr.npts} delta={tr.delta}")
            base = n[-3:-1]; pre = n[:-3]
            fac = 2 / T * (np.exp(wI * (b + T)) if not skip else 1)
            noise = max(S["noise", ir, pre + base + c].sum() for c in G.CHN[base]) * fac
            grp = max(np.max(np.abs(G.to_time(S[ir, pre + base + c], nt, dt, wI, b, ups, not skip))) for c in G.CHN[base])
            mag = np.abs(S[ir, n]).sum() * fac
            at = noise + 1e-6 * grp * 1e-2 + 1e-7 * mag + 1e-13 * allmag * fac
            if S2 is not None and (bt == "r" or base == "DS"):
                at += 10 * max(S2["noise", ir, p2 + base + c].sum() for p2 in ("", pre) for c in G.CHN[base]) * fac
                at += 1e-6 * max(np.abs(S2[ir, p2 + base + c]).sum() for p2 in ("", pre) for c in G.CHN[base]) * fac
            if at > 1e-3 * max(np.max(np.abs(ref)), 1e-3 * mag):
                ctx.tag("numerically-weak-trace")
            ctx.close(f"trace:{pre}{n[-1]}", tr.data, ref, 2e-5, atol=at, detail=n)


def options_equal(ctx, kind=None):
    """Batching, thread count, -e, -G, -s do not change any trace."""
    rng = ctx.rng
    L, kind, bt, bb, ds, dr = pick(rng, kind, sep=0.0)
    ctx.write("mod", gen.text(L))
    model_tags(ctx, L, kind, bt, bb, ds, dr)
    nt = 32; dt = 0.25
    rs = sorted(set(round(float(x), 2) for x in rng.uniform(0.5, 15, 3)))
    if rng.random() < 0.25 and ds != dr:
        rs = [0.0] + rs
    # the wavenumber step depends on the largest distance: pin it
    Lk = 20.0
    rmax = rs[-1]
    com = ["greenfn", "-Mmod", f"-N{nt}/{dt}", "-B" + bt + bb, "-s"]
    van = lambda a, b: ("DS",) if bt == "f" and a == 0 else tuple(G.ORD) if bt == "r" and 0 in (a, b) else ()
    cv = ["", "-Cd", "-Cn", "-Cp"][rng.integers(4)]
    if cv:
        com.append(cv)
    ctx.tag("cv" + (cv or "auto"))
    ctx.grt(*com, f"-D{ds}/{dr}", "-R" + ",".join(map(str, rs)), f"-L{Lk}", "-Oall", "-e")
    # one distance at a time with the same dk
    r1 = rs[int(rng.integers(len(rs)))]
    if r1 > 0:
        Ls = Lk * rmax / r1
        ctx.grt(*com, f"-D{ds}/{dr}", f"-R{r1}", f"-L{Ls!r}", "-Oone", "-e")
        A = gio.read_dir(subdir(ctx, "all", r1)); B = gio.read_dir(subdir(ctx, "one", r1))
        cmp_dirs(ctx, "batch-dist", A, B, 2e-5, van(ds, dr))
    # without derivatives, with source subset
    g = ["e", "v", "h", "s", "ev", "hs"][rng.integers(6)]
    if L[R.Model(L).layer_of(ds)][2] == 0: g = "eh"
    ctx.grt(*com, f"-D{ds}/{dr}", "-R" + ",".join(map(str, rs)), f"-L{Lk}", "-Osub", "-G" + g)
    for r in rs:
        A = gio.read_dir(subdir(ctx, "all", r)); B = gio.read_dir(subdir(ctx, "sub", r))
        ctx.check("subset-nonempty", len(B) > 0, "no files")
        ctx.check("subset-noderiv", all(len(n) == 3 for n in B), str(sorted(B)))
        cmp_dirs(ctx, "subset", {n: A[n] for n in B if n in A}, B, 1e-6)
    # depth batch
    d2 = [sorted({ds, round(ds + 0.37, 4)}), sorted({dr, round(dr + 0.61, 4)})]
    ok = True
    for d in d2[0] + d2[1]:
        z = gen.interfaces(L)
        if bb != "H" and d > z[-1] - 1e-3:
            ok = False
        if any(abs(d - z[i]) < 1e-9 and (L[i][2] == 0 or L[i - 1][2] == 0) for i in range(1, len(L))):
            ok = False
    if ok:
        ctx.tag("depth-batch")
        ctx.grt(*com, "-Ds" + ",".join(map(str, d2[0])), "-Dr" + ",".join(map(str, d2[1])), "-R" + ",".join(map(str, rs)), f"-L{Lk}", "-Odep", "-e")
        for a in d2[0]:
            for b in d2[1]:
                if (a, b) != (ds, dr):
                    ctx.grt(*com, f"-D{a}/{b}", "-R" + ",".join(map(str, rs)), f"-L{Lk}", f"-Os{a}_{b}", "-e")
                for r in rs:
                    o = "all" if (a, b) == (ds, dr) else f"s{a}_{b}"
                    X = glob.glob(ctx.path("dep", f"mod_{a:g}_{b:g}_{r}")); Y = glob.glob(ctx.path(o, f"mod_*_{r}"))
                    if ctx.check("depth-layout", len(X) == 1 and len(Y) == 1, f"{a} {b} {r}: {X} {Y}"):
                        cmp_dirs(ctx, "batch-depth", gio.read_dir(X[0]), gio.read_dir(Y[0]), 1e-6)


def misfit(ctx, key, A, B, tol, skip=(), part=1.0):
    """Relative L2 misfit per trace, floored by the other components of the same source."""
    mx = {}
    for n in B:
        mx[n[:-1]] = max(mx.get(n[:-1], 0), float(np.linalg.norm(B[n].data[:int(part * B[n].npts)].astype(float))))
    ctx.check(key + ":files", set(A) == set(B), f"{sorted(set(A) ^ set(B))}")
    for n in sorted(set(A) & set(B)):
        if n[-3:-1] in skip:
            continue
        a = A[n].data.astype(float); b = B[n].data.astype(float)
        if not ctx.check(key + ":finite", np.all(np.isfinite(a)) and np.all(np.isfinite(b)), f"{n}: non-finite samples"):
            continue
        # the end of the window holds the wrapped-around part, amplified by the damping compensation
        a = a[:int(part * len(a))]; b = b[:int(part * len(b))]
        m = np.linalg.norm(a - b) / (np.linalg.norm(b) + 0.3 * mx[n[:-1]] + 1e-30)
        t = tol[len(n) > 3]
        ctx.worst[f"{key}:{n}"] = max(ctx.worst.get(f"{key}:{n}", 0), m / t)
        ctx.check(key, m <= t, f"{n}: misfit {m:.4g} > {t}")


def methods(ctx, kind=None, mode="sep"):
    """Independent integration strategies of the same integral agree."""
    rng = ctx.rng
    for _ in range(1000):
        L, kd, bt, bb, ds, dr = pick(rng, "incr" if kind == "thin" and mode == "equal" else kind, sep=0.0)
        # closed waveguides and very small separations need longer windows than this test affords
        if mode == "sep" and abs(ds - dr) < 0.5 or mode == "equal" and (ds != dr or 0 < ds < 0.25 or kd == "thin"):
            continue
        if any(L[R.Model(L).layer_of(d)][2] == 0 for d in (ds, dr)): continue  # slow water waves need longer windows
        if bb != "H" or bt == "r" and 0 in (ds, dr):
            continue
        break
    ctx.write("mod", gen.text(L))
    model_tags(ctx, L, kd, bt, bb, ds, dr)
    ctx.tag("methods:" + mode)
    skip = ("DS",) if bt == "f" and ds == 0 else ()
    rs = sorted(round(float(x), 2) for x in rng.uniform(4, 20, 2))
    com = ["greenfn", "-Mmod", "-N64/0.25", "-B" + bt + bb, "-s", "-e", f"-D{ds}/{dr}", "-R" + ",".join(map(str, rs))]
    runs = {}
    if mode == "sep":
        runs["ref"] = ["-L40", "-K+k9+s1.6+f", "-Cn"]
        runs["dcm"] = ["-L40", "-K+k9+s1.6+f", "-Cd"]
        runs["ptam"] = ["-L40", "-K+k9+s1.6+f", "-Cp"]
        runs["kauto"] = ["-L40"]
        runs["auto"] = []
    else:
        # peak-trough averaging of k^2 J terms is poorly conditioned: derivatives get a loose bound
        runs["ref"] = ["-L40", "-K+k1+s1.6+f"]
        runs["ptam"] = ["-L40", "-Cp"]
        runs["kauto"] = ["-L40"]
        runs["auto"] = []
    tol = dict(dcm=(2e-2, 5e-2), ptam=(5e-2, 5e-2 if mode == "sep" else 0.7), kauto=(6e-2, 0.2), auto=(0.12, 0.25))
    for k, o in runs.items():
        ctx.grt(*com, *o, "-O" + k)
    for r in rs:
        B = gio.read_dir(subdir(ctx, "ref", r))
        for k in runs:
            if k != "ref":
                misfit(ctx, f"method-{mode}:{k}", gio.read_dir(subdir(ctx, k, r)), B, tol[k], skip, 0.85)


def filon(ctx, kind=None, mode="sep"):
    """Filon integrations at large distance."""
    rng = ctx.rng
    for _ in range(1000):
        L, kd, bt, bb, ds, dr = pick(rng, "incr" if kind == "thin" and mode == "equal" else kind, sep=0.0)
        if mode == "sep" and abs(ds - dr) < 0.5 or mode == "equal" and (ds != dr or 0 < ds < 0.25 or kd == "thin"):
            continue
        if any(L[R.Model(L).layer_of(d)][2] == 0 for d in (ds, dr)): continue  # slow water waves need longer windows
        if bb != "H" or bt == "r" and 0 in (ds, dr):
            continue
        break
    ctx.write("mod", gen.text(L))
    model_tags(ctx, L, kd, bt, bb, ds, dr)
    ctx.tag("filon:" + mode)
    skip = ("DS",) if bt == "f" and ds == 0 else ()
    rs = sorted(round(float(x), 1) for x in rng.uniform(30, 60, 2))
    com = ["greenfn", "-Mmod", "-N128/0.5+a", "-E3", "-B" + bt + bb, "-s", "-e", f"-D{ds}/{dr}", "-R" + ",".join(map(str, rs))]
    runs = dict(ref=["-L20"], sa=["-L20+a1e-4+o60"], fim=["-L20+l20+o60"])
    for k, o in runs.items():
        ctx.grt(*com, *o, "-O" + k)
    tol = dict(sa=(0.2, 0.4), fim=(0.2, 0.4))
    for r in rs:
        B = gio.read_dir(subdir(ctx, "ref", r))
        for k in runs:
            if k != "ref":
                misfit(ctx, f"filon-{mode}:{k}", gio.read_dir(subdir(ctx, k, r)), B, tol[k], skip, 0.7)


def cmp_dirs(ctx, key, A, B, rtol, skip=()):
    ctx.check(key + ":files", set(A) == set(B), f"{sorted(set(A) ^ set(B))}")
    mx = {}
    for n in B:
        mx[n[:-1]] = max(mx.get(n[:-1], 0), float(np.max(np.abs(B[n].data))))
    for n in sorted(set(A) & set(B)):
        if n[-3:-1] in skip:
            continue
        ctx.close(f"{key}:{n[:-3]}{n[-1]}", A[n].data.astype(float), B[n].data.astype(float), rtol, scale=np.max(np.abs(B[n].data)) + 1e-3 * mx[n[:-1]] + 1e-30, detail=n)
        ctx.check(key + ":hdr", np.array_equal(A[n].f[[0, 5, 7]], B[n].f[[0, 5, 7]]), f"{n} delta/b/o differ")


def cases(tier, rnd):
    n = 60 if tier == "quick" else 1200
    m = 40 if tier == "quick" else 600
    kinds = ["incr", "lvz", "half", "two", "thin", "contrast", "liqtop", "liqmid", "rand", "equal"]
    for i in range(n):
        yield reference, dict(kind=kinds[i % len(kinds)])
    for i in range(m):
        yield options_equal, dict(kind=kinds[i % len(kinds)])
    kinds = ["incr", "lvz", "half", "two", "thin", "contrast", "rand", "equal", "liqtop", "liqmid"]
    for i in range(24 if tier == "quick" else 300):
        yield methods, dict(kind=kinds[i % len(kinds)], mode=["sep", "equal"][(i // 2) % 2])
    for i in range(12 if tier == "quick" else 200):
        yield filon, dict(kind=kinds[i % len(kinds)], mode=["sep", "equal"][(i // 2) % 2])
