"""C17: modal summation against residues of an independent wavenumber-domain solution, and its invariances."""
from pathlib import Path
import numpy as np
from vlib import gen, gio, refkernel as R, refgrn as G, refmodal
from checks import c06, c14, c15
from checks.c05 import subdir

PROP = "C17"
RULE = ("Random models (layers, low-velocity zones, water on top and buried, thin and soft layers), depth pairs (surface, inside, on solid interfaces, in liquids), distances, mode "
        "subsets, frequency bands, delays and upsampling; every trace is rebuilt from the residues, at the reported modes, of an independent global-matrix solution of "
        "the same model (contour integrals around each pole) with the far-field cylindrical wave, and inverse transformed. Mode subsets and bands must add up, lists of depths "
        "and distances must repeat single requests, and the dynamic Green's functions must show the same surface wave at distance.")
ASSUMPTIONS = ["the cylindrical waves are the documented far-field form sqrt(2/(pi k r)), so nothing is claimed within a wavelength",
               "modes closer than 1e-6 to a branch point or to each other are not judged (such a trace is skipped)"]
NAMES = {"EX": "e", "VF": "v", "HF": "h", "DD": "s", "DS": "s", "SS": "s"}


def geometry(rng, L):
    ds, dr = c14.point(rng, L), c14.point(rng, L)
    if rng.random() < .5: dr = 0.0
    if rng.random() < .1: ds = dr
    return ds, dr


def setup(ctx, kind, nf=None, wt=None):
    rng = ctx.rng
    for _ in range(50):
        L = c15.a_model(rng, kind)
        style = str(rng.choice(["thick", "depth"]))
        ctx.write("mod", c06.rows(L, style, any(l[4] > 0 for l in L)))
        H = sum(l[0] for l in L)
        w_ = wt or str(rng.choice(["R", "L"]))
        if w_ == "L" and all(l[2] == 0 for l in L[:-1]): continue
        nf_ = nf or int(rng.integers(12, 28))
        fmax = L[-1][2] / H * 10 ** rng.uniform(-0.4, 0.35)
        df = max(float(np.round(fmax / nf_, 4)), 0.002)
        V = c15.solve(ctx, "mod", w_, f"-F0/{nf_ * df!r}/{df!r}", "eig.nc", "-N")
        if V is None or len(np.atleast_1d(V["freq"])) < 3 or np.sum(V["cnum"]) < 3: continue
        if np.max(np.abs(np.atleast_1d(V["freq"]) - df * np.arange(1, nf_ + 1))) > 1e-9: continue
        return L, w_, V
    raise RuntimeError("no dispersion")


def poles(L, V):
    """per frequency: k of the modes and a safe contour radius"""
    out = []
    C = np.atleast_2d(V["c"])
    vn = L[-1][2] if L[-1][2] > 0 else L[-1][1]
    for i, f in enumerate(np.atleast_1d(V["freq"])):
        w = 2 * np.pi * f; k = w / C[i, :int(np.atleast_1d(V["cnum"])[i])]
        rad = []
        for j in range(len(k)):
            d = [k[j] - w / vn] + [abs(k[j] - x) for x in np.delete(k, j)] + [abs(k[j] - w / v) for l in L for v in l[1:3] if v > 0]
            rad.append(min(.2 * min(d), .02 * k[j]))
        out.append((float(f), k, np.array(rad)))
    return out


def expected(L, ds, dr, rs, V, wt, modes=None, band=None, names=None):
    """dict (ir, name) -> spectrum on the positive frequencies; and per frequency whether it is trustworthy"""
    P = poles(L, V); nf = len(P); vn = L[-1][2] if L[-1][2] > 0 else L[-1][1]
    M = R.Model([[*l[:4], 0, 0] for l in L], "f", "H")
    S = {}; bad = np.zeros(nf, bool); weak = np.zeros(nf)
    th = 2 * np.pi * np.arange(12) / 12
    for i, (f, k, rad) in enumerate(P):
        if band and not (band[0] <= f <= band[1]): continue
        sel = [j for j in range(len(k)) if modes is None or j in modes]
        if not sel: continue
        w = 2 * np.pi * f; vs = [l[2] for l in L if l[2] > 0] + [l[1] for l in L]
        # singular layer solutions: a mode travelling at the very velocity of a layer
        if any(rad[j] < 1e-6 * k[j] or min(abs(w / k[j] / v - 1) for v in vs) < 1e-6 for j in sel): bad[i] = True; continue
        near = sorted(set(sel) | {j for q in sel for j in (q - 1, q + 1) if 0 <= j < len(k) and rad[j] > 1e-6 * k[j]})
        ks = np.concatenate([k[j] + rad[j] * np.exp(1j * th) for j in near])
        ker = R.solve(M, ds, dr, w + 0j, ks, rcv_below=False)
        res = {}; big = {}
        for n_, j in enumerate(near):
            sl = slice(n_ * 12, n_ * 12 + 12); e = rad[j] * np.exp(1j * th) / 12
            for s in G.ORD:
                for c in ("q", "w", "v", "qz", "wz", "vz"): res[j, s, c] = np.sum(ker[s, c][sl] * ks[sl] * e)
                # cancellation on the contour
                big[j, s] = max(np.sum(np.abs(ker[s, c][sl] * ks[sl] * e)) for c in ("q", "w", "v", "qz", "wz", "vz"))
        for j in sel:
            sep = [abs(k[j] - k[q]) for q in near if abs(q - j) == 1]
            for s, m in G.ORD.items():
                amp = 1e-12 * big[j, s]
                # an eigenvalue known to 3e-9 mixes in a neighbouring mode
                for q in near:
                    if abs(q - j) == 1: amp += (1e-8 + 3e-9 * k[j] / abs(k[j] - k[q])) * max(abs(res[x, s, c]) for x in (j, q) for c in (("q", "w", "qz", "wz") if wt == "R" else ("v", "vz")))
                amp += 3e-7 * w / vn / (k[j] - w / vn) * max(abs(res[j, s, c]) for c in (("q", "w", "qz", "wz") if wt == "R" else ("v", "vz")))
                amp *= max(1, k[j])
                for ir, r in enumerate(rs):
                    h = -1j * np.pi * np.sqrt(2 / (np.pi * k[j] * r)) * np.exp(-1j * (k[j] * r - m * np.pi / 2 - np.pi / 4))
                    d = -1j * h; kj = k[j]
                    S.setdefault(("noise", ir, s), np.zeros(1))[0] += amp * abs(h)
                    g = lambda c: res[j, s, c]
                    if wt == "R":
                        v = {"Z": -g("w") * h, "R": g("q") * d}; z = {"Z": g("wz") * h, "R": -g("qz") * d}
                    elif m:
                        v = {"T": g("v") * d}; z = {"T": -g("vz") * d}
                    else: continue
                    for c in v:
                        for nm, x in ((s + c, v[c]), ("z" + s + c, z[c]), ("r" + s + c, -1j * kj * v[c])):
                            S.setdefault((ir, nm), np.zeros(nf + 1, complex))[i + 1] += x
    return S, bad


def run(ctx, out, ds, dr, rs, *opts):
    if isinstance(ds, (list, tuple)) or isinstance(dr, (list, tuple)):
        D = [f"-Ds{','.join(f'{x:g}' for x in ds)}", f"-Dr{','.join(f'{x:g}' for x in dr)}"]
    else: D = [f"-D{ds!r}/{dr!r}"]
    return ctx.grt("modsum", "-Ceig.nc", *D, f"-O{out}", "-R" + ",".join(f"{r:g}" for r in rs), *opts)


def where(ctx, out, ds, dr, r):
    return Path(ctx.path(out)) / f"mod_{ds:g}_{dr:g}_{r:g}"


def residues(ctx, kind):
    rng = ctx.rng
    L, wt, V = setup(ctx, kind)
    ds, dr = geometry(rng, L)
    freqs = np.atleast_1d(V["freq"]); nf = len(freqs); df = freqs[0]; nt = 2 * nf; T = 1 / df; dt = T / nt
    mdl = R.Model(L)
    rs = sorted(set(float(f"{x:g}") for x in np.round(10 ** rng.uniform(0.3, 2.3, int(rng.integers(1, 4))), 2)))
    nm = np.atleast_2d(V["c"]).shape[1]
    opts = []; modes = [0]; band = None; b0 = v0 = 0.0; refP = False; ups = 1
    m = rng.integers(4)
    if m < 2: opts.append("-N"); modes = None
    elif m == 2:
        a, b = sorted(int(x) for x in rng.integers(0, nm, 2)); dn = int(rng.integers(1, 3)); opts.append(f"-N{a}/{b}/{dn}"); modes = list(range(a, b + 1, dn))
    if rng.random() < .35:
        i, j = sorted(int(x) for x in rng.integers(0, nf, 2))
        x = .4 * df if rng.random() < .6 else 0.0
        if j > i: band = (float(freqs[i] - x), float(freqs[j] + x)); opts.append(f"-F{max(band[0], 0.0)!r}/{band[1]!r}"); ctx.tag("band")
    e = rng.integers(4)
    if e == 1: b0 = float(np.round(rng.uniform(-3, 5), 2)); opts.append(f"-E{b0}")
    elif e == 2: b0 = float(np.round(rng.uniform(-3, 5), 2)); v0 = float(np.round(rng.uniform(2, 8), 1)); opts.append(f"-E{b0}/{v0}")
    elif e == 3: b0 = float(np.round(rng.uniform(-3, -.2), 2)); refP = True; opts.append(f"-Ep{b0}")
    if rng.random() < .3: ups = int(rng.integers(2, 4)); opts.append(f"-W{ups}")
    gsel = "evhs"
    if rng.random() < .4: gsel = "".join(c for c in "evhs" if rng.random() < .6) or "s"; opts.append("-G" + gsel)
    deriv = rng.random() < .6
    if deriv: opts.append("-e")
    if rng.random() < .5: opts.append(f"-P{rng.integers(1, 4)}")
    r = ctx.grt("modsum", "-Ceig.nc", f"-D{ds!r}/{dr!r}", "-OM", "-R" + ",".join(f"{x:g}" for x in rs), *opts)
    S, bad = expected(L, ds, dr, rs, V, wt, modes, band)
    # size of every component over all modes, to tell numerical noise of vanishing ones
    liqsrc = L[mdl.layer_of(ds)][2] == 0; liqrcv = L[mdl.layer_of(dr)][2] == 0
    ctx.tag(f"{kind}:{wt}", f"E{e}", "deriv" if deriv else "noderiv", "src-liquid" if liqsrc else "src-solid", "rcv-liquid" if liqrcv else "rcv-solid")
    comps = "ZR" if wt == "R" else "T"
    want = {p + s + c for s, g in NAMES.items() if g in gsel and (s == "EX" or not liqsrc) for c in comps if c in G.CHN[s] for p in (("", "z", "r") if deriv else ("",))}
    if bad.any(): ctx.tag("unjudged"); ctx.stats["skipped"] = ctx.stats.get("skipped", 0) + 1; return
    tt = {}
    for line in ctx.grt("travt", "-Mmod", f"-D{ds!r}/{dr!r}", "-R" + ",".join(f"{x:g}" for x in rs)).out.splitlines():
        p = line.split()
        if len(p) >= 3 and p[0][0].isdigit(): tt[float(p[0])] = (float(p[1]), float(p[2]))
    for ir, x in enumerate(rs):
        p = where(ctx, "M", ds, dr, x)
        if not ctx.check("directory", p.is_dir(), f"no directory {p.name}: {sorted(q.name for q in Path(ctx.path('M')).iterdir())}"): continue
        D = gio.read_dir(p)
        if not ctx.check("fileset", set(D) == want, f"files {sorted(set(D))} instead of {sorted(want)} (options {opts}, wave {wt})"): continue
        first = x in tt and tt[x][0]
        for n, tr in D.items():
            b = b0 + (np.hypot(x, ds - dr) / v0 if v0 > 0 else 0.0)
            if refP: b = b0 + first
            ctx.check("begin", abs(tr.b - b) < 6e-4 + 1e-6 * abs(b), f"{opts} r={x}: begin time {tr.b}, expected {b} (first P {first})")
            ctx.check("sampling", tr.npts == nt * ups and abs(tr.delta * ups / dt - 1) < 1e-6, f"npts {tr.npts} delta {tr.delta} instead of {nt * ups}, {dt / ups}")
            ctx.check("arrivals", x not in tt or (abs(tr.t0 - tt[x][0]) < 2e-3 and abs(tr.t1 - tt[x][1]) < 2e-3), f"header times {tr.t0} {tr.t1}, travt gives {tt.get(x)} for {ds}/{dr} r={x}; model {L}")
            ctx.check("geometry", abs(tr.evdp - ds) < 1e-5 * max(1, ds) and abs(tr.stel + 1e3 * dr) < 1e-2 and abs(tr.dist - x) < 1e-4, f"header evdp {tr.evdp} stel {tr.stel} dist {tr.dist}")
            S_ = S.get((ir, n), np.zeros(nf + 1, complex))
            Y = G.to_time(S_, nt, dt, 0.0, tr.b, ups)
            pre = n[:-3]; base = n[-3:-1]
            # components of the same source set the noise level
            # level below which a component of this source is noise: each harmonic wave carries both components of a mode
            lev = max(np.max(np.abs(G.to_time(S.get((ir, pre + base + c), np.zeros(nf + 1, complex)), nt, dt, 0.0, tr.b, ups))) for c in comps)
            ctx.close(f"trace:{wt}:{pre or 'u'}", tr.data, Y, rtol=0, atol=6e-5 * lev + 4e-5 * np.max(np.abs(Y)) + 5e-6 * scale_of(S, ir, pre) + S.get(('noise', ir, base), [0.0])[0] * 2 / T + 1e-20, scale=np.max(np.abs(Y)) or 1,
                      detail=f"{n} r={x} D{ds}/{dr} {' '.join(opts)} wave {wt}: largest expected {np.max(np.abs(Y)):.3e}, got {np.max(np.abs(tr.data)):.3e}; model {L}")
            ctx.stats["traces"] = ctx.stats.get("traces", 0) + 1


def scale_of(S, ir, pre):
    v = [np.sum(np.abs(x)) for k, x in S.items() if k[0] == ir]
    return max(v) if v else 0.0


def parts(ctx, kind):
    """modes and bands add up to the whole"""
    rng = ctx.rng
    L, wt, V = setup(ctx, kind)
    ds, dr = geometry(rng, L)
    if L[R.Model(L).layer_of(ds)][2] == 0 and wt == "L": ds = sum(l[0] for l in L) + .5
    r = float(np.round(10 ** rng.uniform(.5, 2.2), 1))
    freqs = np.atleast_1d(V["freq"]); nf = len(freqs); nm = np.atleast_2d(V["c"]).shape[1]
    com = ["-e"] if rng.random() < .5 else []
    if rng.random() < .4: com.append(f"-E{np.round(rng.uniform(-2, 4), 2)}")
    run(ctx, "all", ds, dr, [r], "-N", *com)
    A = gio.read_dir(where(ctx, "all", ds, dr, r))

    def total(tag, optsets):
        T = {}; mag = {}
        for n, o in enumerate(optsets):
            run(ctx, f"{tag}{n}", ds, dr, [r], *o, *com)
            D = gio.read_dir(where(ctx, f"{tag}{n}", ds, dr, r))
            ctx.check(f"{tag}:files", set(D) == set(A), f"{o}: {sorted(set(D) ^ set(A))}")
            for k in D:
                T[k] = T.get(k, 0.0) + D[k].data.astype(float); mag[k] = mag.get(k, 0.0) + np.max(np.abs(D[k].data))
        for k in A:
            if k in T: ctx.close(f"{tag}:{k[:-3] or 'u'}", T[k], A[k].data, rtol=0, atol=3e-7 * (mag[k] + np.max(np.abs(A[k].data))) + 1e-38, scale=1, detail=f"{tag} {k} {optsets} {com}: parts do not add up to the whole; model {L}")
    cut = int(rng.integers(2, max(nf - 1, 3)))
    df = freqs[0]
    if nf > 4: total("bands", [["-N", f"-F{0}/{freqs[cut - 1] + .4 * df!r}"], ["-N", f"-F{freqs[cut] - .4 * df!r}/{freqs[-1] + .4 * df!r}"]])
    if nm > 1:
        c = int(rng.integers(0, nm - 1))
        total("modes", [[f"-N0/{c}/1"], [f"-N{c + 1}/{nm - 1}/1"]])
        ctx.tag("modes")
    ctx.tag(f"parts:{kind}:{wt}")


def batch(ctx, kind):
    """lists of depths and distances, source selections and threads repeat single requests"""
    rng = ctx.rng
    L, wt, V = setup(ctx, kind)
    P = [geometry(rng, L) for _ in range(2)]
    S_ = sorted({float(f"{p[0]:g}") for p in P}); Rv = sorted({float(f"{p[1]:g}") for p in P})
    ok = gen.interfaces(L)
    S_ = [d for d in S_ if not any(abs(d - z) < 1e-4 for z in ok[1:])] or [round(ok[-1] + .5, 2)]
    Rv = [d for d in Rv if not any(abs(d - z) < 1e-4 for z in ok[1:])] or [0.0]
    rs = [float(x) for x in np.round(10 ** rng.uniform(.3, 2, 3), 1)]
    opts = ["-N"] + (["-e"] if rng.random() < .5 else []) + ([f"-Ep-{np.round(rng.uniform(.3, 2), 1)}"] if rng.random() < .4 else [])
    run(ctx, "lst", S_, Rv, sorted(set(rs)), *opts, "-P4")
    for ds in S_:
        for dr in Rv:
            x = rs[int(rng.integers(len(rs)))]
            o = f"one_{ds:g}_{dr:g}"
            g = "".join(c for c in "evhs" if rng.random() < .6) or "e"
            if L[R.Model(L).layer_of(ds)][2] == 0 and "e" not in g: g += "e"
            run(ctx, o, ds, dr, [x], *opts, "-P1", "-G" + g)
            a, b = where(ctx, "lst", ds, dr, x), where(ctx, o, ds, dr, x)
            if not ctx.check("batch:dirs", a.is_dir() and b.is_dir(), f"{a} {b}"): continue
            A, B = gio.read_dir(a), gio.read_dir(b)
            liq = L[R.Model(L).layer_of(ds)][2] == 0
            sel = {n for n in A if NAMES[n[-3:-1]] in g}
            ctx.check("batch:files", set(B) == sel, f"-G{g}: {sorted(B)} vs selection {sorted(sel)} (liquid source {liq})")
            for n in set(A) & set(B):
                ctx.check("batch:trace", np.allclose(A[n].data, B[n].data, rtol=1e-6, atol=1e-6 * np.max(np.abs(A[n].data)) + 1e-38) and np.allclose(A[n].f[[0, 5, 7, 8, 9, 31, 32, 38, 40, 41, 42, 46, 47, 48]], B[n].f[[0, 5, 7, 8, 9, 31, 32, 38, 40, 41, 42, 46, 47, 48]], rtol=1e-6),
                          f"{n} {ds}/{dr} r={x}: differs between a batch and a single request; max diff {np.max(np.abs(A[n].data - B[n].data)):.3e} of {np.max(np.abs(A[n].data)):.3e}")
    ctx.tag(f"batch:{kind}:{wt}")


def dominant(ctx, wt):
    """far away the dynamic Green's functions show the same surface wave"""
    rng = ctx.rng
    v1 = float(np.round(rng.uniform(1.6, 2.2), 2)); v2 = float(np.round(rng.uniform(3.2, 3.8), 2)); h = float(np.round(rng.uniform(1.5, 3), 2))
    L = [[h, v1 * 1.8, v1, 2.3, 0, 0], [0.0, v2 * 1.75, v2, 3.0, 0, 0]]
    ctx.write("mod", c06.rows(L, "thick", False))
    ds = float(np.round(rng.uniform(.4, .9) * h, 2)); dr = float(rng.choice([0.0, round(.2 * h, 2)])); r = float(np.round(rng.uniform(90, 130), 0))
    nf, df = 128, 1 / 160.0; fmax = nf * df; nt = 2 * nf; dt = 160.0 / nt
    V = c15.solve(ctx, "mod", wt, f"-F0/{fmax!r}/{df!r}", "eig.nc", "-N")
    lo, hi = 20.5 * df, 100.5 * df
    run(ctx, "M", ds, dr, [r], "-N", f"-F{lo!r}/{hi!r}", "-E0")
    ctx.grt("greenfn", "-Mmod", f"-D{ds}/{dr}", f"-N{nt}/{dt!r}+a", f"-R{r:g}", "-OG", f"-H{lo!r}/{hi!r}", "-s")
    A, B = gio.read_dir(where(ctx, "M", ds, dr, r)), gio.read_dir(where(ctx, "G", ds, dr, r))
    wsp = np.ones(nt); wsp[: int(.08 * nt)] = 0; wsp[int(.85 * nt):] = 0
    for n in A:
        if not ctx.check("dominant:file", n in B, n): continue
        a, b = A[n].data * wsp, B[n].data * wsp
        lim = .85 if n[-3:-1] == "HF" else .5  # leaky waves are strong for a horizontal force
        m = np.linalg.norm(a - b) / max(np.linalg.norm(B[n[:-1] + c].data * wsp) for c in ("ZR" if wt == "R" else "T"))
        ctx.worst[f"dominant:{n}"] = max(ctx.worst.get(f"dominant:{n}", 0), m / lim)
        ctx.check("dominant", m < lim, f"{n}: the surface wave differs from the dynamic Green's function by {m:.3f} at r={r} D{ds}/{dr}, model {L}")
        ctx.evals += 1
    ctx.tag("dominant:" + wt)


def cases(tier, rnd):
    kinds = ["incr", "two", "thin", "lvz", "rand", "contrast", "equal", "liqtop", "liqmid", "many", "soft"]
    for r in range(20 if tier == "quick" else 100):
        for k in kinds:
            yield residues, dict(kind=k)
    for r in range(2 if tier == "quick" else 20):
        for k in kinds:
            yield parts, dict(kind=k)
            yield batch, dict(kind=k)
    for r in range(2 if tier == "quick" else 10):
        for wt in "RL":
            yield dominant, dict(wt=wt)
