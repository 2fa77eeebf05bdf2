"""C20: what the outputs say about themselves, what the converters print, and what the saved integration records add up to."""
import os
import numpy as np
from vlib import gen, gio, refgrn as G, reftt
from vlib.core import Halt
from checks.c08 import source

PROP = "C20"
RULE = ("Random requests in every notation (single values, lists, ranges, files; delays, up-sampling, depth lists, source groups, derivatives) of every module. Headers, "
        "dimensions, coordinates, attributes, directory and file names, the saved command and the model copy are compared with the request and the model text; the "
        "printed tables of the converters with the numbers in the files, and sums over the saved integration records with the traces and static values.")
ASSUMPTIONS = ["trace headers are single precision and compared at 2e-7 relative", "printed tables are compared as text formatted from the stored numbers"]
NULL = -12345.0


def num(x):
    return f"{x:.10g}"


def values(ctx, name, lo, hi, n, grid=None):
    """a list of ascending numbers in one of the accepted notations -> (option text, values, texts as they appear in names)"""
    rng = ctx.rng
    how = rng.integers(4)
    if how == 0:
        x = round(float(rng.uniform(lo, hi)), 3)
        t = [f"{x}", f"{x:.4f}", f"{x:e}"][rng.integers(3)]
        return t, [float(t)], [t]
    if how == 1:
        xs = sorted({round(float(v), int(rng.integers(0, 4))) for v in rng.uniform(lo, hi, n)} | {round(hi, 2)})
        ts = [[f"{v}", f"{v:g}", f"{v:.3f}"][rng.integers(3)] for v in xs]
        return ",".join(ts), [float(t) for t in ts], ts
    if how == 2:
        d = float(rng.choice([0.25, 0.5, 0.1, 0.3])); a = round(float(rng.uniform(lo, max(lo, hi - n * d))), 1)
        b = a + d * (n - 1) + (0.4 * d if rng.random() < .3 else 0)
        return f"{num(a)}/{num(b)}/{num(d)}", [a + d * i for i in range(n)], None
    xs = sorted({round(float(v), 3) for v in rng.uniform(lo, hi, n)})
    ts = [[f"{v}", f"{v:.4f}"][rng.integers(2)] for v in xs]
    ctx.write(name, "".join(t + "\n" for t in ts))
    return name, [float(t) for t in ts], ts


def layer(L, d):
    z = gen.interfaces(L)
    for i in range(len(L) - 1):
        if d <= z[i + 1] + 1e-12: return i
    return len(L) - 1


def f4(x):
    return float(np.float32(x))


def near(a, b, tol=2e-7):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-30


def geometry(ctx, solid=False):
    rng = ctx.rng
    for _ in range(100):
        L, kind = (gen.solid if solid else gen.model)(rng, nmax=4)
        z = gen.interfaces(L)
        if all(l[2] > 0 for l in L) or rng.random() < .6: break
    style = ["thick", "depth"][rng.integers(2)]
    mname = ["mod", "a.mod", "m_1_2", "dir1/halfspace.txt", "./x"][rng.integers(5)]
    if "/" in mname and not mname.startswith("."): os.makedirs(ctx.path(os.path.dirname(mname)), exist_ok=True)
    ctx.write(mname, gen.text(L, style) )
    ctx.tag("kind:" + kind, style)
    return L, mname


def usable(L, d):
    """depths not on a face of a liquid"""
    z = gen.interfaces(L)
    for i in range(1, len(L)):
        if abs(d - z[i]) < 1e-9 and (L[i][2] == 0 or L[i - 1][2] == 0): return False
    return True


def depth_args(ctx, L, liquid_src=False):
    rng = ctx.rng
    for _ in range(300):
        if rng.random() < .5:
            ds, dr = gen.depth(rng, L, maxd=5.0, solid_only=not liquid_src), gen.depth(rng, L, maxd=5.0, solid_only=False)
            if usable(L, ds) and usable(L, dr): return [f"-D{num(ds)}/{num(dr)}"], [ds], [dr]
            continue
        a, ds, _ = values(ctx, "dsf", 0.0, 3.0, 3); b, dr, _ = values(ctx, "drf", 0.0, 3.0, 2)
        if all(usable(L, d) for d in ds + dr) and (liquid_src or all(L[layer(L, d)][2] > 0 for d in ds)):
            return [f"-Ds{a}", f"-Dr{b}"], ds, dr
    raise RuntimeError("depths")


def check_common(ctx, h, n, key, ds, dr, r, L, wI, b, npts, delta, dirname):
    """headers every Green's function trace carries"""
    S, R = L[layer(L, ds)], L[layer(L, dr)]
    q = lambda v: 1.0 / v if v > 0 else 0.0
    want = dict(delta=delta, b=b, e=b + (npts - 1) * delta, o=0.0, evdp=ds, stel=-1e3 * dr, dist=r, user0=wI,
                user1=R[1], user2=R[2], user3=R[3], user4=q(R[4]), user5=q(R[5]), user6=S[1], user7=S[2], user8=S[3])
    for k, v in want.items():
        tol = 3e-7 if k not in ("b", "e") else 4e-6
        g = getattr(h, k)
        ctx.check(f"{key}:{k}", near(g, v, tol) or k in ("b", "e") and abs(g - v) <= 3e-6 * (abs(b) + npts * delta + (abs(h.t0) if abs(h.t0) < 1e4 else 0)), f"{dirname}/{n}: header {k}={g!r}, want {v!r}")
    ctx.check(f"{key}:npts", h.npts == npts and len(h.data) == npts, f"{dirname}/{n}: npts {h.npts} want {npts}")
    ctx.check(f"{key}:kt", kt(h, 0) == "P" and kt(h, 1) == "S", f"{dirname}/{n}: kt0={kt(h, 0)!r} kt1={kt(h, 1)!r}")
    ctx.check(f"{key}:kcmpnm", h.kcmpnm == n, f"{dirname}/{n}: kcmpnm={h.kcmpnm!r}")
    for k, col in (("t0", 1), ("t1", 2)):
        t = reftt.first(L, col, ds, dr, r)[0]
        g = getattr(h, k)
        if t is None: ctx.check(f"{key}:{k}", near(g, NULL) , f"{dirname}/{n}: header {k}={g!r} but there is no such arrival")
        else: ctx.check(f"{key}:{k}", abs(g - t) <= 2e-6 * max(1, t), f"{dirname}/{n}: header {k}={g!r}, first arrival {t!r}")
    ctx.check(f"{key}:enum", h.i[6] == 6 and h.i[15] == 1 and h.i[17] == 11 and h.i[35] == 1, f"{dirname}/{n}: nvhdr {h.i[6]} iftype {h.i[15]} iztype {h.i[17]} leven {h.i[35]}")


def kt(h, j):
    """kt0.. in the header text"""
    # kstnm 8, kevnm 16, khole 8, ko 8, ka 8, kt0 8, ...
    o = 48 + 8 * j
    return h.k[o:o + 8].split(b"\0")[0].decode("latin1").strip()


def delays(rng):
    m = rng.integers(5)
    t0 = round(float(rng.uniform(-2, 3)), 2); v0 = round(float(rng.uniform(2, 8)), 1)
    if m == 0: return [], 0.0, 0.0, False
    if m in (1, 2): return [f"-E{t0}"], t0, 0.0, False
    if m == 3: return [f"-E{t0}/{v0}"], t0, v0, False
    t0 = -abs(t0) - .1
    return [f"-Ep{t0:g}"], t0, 0.0, True


def begin(L, ds, dr, r, t0, v0, refP):
    if refP: return t0 + reftt.first(L, 1, ds, dr, r)[0]
    return t0 + (np.hypot(r, ds - dr) / v0 if v0 > 0 else 0.0)


def expected_names(gsel, e, liquid, comps="ZRT"):
    out = set()
    for s, g in zip(gio.SRC, "evhsss"):
        if g not in gsel or (liquid and s != "EX"): continue
        for c in G.CHN[s]:
            if c in comps: out |= {p + s + c for p in (("", "z", "r") if e else ("",))}
    return out


def check_dirs(ctx, out, mname, ds, dr, rs, rtx, key, extra=()):
    base = os.path.basename(mname)
    found = set(gio.subdirs(ctx.path(out)))
    M = {}
    for a in ds:
        for b in dr:
            for i, r in enumerate(rs):
                if rtx is not None:
                    nm = f"{base}_{a:g}_{b:g}_{rtx[i]}"
                    M[nm] = (a, b, r)
                else:
                    # any spelling of the distance of a range
                    for d in found:
                        if d.startswith(f"{base}_{a:g}_{b:g}_") :
                            try:
                                if near(float(d[len(f"{base}_{a:g}_{b:g}_"):]), r, 1e-9): M[d] = (a, b, r)
                            except ValueError: pass
    ctx.check(f"{key}:layout", set(M) == found and len(M) == len(ds) * len(dr) * len(rs), f"{out}: directories {sorted(found ^ set(M))[:6]} (have {len(found)}, want {len(ds) * len(dr) * len(rs)})")
    files = {f for f in os.listdir(ctx.path(out)) if f not in found}
    ctx.check(f"{key}:root", files == {"command", base} | set(extra), f"{out}: files {sorted(files)}")
    if {"command", base} <= files:
        ctx.check(f"{key}:model-copy", open(ctx.path(out, base), "rb").read() == open(ctx.path(mname), "rb").read(), f"{out}/{base} is not the model file")
    return M


def check_command(ctx, out, argvs, key):
    p = ctx.path(out, "command")
    if not os.path.exists(p): return
    got = [l.split() for l in open(p).read().split("\n") if l.strip()]
    ctx.check(f"{key}:command", len(got) == len(argvs) and all(sorted(a) == sorted(["grt", *b]) and a[:2] == ["grt", b[0]] for a, b in zip(got, argvs)), f"{out}/command holds {got}, want {argvs}")


def green(ctx):
    rng = ctx.rng
    L, mname = geometry(ctx)
    liq = rng.random() < .3
    dargs, ds, dr = depth_args(ctx, L, liq)
    a, rs, rtx = values(ctx, "rf", 0.5, 9.0, 3)
    nt = int(rng.choice([8, 9, 16, 21])); dt = float(rng.choice([0.05, 0.1, 0.5])); zeta = round(float(rng.uniform(.3, 2)), 2) if rng.random() < .6 else None; ups = int(rng.choice([1, 1, 2, 3]))
    eargs, t0, v0, refP = delays(rng)
    if refP and any(L[layer(L, d)][2] == 0 for d in ds + dr) and False: pass
    e = rng.random() < .4
    gsel = "".join(c for c in "evhs" if rng.random() < .5)
    gargs = ["-G" + gsel] if gsel else []
    gs = gsel or "evhs"
    anyliq = [L[layer(L, d)][2] == 0 for d in ds]
    if any(anyliq) and "e" not in gs: gs += "e"; gargs = ["-G" + gs]
    argv = ["greenfn", f"-M{mname}", *dargs, f"-N{nt}/{dt}" + (f"+w{zeta}" if zeta else "") + (f"+n{ups}" if ups > 1 else "") + ("+a" if rng.random() < .3 else "") + ("+f" if rng.random() < .2 else ""), f"-R{a}", "-OG",
            "-L3", "-K+k1", "-Cn", "-s", *eargs, *gargs, *(["-e"] if e else []), *(["-P2"] if rng.random() < .3 else [])]
    ctx.grt(*argv)
    ctx.tag("delayP" if refP else "delay" if eargs else "nodelay", "lists" if len(ds) * len(dr) > 1 else "one", "liquid-source" if any(anyliq) else "solid-source", "range" if rtx is None else "texts")
    M = check_dirs(ctx, "G", mname, ds, dr, rs, rtx, "green")
    check_command(ctx, "G", [argv], "green")
    wI = (zeta or 0.8) * np.pi / (nt * dt)
    for d, (s, z, r) in M.items():
        D = gio.read_dir(ctx.path("G", d))
        want = expected_names(gs, e, L[layer(L, s)][2] == 0)
        ctx.check("green:files", set(D) == want, f"{d}: {sorted(set(D) ^ want)}")
        b = begin(L, s, z, r, t0, v0, refP)
        for n, h in D.items(): check_common(ctx, h, n, "green", s, z, r, L, wI, b, nt * ups, dt / ups, d)
    ctx.stats["traces"] = ctx.stats.get("traces", 0) + sum(len(gio.read_dir(ctx.path("G", d))) for d in M)
    # a second run in the same place adds its command, keeps everything else
    if rng.random() < .4 and len(M) < 10:
        before = {d: {n: h.data.tobytes() for n, h in gio.read_dir(ctx.path("G", d)).items()} for d in M}
        argv2 = [x for x in argv if not x.startswith("-R")] + ["-R11.25"]
        ctx.grt(*argv2)
        check_command(ctx, "G", [argv, argv2], "green")
        after = {d: {n: h.data.tobytes() for n, h in gio.read_dir(ctx.path("G", d)).items()} for d in M}
        same = rng.random() < 0 or before == after
        ctx.check("green:keep", same, "adding a distance to an existing library changed the traces already there")
        ctx.check("green:added", set(gio.subdirs(ctx.path("G"))) == set(M) | {f"{os.path.basename(mname)}_{s:g}_{z:g}_11.25" for s in ds for z in dr}, f"{gio.subdirs(ctx.path('G'))}")


COPY = [n for n in gio.FN if n not in ("az", "baz", "depmin", "depmax", "depmen")]


def syn(ctx):
    rng = ctx.rng
    L, _ = gen.solid(rng, nmax=3); mname = "mod"; ctx.write(mname, gen.text(L))
    ds, dr = gen.depth(rng, L, maxd=4.0), gen.depth(rng, L, maxd=4.0)
    r = 0.0 if rng.random() < .2 else round(float(rng.uniform(.5, 9)), 2)
    rs = [r] if r else [0.0, 3.0]
    e = rng.random() < .6
    nt, dt = int(rng.choice([8, 16, 21])), .1
    eargs, t0, v0, refP = delays(rng)
    ctx.grt("greenfn", "-Mmod", f"-D{num(ds)}/{num(dr)}", f"-N{nt}/{dt}", "-R" + ",".join(num(x) for x in rs), "-OG", "-L3", "-K+k1", "-Cn", "-s", *eargs, *(["-e"] if e else []))
    g = f"G/mod_{ds:g}_{dr:g}_{num(r)}"
    D = gio.read_dir(ctx.path(g)); H = next(iter(D.values()))
    kind, par, sargs = source(rng)
    az = [0.0, 360.0, round(float(rng.uniform(0, 360)), 2), 180.0][rng.choice(4, p=[.1, .1, .7, .1])]
    zne = rng.random() < .5
    ch = "ZNE" if zne else "ZRT"
    td = []
    if rng.random() < .4: td = ["-Dp/0.4"]
    ctx.grt("syn", f"-G{g}", f"-A{num(az)}", "-S1e20", *sargs, "-OS", "-s", *(["-N"] if zne else []), *(["-e"] if e else []), *td, *(["-I1"] if rng.random() < .2 else []))
    want = set(ch) | ({a.lower() + b for a in ch for b in ch} if e else set()) | ({"sig"} if td else set())
    S = gio.read_dir(ctx.path("S"))
    ctx.check("syn:files", set(S) == want, f"{sorted(set(S) ^ want)}")
    a = 0.0 if r == 0 else az
    ba = a + 180 - (360 if a + 180 >= 360 else 0)
    ctx.tag("zne" if zne else "zrt", "r0" if r == 0 else "r>0", "deriv" if e else "plain", kind)

    def header(h, n, name, azb=True):
        for k in COPY:
            x, y = h.f[gio.FI[k]], H.f[gio.FI[k]]
            ctx.check(f"syn:copy", x == y, f"{name}/{n}: header {k}={x!r}, the Green's function says {y!r}")
        if azb:
            ctx.check("syn:az", near(h.az, a, 3e-7) and near(h.baz, ba, 3e-7), f"{name}/{n}: az={h.az} baz={h.baz}, want {a}/{ba}")
        ctx.check("syn:npts", h.npts == H.npts, f"{name}/{n}: npts {h.npts}")
    for n in sorted(set(S) & want):
        if n == "sig":
            h = S[n]; ctx.check("syn:sig", h.b == 0 and near(h.delta, dt) and near(h.e, (h.npts - 1) * h.delta, 1e-6), f"sig.sac b={h.b} e={h.e} delta={h.delta} npts={h.npts}")
            continue
        header(S[n], n, "S"); ctx.check("syn:kcmpnm", S[n].kcmpnm == n, f"S/{n}: kcmpnm={S[n].kcmpnm!r}")
    if e:
        for m in ("strain", "stress", "rotation"):
            ctx.grt(m, "S")
        S2 = gio.read_dir(ctx.path("S"))
        i = [(p, q) for x, p in enumerate(ch) for q in ch[x:]]
        want2 = want | {f"{m}_{p}{q}" for m in ("strain", "stress") for p, q in i} | {f"rotation_{p}{q}" for p, q in i if p != q}
        ctx.check("syn:derived", set(S2) == want2, f"{sorted(set(S2) ^ want2)}")
        for n in set(S2) & want2 - want:
            header(S2[n], n, "S"); ctx.check("syn:kcmpnm", S2[n].kcmpnm == n.split("_")[1], f"S/{n}: kcmpnm={S2[n].kcmpnm!r}")
        for n in want - {"sig"}:
            ctx.check("syn:untouched", n in S2 and S2[n].data.tobytes() == S[n].data.tobytes(), f"S/{n} changed by strain/stress/rotation")


def axis(rng):
    n = int(rng.integers(1, 4)); d = float(rng.choice([.5, .25, 1.1])); a = round(float(rng.uniform(-2, 2)), 2)
    return f"{num(a)}/{num(a + d * (n - 1))}/{num(d)}", [a + d * i for i in range(n)]


def close_arr(a, b, tol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.all(np.abs(a - b) <= tol * np.maximum(1, np.abs(b)))


def static(ctx):
    rng = ctx.rng
    L, mname = geometry(ctx, solid=True)
    dargs, ds, dr = depth_args(ctx, L)
    e = rng.random() < .6
    if rng.random() < .4:
        xs, north = axis(rng); ys, east = axis(rng); geo = [f"-X{xs}", f"-Y{ys}"]
    else:
        a, east, _ = values(ctx, "rf", .5, 8., 3); north = [0.0]; geo = [f"-R{a}"]
    ctx.grt("static", "greenfn", f"-M{mname}", *dargs, *geo, "-Og.nc", "-L2", "-K+k.3+f", "-Cn", *(["-e"] if e else []))
    V, dims, at = gio.read_nc(ctx.path("g.nc"))
    ctx.tag("grid" if len(geo) == 2 else "list", "deriv" if e else "plain")
    ax = dict(depsrc=ds, deprcv=dr, north=north, east=east)
    for k, v in ax.items(): ctx.check("static:axes", k in V and dims[k] == (k,) and close_arr(V[k], v, 1e-9), f"{k} = {V.get(k)}, want {v}")
    col = lambda j, dep: [L[layer(L, d)][j] for d in dep]
    for p, dn, dep in (("src", "depsrc", ds), ("rcv", "deprcv", dr)):
        for j, n in ((1, "va"), (2, "vb"), (3, "rho")):
            ctx.check("static:medium", dims.get(f"{p}_{n}") == (dn,) and close_arr(V[f"{p}_{n}"], col(j, dep)), f"{p}_{n} = {V.get(f'{p}_{n}')}, want {col(j, dep)} at depths {dep}; model {L}")
    m = V["model"]
    top = gen.interfaces(L)
    want = np.array([[t, l[1], l[2], l[3]] for t, l in zip(top, L)])
    okm = m.shape[0] >= len(L) and close_arr(m[:len(L), 1:4], want[:, 1:]) and m.shape[0] == len(L)
    thick = np.array([l[0] for l in L])
    ctx.check("static:model", okm and (close_arr(m[:, 0], top, 1e-9) or close_arr(m[:-1, 0], thick[:-1], 1e-9)), f"model table {m.tolist()}, model {L}")
    ctx.check("static:attr", at.get("calc_upar") == (1 if e else 0), f"calc_upar={at.get('calc_upar')}")
    names = expected_names("evhs", e, False)
    got = {k for k in V if len(dims[k]) == 4}
    ctx.check("static:vars", got == names and all(dims[k] == ("depsrc", "deprcv", "north", "east") and V[k].shape == (len(ds), len(dr), len(north), len(east)) for k in got), f"{sorted(got ^ names)}")
    # synthesis
    kind, par, sargs = source(rng)
    zne = rng.random() < .5; ch = "ZNE" if zne else "ZRT"
    b = ["static", "syn", "-Gg.nc", "-Oy.nc", "-s", "-S1e20", *sargs, *(["-N"] if zne else []), *(["-e"] if e else [])]
    pick = lambda x: float(x[rng.integers(len(x))]) if len(x) == 1 or rng.random() < .4 else round(float(rng.uniform(x[0], x[-1])), 4)
    s = ds[0]
    if len(ds) > 1 or rng.random() < .2: s = pick(ds); b.append(f"-Ds{s!r}")
    how = rng.integers(3)
    z = dr[0]; pts = None; N, E = north, east
    if how == 2 :
        six = rng.random() < .4
        pts = np.array([[round(float(rng.uniform(-3, 3)), 3), round(float(rng.uniform(-3, 3)), 3), pick(dr)] + ([round(float(rng.uniform(0, 360)), 1), round(float(rng.uniform(0, 90)), 1), round(float(rng.uniform(-180, 180)), 1)] if six else []) for _ in range(int(rng.integers(1, 6)))])
        ctx.write("pts", "# n e z\n" + "".join(" ".join(repr(float(x)) for x in row) + "\n" for row in pts)); b.append("-Qpts")
    else:
        if len(dr) > 1 or rng.random() < .2: z = pick(dr); b.append(f"-Dr{z!r}")
        if how == 1:
            xs, N = axis(rng); ys, E = axis(rng); b += [f"-X{xs}", f"-Y{ys}"]
    ctx.grt(*b)
    check_points(ctx, "y.nc", "ssyn", ch, e, N, E, z, pts, lambda d: L[layer(L, d)][1:4], dict(depsrc=s, computeType=kind, rot2ZNE=int(zne), calc_upar=int(e)))
    if e: derived(ctx, "y.nc", ch, "point" if pts is not None else "grid")


def check_points(ctx, path, key, ch, e, N, E, z, pts, med, attrs):
    V, dims, at = gio.read_nc(ctx.path(path))
    dn = ("point",) if pts is not None else ("north", "east")
    ctx.tag(f"{key}-{'points' if pts is not None else 'grid'}")
    for k, v in dict(attrs, layout="points" if pts is not None else "grid").items():
        g = at.get(k)
        ctx.check(f"{key}:attr", g == v if isinstance(v, (str, int)) else g is not None and near(float(g), v, 1e-12), f"attribute {k}={g!r}, want {v!r}")
    names = set(ch) | ({a.lower() + b for a in ch for b in ch} if e else set())
    coords = {"north", "east"} | ({"depth", "rcv_va", "rcv_vb", "rcv_rho"} if pts is not None else set()) | ({"strike", "dip", "rake"} if pts is not None and pts.shape[1] == 6 else set())
    ctx.check(f"{key}:vars", set(V) == names | coords, f"variables {sorted(set(V) ^ (names | coords))}")
    ctx.check(f"{key}:dims", all(dims[n] == dn for n in names & set(V)), f"{ {n: dims[n] for n in names & set(V)} }")
    if pts is None:
        ctx.check(f"{key}:axes", close_arr(V["north"], N, 1e-9) and close_arr(V["east"], E, 1e-9), f"north {V['north']} east {V['east']}, want {N} {E}")
        ctx.check(f"{key}:attr", near(float(at.get("deprcv", np.nan)), z, 1e-12), f"deprcv={at.get('deprcv')} want {z}")
        for k, v in zip(("rcv_va", "rcv_vb", "rcv_rho"), med(z)): ctx.check(f"{key}:medium", near(float(at.get(k, np.nan)), v, 1e-12), f"{k}={at.get(k)} at depth {z}, want {v}")
    else:
        for j, k in enumerate(["north", "east", "depth", "strike", "dip", "rake"][:pts.shape[1]]): ctx.check(f"{key}:axes", k in V and close_arr(V[k], pts[:, j]), f"{k} = {V.get(k)}, want {pts[:, j]}")
        M = np.array([med(d) for d in pts[:, 2]])
        for j, k in enumerate(("rcv_va", "rcv_vb", "rcv_rho")): ctx.check(f"{key}:medium", k in V and close_arr(V[k], M[:, j]), f"{k} = {V.get(k)}, want {M[:, j]} at depths {pts[:, 2]}")


def derived(ctx, path, ch, lay):
    V0, D0, A0 = gio.read_nc(ctx.path(path))
    for m in ("static_strain", "static_stress", "static_rotation"): ctx.grt(m, path)
    V, D, A = gio.read_nc(ctx.path(path))
    i = [(p, q) for x, p in enumerate(ch) for q in ch[x:]]
    new = {f"{m}_{p}{q}" for m in ("strain", "stress") for p, q in i} | {f"rotation_{p}{q}" for p, q in i if p != q}
    ctx.check("sderived:vars", set(V) == set(V0) | new, f"{sorted(set(V) ^ set(V0) ^ new)}")
    ctx.check("sderived:dims", all(D[n] == D0[ch[0]] for n in new & set(V)), f"{ {n: D[n] for n in new & set(V)} }")
    ctx.check("sderived:untouched", all(n in V and np.array_equal(V[n], V0[n], equal_nan=True) for n in V0) and all(np.array_equal(A.get(k), A0[k]) for k in A0), "earlier variables or attributes changed")


def okada(ctx):
    rng = ctx.rng
    vp = round(float(rng.uniform(4, 7)), 3); vs = round(vp / float(rng.uniform(1.5, 2.2)), 3); rho = round(float(rng.uniform(2, 3)), 3)
    e = rng.random() < .5; zne = rng.random() < .5; ch = "ZNE" if zne else "ZRT"
    s = round(float(rng.uniform(.5, 5)), 3)
    a = ["okada", f"-I{vp}/{vs}/{rho}", "-Oo.nc", *(["-N"] if zne else []), *(["-e"] if e else []), *(["-s"] if rng.random() < .5 else [])]
    attrs = dict(rot2ZNE=int(zne), calc_upar=int(e), alpha=1 - (vs / vp) ** 2, mu=rho * vs * vs * 1e10)
    attrs["lambda"] = rho * (vp * vp - 2 * vs * vs) * 1e10
    attrs["coordinate"] = "Okada X=strike,Y=up-dip horizontal,Z=up"
    k = rng.integers(4)
    if k == 3:
        ctx.write("flt", "#  x\n# y\n  1 0.0 -2.0 0.0 2.0 100 1.00 0.50 60.0 1.0 3.0 f\n"); a.append("-Cflt"); attrs["computeType"] = "FF"
    else:
        a += ["-S1e20", f"-Ds{s}"] + [[], ["-M20/50"], ["-M20/50/-70"]][k]; attrs["computeType"] = ["EX", "TS", "DC"][k]; attrs["depsrc"] = s
    pts = None; N = E = None; z = 0.0
    if rng.random() < .5:
        six = rng.random() < .4
        pts = np.array([[round(float(rng.uniform(-3, 3)), 3), round(float(rng.uniform(-3, 3)), 3), round(float(rng.uniform(0, 4)), 2)] + ([10., 20., 30.] if six else []) for _ in range(int(rng.integers(1, 6)))])
        ctx.write("pts", "".join(" ".join(repr(float(x)) for x in row) + "\n" for row in pts)); a.append("-Qpts")
    else:
        xs, N = axis(rng); ys, E = axis(rng); a += [f"-X{xs}", f"-Y{ys}"]
        z = [0.0, round(float(rng.uniform(0, 3)), 2)][rng.integers(2)]; a.append(f"-Dr{z}")
    ctx.grt(*a)
    check_points(ctx, "o.nc", "okada", ch, e, N, E, z, pts, lambda d: (vp, vs, rho), attrs)
    if k == 3: ctx.check("okada:attr", "depsrc" not in gio.read_nc(ctx.path("o.nc"))[2], "a finite-fault result names a single source depth")
    if e: derived(ctx, "o.nc", ch, None)


def modal(ctx):
    from checks.c15 import a_model
    rng = ctx.rng
    L = a_model(rng, ["incr", "two", "liqtop", "lvz"][rng.integers(4)])
    mname = ["mod", "dir1/m.txt"][rng.integers(2)]
    if "/" in mname: os.makedirs(ctx.path("dir1"), exist_ok=True)
    if rng.random() < .5: L = [l[:4] + [0.0, 0.0] for l in L]
    ctx.write(mname, gen.text(L))
    wt = "RL"[rng.integers(2)]
    if wt == "L" and sum(l[2] > 0 for l in L) < 2: wt = "R"
    H = sum(l[0] for l in L[:-1]); vm = min(l[2] if l[2] > 0 else l[1] for l in L)
    df = round(.12 * vm / H, 4); nf = int(rng.integers(5, 11)); fmax = round(df * nf, 6)
    fopt = f"-F0/{num(fmax)}/{num(df)}"
    argv = ["eigenv", f"-M{mname}", "-Ceig.nc", f"-S{wt}", fopt, "-N", "-s"]
    r = ctx.grt(*argv, expect=None)
    if r.rc:
        if "No eigenvalues" in r.err + r.out: ctx.tag("no-modes"); return
        ctx.violate("modal:refused", (r.err + r.out)[-300:]); raise Halt()
    V, D, A = gio.read_nc(ctx.path("eig.nc"))
    base = os.path.basename(mname)
    ctx.check("modal:attr", A.get("isRayl") == int(wt == "R") and os.path.exists(ctx.path(A.get("model", "?"))) and open(ctx.path(A["model"])).read() == open(ctx.path(mname)).read(), f"isRayl={A.get('isRayl')} model={A.get('model')!r}")
    ctx.check("modal:command", sorted(A.get("command", "").split()) == sorted(["grt", *argv]), f"command attribute {A.get('command')!r}, ran {argv}")
    fw = df * np.arange(1, nf + 1)
    ctx.check("modal:axes", close_arr(V["freq"], fw, 1e-9) and V["mode"].tolist() == list(range(len(V["mode"]))) and V["c"].shape == (nf, len(V["mode"])) == V["ciref"].shape and D["c"] == ("freq", "mode"), f"freq {V['freq']}, want {fw}; mode {V['mode']}")
    n = V["cnum"]
    ctx.check("modal:fill", len(V["mode"]) == n.max() and all((V["c"][i, :n[i]] > 0).all() and (V["c"][i, n[i]:] == 0).all() for i in range(nf)), "unused entries are not marked")
    ctx.tag(wt, f"modes{min(int(n.max()), 9)}")
    nm = len(V["mode"])
    # eigenfn with selections
    fsel, idx = fselect(ctx, V["freq"]); nsel, modes = nselect(rng, nm)
    z2 = round(1.3 * H, 2); dz = round(z2 / 5, 3)
    ctx.grt("eigenfn", "-Ceig.nc", "-Uu.nc", f"-Ww.nc+z0/{num(dz * 5)}/{num(dz)}", "-K+ckc.nc+uku.nc", *fsel, *nsel)
    files = dict(u="u.nc", w="w.nc", kc="kc.nc", ku="ku.nc")
    U = {}
    for k, p in files.items():
        W, DW, AW = gio.read_nc(ctx.path(p)); U[k] = W
        ctx.check("modal:attr", AW.get("isRayl") == int(wt == "R"), f"{p} isRayl={AW.get('isRayl')}")
        if k == "ku": ctx.check("modal:sel", True, "")
        keep = [i for i in idx if k != "ku" or True]
        ctx.check("modal:sel", close_arr(W["freq"], V["freq"][keep], 0) and W["mode"].tolist() == modes, f"{p}: freq {W['freq']} mode {W['mode']}, selected {V['freq'][idx]} {modes} by {fsel} {nsel}")
        if not np.array_equal(W["freq"], V["freq"][idx]) or W["mode"].tolist() != modes: return
        cn = [sum(m < n[i] for m in modes) for i in idx]
        ctx.check("modal:cnum", W["cnum"].tolist() == cn, f"{p}: cnum {W['cnum']} want {cn}")
        if "c" in W:
            wc = np.array([[V["c"][i, m] if m < n[i] else 0.0 for m in modes] for i in idx])
            ctx.check("modal:c", np.array_equal(W["c"], wc), f"{p}: phase velocities differ from the input")
        for v in W:
            if v in DW and DW[v][:2] == ("freq", "mode"):
                for a, i in enumerate(idx): ctx.check("modal:fill", not np.any(W[v][a, cn[a]:]), f"{p}:{v} holds values for modes that do not exist")
    # the deepest interface-split grid starts at 0 and holds the requested depths
    zz = U["w"]["z"]
    ctx.check("modal:z", close_arr(zz, dz * np.arange(len(zz)), 1e-9) and len(zz) == 6, f"z {zz}, requested 0/{dz * 5}/{dz}")
    # disp2asc
    for path, W, opt in (("eig.nc", V, "-C"), ("u.nc", U["u"], "-U")):
        fs, ii = fselect(ctx, W["freq"]); ns, mm = nselect(rng, int(W["mode"].max()) + 1)
        default = rng.random() < .2
        if default: ns, mm = [], [0]
        if opt == "-U":
            mm = [m for m in mm if m in W["mode"].tolist()]
            if ns == ["-N"]: pass
        r = ctx.grt("disp2asc", f"{opt}{path}", *fs, *ns, expect=None)
        lines = []
        for i in ii:
            for m in mm:
                j = W["mode"].tolist().index(m)
                if j >= W["cnum"][i]: continue
                lines.append(("%15.5e %10d %20.8e %10d" % (W["freq"][i], m, W["c"][i, j], W["ciref"][i, j])) if opt == "-C" else ("%15.5e %10d %20.8e %20.8e" % (W["freq"][i], m, W["c"][i, j], W["u"][i, j])))
        if r.rc and not mm: ctx.tag("no-mode-selected"); continue
        ctx.check(f"disp2asc{opt}", r.rc == 0 and r.out.split("\n") == lines + [""], f"{fs} {ns}: printed {r.out[:400]!r}, stored {lines[:4]} ({len(lines)} lines)")
        ctx.stats["table-lines"] = ctx.stats.get("table-lines", 0) + len(lines)
    if abs(fw[0] - df) > 1e-9: return
    # modsum
    ds, dr = gen.depth(rng, L, maxd=3.), gen.depth(rng, L, maxd=3., solid_only=True)
    eargs, t0, v0, refP = delays(rng)
    a, rs, rtx = values(ctx, "rf", 2., 20., 2)
    fac = int(rng.choice([1, 1, 2]))
    e = rng.random() < .4
    argv = ["modsum", "-Ceig.nc", f"-D{num(ds)}/{num(dr)}", f"-R{a}", "-OM", "-N", *eargs, *([f"-W{fac}"] if fac > 1 else []), *(["-e"] if e else [])]
    r = ctx.grt(*argv, expect=None)
    if r.rc: ctx.violate("modal:modsum", (r.out + r.err)[-300:]); return
    comps = "ZR" if wt == "R" else "T"
    M = check_dirs(ctx, "M", base, [ds], [dr], rs, rtx, "modsum") if mname == base else check_dirs_m(ctx, "M", mname, ds, dr, rs, rtx)
    check_command(ctx, "M", [argv], "modsum")
    nt = 2 * nf; dt = 1 / (nt * df)
    for d, (s, z, r) in M.items():
        X = gio.read_dir(ctx.path("M", d)); want = expected_names("evhs", e, False, comps)
        ctx.check("modsum:files", set(X) == want, f"{d}: {sorted(set(X) ^ want)}")
        for nme, h in X.items(): check_common(ctx, h, nme, "modsum", s, z, r, L, 0.0, begin(L, s, z, r, t0, v0, refP), nt * fac, dt / fac, d)


def check_dirs_m(ctx, out, mname, ds, dr, rs, rtx):
    return check_dirs(ctx, out, mname, [ds], [dr], rs, rtx, "modsum")


def fselect(ctx, F):
    rng = ctx.rng; F = np.atleast_1d(F); n = len(F); k = rng.integers(5)
    if k == 0: return [], list(range(n))
    if k == 1:
        i = int(rng.integers(n)); return [f"-F{F[i]!r}".replace("np.float64(", "").replace(")", "")], [i]
    if k == 2:
        i, j = sorted(rng.integers(0, n, 2)); d = .3 * (F[1] - F[0] if n > 1 else F[0])
        if rng.random() < .4: return [f"-F{float(F[i])!r}/{float(F[j])!r}"], list(range(i, j + 1))
        return [f"-F{F[i] - d:.8g}/{F[j] + d:.8g}"], list(range(i, j + 1))
    if k == 3:
        i, j = sorted(rng.integers(0, n, 2)); d = .3 * (F[1] - F[0] if n > 1 else F[0])
        return [f"-F{1 / (F[j] + d):.8g}/{1 / (F[i] - d):.8g}+p"], list(range(i, j + 1))
    i = int(rng.integers(n))
    return [f"-F{1 / F[i]:.17g}+p"], [i]


def nselect(rng, nm):
    k = rng.integers(4)
    if k == 0: return ["-N"], list(range(nm))
    if k == 1: m = int(rng.integers(nm)); return [f"-N{m}"], [m]
    i, j = sorted(int(x) for x in rng.integers(0, nm, 2))
    if k == 2: return [f"-N{i}/{j}"], list(range(i, j + 1))
    d = int(rng.integers(1, 4)); return [f"-N{i}/{j}/{d}"], list(range(i, j + 1, d))


def bessel_terms(ker, k, r):
    """integrand of one record file (q, w, v as stored)"""
    d = {(s, c): ker[f"{s}_{c}"] * (-1 if c == "v" else 1) if f"{s}_{c}" in ker.dtype.names else np.zeros(len(k), complex) for s in gio.SRC for c in "qwv"}
    return G.combine(d, k, r, deriv=False)


def same_records(ctx, opts, rel, key):
    """the records hold the kernels themselves: the convergence method changes how they are summed, not what is saved"""
    rng = ctx.rng
    extra = [] if rng.random() < .5 else ["+l%g" % rng.choice([20, 60]), "+l%g+o%g" % (rng.choice([20, 60]), rng.choice([.5, 2]))][int(rng.integers(2))]
    got = {}
    for c in ("n", "d", "p"):
        os.makedirs(ctx.path("conv" + c), exist_ok=True)
        o = [x + extra if extra and x.startswith("-L") else "-C" + c if x == "-Cn" else "-M../mod" if x == "-Mmod" else "-R../rf" if x == "-Rrf" else x for x in opts]
        r = ctx.grt(*o, cwd=ctx.path("conv" + c), expect=0)
        if r.rc: return
        p = ctx.path("conv" + c, rel)
        if not ctx.check(key + ":saved", os.path.exists(p), f"-C{c}: {rel} not saved"): return
        got[c] = gio.read_stats(p)
    for c in "dp":
        a, b = got["n"], got[c]
        # the integration may end elsewhere, and may add points beyond the end; the points in common carry the same numbers
        n = min(len(a), len(b))
        ctx.check(key + ":k", n > 3 and close_arr(a["k"][:n], b["k"][:n], 1e-9), f"-Cn / -C{c}: wavenumbers {a['k'][:3]} {b['k'][:3]}")
        if not close_arr(a["k"][:n], b["k"][:n], 1e-9): continue
        bad = [x for x in a.dtype.names[1:] if not close_arr(a[x][:n], b[x][:n], 1e-12)]
        ctx.check(key + ":kernels", not bad, f"{rel}: kernels {bad} saved with -C{c}{extra} are not those saved with -Cn")
    ctx.tag("conv" + ("+fim" if extra else ""))


def records(ctx):
    """sums over the saved integration records equal the traces; selected indices only"""
    rng = ctx.rng
    L, _ = gen.model(rng, nmax=4); ctx.write("mod", gen.text(L))
    for _ in range(300):
        ds, dr = gen.depth(rng, L, maxd=4.), gen.depth(rng, L, maxd=4., solid_only=False)
        if usable(L, ds) and usable(L, dr) and abs(ds - dr) > .2: break
    else: raise Halt()
    nt = int(rng.choice([12, 13, 20])); dt = float(rng.choice([.1, .25])); zeta = round(float(rng.uniform(.5, 2)), 2)
    a, rs, rtx = values(ctx, "rf", .5, 8., 2)
    e = rng.random() < .5
    Lk = float(rng.integers(4, 9))
    opts = ["greenfn", "-Mmod", f"-D{num(ds)}/{num(dr)}", f"-N{nt}/{dt}+w{zeta}+a", f"-R{a}", f"-L{Lk:g}", "-K+k2+s1.2", "-Cn", "-s", *(["-e"] if e else []), "-P%d" % rng.choice([1, 3])]
    ctx.grt(*opts, "-OG", "-S")
    sd = ctx.path("G_grtstats", f"mod_{ds:g}_{dr:g}")
    nf = nt // 2 + 1
    names = [f"K_{i:04d}_{i / (nt * dt):.5e}" for i in range(nf)]
    ctx.check("records:names", gio.subdirs(ctx.path("G_grtstats")) == [f"mod_{ds:g}_{dr:g}"] and sorted(os.listdir(sd)) == sorted(names), f"{os.listdir(ctx.path('G_grtstats'))} {sorted(set(os.listdir(sd)) ^ set(names))[:4]}")
    K = [gio.read_stats(os.path.join(sd, n)) for n in names]
    ctx.stats["records"] = ctx.stats.get("records", 0) + sum(map(len, K))
    dirs = {r: ctx.path("G", d) for d in gio.subdirs(ctx.path("G")) for r in rs if near(float(d.split("_")[-1]), r, 1e-9)}
    wI = zeta * np.pi / (nt * dt)
    liq = L[layer(L, ds)][2] == 0
    # the step is 2pi/(L rmax), smaller where that would leave fewer than 500 points
    dk = [k["k"][0] for k in K]; top = 2 * np.pi / (Lk * max(rs))
    for k, d in zip(K, dk): ctx.check("records:k", close_arr(k["k"], d * np.arange(1, len(k) + 1), 1e-9) and len(k) > 3 and d <= top * (1 + 1e-9), f"wavenumbers {k['k'][:4]}.. are not multiples of a step up to {top}")
    om = 2 * np.pi * np.arange(nf) / (nt * dt) - 1j * wI
    pref = -1 / (4 * np.pi * L[layer(L, ds)][3] * om ** 2)
    for r in rs:
        D = gio.read_dir(dirs[r])
        U = {}
        for i, k in enumerate(K):
            for n, v in bessel_terms(k, k["k"], r).items():
                U.setdefault(n, np.zeros(nf, complex))[i] = v.sum() * dk[i] * pref[i]
                U.setdefault(("m", n), np.zeros(nf))[i] = np.abs(v).sum() * dk[i] * abs(pref[i])
        for n in ([x for x in U if not isinstance(x, tuple)]):
            if liq and not n.startswith("EX"): continue
            t = U[n]; mag = U["m", n].sum() * 2 / (nt * dt) * np.exp(zeta * np.pi)
            # with -e the records hold the depth derivative: downward in the kernel, upward in the trace
            got = D["z" + n if e else n].data
            ref = G.to_time(t, nt, dt, wI) * (-1 if e else 1)
            ctx.close("records:sum", got, ref, 1e-5, atol=1e-6 * mag * 1e-2, detail=f"{'z' if e else ''}{n} r={r}: sum over the saved records is not the trace")
    ctx.tag("deriv" if e else "plain")
    # a list of indices saves only those, equal to the full set
    sel = sorted({int(x) for x in rng.integers(0, nf, 3)})
    order = list(sel); rng.shuffle(order)
    ctx.grt(*opts, "-OH", "-S" + ",".join(map(str, order)))
    sd2 = ctx.path("H_grtstats", f"mod_{ds:g}_{dr:g}")
    ctx.check("records:selected", sorted(os.listdir(sd2)) == [names[i] for i in sel], f"-S{order} saved {sorted(os.listdir(sd2))}")
    for i in sel:
        p = os.path.join(sd2, names[i])
        if os.path.exists(p): ctx.check("records:same", open(p, "rb").read() == open(os.path.join(sd, names[i]), "rb").read(), f"{names[i]} differs between -S and -S{order}")
    ker2asc(ctx, os.path.join("G_grtstats", f"mod_{ds:g}_{dr:g}", names[int(rng.integers(nf))]), "k")
    i = int(rng.integers(1, nf))
    same_records(ctx, [*opts, "-OG", f"-S{i}"], os.path.join("G_grtstats", f"mod_{ds:g}_{dr:g}", names[i]), "conv")


def static_records(ctx):
    rng = ctx.rng
    L, _ = gen.solid(rng, nmax=4); ctx.write("mod", gen.text(L))
    for _ in range(300):
        ds, dr = gen.depth(rng, L, maxd=4.), gen.depth(rng, L, maxd=4.)
        if usable(L, ds) and usable(L, dr) and abs(ds - dr) > .3: break
    else: raise Halt()
    e = rng.random() < .5
    a, rs, _ = values(ctx, "rf", .5, 8., 3)
    Lk = float(rng.integers(4, 9))
    opts = ["static", "greenfn", "-Mmod", f"-D{num(ds)}/{num(dr)}", f"-R{a}", f"-L{Lk:g}", "-K+k3" + ("+f" if rng.random() < .5 else ""), "-Cn", "-S", "-Og.nc", *(["-e"] if e else [])]
    ctx.grt(*opts)
    sd = ctx.path("stgrtstats", f"mod_{ds:g}_{dr:g}")
    ctx.check("static-records:names", os.path.isdir(sd) and os.listdir(sd) == ["K"], f"{os.listdir(ctx.path('.'))}")
    if not os.path.exists(os.path.join(sd, "K")): return
    K = gio.read_stats(os.path.join(sd, "K"))
    V, _, _ = gio.read_nc(ctx.path("g.nc"))
    dk = K["k"][0] if len(K) == 1 else K["k"][1] - K["k"][0]
    S = L[layer(L, ds)]; dk /= 4 * np.pi * S[3] * S[2] ** 2
    for j, r in enumerate(rs):
        for n, v in bessel_terms(K, K["k"], r).items():
            got = V[("z" if e else "") + n][0, 0, 0, j]
            ref = (v.sum() * dk).real * (-1 if e else 1)
            ctx.close("static-records:sum", got, ref, 1e-8, atol=1e-10 * np.abs(v).sum() * dk, detail=f"{'z' if e else ''}{n} r={r}: sum over the saved records is not the static value")
    ker2asc(ctx, os.path.join("stgrtstats", f"mod_{ds:g}_{dr:g}", "K"), "k")
    same_records(ctx, opts, os.path.join("stgrtstats", f"mod_{ds:g}_{dr:g}", "K"), "static-conv")
    ctx.tag("deriv" if e else "plain")


def row(x):
    return "%18.8e" % x[0] + "".join("%18.8e%16.8e" % (c.real, c.imag) for c in list(x)[1:])


def ker2asc(ctx, path, first):
    K = gio.read_stats(ctx.path(path), first)
    r = ctx.grt("ker2asc", path)
    out = r.out.split("\n")
    head = out[0].lstrip("#").split()
    ctx.check("ker2asc:head", out[0].startswith("#") and head == [first] + [n for n in K.dtype.names[1:]], f"{path}: heading {out[0]!r}")
    want = [row(x) for x in K]
    ctx.check("ker2asc:rows", out[1:-1] == want and out[-1] == "", f"{path}: {len(out) - 2} rows for {len(want)} records; first difference {next(((a, b) for a, b in zip(out[1:], want) if a != b), None)}")
    ctx.stats["table-lines"] = ctx.stats.get("table-lines", 0) + len(want)


def ptam_dtype():
    d = []
    for s, m in zip(gio.SRC, gio.ORD):
        for v in range(4):
            if m == 0 and v not in (0, 2): continue
            d += [(f"sum_{s}_{v}_k", "<f8"), (f"sum_{s}_{v}", "<c16")]
    return np.dtype(d)


def convert(ctx):
    rng = ctx.rng
    L, _ = gen.solid(rng, nmax=3); ctx.write("mod", gen.text(L))
    z = gen.depth(rng, L, maxd=3.)
    what = rng.integers(3)
    if what == 0:
        # kernel files
        ctx.grt("kernel", "-Mmod", f"-D{num(z)}/{num(gen.depth(rng, L, maxd=3.))}", "-C1/5/0.5", f"-F0.3/{0.9 + .3 * rng.integers(3):g}/0.3", "-OK", *(["-e"] if rng.random() < .5 else []))
        d = gio.subdirs(ctx.path("K"))
        fs = sorted(os.listdir(ctx.path("K", d[0])))
        ctx.check("kernel:names", len(d) == 1 and [f[:2] for f in fs] == ["C_"] * len(fs) and all(f == f"C_{i:04d}_{.3 * (i + 1):.5e}" or f == f"C_{i + 1:04d}_{.3 * (i + 1):.5e}" for i, f in enumerate(fs)), f"{d} {fs}")
        p = os.path.join("K", d[0], fs[int(rng.integers(len(fs)))])
        C = gio.read_stats(ctx.path(p), "c")
        ctx.check("kernel:c", close_arr(C["c"], 1 + .5 * np.arange(9), 1e-9), f"{p}: phase velocities {C['c']}")
        ker2asc(ctx, p, "c"); ctx.tag("C")
    elif what == 1:
        # peak-trough records
        r = round(float(rng.uniform(1, 5)), 2)
        i = int(rng.integers(1, 5)); nt, dt = 16, .1
        ctx.grt("greenfn", "-Mmod", f"-D{num(z)}/{num(z)}", f"-N{nt}/{dt}", f"-R{r},{r + 1:g}", "-OG", "-L5", "-K+k1", "-Cp", f"-S{i}", "-s")
        b = os.path.join("G_grtstats", f"mod_{z:g}_{z:g}"); f = f"{i:04d}_{i / (nt * dt):.5e}"
        for j, x in enumerate((r, r + 1)):
            p = os.path.join(b, f"PTAM_{j:04d}_{x:.5e}", f"PTAM_{f}")
            if not os.path.exists(ctx.path(p)): ctx.violate("ptam:names", f"{p} missing: {[os.path.join(a, y) for a, _, c in os.walk(ctx.path('G_grtstats')) for y in c]}"); return
            T = np.fromfile(ctx.path(p), ptam_dtype())
            out = ctx.grt("ker2asc", p).out.split("\n")
            ctx.check("ker2asc:head", out[0].lstrip("#").split() == list(T.dtype.names), f"{p}: heading {out[0]!r}")
            want = ["".join("%18.8e" % v if np.isrealobj(v) else "%18.8e%16.8e" % (v.real, v.imag) for v in x) for x in T]
            ctx.check("ker2asc:rows", out[1:-1] == want and len(T) > 0, f"{p}: {out[1:2]} stored {want[:1]}")
            ker2asc(ctx, os.path.join(b, f"PTAM_{j:04d}_{x:.5e}", f"K_{f}"), "k")
        ker2asc(ctx, os.path.join(b, f"K_{f}"), "k"); ctx.tag("PTAM")
    # traces: from the toolkit and from elsewhere
    n = int(rng.integers(1, 300)); dt = f4(10 ** rng.uniform(-3, 1)); b = f4(rng.uniform(-1e3, 1e3))
    x = (rng.normal(size=n) * 10 ** rng.uniform(-30, 30)).astype("<f4")
    for v in (0.0, -0.0, np.inf, -np.inf, 1e-42):
        if rng.random() < .2: x[rng.integers(n)] = v
    gio.write_sac(ctx.path("t.sac"), x, dt, b, evdp=1.0)
    swapped = rng.random() < .4
    if swapped:
        raw = open(ctx.path("t.sac"), "rb").read()
        w = np.frombuffer(raw[:440], "<u4").byteswap().tobytes() + raw[440:632] + np.frombuffer(raw[632:], "<u4").byteswap().tobytes()
        open(ctx.path("t.sac"), "wb").write(w)
    ctx.tag("swapped" if swapped else "native")
    out = ctx.grt("sac2asc", "t.sac").out.split("\n")
    ctx.check("sac2asc:rows", len(out) == n + 1, f"{len(out) - 1} lines for {n} samples")
    bad = None
    for i, l in enumerate(out[:n]):
        t, v = l.split()
        if not (v == "%.7e" % x[i] or not np.isfinite(x[i]) and float(v) == x[i]): bad = (i, l, float(x[i])); break
        if abs(float(t) - (b + dt * i)) > 3e-7 * (abs(b) + dt * i) + 1e-30: bad = (i, l, b + dt * i); break
    ctx.check("sac2asc:values", bad is None, f"line {bad}")
    ctx.stats["table-lines"] = ctx.stats.get("table-lines", 0) + n


def cases(tier, rnd):
    m = 6 if tier == "thorough" else 1
    for fn, n in ((green, 18), (syn, 18), (static, 22), (okada, 8), (modal, 24), (records, 10), (static_records, 8), (convert, 24)):
        for _ in range(n * m): yield fn, {}
