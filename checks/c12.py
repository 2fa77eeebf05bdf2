"""C12: static syn = interpolation of synthesized results over the library; finite faults = sum of subfaults."""
import os
import numpy as np
from scipy.io import netcdf_file
from vlib import gen, gio, synref as Y, refhalf as H
from checks.c08 import source, r_

PROP = "C12"
RULE = ("Small static libraries (lists and grids of distances, several depths, nearly uniform spacings), in part overwritten with random numbers; "
        "point sources and Coulomb finite faults of every Kode at random receivers; every output value is compared with an independent "
        "interpolation of moment-tensor syntheses, and homogeneous half-space faults with Mindlin's solution.")
CH = {"EX": "ZR", "VF": "ZR", "HF": "ZRT", "DD": "ZR", "DS": "ZRT", "SS": "ZRT"}


class Lib:
    def __init__(self, path):
        v, dims, at = gio.read_nc(path)
        self.v = v
        self.ds, self.dr = v["depsrc"], v["deprcv"]
        self.rr = np.hypot(v["north"][:, None], v["east"]).ravel()
        o = np.argsort(self.rr, kind="stable")
        keep = [o[0]]
        for i in o[1:]:
            if self.rr[i] - self.rr[keep[-1]] > 1e-9:
                keep.append(i)
        self.idx = np.array(keep)
        self.r = self.rr[self.idx]
        self.e = bool(at["calc_upar"])

    def get(self, a, b, j):
        return lambda n: self.v[n].reshape(len(self.ds), len(self.dr), -1)[a, b, self.idx[j]]


def randomise(ctx, path, smooth=False):
    f = netcdf_file(path, "a", mmap=False)
    N = np.array(f.variables["north"][:]); E = np.array(f.variables["east"][:])
    rr = np.hypot(N[:, None], E)
    key = {}
    for n, x in f.variables.items():
        if len(x.shape) == 4:
            m = ctx.rng.normal(size=x.shape[:2] + (rr.size,)) * 10 ** ctx.rng.uniform(-2, 2)
            seen = {}
            for j, r in enumerate(rr.ravel()):
                k = round(float(r), 8)
                m[..., j] = m[..., seen.setdefault(k, j)]
            x[:] = m.reshape(x.shape)
    f.close()


def library(ctx, ds, dr, geo, L=None, e=True, rand=True, fine=False):
    rng = ctx.rng
    if L is None:
        L, kind = gen.solid(rng, nmax=4)
        ctx.tag("kind:" + kind)
    ctx.write("mod", gen.text(L))
    t = lambda v: ",".join(f"{x:.10g}" for x in v)
    d = [f"-Ds{t(ds)}", f"-Dr{t(dr)}"] if len(ds) > 1 or len(dr) > 1 else [f"-D{t(ds)}/{t(dr)}"]
    ctx.grt("static", "greenfn", "-Mmod", *d, *geo, "-Og.nc", *(["-e"] if e else []), *([] if fine else ["-L2", "-K+k0.3+f", "-Cn"]))
    if rand:
        randomise(ctx, ctx.path("g.nc")); ctx.tag("random-values")
    return L, Lib(ctx.path("g.nc"))


def bracket(x, q):
    """[(index, weight)] of linear interpolation."""
    x = np.asarray(x)
    if len(x) == 1 or q <= x[0]:
        return [(0, 1.0)]
    if q >= x[-1]:
        return [(len(x) - 1, 1.0)]
    i = int(np.searchsorted(x, q, side="right")) - 1
    w = (q - x[i]) / (x[i + 1] - x[i])
    return [(i, 1 - w)] + ([(i + 1, w)] if w > 0 else [])


def media(lib, a):
    va, vb, rho = (float(lib.v["src_" + n][a]) for n in ("va", "vb", "rho"))
    return va, vb, rho


NAMES = {z: [c for c in cs] + [a.lower() + b for a in cs for b in cs] for z, cs in ((False, "ZRT"), (True, "ZNE"))}


def node(lib, a, b, j, kind, par, az, scale, mu, zne):
    """(vals, magnitudes) at one library node, one array of 12."""
    va, vb, rho = media(lib, a)
    sc = scale * (vb * vb * rho * 1e10 if mu else 1)
    r = lib.r[j]
    u, m = Y.synth(lib.get(a, b, j), kind, par, az, sc, r, va / vb if vb else 0, lib.e, keep=True)
    n = 12 if lib.e else 3
    if not zne:
        return np.array([u[k] for k in NAMES[False][:n]]), np.array([m[k] for k in NAMES[False][:n]])
    Q = Y.rot(az)
    o = list(Q @ np.array([u[c] for c in "ZRT"])); om = list(np.abs(Q) @ np.array([m[c] for c in "ZRT"]))
    if lib.e:
        o += list(Y.gradient(u, az, r, True, keep=True).ravel())
        top = max(m[k] for k in NAMES[False][3:]) + (0 if r <= 1e-8 else (m["R"] + m["T"]) * 1e-5 / r)
        om += [4 * top] * 9
    return np.array(o), np.array(om)


def query(lib, dep, n, e, z, kind, par, scale, mu, zne):
    d = np.hypot(n, e)
    k = 12 if lib.e else 3
    if d < lib.r[0] - 1e-8 or d > lib.r[-1] + 1e-8:
        return np.zeros(k), np.zeros(k)
    az = 0.0 if d <= 1e-8 else np.degrees(np.arctan2(e, n))
    v = np.zeros(k); m = np.zeros(k)
    for a, wa in bracket(lib.ds, dep):
        for b, wb in bracket(lib.dr, z):
            for j, wj in bracket(lib.r, d):
                x, y = node(lib, a, b, j, kind, par, az, scale, mu, zne)
                v += wa * wb * wj * x; m += wa * wb * wj * y
    return v, m


def medium(L, z):
    """Media allowed at depth z (either side of an interface)."""
    zi = gen.interfaces(L)
    return [l[1:4] for i, l in enumerate(L) if zi[i] - 1e-6 <= z and (i + 1 == len(L) or z <= zi[i + 1] + 1e-6)]


def judge(ctx, key, out, pts, want, mags, zne, e, L, grid, rtol=1e-7):
    v, dims, at = gio.read_nc(ctx.path(out))
    n = 12 if e else 3
    names = NAMES[zne][:n]
    have = {x for x in v if x in NAMES[True] + NAMES[False]}
    ctx.check(key + ":names", have == set(names), f"{sorted(v)}")
    ctx.check(key + ":layout", at["layout"] == ("grid" if grid else "points"), str(at))
    ctx.check(key + ":flags", int(at["calc_upar"]) == int(e) and int(at["rot2ZNE"]) == int(zne), str(at))
    for i, k in enumerate(names):
        if k in v:
            ctx.close(f"{key}:{'d' if i > 2 else 'u'}", v[k].ravel(), want[:, i], rtol, scale=mags[:, i] + 1e-300, detail=f"{out} {k}")
    N, E, D = np.array(pts).T
    if grid:
        ctx.close(key + ":axes", np.repeat(v["north"], len(v["east"])), N, 1e-9, atol=1e-9)
        ctx.close(key + ":axes", np.tile(v["east"], len(v["north"])), E, 1e-9, atol=1e-9)
        ctx.close(key + ":deprcv", float(np.ravel(at["deprcv"])[0]), D[0], 1e-9, atol=1e-9)
        got = [[float(np.ravel(at["rcv_" + x])[0]) for x in ("va", "vb", "rho")]]; D = D[:1]
    else:
        ctx.close(key + ":axes", v["north"], N, 1e-9, atol=1e-9); ctx.close(key + ":axes", v["east"], E, 1e-9, atol=1e-9)
        ctx.close(key + ":axes", v["depth"], D, 1e-9, atol=1e-9)
        got = np.c_[v["rcv_va"], v["rcv_vb"], v["rcv_rho"]].tolist()
    for g, d in zip(got, D):
        ctx.check(key + ":receiver-medium", any(np.allclose(g, m, rtol=1e-9) for m in medium(L, d)), f"depth {d}: {g} model {medium(L, d)}")
    return v, at


def distances(ctx, rmax):
    rng = ctx.rng
    k = ["list", "uniform", "chirp", "tiny-nonuniform", "grid", "single", "zero"][rng.choice(7, p=[.2, .2, .15, .1, .15, .05, .15])]
    ctx.tag("dist:" + k)
    l = lambda v: ["-R" + ",".join(f"{x:.10g}" for x in v)]
    if k == "list":
        return l(sorted(set(r_(rng, 0.2, rmax, 2) for _ in range(int(rng.integers(2, 9)))) | {rmax}))
    if k == "zero":
        return l([0.0] + sorted(set(r_(rng, 0.2, rmax, 2) for _ in range(int(rng.integers(1, 6)))) | {rmax}))
    if k == "uniform":
        d = [0.25, 0.5, 0.1, 0.3][rng.integers(4)]
        return [f"-R{d}/{d * int(rmax / d) + d / 3:.6g}/{d}"]
    if k == "chirp":
        n = int(rng.integers(30, 80)); i = np.arange(n)
        v = 0.2 + 0.004 * i + [-0.00001, 0.00045][int(rng.random() < .7)] * i * i
        return l(np.round(v, 6))
    if k == "tiny-nonuniform":
        return l([1, 1.0004, 1.0016, 1.0021, 1.003][: int(rng.integers(3, 6))])
    if k == "single":
        return l([r_(rng, 1, rmax, 2)])
    x0, y0 = -r_(rng, 0, 3, 1), -r_(rng, 0, 3, 1); nx, ny = rng.integers(2, 5, 2)
    return [f"-X{x0!r}/{x0 + 1.5 * (nx - 1) + .2:.6g}/1.5", f"-Y{y0!r}/{y0 + (ny - 1) + .1:.6g}/1"]


def receivers(ctx, lib, mode, zr):
    """(pts, args, grid). mode: own, grid, points"""
    rng = ctx.rng
    multi = len(lib.dr) > 1
    if mode == "points":
        pts = []
        for i in range(int(rng.integers(1, 12))):
            d = [rng.uniform(lib.r[0], lib.r[-1]), lib.r[rng.integers(len(lib.r))], lib.r[-1] * 1.2][rng.choice(3, p=[.7, .2, .1])]
            az = rng.uniform(0, 2 * np.pi)
            n, e = (0.0, d) if rng.random() < .15 else (d * np.cos(az), d * np.sin(az))
            if lib.r[0] == 0 and rng.random() < .15:
                n = e = 0.0
            z = rng.uniform(lib.dr[0], lib.dr[-1]) if rng.random() < .7 else lib.dr[rng.integers(len(lib.dr))]
            pts.append([float(f"{x:.12g}") for x in (n, e, z)])
        geo = rng.random() < .4
        lines = []
        for p in pts:
            lines.append("  ".join(f"{x:.12g}" for x in p) + (f" {r_(rng, 0, 360)} {r_(rng, 0, 90)} {r_(rng, -180, 180)}" if geo else ""))
        if rng.random() < .5:
            lines.insert(int(rng.integers(len(lines) + 1)), "# a comment 1 2 3")
        ctx.write("pts", "\n".join(lines) + "\n")
        ctx.tag("rcv:points" + ("+angles" if geo else ""))
        return pts, ["-Qpts"], False
    a = [f"-Dr{zr:.12g}"] if multi or rng.random() < .4 else []
    if mode == "own":
        N, E = lib.v["north"], lib.v["east"]
    else:
        x0, y0 = r_(rng, -6, 2, 2), r_(rng, -6, 2, 2); nx, ny = rng.integers(1, 6, 2)
        if rng.random() < .3:
            x0 = -2.0; y0 = -1.0
        N = x0 + 1.0 * np.arange(nx); E = y0 + 0.5 * np.arange(ny)
        a += [f"-X{x0!r}/{x0 + nx - 0.8:.6g}/1", f"-Y{y0!r}/{y0 + 0.5 * ny - 0.4:.6g}/0.5"]
    ctx.tag("rcv:" + mode)
    return [[float(n), float(e), zr] for n in N for e in E], a, True


def depths(rng, L, n, lo, hi):
    return sorted(set(r_(rng, lo, hi, 2) for _ in range(n)))


def point(ctx):
    rng = ctx.rng
    L, kind = gen.solid(rng, nmax=4)
    ctx.tag("kind:" + kind)
    ds = depths(rng, L, int(rng.integers(1, 4)), 1, 4); dr = depths(rng, L, int(rng.integers(1, 4)), 0, 0.9)
    e = rng.random() < .75
    L, lib = library(ctx, ds, dr, distances(ctx, 8.0), L, e)
    ctx.tag(f"lib:{len(ds)}x{len(dr)}", "e" if e else "no-e")
    for k in range(6):
        kind, par, args = source(rng)
        dep = [ds[rng.integers(len(ds))], r_(rng, ds[0], ds[-1], 3)][int(rng.random() < .6)]
        zr = [dr[rng.integers(len(dr))], r_(rng, dr[0], dr[-1], 3)][int(rng.random() < .6)]
        dep = min(max(dep, ds[0]), ds[-1]); zr = min(max(zr, dr[0]), dr[-1])
        pts, a, grid = receivers(ctx, lib, ["own", "grid", "points"][rng.choice(3, p=[.25, .35, .4])], zr)
        zne = rng.random() < .5; mu = rng.random() < .4
        scale = float(f"{10 ** (rng.uniform(5, 16) if mu else rng.uniform(10, 26)):.4g}")
        if len(ds) > 1 or rng.random() < .4:
            a.append(f"-Ds{dep:.12g}")
        else:
            dep = ds[0]
        ctx.grt("static", "syn", "-Gg.nc", f"-S{'u' if mu else ''}{scale!r}", *args, *a, f"-Oo{k}.nc", "-s", *(["-N"] if zne else []), *(["-e"] if e else []))
        W = [query(lib, dep, n, ee, z, kind, par, scale, mu, zne) for n, ee, z in pts]
        v, at = judge(ctx, "point", f"o{k}.nc", pts, np.array([w[0] for w in W]), np.array([w[1] for w in W]), zne, e, L, grid)
        ctx.close("depsrc", float(np.ravel(at["depsrc"])[0]), dep, 1e-9)
        ctx.tag("src:" + kind, "zne" if zne else "zrt", "mu" if mu else "scale", "between" if dep not in ds else "node")


def fault(rng, lib, kode, rake=False, even=None):
    top = r_(rng, lib.ds[0], lib.ds[0] + 0.6 * (lib.ds[-1] - lib.ds[0]), 1)
    bot = round(top + max(0.1, r_(rng, 0.1, lib.ds[-1] - top, 1)), 1)
    bot = min(bot, float(lib.ds[-1]))
    if bot <= top:
        top = float(lib.ds[0]); bot = float(lib.ds[-1])
    dip = [90.0, r_(rng, 10, 90, 1), 45.0][rng.integers(3)]
    x0, y0 = r_(rng, -2, 2, 1), r_(rng, -2, 2, 1)
    if rng.random() < .4:
        x1, y1 = [(x0, round(y0 + 1.5, 1)), (round(x0 + 1.2, 1), y0), (x0, round(y0 - 0.9, 1)), (round(x0 - 0.6, 1), y0)][rng.integers(4)]
    else:
        x1, y1 = round(x0 + r_(rng, -2, 2, 1), 1), round(y0 + r_(rng, .1, 2, 1), 1)
    v1, v2 = r_(rng, -3, 3, 2), r_(rng, -3, 3, 2)
    if rng.random() < .2:
        v1 = 0.0
    elif rng.random() < .2:
        v2 = 0.0
    if rake:
        v1, v2 = r_(rng, -180, 180, 1), r_(rng, .1, 3, 2)
    return dict(e0=x0, n0=y0, e1=x1, n1=y1, kode=kode, v1=v1, v2=v2, dip=dip, top=top, bot=bot)


def line(f):
    return f"  1 {f['e0']!r} {f['n0']!r} {f['e1']!r} {f['n1']!r} {f['kode']} {f['v1']!r} {f['v2']!r} {f['dip']!r} {f['top']!r} {f['bot']!r}  name"


def mechanisms(f, rake):
    """[(kind, par, metres of slip or m^3 potency... per Kode)]"""
    st = np.degrees(np.arctan2(f["e1"] - f["e0"], f["n1"] - f["n0"])); d = f["dip"]; a, b, k = f["v1"], f["v2"], f["kode"]
    if k == 100:
        if rake:
            return [("DC", (st, d, a), b)]
        return [("DC", (st, d, 180.0), a), ("DC", (st, d, 90.0), b)]
    if k == 200:
        return [("DC", (st, d, 180.0), a), ("TS", (st, d), b)]
    if k == 300:
        return [("TS", (st, d), a), ("DC", (st, d, 90.0), b)]
    if k == 400:
        return [("DC", (st, d, 180.0), a), ("DC", (st, d, 90.0), b)]
    return [("TS", (st, d), a), ("EX", (), b)]


def subfaults(f, dL, dW):
    """[(north, east, depth, area factor to cm^3)]"""
    st = np.arctan2(f["e1"] - f["e0"], f["n1"] - f["n0"]); d = np.radians(f["dip"])
    Lf = np.hypot(f["e1"] - f["e0"], f["n1"] - f["n0"]); W = (f["bot"] - f["top"]) / np.sin(d)
    if f["kode"] >= 400:
        dL, dW = Lf, W
    out = []
    edges = lambda T, s: np.r_[s * np.arange(max(1, int(np.ceil(T / s - 1e-7)))), T]
    a, b = edges(Lf, dL), edges(W, dW)
    for i in range(len(b) - 1):
        for j in range(len(a) - 1):
            w = (b[i] + b[i + 1]) / 2; l = (a[j] + a[j + 1]) / 2
            area = (b[i + 1] - b[i]) * (a[j + 1] - a[j]) * 1e12 if f["kode"] < 400 else 1e6
            out.append((f["n0"] + l * np.cos(st) - w * np.cos(d) * np.sin(st), f["e0"] + l * np.sin(st) + w * np.cos(d) * np.cos(st), f["top"] + w * np.sin(d), area))
    return out


def to_zrt(v, m, n, e, full):
    """Accumulated ZNE values -> output in ZRT about the origin."""
    d = np.hypot(n, e); az = 0.0 if d <= 1e-8 else np.degrees(np.arctan2(e, n))
    Q = Y.rot(az)
    u = Q.T @ v[:3]
    o = list(u); om = list(np.abs(Q.T) @ m[:3])
    if full:
        g = np.einsum("ia,jb,ij->ab", Q, Q, v[3:].reshape(3, 3))
        if d <= 1e-8:
            ur, ut = g[1, 1], g[1, 2]
        else:
            ur, ut = u[1] * 1e-5 / d, u[2] * 1e-5 / d
        g[2, 1] += ut; g[2, 2] -= ur
        o += list(g.ravel()); om += [4 * np.max(m[3:]) + (0 if d <= 1e-8 else np.max(om) * 1e-5 / d)] * 9
    return np.array(o), np.array(om)


def finite(ctx):
    rng = ctx.rng
    L, kind = gen.solid(rng, nmax=4)
    ctx.tag("kind:" + kind)
    ds = [0.5, round(r_(rng, 1.0, 1.8, 1), 1), 2.5][: int(rng.integers(2, 4))]; dr = depths(rng, L, int(rng.integers(1, 3)), 0, 0.45)
    e = rng.random() < .75
    geo = ["-R0/10/0.7"] if rng.random() < .5 else ["-R0,0.4,1,2.3,3.9,7,12"] if rng.random() < .7 else ["-R0.5,1,2.3,3.9,7"]
    L, lib = library(ctx, ds, dr, geo, L, e)
    for k in range(3):
        rake = rng.random() < .2
        F = [fault(rng, lib, 100 if rake else [100, 200, 300, 400, 500][rng.integers(5)], rake) for _ in range(int(rng.integers(1, 4)))]
        name = "f.inr" if rake else "f.inp"
        ctx.write(name, "# x y\n xxx xxx\n" + "\n".join(line(f) for f in F) + "\n")
        dl = rng.random()
        dd = np.diff(lib.r); default = min(dd[dd > 1e-8].min(), np.diff(lib.ds).min())
        if dl < .35:
            dL = dW = default; inc = ""; ctx.tag("subfault:default")
        else:
            dL, dW = [(0.1, 0.1), (0.3, 0.2), (r_(rng, .2, 2, 2), r_(rng, .2, 2, 2)), (9.0, 9.0), (0.5, 0.25)][rng.integers(5)]
            inc = f"+i{dL!r}/{dW!r}"; ctx.tag("subfault:given")
        nsub = sum(len(subfaults(f, dL, dW)) for f in F)
        zr = min(max(r_(rng, dr[0], dr[-1], 3), dr[0]), dr[-1])
        pts, a, grid = receivers(ctx, lib, ["grid", "points"][rng.integers(2)], zr)
        if nsub * len(pts) > 2500:
            pts, a, grid = pts[:0], None, None
            pts, a, grid = receivers(ctx, lib, "points", zr)
            if nsub * len(pts) > 2500:
                dL = dW = 1.0; inc = "+i1/1"
        zne = rng.random() < .6
        ctx.grt("static", "syn", "-Gg.nc", f"-C{name}{inc}", *a, f"-Oo{k}.nc", "-s", *(["-N"] if zne else []), *(["-e"] if e else []),
                threads=int(rng.integers(1, 5)))
        n = 12 if e else 3
        V = np.zeros((len(pts), n)); M = np.zeros((len(pts), n))
        for f in F:
            for sn, se, sz, area in subfaults(f, dL, dW):
                for kd, par, s in mechanisms(f, rake):
                    if s == 0:
                        continue
                    for i, (pn, pe, pz) in enumerate(pts):
                        x, y = query(lib, sz, pn - sn, pe - se, pz, kd, par, s * area, True, True)
                        V[i] += x; M[i] += y
        if not zne:
            for i, (pn, pe, pz) in enumerate(pts):
                V[i], M[i] = to_zrt(V[i], M[i], pn, pe, e)
        for f in F:
            ctx.tag(f"kode:{f['kode']}" + (":rake" if rake else ""))
        ctx.tag("zne" if zne else "zrt", f"nsub:{'1' if nsub == 1 else '<10' if nsub < 10 else '<100' if nsub < 100 else '>=100'}", "multi-fault" if len(F) > 1 else "one-fault")
        v, at = judge(ctx, "finite", f"o{k}.nc", pts, V, M, zne, e, L, grid, rtol=3e-8)
        ctx.check("finite:no-depsrc", "depsrc" not in at, str(at))


def physical(ctx):
    """Half-space faults against Mindlin's solution integrated over the fault."""
    rng = ctx.rng
    vp, vs, rho = r_(rng, 4, 7, 2), r_(rng, 2.2, 3.6, 2), r_(rng, 2, 3, 2)
    ctx.write("mod", f"0 {vp} {vs} {rho}\n")
    zr = [0.0, 0.3][int(rng.random() < .4)]
    ctx.grt("static", "greenfn", "-Mmod", "-Ds1/3/0.25", f"-Dr{zr}", "-R0/9/0.2", "-Og.nc", "-e")
    G = rho * vs ** 2 * 1e10; nu = (vp ** 2 - 2 * vs ** 2) / 2 / (vp ** 2 - vs ** 2); lam = 2 * G * nu / (1 - 2 * nu)
    f = dict(e0=r_(rng, -1, 1, 1), n0=r_(rng, -1, 1, 1), kode=[100, 200, 300, 400, 500][rng.integers(5)], v1=r_(rng, .5, 2, 2), v2=r_(rng, .5, 2, 2),
             dip=r_(rng, 30, 90, 1), top=1.2, bot=2.4)
    f["e1"] = f["e0"] + r_(rng, .5, 1.5, 1); f["n1"] = f["n0"] + r_(rng, -1.5, 1.5, 1)
    ctx.write("f.inp", "a\nb\n" + line(f) + "\n")
    ctx.grt("static", "syn", "-Gg.nc", "-Cf.inp+i0.25/0.25", "-X-2/2/1.3", "-Y-2/2/1.7", "-Oo.nc", "-s", "-N", "-e")
    v, dims, at = gio.read_nc(ctx.path("o.nc"))
    km = 1e5
    U = []; D = []
    for n in v["north"]:
        for e in v["east"]:
            def u(x, y, z):
                t = np.zeros(3)
                for sn, se, sz, area in subfaults(f, .25, .25):
                    for kd, par, s in mechanisms(f, False):
                        if kd == "DC":
                            M = Y.moment("DC", par) * G
                        elif kd == "TS":
                            nn, _ = Y.normal_slip(par[0], par[1], 0.0)
                            M = lam * np.eye(3) + 2 * G * np.outer(nn, nn)
                        else:
                            M = np.eye(3) * G
                        t = t + H.disp((x - sn) * km, (y - se) * km, z * km, sz * km, G, nu, M=M * s * area)
                return t
            h = 0.02
            U.append(u(n, e, zr))
            g = np.zeros((3, 3))
            for l in range(3):
                d = np.eye(3)[l] * h
                p = np.array([n, e, max(zr, 2 * h) if False else zr])
                w = [(-2, 1 / 12), (-1, -8 / 12), (1, 8 / 12), (2, -1 / 12)]
                g[l] = sum(c * u(*(p + k * d)) for k, c in w) / (h * km)
            D.append(g)
    U = np.array(U); D = np.array(D)
    S = np.diag([-1, 1, 1])  # (z down first) -> ZNE
    P = np.array([[0, 0, -1], [1, 0, 0], [0, 1, 0]], float)
    Uz = U @ P.T
    Dz = np.einsum("ia,jb,kab->kij", P, P, D)
    got = np.array([v[c].ravel() for c in "ZNE"]).T
    ctx.close("half-space:u", got, Uz, 0.04, scale=np.max(np.abs(Uz)), detail=str(f))
    gg = np.array([[v[a + b].ravel() for b in "ZNE"] for a in "zne"]).transpose(2, 0, 1)
    ctx.close("half-space:d", gg, Dz, 0.10, scale=np.max(np.abs(Dz)), detail=str(f))
    ctx.tag(f"half:{f['kode']}")


def refuse(ctx):
    rng = ctx.rng
    L, lib = library(ctx, [1.0, 2.0], [0.0, 0.5], ["-R0/6/1"], e=False)
    ctx.write("ok.inp", "a\nb\n1 0 0 0 1 100 1 1 60 1.2 1.8\n")
    ctx.write("deep.inp", "a\nb\n1 0 0 0 1 100 1 1 60 1.2 2.8\n")
    ctx.write("dip.inp", "a\nb\n1 0 0 0 1 100 1 1 0 1.2 1.8\n")
    ctx.write("kode.inp", "a\nb\n1 0 0 0 1 600 1 1 60 1.2 1.8\n")
    ctx.write("len.inp", "a\nb\n1 0 0 0 0 100 1 1 60 1.2 1.8\n")
    ctx.write("rk.inr", "a\nb\n1 0 0 0 1 200 1 1 60 1.2 1.8\n")
    ctx.write("few.inp", "a\nb\n1 0 0 0 1 100 1 1 60 1.2\n")
    ctx.write("q", "1 1 0.2\n2 2 0.7\n"); ctx.write("qok", "1 1 0.2\n2 2 0.3\n"); ctx.write("qbad", "1 1 0.2\n2 x 0.3\n")
    bad = [["-S1e20", "-Dr0"], ["-S1e20", "-Ds1"], ["-S1e20", "-Ds2.1", "-Dr0"], ["-S1e20", "-Ds0.9", "-Dr0"], ["-S1e20", "-Ds1", "-Dr0.6"], ["-S1e20", "-Ds1", "-Qq"],
           ["-S1e20", "-Ds1", "-Qqok", "-Dr0"], ["-S1e20", "-Ds1", "-Qqbad"], ["-S1e20", "-Ds1", "-Dr0", "-e"], ["-Cdeep.inp", "-Dr0"], ["-Cdip.inp", "-Dr0"], ["-Ckode.inp", "-Dr0"],
           ["-Clen.inp", "-Dr0"], ["-Crk.inr", "-Dr0"], ["-Cfew.inp", "-Dr0"], ["-Cok.inp", "-Ds1", "-Dr0"], ["-Cok.inp", "-Dr0", "-S1e20"], ["-Cok.inp"],
           ["-S1e20", "-Ds1", "-Dr0", "-X1/2/1"], ["-S1e20", "-Ds1", "-Dr0", "-X1/2/1", "-Y1/2/1", "-Qqok"]]
    for i, b in enumerate(bad):
        r = ctx.grt("static", "syn", "-Gg.nc", f"-Ob{i}.nc", "-s", *b, expect=None)
        ctx.check("refuse", r.rc == 1 and not os.path.exists(ctx.path(f"b{i}.nc")), "should be refused: " + r.desc())
    for i, b in enumerate([["-S1e20", "-Ds1", "-Dr0"], ["-S1e20", "-Ds2", "-Qqok"], ["-Cok.inp", "-Dr0.25"], ["-Cok.inp", "-Qqok"]]):
        ctx.grt("static", "syn", "-Gg.nc", f"-Ook{i}.nc", "-s", *b)
    ctx.tag("refuse")


def cases(tier, rnd):
    q = 1 if tier == "quick" else 12
    for _ in range(60 * q):
        yield point, {}
    for _ in range(40 * q):
        yield finite, {}
    for _ in range(6 * q):
        yield physical, {}
    for _ in range(1 * q):
        yield refuse, {}
