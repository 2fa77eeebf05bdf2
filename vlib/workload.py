"""Small realistic sessions: input files plus a sequence of valid command lines, each step able to use the files of earlier steps."""
import numpy as np
from vlib import gen

Q = lambda v: f"{v:.6g}"


def boundary(rng):
    return [] if rng.random() < .7 else ["-B" + "fFrRhH"[rng.integers(3) * 2] + "FRH"[rng.integers(3)]] if rng.random() < .6 else ["-B" + "frhFRH"[rng.integers(6)]]


def depths(rng, L, n, solid=True):
    z = sorted({gen.depth(rng, L, solid_only=solid) for _ in range(n)})
    return z


def dlist(v):
    return ",".join(repr(float(x)) for x in v)


def pairs(rng, L, liquid_ok=False):
    solid = not (liquid_ok and rng.random() < .3)
    if rng.random() < .5:
        return ["-D%r/%r" % (gen.depth(rng, L, solid_only=solid), gen.depth(rng, L, solid_only=solid))], 1, 1
    a, b = depths(rng, L, int(rng.integers(1, 4)), solid), depths(rng, L, int(rng.integers(1, 3)), solid)
    return ["-Ds" + dlist(a), "-Dr" + dlist(b)], len(a), len(b)


def dists(rng, files, zero=False):
    r = sorted({round(float(x), 3) for x in 10 ** rng.uniform(-.5, 1.3, int(rng.integers(1, 4)))})
    k = rng.integers(3)
    if k == 0:
        return "-R" + dlist(r), r
    if k == 1:
        d = round(float(rng.uniform(.5, 3)), 2); n = int(rng.integers(1, 4))
        return f"-R{r[0]!r}/{r[0] + d * (n - 1) + d / 3:.6g}/{d!r}", [r[0] + d * i for i in range(n)]
    files["dist"] = "".join(f"{x!r}\n" for x in r)
    return "-Rdist", r


def maybe(rng, p, *a):
    return list(a) if rng.random() < p else []


def mech(rng):
    k = rng.integers(6)
    u = rng.random() < .4
    sc = f"-S{'u' if u else ''}{Q(10 ** rng.uniform(5, 24))}"
    st, dp, rk = Q(rng.uniform(0, 360)), Q(rng.uniform(0, 90)), Q(rng.uniform(-180, 180))
    if k == 0:
        return [sc]
    if k == 1:
        return [sc, f"-M{st}/{dp}/{rk}"]
    if k == 2:
        return [sc, f"-M{st}/{dp}"]
    if k == 3:
        return [sc.replace("u", ""), "-T" + "/".join(Q(x) for x in rng.normal(size=6))]
    if k == 4:
        return [sc.replace("u", ""), "-F" + "/".join(Q(x) for x in rng.normal(size=3))]
    return [sc]


def tfun(rng, files, dt):
    k = rng.integers(6)
    if k == 0:
        return [f"-Dp/{Q(rng.uniform(.5, 8) * dt)}"]
    if k == 1:
        a, b, c = np.sort(rng.uniform(1, 12, 3)) * dt
        return [f"-Dt/{Q(a)}/{Q(b)}/{Q(c)}"]
    if k == 2:
        return [f"-Dr/{Q(rng.uniform(.05, .4) / dt)}"]
    if k == 3:
        files["tf"] = "# wavelet\n" + "".join(f"{x:.5g}\n" for x in rng.normal(size=int(rng.integers(1, 40))))
        return ["-D0/tf"]
    return []


def dynamic(rng):
    files, steps = {}, []
    L, kind = gen.model(rng, nmax=4)
    files["mod"] = gen.text(L, ["thick", "depth", "noisy"][rng.integers(3)], rng=rng)
    d, ns, nr = pairs(rng, L)
    R, rs = dists(rng, files)
    nt = int([16, 17, 24, 32, 50][rng.integers(5)]); dt = float([.05, .1, .2, .5][rng.integers(4)])
    e = rng.random() < .5
    N = f"-N{nt}/{dt}" + (f"+w{Q(rng.uniform(.3, 3))}" if rng.random() < .6 else "") + ("+n%d" % rng.integers(2, 4) if rng.random() < .2 else "") + ("+a" if rng.random() < .5 else "") + ("+f" if rng.random() < .1 else "")
    a = ["greenfn", "-Mmod", *d, N, R, "-OG"]
    a += maybe(rng, .6, "-L" + (Q(rng.uniform(3, 25)) if rng.random() < .7 else "") + (["", f"+l{Q(rng.uniform(3, 10))}", f"+a{Q(10 ** rng.uniform(-4, -1))}"][rng.integers(3)]) + (f"+o{Q(rng.uniform(.5, 5))}" if rng.random() < .4 else ""))
    a += maybe(rng, .4, ["-Cd", "-Cp", "-Cn", "-C"][rng.integers(4)])
    a += maybe(rng, .5, ("-E" + ("p" if rng.random() < .3 else "") + Q(rng.uniform(-2, 2)) + (f"/{Q(rng.uniform(2, 8))}" if rng.random() < .5 else "")))
    a += maybe(rng, .6, "-K" + (f"+k{Q(rng.uniform(1, 6))}" if rng.random() < .7 else "") + ("+f" if rng.random() < .3 else "") + (f"+s{Q(rng.uniform(1, 2))}" if rng.random() < .5 else "") + (f"+v{Q(rng.uniform(.1, 3))}" if rng.random() < .3 else "") + (f"+e{Q(10 ** rng.uniform(-6, -1))}" if rng.random() < .3 else ""))
    a += maybe(rng, .3, f"-H{Q(rng.uniform(-1, .2 / dt))}/{Q(rng.uniform(.25 / dt, .6 / dt)) if rng.random() < .7 else -1}")
    a += maybe(rng, .4, "-G" + "evhs"[rng.integers(4)]) + boundary(rng)
    a += maybe(rng, .25, "-S" + (",".join(str(int(i)) for i in rng.choice(nt // 2, 2, replace=False)) if rng.random() < .6 else ""))
    a += ["-e"] * e + maybe(rng, .5, "-s")
    steps.append(a)
    ssel = lambda: []
    for k in range(int(rng.integers(1, 3))):
        sel = ["$ANYGRN"] if rng.random() < .5 else None
        g = ["-G$GDIR"]
        steps.append(["syn", *g, f"-A{Q(rng.uniform(0, 360))}", *mech(rng), f"-Os{k}", *tfun(rng, files, dt), *maybe(rng, .3, f"-I{rng.integers(1, 3)}"), *maybe(rng, .3, f"-J{rng.integers(1, 3)}"),
                      *maybe(rng, .5, "-N"), *(["-e"] if e else []), *maybe(rng, .5, "-s")])
        for m in ("strain", "rotation", "stress"):
            if e and rng.random() < .7:
                steps.append([m, f"s{k}"])
    steps.append(["sac2asc", "$SAC"])
    steps.append(["ker2asc", "$STATS"])
    return files, steps


def fault(rng, ds):
    """One Coulomb line; depths within ds."""
    lo, hi = ds[0], ds[-1]
    top = lo + (hi - lo) * rng.uniform(0, .4); bot = top + (hi - top) * rng.uniform(.3, 1)
    e0, n0 = rng.uniform(-2, 2, 2); de, dn = rng.uniform(-2, 2, 2)
    return f"  1 {e0:.3f} {n0:.3f} {e0 + de:.3f} {n0 + dn:.3f} {[100, 200, 300, 400, 500][rng.integers(5)]} {rng.uniform(-2, 2):.2f} {rng.uniform(-2, 2):.2f} {rng.uniform(5, 90):.1f} {top:.4f} {bot:.4f} fault\n"


def static(rng):
    files, steps = {}, []
    L, kind = gen.model(rng, nmax=4)
    files["mod"] = gen.text(L, ["thick", "depth", "noisy"][rng.integers(3)], rng=rng)
    e = rng.random() < .6
    grid = rng.random() < .3
    ff = rng.random() < .5
    if ff:
        ds, dr = depths(rng, L, 4), depths(rng, L, int(rng.integers(1, 3)))
        if len(ds) < 2:
            ds = [ds[0], ds[0] + .5]
        d = ["-Ds" + dlist(ds), "-Dr" + dlist(dr)]
    else:
        d, *_ = pairs(rng, L)
        ds = dr = None
    a = ["static_greenfn", "-Mmod", *d, "-Oq.nc"]
    if grid:
        a += ["-X-1/2/1.5", "-Y0/3.3/1.1"]
    elif ff:
        a += ["-R0.1/25/3" if rng.random() < .5 else "-R0.5,2,6,30"]
    else:
        a.append(dists(rng, files)[0])
    a += maybe(rng, .6, f"-L{Q(rng.uniform(3, 25))}" + (["", f"+l{Q(rng.uniform(3, 10))}+o{Q(rng.uniform(.5, 5))}", f"+a{Q(10 ** rng.uniform(-4, -1))}+o{Q(rng.uniform(.5, 5))}"][rng.integers(3)])) + maybe(rng, .4, ["-Cd", "-Cp", "-Cn", "-C"][rng.integers(4)])
    a += maybe(rng, .5, "-K" + (f"+k{Q(rng.uniform(2, 10))}" if rng.random() < .7 else "") + ("+f" if rng.random() < .3 else "") + (f"+e{Q(10 ** rng.uniform(-4, -1))}" if rng.random() < .3 else ""))
    a += maybe(rng, .3, "-S") + ["-e"] * e
    steps.append(a)
    for k in range(int(rng.integers(1, 3))):
        b = ["static_syn", "-Gq.nc", f"-Oy{k}.nc", *maybe(rng, .5, "-N"), *(["-e"] if e else []), *maybe(rng, .5, "-s")]
        w = rng.integers(3)
        if w == 0 and not grid:
            b += [f"-X{Q(rng.uniform(-3, 0))}/2/1", "-Y-1/1/0.7"]
        elif w == 1 and not grid:
            z = dr or [0.0]
            files[f"pts{k}"] = "# n e d\n" + "".join(f"{rng.uniform(-3, 3):.4f} {rng.uniform(-3, 3):.4f} {z[rng.integers(len(z))]!r}" + (" 30 40 50" if rng.random() < .0 else "") + "\n" for _ in range(int(rng.integers(1, 6))))
            b += [f"-Qpts{k}"]
        if ff and rng.random() < .6:
            files[f"flt{k}"] = "#  x\n# y\n" + "".join(fault(rng, ds) for _ in range(int(rng.integers(1, 3))))
            b += [f"-Cflt{k}" + (f"+i{Q(rng.uniform(.3, 2))}/{Q(rng.uniform(.3, 2))}" if rng.random() < .6 else "")]
        else:
            b += mech(rng)
            if ff and "-Q" not in " ".join(b):
                b += [f"-Ds{rng.uniform(ds[0], ds[-1]):.4f}"]
        if ff and dr and len(dr) > 1 and "-Q" not in " ".join(b):
            b += [f"-Dr{rng.uniform(dr[0], dr[-1]):.4f}"]
        steps.append(b)
        for m in ("static_strain", "static_rotation", "static_stress"):
            if e and rng.random() < .7:
                steps.append([m, f"y{k}.nc"])
    return files, steps


def kernel(rng):
    files = {}
    L, _ = gen.model(rng, nmax=4)
    files["mod"] = gen.text(L, ["thick", "depth", "noisy"][rng.integers(3)], rng=rng)
    c = [f"-C{Q(rng.uniform(.1, .4))}", f"-C{Q(rng.uniform(.3, 1))}/{Q(rng.uniform(2, 8))}/{Q(rng.uniform(.2, .7))}"][rng.integers(2)]
    f0 = rng.uniform(0, .5)
    a = ["kernel", "-Mmod", "-D%r/%r" % (gen.depth(rng, L), gen.depth(rng, L)), c, f"-F{Q(f0)}/{Q(f0 + 1.3)}/0.4" + (f"+w{Q(rng.uniform(.2, 3))}" if rng.random() < .5 else ""), "-OK", *boundary(rng), *maybe(rng, .5, "-e")]
    return files, [a, ["ker2asc", "$KER"]]


def modal(rng):
    files = {}
    L, kind = gen.model(rng, nmax=4, q=rng.random() < .5)
    while kind == "half":
        L, kind = gen.model(rng, nmax=4)
    files["mod"] = gen.text(L, ["thick", "depth", "noisy"][rng.integers(3)], rng=rng)
    w = "RL"[rng.integers(2)]
    F = [f"-F{Q(rng.uniform(.2, 2))}", f"-F0.2/{Q(rng.uniform(.8, 2))}/0.2", "-F0.5/3/0.5+p"][rng.integers(3)]
    F = F if "/" not in F or rng.random() < .5 else "-F0.1/1.6/0.1"
    a = ["eigenv", "-Mmod", "-Ceig.nc", f"-S{w}", F, *maybe(rng, .8, ["-N", "-N2", "-N0"][rng.integers(3)]), *maybe(rng, .2, "-T+t1e-5+c1e-6"), *maybe(rng, .4, "-s"), *maybe(rng, .2, "-P2")]
    b = ["eigenfn", "-Ceig.nc", "-Uu.nc", *maybe(rng, .7, "-Ww.nc" + ("+z0/3/0.5" if rng.random() < .6 else "+z1.3" if rng.random() < .5 else "")),
         *maybe(rng, .6, "-K+ckc.nc+uku.nc" + ("+xkx.nc" if rng.random() < .4 else "") + ("+z0.4" if rng.random() < .4 else "")), *maybe(rng, .7, "-N"), *maybe(rng, .3, "-F0.3/1.5")]
    d, *_ = pairs(rng, L)
    c = ["modsum", "-Ceig.nc", *d, "-OG", dists(rng, files)[0], *maybe(rng, .7, "-N"), *maybe(rng, .3, "-F0.2/1.2"), *maybe(rng, .4, f"-E{Q(rng.uniform(-2, 2))}"), *maybe(rng, .2, "-Ep-1"), *maybe(rng, .3, "-G" + "evhs"[rng.integers(4)]), *maybe(rng, .3, "-W0.3"), *maybe(rng, .5, "-e")]
    return files, [a, b, ["disp2asc", "-Ceig.nc", *maybe(rng, .7, "-N"), *maybe(rng, .3, "-F0.3/1.5")], ["disp2asc", "-Uu.nc", *maybe(rng, .7, "-N")], c]


def small(rng):
    files = {}
    L, _ = gen.model(rng, nmax=6)
    files["mod"] = gen.text(L, ["thick", "depth", "noisy"][rng.integers(3)], rng=rng)
    steps = [["travt", "-Mmod", "-D%r/%r" % (gen.depth(rng, L, solid_only=False), gen.depth(rng, L, solid_only=False)), dists(rng, files)[0]]]
    steps.append(["lamb1", f"-P{Q(rng.uniform(.01, .49))}", ["-T0/2/0.05", "-T1/1/1", "-T0.3/1.3/0.01", "-T0/0/1"][rng.integers(4)], f"-A{Q(rng.uniform(0, 360))}"])
    o = ["okada", "-I6/3.4/2.7", "-Oo.nc", *maybe(rng, .5, "-N"), *maybe(rng, .5, "-e"), *maybe(rng, .5, "-s")]
    if rng.random() < .5:
        files["pts"] = "".join(f"{rng.uniform(-3, 3):.4f} {rng.uniform(-3, 3):.4f} {rng.uniform(0, 3):.4f}\n" for _ in range(int(rng.integers(1, 6))))
        o += ["-Qpts"]
    else:
        o += ["-X-1/1/0.5", "-Y0/0/1", "-Dr0.5"]
    if rng.random() < .5:
        files["flt"] = "a\nb\n" + "".join(fault(rng, (0.0, 3.0)) for _ in range(3))
        o += ["-Cflt"]
    else:
        m = mech(rng)
        while any(x[:2] in ("-T", "-F") for x in m):
            m = mech(rng)
        o += [*m, f"-Ds{Q(rng.uniform(.1, 4))}"]
    steps.append(o)
    if "-e" in o:
        steps += [["static_strain", "o.nc"], ["static_rotation", "o.nc"], ["static_stress", "o.nc"]]
    return files, steps


KINDS = {"dynamic": dynamic, "static": static, "kernel": kernel, "modal": modal, "small": small}


def session(rng, kind=None):
    kind = kind or list(KINDS)[rng.choice(len(KINDS), p=[.25, .25, .1, .2, .2])]
    f, s = KINDS[kind](rng)
    return kind, f, s
