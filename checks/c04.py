"""C04: kernels against an independent global-matrix solution."""
import glob, os
import numpy as np
from vlib import gen, gio, refkernel as R

PROP = "C04"
RULE = ("Random layered models (increasing, low-velocity, thin, strong contrast, liquid top/middle, half space, with and without Q), "
        "boundary conditions, source/receiver depths (surface, inside, on interfaces, half space, equal), frequencies and phase velocities; "
        "every kernel value is compared with a global-matrix solution of the boundary-value problem.")
ASSUMPTIONS = ["receivers and sources on solid/liquid interfaces are refused by the program and not generated"]
COMPS = "qwv"


def compare(ctx, key, D, ref, scale_fac, suffix, rtol=2e-6, floor=1e-9, ref2=None, surf_ds=False, only=None):
    for s in only or R.SRC:  # only an explosion exists in a liquid
        for c in COMPS:
            n = f"{s}_{c}"
            if n not in D.dtype.names:
                continue
            a = D[n]
            b = ref[s, c + suffix] * scale_fac * (-1 if c == "v" else 1)
            if surf_ds and s == "DS":
                # dip slip at a free surface radiates nothing (the sliver above it only carries a delta at r=0)
                b = b * 0
            # scale: the value itself plus a floor from the whole source response at that k
            tot = sum(np.abs(ref[s, cc + suffix]) for cc in COMPS) * np.abs(scale_fac)
            sc = np.abs(b) + 1e-3 * tot + floor * np.max(tot)
            if ref2 is not None:  # response vanishes identically (receiver on a rigid boundary)
                tot2 = sum(np.abs(ref2[s, cc + suffix]) for cc in COMPS) * np.abs(scale_fac)
                sc = sc + 30 * tot2 + 1e-2 * np.max(tot2)
            ctx.close(f"{key}:{n}{suffix}", a, b, rtol, scale=np.maximum(sc, 1e-300), atol=1e-200, detail=f"{key} {n}")


def vanishing(m, bt, ds, dr, om, ks, omgref):
    """Magnitude reference where the response vanishes identically: anything at a rigid top, and
    vertical-plane dip slip at a free surface."""
    if bt == "r" and 0 in (ds, dr) or bt == "f" and ds == 0:
        return R.solve(m, ds if ds > 0 else 0.2, dr if dr > 0 else 0.2, om, ks, omgref=omgref, rcv_below=False)
    return None


def pick(rng, deprcv_liquid_ok=True, kind=None):
    L, kind = gen.model(rng, kind=kind)
    bt = "frh"[rng.choice(3, p=[.6, .2, .2])]
    bb = "HFR"[rng.choice(3, p=[.6, .2, .2])] if len(L) > 1 else "H"
    z = gen.interfaces(L)
    zmax = z[-1] if bb != "H" else None

    def dep(solid):
        for _ in range(300):
            d = gen.depth(rng, L, solid_only=solid)
            if bb != "H" and d > z[-1] - 1e-3:
                continue
            # avoid solid/liquid interfaces
            bad = False
            for i in range(1, len(L)):
                if abs(d - z[i]) < 1e-9 and (L[i][2] == 0 or L[i - 1][2] == 0):
                    bad = True
            if bad:
                continue
            return d
        return 0.1
    ds = dep(True)  # (an explosion at a liquid surface vanishes: never at 0 in a liquid)
    dr = dep(rng.random() < 0.7)
    wet = [i for i in range(len(L) - (bb != "H")) if L[i][2] == 0 and i < len(L) - 1]
    if wet and rng.random() < .35: i = rng.choice(wet); ds = round(float(rng.uniform(z[i] + .02, z[i + 1] - .02)), 4)
    if wet and rng.random() < .3: i = rng.choice(wet); dr = round(float(rng.uniform(z[i] + .02, z[i + 1] - .02)), 4)
    if rng.random() < 0.12:
        dr = ds
    return L, kind, bt, bb, ds, dr


def tags(ctx, L, kind, bt, bb, ds, dr):
    z = gen.interfaces(L)
    ctx.tag(f"model:{kind}", f"top:{bt}", f"bottom:{bb}", "rcv_above" if dr < ds else "rcv_equal" if dr == ds else "rcv_below")
    ctx.tag("Q" if L[0][4] > 0 or L[-1][4] > 0 else "elastic")
    if any(abs(ds - zi) < 1e-9 for zi in z[1:]):
        ctx.tag("src_on_interface")
    if any(abs(dr - zi) < 1e-9 for zi in z[1:]):
        ctx.tag("rcv_on_interface")
    if ds == 0:
        ctx.tag("src_surface")
    if dr == 0:
        ctx.tag("rcv_surface")
    m = R.Model(L)
    if L[m.layer_of(dr)][2] == 0:
        ctx.tag("rcv_in_liquid")
    if L[m.layer_of(ds)][2] == 0:
        ctx.tag("src_in_liquid")


def kernel_module(ctx, kind=None):
    rng = ctx.rng
    L, kind, bt, bb, ds, dr = pick(rng, kind=kind)
    ctx.write("mod", gen.text(L, style=["thick", "depth"][rng.integers(2)] if len(L) > 1 else "thick"))
    tags(ctx, L, kind, bt, bb, ds, dr)
    # nf exact multiples: f = f1 + i*df with binary-exact values
    df = float(rng.choice([0.25, 0.5, 1.0])); n = int(rng.integers(3, 6)); f1 = df * int(rng.integers(1, 5))
    zeta = float(rng.choice([20.0, 1.0, 5.0]))
    c1, dc, nc = 0.5 + 0.25 * int(rng.integers(0, 8)), float(rng.choice([0.25, 0.5])), int(rng.integers(6, 12))
    f2 = f1 + df * (n - 1); c2 = c1 + dc * (nc - 1)
    args = ["kernel", "-Mmod", f"-D{ds}/{dr}", f"-C{c1}/{c2}/{dc}", f"-F{f1}/{f2}/{df}" + (f"+w{zeta}" if zeta != 20 else ""), "-B" + bt + bb]
    m = R.Model(L, bt, bb)
    for suffix, extra in (("", []), ("z", ["-e"])):
        ctx.grt(*args, f"-Ok{suffix}", *extra)
        fs = sorted(glob.glob(ctx.path(f"k{suffix}", "mod_*", "C_*")))
        ctx.check("files", len(fs) == n, f"expected {n} kernel files, got {len(fs)}")
        for i, f in enumerate(fs):
            fr = f1 + i * df
            om = 2 * np.pi * fr - 1j * zeta * np.pi * df
            D = gio.read_stats(f, "c")
            if not ctx.close("cgrid", D["c"], c1 + dc * np.arange(nc), 1e-9):
                continue
            ks = 2 * np.pi * fr / D["c"]
            ref = R.solve(m, ds, dr, om, ks, omgref=2 * np.pi * f2, rcv_below=False)
            ref2 = vanishing(m, bt, ds, dr, om, ks, 2 * np.pi * f2)
            compare(ctx, "kernel", D, ref, 1.0, suffix, ref2=ref2, surf_ds=(bt == "f" and ds == 0 and dr == 0), only=["EX"] if L[m.layer_of(ds)][2] == 0 else None)


def greenfn_stats(ctx, kind=None):
    """Kernels met during the actual wavenumber integration (including very small and large k)."""
    rng = ctx.rng
    L, kind, bt, bb, ds, dr = pick(rng, kind=kind)
    ctx.write("mod", gen.text(L))
    tags(ctx, L, kind, bt, bb, ds, dr)
    nt, dt = 32, float(rng.choice([0.25, 0.5, 0.125]))
    nf = nt // 2 + 1
    idx = sorted(set(int(i) for i in rng.integers(2, nf, 3)))
    r = round(float(rng.uniform(2, 20)), 3)
    extra = ["-e"] if rng.random() < 0.4 else []
    zeta = float(rng.choice([0.8, 1.5]))
    ctx.grt("greenfn", "-Mmod", f"-D{ds}/{dr}", f"-N{nt}/{dt}+a+w{zeta}", f"-R{r}", "-Og", "-S" + ",".join(map(str, idx)), "-B" + bt + bb, "-s", *extra)
    T = nt * dt
    wI = zeta * np.pi / T
    m = R.Model(L, bt, bb)
    fs = sorted(glob.glob(ctx.path("g*", "**", "K_*"), recursive=True) + glob.glob(ctx.path("*", "**", "K_*"), recursive=True))
    fs = sorted(set(f for f in fs if "PTAM" not in f))
    ctx.check("statsfiles", len(fs) == len(idx), f"stats files {len(fs)} for {idx}")
    isrc = m.layer_of(ds)
    for f in fs:
        iw = int(os.path.basename(f).split("_")[1])
        w = 2 * np.pi * iw / T
        om = w - 1j * wI
        D = gio.read_stats(f, "k")
        n = len(D)
        sel = np.unique(np.r_[np.arange(0, n, max(1, n // 40)), n - 1])
        # the recursion loses digits like (k v/omega)^2: stay where double precision is meaningful
        vs = min(l[2] for l in L if l[2] > 0)
        sel = sel[D["k"][sel] * max(l[1] for l in L) / abs(om) < 100]
        D = D[sel]
        ref = R.solve(m, ds, dr, om, D["k"], omgref=2 * np.pi * (nf - 1) / T, rcv_below=False)
        ref2 = vanishing(m, bt, ds, dr, om, D["k"], 2 * np.pi * (nf - 1) / T)
        compare(ctx, "integ", D, ref, -4 * np.pi * L[isrc][3] * om ** 2, "z" if extra else "", rtol=1e-4, ref2=ref2, surf_ds=(bt == "f" and ds == 0 and dr == 0), only=["EX"] if L[m.layer_of(ds)][2] == 0 else None)


def cases(tier, rnd):
    n = 240 if tier == "quick" else 3000
    m = 120 if tier == "quick" else 1500
    kinds = ["incr", "lvz", "half", "two", "thin", "contrast", "liqtop", "liqmid", "rand", "equal"]
    for i in range(n):
        yield kernel_module, dict(kind=kinds[i % len(kinds)])
    for i in range(m):
        yield greenfn_stats, dict(kind=kinds[i % len(kinds)])
