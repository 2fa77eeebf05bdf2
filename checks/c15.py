"""C15: dispersion curves hold exactly the modes of the model: exact mode counts by the Wittrick-Williams theorem, plus invariances of the request."""
import numpy as np
from vlib import gen, gio, refmodal
from checks import c06

PROP = "C15"
RULE = ("Random layered models (increasing, low-velocity zones, thin and equal layers, strong contrasts, water layers on top and buried), Rayleigh and Love, "
        "frequencies from a tenth of the layering frequency to four times it. Every reported phase velocity must be where an exact count of the modes of the "
        "assembled layer stiffness steps up, the count between reported values must not step, lists increase without repetition, and subsets by order, "
        "single frequencies, periods, finer ranges, thread counts and equivalent model files repeat the same values.")
ASSUMPTIONS = ["a reported velocity is accepted within 1e-6 (relative) of an exact mode; modes within 5e-4 of a layer velocity or of the half-space shear "
               "velocity are not demanded (the search excludes layer velocities by design)",
               "the mode count trusts the dynamic stiffness in vlib/refmodal.py, which shares nothing with the program's reflection matrices",
               "models with a liquid layer directly on the half-space under a solid are listed as a known finding and not generated"]
DEL = 1e-6


def a_model(rng, kind):
    for _ in range(200):
        if kind == "many":
            n = int(rng.integers(7, 12))
            h = np.maximum(np.round(rng.uniform(0.2, 2.5, n) * 64), 1) / 64
            vs = np.sort(rng.uniform(0.8, 4.6, n))
            for _ in range(int(rng.integers(0, 3))):
                i = int(rng.integers(n - 2)); vs[i], vs[i + 1] = vs[i + 1], vs[i]
            vp = vs * rng.uniform(1.6, 2.0, n); rho = 1.6 + 0.25 * vp
            L = [[float(a), round(float(b), 4), round(float(c), 4), round(float(d), 4), 0.0, 0.0] for a, b, c, d in zip(h, vp, vs, rho)]
            L[-1][0] = 0.0
        elif kind == "soft":
            L, _ = gen.model(rng, kind="incr", nmax=5)
            L[0][0] = round(float(rng.choice([1, 2, 4, 8]) / 64), 6); L[0][2] = round(float(rng.uniform(0.15, 0.5)), 4)
            L[0][1] = round(L[0][2] * float(rng.uniform(1.8, 4.0)), 4); L[0][3] = 1.8
        elif kind == "channel":
            # a slow shear zone cut into several layers of one shear velocity but different P velocities: modes trapped in it hardly reach the surface
            n = int(rng.integers(2, 5)); b = round(float(rng.uniform(1.6, 2.4)), 3)
            lid = [round(float(rng.uniform(3, 8)), 3), 0.0, round(b * float(rng.uniform(1.3, 1.7)), 4), 2.6, 0.0, 0.0]
            lid[1] = round(lid[2] * float(rng.uniform(1.55, 1.7)), 4)
            L = [lid] + [[round(float(rng.uniform(0.8, 2.5)), 3), round(b * float(rng.uniform(1.7, 3.0)), 4), b, 2.3, 0.0, 0.0] for _ in range(n)]
            if rng.random() < .4: L[1][3] = 2.5
            L.append([0.0, 8.0, 4.5, 3.3, 0.0, 0.0])
        else:
            L, _ = gen.model(rng, kind=kind)
        if len(L) < 2: continue
        v = [l[2] if l[2] > 0 else l[1] for l in L]
        if min(v[:-1]) >= 0.995 * v[-1]: continue
        if kind == "liqmid" and L[-2][2] == 0: continue
        if kind == "liqmid" and v[-1] < 2.2: continue
        return L
    raise RuntimeError("no model")


def solve(ctx, mod, wt, fopt, out, *extra):
    r = ctx.grt("eigenv", f"-M{mod}", f"-S{wt}", fopt, f"-C{out}", "-s", *extra, expect=None)
    if r.rc:
        if "No eigenvalues were found" in r.err + r.out:
            return None
        ctx.violate("refused", f"eigenv refused a valid request: {(r.err + r.out)[-300:]}")
        return None
    V, D, A = gio.read_nc(ctx.path(out))
    return V


def per_freq(V):
    out = {}
    for i, f in enumerate(np.atleast_1d(V["freq"])):
        n = int(np.atleast_1d(V["cnum"])[i])
        out[float(f)] = np.atleast_2d(V["c"])[i][:n]
    return out


def judge(ctx, L, wt, f, c, limit=None, where=""):
    """c: reported phase velocities at frequency f; limit: number of orders asked for (None: all)"""
    w = 2 * np.pi * f
    vel = np.array([x for l in L for x in (l[1], l[2]) if x > 0])
    vn = L[-1][2] if L[-1][2] > 0 else L[-1][1]
    lowest = 0.02 * min(l[2] if l[2] > 0 else l[1] for l in L)
    c = np.asarray(c, float)
    key = f"{wt}{where}"
    if not ctx.check(f"order:{key}", len(c) < 2 or np.all(np.diff(c) > 0), f"f={f}: not increasing {c.tolist()}"): return
    if not ctx.check(f"range:{key}", np.all(np.isfinite(c)) and (len(c) == 0 or (c[0] > 0 and c[-1] <= vn)), f"f={f}: beyond the half-space velocity {vn}: {c.tolist()}"): return
    top = vn * (1 - 5e-4)
    use = c[c < vn * (1 - 5e-6)]
    pts = np.concatenate([[lowest], np.ravel(np.c_[use * (1 - DEL), use * (1 + DEL)]), [top]])
    n = refmodal.count(L, w, pts, wt)
    ctx.stats["modes"] = ctx.stats.get("modes", 0) + len(c)
    if n[0] != 0:
        ctx.tag("count-not-zero-below")
    lo, hi = n[1:-1:2], n[2:-1:2]
    # clusters closer than the tolerance are judged together
    i = 0
    while i < len(use):
        j = i
        while j + 1 < len(use) and use[j + 1] * (1 - DEL) <= use[j] * (1 + DEL): j += 1
        inside = abs(hi[j] - lo[i]); want = j - i + 1
        if not (inside >= want):
            # wider look before calling it false: how far is the nearest mode?
            d = [1e-5, 1e-4, 1e-3, 1e-2]
            near = [int(x) for x in refmodal.count(L, w, np.r_[use[i] * (1 - np.array(d)), use[j] * (1 + np.array(d))], wt)]
            ctx.check(f"false:{key}", False, f"f={f} {wt}: {want} mode(s) reported at {use[i:j + 1].tolist()} but the exact count goes from {lo[i]} to {hi[j]} there (wider steps {d}: {near}); model {L}")
            return
        else:
            ctx.check(f"false:{key}", True, "")
        i = j + 1
    # gaps
    edges = np.concatenate([[lowest], np.ravel(np.c_[use * (1 - DEL), use * (1 + DEL)]), [max(top, use[-1] * (1 + DEL)) if len(use) else top]])
    gaps = [(edges[2 * i], edges[2 * i + 1]) for i in range(len(edges) // 2)]
    last = len(gaps) - 1
    for gi, (a, b) in enumerate(gaps):
        if limit is not None and len(c) >= limit and gi == last: continue
        if b <= a: continue
        na, nb = refmodal.count(L, w, [a, b], wt)
        if nb < na: ctx.tag("count-decreases"); continue
        if nb == na:
            ctx.check(f"missing:{key}", True, ""); continue
        R, mono = refmodal.roots(L, w, wt, a, b)
        miss = [x for x in R if np.min(np.abs(vel - x)) > 5e-4 * x and x < top]
        if not mono: ctx.tag("count-decreases"); continue
        ctx.check(f"missing:{key}", not miss, f"f={f} {wt}: no value reported for the mode(s) at {miss} (reported {c.tolist()}); model {L}")


def agree(ctx, key, A, B, what, n=None, tol=2e-6):
    """values at the common frequencies, orders up to n"""
    for f, a in B.items():
        m = [x for x in A if abs(x - f) <= 1e-9 * f]
        if not m: continue
        b = A[m[0]]
        if n is not None: b = b[:n]; a = a[:n]
        ok = len(a) == len(b) and (len(a) == 0 or np.max(np.abs(a / b - 1)) < tol)
        ctx.check(key, ok, f"f={f}: {what}: {list(map(float, b))} became {list(map(float, a))}")


def curves(ctx, kind, n=2, high=False):
    rng = ctx.rng
    for i in range(n):
        L = a_model(rng, kind)
        ctx.write("mod", c06.rows(L, str(rng.choice(["thick", "depth"])), any(l[4] > 0 for l in L)))
        H = sum(l[0] for l in L)
        vn = L[-1][2]
        f2 = float(np.round(vn / H * 10 ** rng.uniform(-1 if not high else 0.3, 0.6), 3))
        f2 = max(f2, 0.008)
        df = round(f2 / 4, 5)
        fs = df * np.arange(1, 5)
        for wt in "RL":
            if wt == "L" and all(l[2] == 0 for l in L[:-1]): continue
            V = solve(ctx, "mod", wt, f"-F{df}/{fs[-1]!r}/{df}", "a.nc", "-N", f"-P{rng.integers(1, 4)}")
            every = {float(f): np.zeros(0) for f in fs} if V is None else per_freq(V)
            if V is not None:
                ctx.check("freqs", len(every) == 4 and np.allclose(sorted(every), fs, rtol=1e-12), f"frequencies {sorted(every)} instead of {fs.tolist()}")
            for f, c in every.items():
                judge(ctx, L, wt, f, c)
            ctx.tag(f"{kind}:{wt}", f"modes<={2 ** int(np.ceil(np.log2(1 + max(len(c) for c in every.values()))))}")
            if V is None: continue
            # invariances
            k = int(rng.integers(0, 4))
            f = sorted(every)[k]
            B = solve(ctx, "mod", wt, f"-F{f!r}", "b.nc", "-N", f"-P{rng.integers(1, 4)}")
            if B is None and len(every[f]): ctx.violate(f"single:{wt}", f"nothing found at f={f} alone, {every[f].tolist()} in a range")
            if B is not None: agree(ctx, f"single:{wt}", every, per_freq(B), "computed alone")
            B = solve(ctx, "mod", wt, f"-F{1 / f!r}+p", "b.nc", "-N")
            if B is not None: agree(ctx, f"period:{wt}", every, per_freq(B), "asked as a period")
            B = solve(ctx, "mod", wt, f"-F{df / 2!r}/{fs[-1]!r}/{df / 2!r}", "b.nc", "-N")
            if B is not None: agree(ctx, f"finer:{wt}", every, per_freq(B), "with a finer range")
            most = max(len(c) for c in every.values())
            m = int(rng.integers(0, max(most, 1)))
            B = solve(ctx, "mod", wt, f"-F{df}/{fs[-1]!r}/{df}", "b.nc", f"-N{m}" if m else "-P2")
            if B is not None:
                for f, c in per_freq(B).items():
                    ctx.check(f"limit:{wt}", len(c) <= m + 1, f"-N{m} gives {len(c)} orders at {f}")
                    judge(ctx, L, wt, f, c, limit=m + 1, where=":limited")
                agree(ctx, f"orders:{wt}", {f: c[:m + 1] for f, c in every.items()}, per_freq(B), f"with -N{m}")


def split(ctx, n=2):
    """the same model with a layer cut in two, attenuation columns added, or described by depths"""
    rng = ctx.rng
    for i in range(n):
        kind = str(rng.choice(["incr", "lvz", "liqtop", "contrast"]))
        L = a_model(rng, kind)
        j = int(rng.integers(len(L) - 1))
        a = round(L[j][0] * float(rng.choice([.25, .5, .75])), 8)
        M = L[:j] + [[a] + L[j][1:], [L[j][0] - a] + L[j][1:]] + L[j + 1:]
        M = M[:-1] + [[round(float(rng.uniform(.5, 3)), 3)] + L[-1][1:], list(L[-1])]
        Q = [l[:4] + [200.0, 100.0] for l in L]
        H = sum(l[0] for l in L)
        f2 = float(np.round(L[-1][2] / H * 10 ** rng.uniform(-0.7, 0.3), 3)); df = round(f2 / 3, 5)
        ctx.write("a", c06.rows(L, "thick", False)); ctx.write("b", c06.rows(M, "depth", False)); ctx.write("c", c06.rows(Q, "thick", True))
        for wt in "RL":
            if wt == "L" and all(l[2] == 0 for l in L[:-1]): continue
            A = solve(ctx, "a", wt, f"-F{df}/{f2}/{df}", "a.nc", "-N")
            for m in "bc":
                B = solve(ctx, m, wt, f"-F{df}/{f2}/{df}", "b.nc", "-N")
                if A is None or B is None:
                    ctx.tag("none-found"); continue
                top = L[-1][2] * (1 - 1e-4)
                vel = np.array([x for l in L for x in l[1:3]])
                keep = lambda V: {f: np.array([x for x in c if x < top and np.min(np.abs(vel - x)) > 1e-4 * x]) for f, c in per_freq(V).items()}
                agree(ctx, f"equivalent:{wt}{m}", keep(A), keep(B), "split layers" if m == "b" else "with attenuation columns")


def buried_liquid(ctx):
    """the case listed in KNOWN_FINDINGS.txt: the Scholte wave on the top of the half-space under a liquid layer under a plate"""
    L = [[0.5, 2.1831, 1.2841, 2.1458, 0, 0], [1.75, 1.7, 0, 1.2, 0, 0], [0, 2.8278, 1.3579, 2.307, 0, 0]]
    ctx.write("mod", c06.rows(L, "thick", False))
    V = solve(ctx, "mod", "R", "-F1.44075", "a.nc", "-N")
    judge(ctx, L, "R", 1.44075, per_freq(V)[1.44075], where=":liquid-on-half-space:f=1.44075")


def cases(tier, rnd):
    kinds = ["incr", "two", "thin", "lvz", "rand", "contrast", "equal", "liqtop", "liqmid", "many", "soft"]
    rep = 8 if tier == "quick" else 40
    for r in range(rep):
        for k in kinds:
            yield curves, dict(kind=k, n=1 if tier == "quick" else 3)
    for k in ["incr", "lvz", "liqtop", "contrast", "rand", "equal"] + ["channel"] * 5:
        yield curves, dict(kind=k, n=1 if tier == "quick" else 4, high=True)
    for r in range(8 if tier == "quick" else 30):
        yield split, dict(n=1)
    yield buried_liquid, {}
