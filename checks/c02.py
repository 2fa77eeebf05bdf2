"""C02: ThreadSanitizer with a seeded OpenMP runtime, and outputs compared over thread counts and schedules."""
import os, re, glob, shutil
import numpy as np
from vlib import gen, gio, workload as W
from vlib.core import run_bin

PROP = "C02"
RULE = ("Random parallel workloads of every parallel command. (a) They run on a ThreadSanitizer build linked with an OpenMP runtime of our own "
        "(shim/gomp_shim.c) that deals loop iterations to 2-8 threads in an order and with delays chosen by a seed and adds no ordering OpenMP does not give; "
        "any report is a violation. (b) Every file written is compared with a one-thread run for several thread counts (libgomp) and several seeded schedules (shim).")
ASSUMPTIONS = ["NetCDF and FFTW are not instrumented; they are called outside parallel regions or through the toolkit's own calls only",
               "rounding-level differences (1e-9 of the largest value in double files, 2e-6 in single precision) are allowed everywhere"]
FLAVORS = ["plain", "shim", "tsan"]


# ---------------------------------------------------------------- workloads (every step is run in every variant)
def w_greenfn(rng):
    L, _ = gen.model(rng, nmax=4)
    f = {"mod": gen.text(L)}
    d, *_ = W.pairs(rng, L, liquid_ok=True)
    R, _ = W.dists(rng, f)
    nt = int([16, 24, 33, 48][rng.integers(4)]); dt = float([.1, .2, .5][rng.integers(3)])
    a = ["greenfn", "-Mmod", *d, f"-N{nt}/{dt}+w{W.Q(rng.uniform(.5, 2))}" + ("+a" if rng.random() < .5 else ""), R, "-OG", *W.maybe(rng, .6, ["-Cd", "-Cp", "-Cn"][rng.integers(3)]),
         *W.maybe(rng, .6, "-L" + W.Q(rng.uniform(5, 20)) + (["", f"+l{W.Q(rng.uniform(3, 10))}", f"+a{W.Q(10 ** rng.uniform(-4, -1))}"][rng.integers(3)])),
         *W.maybe(rng, .4, "-K+k2" + ("+f" if rng.random() < .5 else "")), *W.maybe(rng, .5, "-S"), *W.maybe(rng, .6, "-e"), *W.maybe(rng, .7, "-s")]
    if not any("+a" in x for x in a if x[:2] == "-L"):       # adaptive sampling needs very long where the kernel is zero
        a += W.boundary(rng)
    return f, [a]


def w_kernel(rng):
    f, s = W.kernel(rng)
    return f, s[:1]


def w_modal(rng):
    L, kind = gen.model(rng, nmax=4, q=rng.random() < .5)
    while kind == "half":
        L, kind = gen.model(rng, nmax=4)
    f = {"mod": gen.text(L)}
    w = "RL"[rng.integers(2)]
    F = ["-F0.1/1.5/0.1", "-F0.05/1/0.05", "-F0.4/4/0.4+p"][rng.integers(3)]
    a = ["eigenv", "-Mmod", "-Ceig.nc", f"-S{w}", F, *W.maybe(rng, .9, ["-N", "-N3"][rng.integers(2)]), *W.maybe(rng, .5, "-s")]
    b = ["eigenfn", "-Ceig.nc", "-Uu.nc", "-Ww.nc+z0/3/0.5", "-K+ckc.nc+uku.nc+xkx.nc", "-N"]
    d, *_ = W.pairs(rng, L)
    c = ["modsum", "-Ceig.nc", *d, "-OG", W.dists(rng, f)[0], "-N", *W.maybe(rng, .5, f"-E{W.Q(rng.uniform(-1, 1))}"), *W.maybe(rng, .5, "-e")]
    return f, [a, b, c]


def w_ff(rng):
    L, _ = gen.solid(rng, nmax=3)
    f = {"mod": gen.text(L)}
    ds = [round(float(x), 3) for x in np.cumsum(rng.uniform(.4, 1.5, 4))]
    dr = [0.0, .3][:int(rng.integers(1, 3))]
    e = ["-e"] if rng.random() < .6 else []
    a = ["static_greenfn", "-Mmod", "-Ds" + W.dlist(ds), "-Dr" + W.dlist(dr), "-R0.05/30/1.5", "-Oq.nc", "-L10", *e]
    f["flt"] = "a\nb\n" + "".join(W.fault(rng, ds) for _ in range(int(rng.integers(1, 4))))
    b = ["static_syn", "-Gq.nc", "-Oy.nc", f"-Cflt+i{W.Q(rng.uniform(.15, .5))}/{W.Q(rng.uniform(.15, .5))}", *e, *W.maybe(rng, .5, "-N"), "-s"]
    if rng.random() < .5:
        b += ["-X-2/2/0.8", "-Y-1/2/0.9", *([f"-Dr{rng.uniform(*dr):.3f}"] if len(dr) > 1 else [])]
    else:
        f["pts"] = "".join(f"{rng.uniform(-4, 4):.3f} {rng.uniform(-4, 4):.3f} {dr[rng.integers(len(dr))]}\n" for _ in range(12))
        b += ["-Qpts"]
    return f, [a, b]


def w_okada(rng):
    f = {"flt": "a\nb\n" + "".join(W.fault(rng, (0.2, 3.0)) for _ in range(int(rng.integers(1, 6))))}
    o = ["okada", "-I6/3.4/2.7", "-Oo.nc", "-X-3/3/0.7", "-Y-2/3/0.6", f"-Dr{W.Q(rng.uniform(0, 2))}", *W.maybe(rng, .5, "-N"), *W.maybe(rng, .7, "-e")]
    return f, [o + (["-Cflt"] if rng.random() < .6 else [f"-Su{W.Q(10 ** rng.uniform(5, 10))}", f"-M{W.Q(rng.uniform(0, 360))}/{W.Q(rng.uniform(1, 89))}/{W.Q(rng.uniform(-180, 180))}", "-Ds2.3"])]


KINDS = dict(greenfn=w_greenfn, kernel=w_kernel, modal=w_modal, ff=w_ff, okada=w_okada)


def prepare(ctx, kind, sub, files):
    d = ctx.path(sub)
    os.makedirs(d)
    for n, t in files.items():
        open(os.path.join(d, n), "w").write(t)
    return d


def execute(ctx, d, steps, flavor, threads, seed=None, opt=False):
    b = os.path.join(ctx.builds[flavor], "bin", "grt")
    env = {}
    if seed is not None:
        env = {"GRT_SHIM_SEED": str(seed), "GRT_SHIM_LOG": ctx.path("shim.log")}
    out = []
    for a in steps:
        a = a + ([f"-P{threads}"] if opt and a[0] in ("greenfn", "kernel", "eigenv", "modsum") else [])
        r = run_bin(b, a, d, 60, threads if not opt else 3, env)
        ctx.cmds.append(f"[{flavor} threads={threads} seed={seed}] " + " ".join(a))
        out.append(r)
        if r.rc != 0:
            break
    return out


def schedules(ctx):
    p = ctx.path("shim.log")
    n = 0
    if os.path.exists(p):
        seen = set()
        for l in open(p):
            m = re.search(r"threads=(\d+) busy=(\d+) chunks=(\d+) iters=(\d+) crit=(\d+) order=(\w+)", l)
            if m:
                n += 1
                seen.add(m[6]); ctx.tag(f"threads:{m[1]}")
                ctx.stats["iterations"] = ctx.stats.get("iterations", 0) + int(m[4])
                ctx.stats["critical_sections"] = ctx.stats.get("critical_sections", 0) + int(m[5])
                if int(m[2]) > 1:
                    ctx.stats["regions_on_several_threads"] = ctx.stats.get("regions_on_several_threads", 0) + 1
        ctx.stats["distinct_schedules"] = ctx.stats.get("distinct_schedules", 0) + len(seen)
        ctx.stats["regions"] = ctx.stats.get("regions", 0) + n
        os.remove(p)
    return n


FRAME = re.compile(r"#\d+ (\w[\w.]*) (?:\S*/)?(src/[\w/]+\.c):(\d+)")


def races(ctx, kind, n):
    rng = ctx.rng
    for i in range(n):
        files, steps = KINDS[kind](rng)
        d = prepare(ctx, kind, f"t{i}", files)
        t = int(rng.integers(2, 9))
        for r in execute(ctx, d, steps, "tsan", t, int(rng.integers(1, 10 ** 6))):
            ctx.evals += 1
            text = r.err + r.out
            if r.timeout:
                ctx.inconclusive += 1; ctx.tag("timeout"); break
            if "WARNING: ThreadSanitizer" in text or r.rc == 97:
                m = FRAME.search(text[max(0, text.find("WARNING: ThreadSanitizer")):])
                ctx.violate("race@%s" % (f"{m[1].split('._omp')[0]}:{os.path.basename(m[2])}" if m else "?"), f"{' '.join(r.argv)} :: {text[text.find('WARNING: Thr'):][:1800]}")
                break
            if r.rc < 0 or r.rc > 1:
                ctx.violate("crash", f"rc={r.rc} {r.desc()[:900]}")
            ctx.tag(f"race-run:{r.argv[0]}", "ok" if r.rc == 0 else "refused")
        if not schedules(ctx) and kind != "okada":
            ctx.tag("no-parallel-region")
        shutil.rmtree(d)


def files_of(d):
    return sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)


def close(ctx, key, a, b, tol, what):
    a = np.asarray(a, float); b = np.asarray(b, float)
    if a.shape != b.shape:
        return ctx.check(key, False, f"{what}: shape {a.shape} {b.shape}")
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return ctx.check(key, False, f"{what}: non-finite values in one run only")
    if not fa.any():
        ctx.evals += 1
        return True
    return ctx.close(key, a[fa], b[fa], tol, detail=what)


def same(ctx, da, db, how):
    """Everything written in da equals what was written in db."""
    A, B = files_of(da), files_of(db)
    ctx.check("files", A == B, f"{how}: files differ {sorted(set(A) ^ set(B))[:6]}")
    identical = 0
    for f in sorted(set(A) & set(B)):
        x, y = open(os.path.join(da, f), "rb").read(), open(os.path.join(db, f), "rb").read()
        if x == y:
            ctx.evals += 1; identical += 1
            continue
        if f.endswith(".sac"):
            p, q = gio.Sac(os.path.join(da, f)), gio.Sac(os.path.join(db, f))
            close(ctx, "trace", p.data, q.data, 2e-6, f"{how} {f}")
            m = [i for i in range(70) if i not in (1, 2, 56)]      # depmin, depmax, depmen follow the data
            ctx.check("header", np.allclose(p.f[m], q.f[m], rtol=1e-6) and np.array_equal(p.i, q.i) and p.k == q.k, f"{how} {f}")
        elif f.endswith(".nc"):
            va, dma, aa = gio.read_nc(os.path.join(da, f)); vb, dmb, ab = gio.read_nc(os.path.join(db, f))
            strip = lambda at: {k: (re.sub(r" -P\d+", "", v) if isinstance(v, str) else np.asarray(v).tolist()) for k, v in at.items()}
            ctx.check("nc-layout", set(va) == set(vb) and dma == dmb and strip(aa) == strip(ab), f"{how} {f} {aa} {ab}")
            for v in set(va) & set(vb):
                close(ctx, "nc-value", va[v], vb[v], 1e-9, f"{how} {f}:{v}")
        elif os.path.basename(f) == "command" or f.endswith("command"):
            ctx.check("command", re.sub(rb" -P\d+", b"", x) == re.sub(rb" -P\d+", b"", y), f"{how} {f}")
        elif len(x) == len(y) and len(x) % 8 == 0:
            close(ctx, "stats", np.frombuffer(x), np.frombuffer(y), 1e-9, f"{how} {f}")
        else:
            ctx.check("other-file", False, f"{how} {f} differs: {x[:120]!r} {y[:120]!r}")
    ctx.stats["files_compared"] = ctx.stats.get("files_compared", 0) + len(A)
    ctx.stats["files_identical"] = ctx.stats.get("files_identical", 0) + identical


def invariance(ctx, kind, n):
    rng = ctx.rng
    for i in range(n):
        files, steps = KINDS[kind](rng)
        ref = prepare(ctx, kind, f"r{i}", files)
        R = execute(ctx, ref, steps, "plain", 1)
        if any(r.timeout for r in R):
            ctx.inconclusive += 1; ctx.tag("timeout"); shutil.rmtree(ref)
            continue
        ctx.tag(*(f"run:{r.argv[0]}" for r in R if r.rc == 0))
        if R[0].rc != 0:
            ctx.tag("refused")
        variants = [("plain", int(rng.integers(2, 9)), None, False), ("plain", 16, None, False), ("plain", int(rng.integers(2, 5)), None, True)] + \
                   [("shim", int(rng.integers(2, 9)), int(rng.integers(1, 10 ** 6)), False) for _ in range(3)]
        for j, (fl, t, s, opt) in enumerate(variants):
            if opt and kind in ("ff", "okada"):
                continue
            d = prepare(ctx, kind, f"v{i}_{j}", files)
            V = execute(ctx, d, steps, fl, t, s, opt)
            if any(r.timeout for r in V):
                ctx.inconclusive += 1; ctx.tag("timeout"); shutil.rmtree(d)
                continue
            how = f"{fl}/{t} threads/seed {s}{'/-P' if opt else ''} vs 1 thread: {' '.join(steps[0])[:150]}"
            ctx.check("exit-status", [r.rc for r in V] == [r.rc for r in R], f"{how}: {[r.rc for r in V]} {[r.rc for r in R]} {V[-1].desc()[:500]}")
            same(ctx, d, ref, how)
            shutil.rmtree(d)
        schedules(ctx)
        shutil.rmtree(ref)


def cases(tier, rnd):
    m = 1 if tier == "quick" else 12
    out = []
    for k, a, b in (("greenfn", 5, 4), ("kernel", 3, 2), ("modal", 4, 4), ("ff", 3, 3), ("okada", 2, 2)):
        out += [(races, dict(kind=k, n=2))] * a * m + [(invariance, dict(kind=k, n=2))] * b * m
    return out
