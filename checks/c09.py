"""C09: source time functions, convolution, integration and differentiation in syn."""
import os
import numpy as np
from vlib import gio, synref as Y
from checks import c08

PROP = "C09"
RULE = ("Small libraries whose samples are replaced by random/impulsive series; random pulses of every type (short, sample-aligned, longer than the "
        "trace, custom files with comments), orders of -I/-J, damping, components and derivative traces; output compared with a double precision evaluation.")
r_ = c08.r_


def dbl(x):
    return float(np.float32(x))


def counts(t, dt):
    """Allowed numbers of intervals covering a duration t (rounded up to the sampling)."""
    q = t / dt
    n = int(np.ceil(q))
    s = {max(n, 0)}
    if abs(q - round(q)) * dt <= 2.5e-6 + 4e-7 * t:
        s |= {int(round(q)), int(round(q)) + 1}
    return s


def parabola(t0, dt):
    return [1 - 4 * (np.arange(m + 1) / m - 0.5) ** 2 for m in counts(t0, dt) if m > 0]


def trap(t1, t2, t3, dt):
    out = []
    for m1 in counts(t1, dt):
        a = np.linspace(0, 1, m1 + 1) if m1 else np.array([1.0])
        b1 = m1 * dt
        for m2 in ({0} if t1 == t2 else {max(0, m) for m in counts(t2 - b1, dt)} if t2 - b1 > -2.5e-6 else {0}):
            b2 = b1 + m2 * dt
            # the fall takes one sampling interval at least
            for m3 in {max(1, m) for m in counts(t3 - b2, dt)}:
                d = np.linspace(1, 0, m3 + 1)[1:]
                out.append(np.r_[a, np.ones(m2), d])
    return out


def ricker(f0, dt):
    out = []
    q = (1 / f0) / dt
    ns = {int(np.floor(q))}
    if abs(q - round(q)) < 1e-5 * q:
        ns |= {int(round(q)), int(round(q)) - 1}
    for n in ns:
        t = np.arange(2 * (n + 1)) * dt
        a = np.pi ** 2 * f0 ** 2 * (t - 1 / f0) ** 2
        out.append((1 - 2 * a) * np.exp(-a))
    return out


def pulse(ctx, rng, dt, nt, mode):
    """(args, list of admissible sample arrays, name)"""
    k = "ptrc"[rng.integers(4)]
    span = nt * dt
    hi = 2.0 * span if mode == "long" else 0.5 * span
    lo = 1.05 * span if mode == "long" else 1.01 * dt
    if k == "p":
        t0 = float(f"{rng.uniform(lo, hi):.4g}") if mode != "aligned" else round(dt * int(rng.integers(2, max(3, nt // 2))), 6)
        return [f"-Dp/{t0!r}"], parabola(dbl(t0), dbl(dt)), k
    if k == "t":
        v = np.sort(rng.uniform(0, hi, 3))
        if mode == "long":
            v[2] = max(v[2], lo)
        if mode == "aligned":
            v = np.cumsum(rng.integers(0, max(2, nt // 4), 3)) * dt
        if rng.random() < 0.25:
            v[1] = v[0]
        if rng.random() < 0.15:
            v[0] = 0
        v = [round(float(x), 4 if mode != "aligned" else 6) for x in v]
        if rng.random() < .3:
            # breakpoints so close that they fall on (or beyond) one another when moved to samples
            v[2] = round(v[1] + float(rng.choice([1e-5, .01, .3, 1.])) * dt, 6)
        v[2] = max(v[2], round(v[1] + 1e-5 * max(1, v[1]), 6), round(1.01 * dt, 4))
        return [f"-Dt/{v[0]!r}/{v[1]!r}/{v[2]!r}"], trap(*map(dbl, v), dbl(dt)), k
    if k == "r":
        f0 = 1 / rng.uniform(2.2 * dt, max(3 * dt, hi / 2)) if mode != "long" else 1 / rng.uniform(0.6 * span, span)
        f0 = min(float(f"{f0:.4g}"), 0.45 / dt)
        return [f"-Dr/{f0!r}"], ricker(dbl(f0), dbl(dt)), k
    n = int(rng.integers(nt + 1, 3 * nt)) if mode == "long" else int(rng.integers(1, nt))
    v = rng.normal(size=n)
    txt = "# comment\n#another\n" + "".join(("  " if i % 3 else "\t") * (i % 2) + f"{x:.8g}\n" + ("# mid comment\n" if i == n // 2 else "") + ("\n" if i % 7 == 3 else "") for i, x in enumerate(v))
    if rng.random() < 0.4:
        txt = txt.rstrip("\n")
    ctx.write("tf.txt", txt)
    return ["-D0/tf.txt"], [np.array([float(f"{x:.8g}") for x in v])], k


def convolve(x, h, wI, dt):
    """(damped periodic convolution, linear part, magnitudes, magnitude of every wrapped term)"""
    N = len(x)
    lin = np.zeros(N); mag = np.zeros(N); wrap = np.zeros(N); wmag = np.zeros(N)
    for k in range(len(h)):
        if k < N:
            lin[k:] += x[:N - k] * h[k]; mag[k:] += np.abs(x[:N - k] * h[k])
            wrap[:k] += x[N - k:] * h[k]
        n = np.arange(N); j = (n - k) % N; w = n < k
        c = np.ceil((k - n) / N)
        wmag += np.where(w, np.abs(x[j] * h[k]) * np.exp(-wI * dt * N * c), 0)
    D = np.exp(-wI * N * dt)
    return (lin + wrap * D) * dt, lin * dt, (mag + wmag) * dt, wmag * dt


def integ(x, dt):
    return np.r_[0, np.cumsum(0.5 * (x[1:] + x[:-1]) * dt)]


def diff(x, dt):
    y = np.empty_like(x)
    y[1:-1] = (x[2:] - x[:-2]) / (2 * dt)
    y[0] = (x[1] - x[0]) / dt; y[-1] = (x[-1] - x[-2]) / dt
    return y


def setup(ctx):
    rng = ctx.rng
    nt = int(rng.integers(5, 90)); dt = [0.01, 0.05, 0.1, 0.25, 0.7][rng.integers(5)]
    ze = [0.8, 0.2, 3.0][rng.integers(3)]
    L = [[0.0, 4.0, 2.2, 2.5, 0, 0]]
    _, ds, dr, dirs, nt, dt = c08.library(ctx, [r_(rng, 1, 20, 2)], ds=[1.0], dr=[0.0], nt=nt, dt=dt, L=L, extra=())
    gd = "G/" + dirs[0]
    shape = ["noise", "impulse", "smooth"][rng.integers(3)]
    for f in os.listdir(ctx.path(gd)):
        if f.endswith(".sac"):
            s = ctx.path(gd, f)
            x = rng.normal(size=nt)
            if shape == "impulse":
                x = np.zeros(nt); x[rng.integers(nt)] = rng.normal() + 3
            if shape == "smooth":
                x = np.cumsum(np.cumsum(x))
            gio.replace_data(s, x * 10 ** rng.uniform(-2, 2))
            # vary the damping recorded in the header
            b = bytearray(open(s, "rb").read())
            b[4 * gio.FI["user0"]:4 * gio.FI["user0"] + 4] = np.float32(ze * np.pi / (nt * dt)).tobytes()
            open(s, "wb").write(bytes(b))
    ctx.tag("shape:" + shape, f"zeta:{ze}")
    return gd, nt, dbl(dt), dbl(ze * np.pi / (nt * dt))


def sigfile(ctx, out, cand, dt, key):
    s = gio.Sac(ctx.path(out, "sig.sac"))
    h = s.data.astype(float)
    ctx.check("sig:header", abs(s.delta - dt) < 1e-6 * dt and s.b == 0.0, f"delta {s.delta} b {s.b}")
    fit = [c for c in cand if len(c) == len(h) and np.max(np.abs(c - h)) < 3e-4 * max(1, np.max(np.abs(c)))]
    ctx.evals += len(h)
    ctx.check("sig:" + key, bool(fit), f"{ctx.cmds[-1]}: saved time function (n={len(h)}) {h[:12]} matches none of lengths {sorted({len(c) for c in cand})}: {[c[:12] for c in cand[:1]]}")
    return h, bool(fit)


def process(ctx, mode="plain", e=False, zne=False):
    """Pulse, integration and differentiation applied to every output trace."""
    rng = ctx.rng
    gd, nt, dt, wI = setup(ctx)
    for k in range(4):
        kind, par, sargs = c08.source(rng)
        az = r_(rng, 0, 360, 1)
        e = rng.random() < 0.3; zne = rng.random() < 0.4
        c08.run(ctx, gd, az, 1e24, False, sargs, zne, e, f"raw{k}")
        post = []; cand = None; nI = nJ = 0
        which = rng.integers(6) if mode != "long" else 0
        if which in (0, 1, 4, 5):
            a, cand, key = pulse(ctx, rng, dt, nt, mode)
            post += a; ctx.tag(f"pulse:{key}:{mode}")
        if which in (2, 4):
            nI = int(rng.integers(1, 3)); post.append(f"-I{nI}"); ctx.tag(f"I{nI}")
        if which in (3, 5) or (which == 2 and rng.random() < .4):
            nJ = int(rng.integers(1, 3)); post.append(f"-J{nJ}"); ctx.tag(f"J{nJ}")
        c08.run(ctx, gd, az, 1e24, False, sargs, zne, e, f"out{k}", post=post)
        A, B = gio.read_dir(ctx.path(f"raw{k}")), gio.read_dir(ctx.path(f"out{k}"))
        h = None
        if cand is not None:
            h, ok = sigfile(ctx, f"out{k}", cand, dt, key)
            if not ok:
                continue
        ctx.check("files", set(B) - {"sig"} == set(A) and ("sig" in B) == (h is not None), f"{set(A)} {set(B)}")
        for n in A:
            x = A[n].data.astype(float)
            # rounding of the raw single precision sums, for rotated components take the group size
            g = max(np.max(np.abs(A[m].data.astype(float))) for m in A if len(m) == len(n))
            err = np.full(nt, g * 1e-6)
            grow = np.exp(wI * dt * np.arange(nt))
            tol = 0
            if h is not None:
                y, lin, mag, wm = convolve(x, h, wI, dt)
                gh = np.sum(np.abs(h)) * dt
                err = 3e-6 * (len(h) + 20) * mag + err * max(gh, 0) + g * 1e-6 * np.exp(0 * grow)
                err = np.maximum.accumulate(err)
                if len(h) > nt:
                    err = err + wm * 1.0001
                    y = lin
            else:
                y = x
            for _ in range(nI):
                y = integ(y, dt); err = (np.sum(err) + 1e-6 * nt * np.max(np.abs(y)) / dt) * dt + 0 * err
            for _ in range(nJ):
                m = np.max(np.abs(y)); y = diff(y, dt); err = (2 * np.max(err) + 1e-6 * m) / dt + 0 * err
            b = B[n].data.astype(float)
            ctx.close(f"{'long' if h is not None and len(h) > nt else 'conv' if h is not None else 'none'}:I{nI}J{nJ}", b, y, 1.0, scale=err + 1e-37, detail=f"out{k}/{n}.sac {post} nt={nt} dt={dt:g} wI={wI:g}")
        ctx.tag("zne" if zne else "zrt", "e" if e else "no-e")


def timefn(ctx):
    """The time function alone, over a fine range of durations."""
    rng = ctx.rng
    gd, nt, dt, wI = setup(ctx)
    for k in range(14):
        mode = ["plain", "aligned", "long", "tiny"][rng.integers(4)]
        a, cand, key = pulse(ctx, rng, dt, 8 if mode == "tiny" else nt, mode if mode != "tiny" else "plain")
        c08.run(ctx, gd, 0.0, 1.0, False, [], False, False, f"o{k}", post=a)
        sigfile(ctx, f"o{k}", cand, dt, key)
        ctx.tag(f"fn:{key}:{mode}")


def cases(tier, rnd):
    q = 2 if tier == "quick" else 25
    for i in range(32 * q):
        yield process, dict(mode=["plain", "plain", "aligned", "long"][i % 4])
    for i in range(16 * q):
        yield timefn, {}
