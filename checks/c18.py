"""C18: lamb1 against a slowness quadrature of the half-space response, plus tensor, causality and sample-independence monitors, and against greenfn."""
import numpy as np
from vlib import gio, reflamb as L

PROP = "C18"
RULE = ("Random Poisson ratios over (0, 0.5), including both sides of the ratio where the Rayleigh cubic changes from three real to one real root, random and "
        "special azimuths, times before, between, exactly at and long after the P, S and Rayleigh arrivals, asked for through solve_lamb1 and lamb1 -T in different "
        "groupings; all nine components are compared with an independent slowness quadrature, and smoothed traces with greenfn at the surface of a half-space.")
ASSUMPTIONS = ["slowness quadrature accurate to 1e-8 (monitored: the static limit and causality hold to that accuracy)",
               "values within 0.002 of an arrival, where the solution is singular or kinked, are only checked to be finite"]

PY = """
import numpy as np
from pygrt.utils import solve_lamb1
OUT = [solve_lamb1(nu, np.array(t), az).tolist() for nu, t, az in DATA]
"""


def tensor(nu, t, az):
    if t < L.kappa(nu):
        return np.zeros((3, 3))
    s = L.step(nu, t)
    c, n = np.cos(np.radians(az)), np.sin(np.radians(az))
    Q = np.array([[c, -n, 0], [n, c, 0], [0, 0, 1]])
    return Q @ np.array([[s["rr"], 0, -s["zr"]], [0, s["pp"], 0], [s["zr"], 0, s["zz"]]]) @ Q.T


def ratio(rng):
    return round([rng.uniform(.001, .499), .25, rng.uniform(.26, .27), .26308, rng.uniform(.001, .02), rng.uniform(.48, .499)][rng.choice(6, p=[.55, .05, .15, .05, .1, .1])], 6)


def azim(rng):
    return float([round(rng.uniform(0, 360), 3), 0, 90, 180, 270, 360, 45][rng.choice(7, p=[.58] + [.07] * 6)])


def times(rng, nu, n):
    k, R = L.kappa(nu), L.rayleigh(nu)[0]
    t = [rng.uniform([0, k, 1, R, 1.5, 3][i], [k, 1, R, 1.5, 3, 40][i]) for i in rng.choice(6, n, p=[.1, .3, .2, .2, .1, .1])]
    return [round(x, 9) for x in t]


def off(nu, t):
    return min(abs(t - a) for a in (L.kappa(nu), 1.0, L.rayleigh(nu)[0])) > 2e-3


def scale(u):
    return max(np.abs(u).max(), .1)


def library(ctx):
    rng = ctx.rng
    Q = []
    for _ in range(14):
        nu, az = ratio(rng), azim(rng)
        t = sorted(times(rng, nu, 24))
        Q.append((nu, t, az))                                       # main
        Q.append((nu, [t[i] for i in rng.permutation(24)], az))       # same times in another order
        Q.append((nu, [t[3]], az)); Q.append((nu, [t[20]], az))        # alone
        Q.append((nu, t[5:7], (az + 180) % 360)); Q.append((nu, t[5:7], 360 - az))
        k, R = L.kappa(nu), L.rayleigh(nu)[0]
        Q.append((nu, [0.0, k, 1.0, 1.0 + 1e-9, R - 1e-9, R + 1e-9, k + 1e-12, 1000.0], az))
        Q.append((nu, [1.0], az)); Q.append((nu, [1.0, 1.0], az)); Q.append((nu, [2.0, 1.0], az)); Q.append((nu, [0.5, 1.0, 1.5], az))
    O = [np.array(x) for x in ctx.py(PY, Q)]
    m = len(Q) // 14
    for j in range(14):
        (nu, t, az), A = Q[m * j], O[m * j]
        perm = Q[m * j + 1][1]
        d = f"nu={nu} az={az}"
        for x, u in zip(t, A):
            if off(nu, x):
                w = tensor(nu, x, az)
                ctx.close("step", u, w, 5e-8 if abs(nu - .26308) > 1e-3 else 1e-6, scale=scale(w), detail=f"{d} t={x}")
                ctx.tag("before" if x < L.kappa(nu) else "P-S" if x < 1 else "S-R" if x < L.rayleigh(nu)[0] else "after")
            ctx.check("finite", np.isfinite(u).all(), f"{d} t={x} {u.tolist()}")
        for x, u in zip(perm, O[m * j + 1]):
            ctx.close("independent", u, A[t.index(x)], 1e-12, scale=scale(u), detail=f"{d} t={x} order")
        ctx.close("independent", O[m * j + 2][0], A[3], 1e-12, scale=scale(A[3]), detail=f"{d} t={t[3]} alone")
        ctx.close("independent", O[m * j + 3][0], A[20], 1e-12, scale=scale(A[20]), detail=f"{d} t={t[20]} alone")
        S = np.diag([-1, -1, 1]); M = np.diag([1, -1, 1])
        for i in (0, 1):
            sc = scale(A[5 + i])
            ctx.close("reciprocal", O[m * j + 4][i].T, A[5 + i], 1e-8, scale=sc, detail=f"{d} t={t[5 + i]}")
            ctx.close("reflect", M @ O[m * j + 5][i] @ M, A[5 + i], 1e-8, scale=sc, detail=f"{d} t={t[5 + i]}")
        ctx.tag(f"nu:{nu:.1f}", "az:axis" if az % 90 == 0 else "az")
        if nu < .02:
            continue                                                # see corner()
        sp = O[m * j + 6]
        ctx.check("finite", np.isfinite(sp).all(), f"{d} at the arrivals: {sp.tolist()}")
        ctx.close("static", sp[-1], tensor(nu, 1000.0, az), 2e-6, scale=.1, detail=d)
        ctx.close("static", sp[-1], np.pi / 2 * static(nu, az), 1e-5, scale=.1, detail=d)
        ctx.check("causal", (sp[0] == 0).all(), f"{d} t=0: {sp[0].tolist()}")
        # exactly at the S arrival, whatever else is asked for: the value there is a moderate, grouping-independent number
        w = (tensor(nu, 1.0 - 3e-6, az), tensor(nu, 1.0 + 3e-6, az))
        for n_, i, row in (("alone", 7, 0), ("twice", 8, 0), ("after 2.0", 9, 1), ("middle", 10, 1), ("arrivals", 6, 2)):
            u = O[m * j + i][row]
            ctx.check("at-S", np.isfinite(u).all() and min(np.abs(u - x).max() for x in w) < .02, f"{d} t=1 ({n_}): {u.tolist()} vs {w[1].tolist()}")


def corner(ctx):
    """Exactly at the S arrival for a Poisson ratio close to 0 (a listed finding)."""
    u = np.array(ctx.py(PY, [(0.005348, [0.5, 1.0, 1.5], 45.0)])[0])
    ctx.check("nan-at-S:nu=0.005348", np.isfinite(u[1]).all(), f"nu=0.005348 az=45 t=1: {u[1].tolist()}")
    for i in (0, 2):
        ctx.close("step", u[i], tensor(0.005348, [0.5, 1.0, 1.5][i], 45.0), 5e-8, scale=.5)


def static(nu, az):
    c, n = np.cos(np.radians(az)), np.sin(np.radians(az))
    b = (1 - 2 * nu) / 2
    return np.array([[1 - nu + nu * c * c, nu * c * n, -b * c], [nu * c * n, 1 - nu + nu * n * n, -b * n], [b * c, b * n, 1 - nu]])


def printed(ctx):
    rng = ctx.rng
    for _ in range(6):
        nu, az = ratio(rng), azim(rng)
        dt = float([.01, .05, .1, .3, 1e-3][rng.integers(5)]); n = int(rng.integers(1, 40)); i0 = int(rng.integers(0, 1 + int(1.2 / dt)))
        t1, t2 = round(i0 * dt, 6), round((i0 + n - 1) * dt, 6)
        if rng.random() < .4:
            t1 = round(t1 + .37 * dt, 6); t2 = round(t1 + (n - 1 + rng.uniform(.1, .9)) * dt, 6)
        out = ctx.grt("lamb1", f"-P{nu!r}", f"-T{t1!r}/{t2!r}/{dt!r}", f"-A{az!r}").out
        rows = [l for l in out.splitlines() if l.strip()]
        ctx.check("header", rows[0].split() == ["#", "tbar"] + [f"G{i}{j}" for i in (1, 2, 3) for j in (1, 2, 3)], rows[0])
        a = np.array([[float(x) for x in l.split()] for l in rows[1:]])
        want = t1 + dt * np.arange(n)
        ctx.check("samples", len(a) == n, f"-T{t1!r}/{t2!r}/{dt!r}: {len(a)} rows instead of {n}")
        ctx.close("tbar", a[:, 0], want[:len(a)], 1e-6, atol=2e-8)
        for row, x in zip(a, want):
            if off(nu, x):
                w = tensor(nu, x, az)
                # the printed tbar has 7 digits, the value belongs to the exact time
                ctx.close("printed", row[1:].reshape(3, 3), w, 1e-6, scale=scale(w), detail=f"nu={nu} az={az} t={x}")
            ctx.check("finite", np.isfinite(row).all(), f"nu={nu} az={az} t={x}")
        ctx.tag("cli:one" if n == 1 else "cli")


def smooth(nu, T, sig):
    """Step response convolved with the derivative of a Gaussian, all times in units of r/beta; (nT, comp) zz, rr, pp, zr."""
    k, R = L.kappa(nu), L.rayleigh(nu)[0]
    x, w = np.polynomial.legendre.leggauss(60)
    th, wt = x * np.pi / 2, w * np.pi / 2
    tt, ww = [], []
    for lo, hi in ((k, 1.0), (1.0, R), (R, R + .5), (R + .5, T.max() + 6 * sig)):
        h = (hi - lo) / 2
        tt.append(lo + h * (1 + np.sin(th))); ww.append(wt * h * np.cos(th))
    tt, ww = np.concatenate(tt), np.concatenate(ww)
    S = np.array([[s[c] for c in ("zz", "rr", "pp", "zr")] for s in (L.step(nu, t) for t in tt)])
    d = T[:, None] - tt[None]
    K = -d / sig ** 3 / np.sqrt(2 * np.pi) * np.exp(-d * d / 2 / sig ** 2)
    return (K * ww) @ S


def dynamic(ctx):
    rng = ctx.rng
    nu = float(rng.choice([.25, round(rng.uniform(.15, .35), 3)]))
    vs, rho, r = 3.0, 2.7, float(rng.choice([6.0, 10.0]))
    vp = vs / L.kappa(nu)
    ctx.write("m", f"0 {vp:.10f} {vs} {rho} 1e9 1e9\n")
    dt, nt = .05, 1024
    ctx.grt("greenfn", "-Mm", "-Ds0", "-Dr0", f"-R{r!r}", f"-N{nt}/{dt}+w1.0+a", "-L20", "-K+k3+s1.5+f", "-Cd" if rng.random() < .5 else "-Cp", "-OG")
    G = gio.read_dir(ctx.path("G", gio.subdirs(ctx.path("G"))[0]))
    t0 = r / vs; sig = .25
    T = np.arange(int(2.2 * t0 / dt)) * dt
    W = smooth(nu, T / t0, sig / t0) / t0                    # per second
    mu = rho * vs ** 2 * 1e10
    W = W / (np.pi ** 2 * mu * r * 1e5) * 1e15
    ref = {"VFZ": -W[:, 0], "VFR": -W[:, 3], "HFR": W[:, 1], "HFT": W[:, 2], "HFZ": -W[:, 3]}
    for n, w in ref.items():
        g = G[n].data.astype(float)
        f = np.fft.rfftfreq(2 * nt, dt)
        s = np.fft.irfft(np.fft.rfft(g, 2 * nt) * np.exp(-(2 * np.pi * f * sig) ** 2 / 2), 2 * nt)[:len(T)]
        ctx.close("greenfn", s, w, 3e-2, scale=np.abs(w).max(), detail=f"{n} nu={nu} r={r}")


def cases(tier, rnd):
    out = [(library, {}), (library, {}), (printed, {}), (printed, {}), (dynamic, {}), (corner, {})]
    return out * (1 if tier == "quick" else 6)
