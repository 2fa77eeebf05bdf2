"""C16: eigenfunctions, energy integrals, group velocities and sensitivities judged by the equations of motion and by perturbing the model."""
from pathlib import Path
import numpy as np
from vlib import gen, gio, refmodal
from checks import c06, c15

PROP = "C16"
RULE = ("Random layered models as in C15; for random frequencies and modes: eigenfunction samples satisfy the motion-stress equations between successive depths "
        "(own transfer matrices, across interfaces, liquids included), vanish in traction at the surface and decay in the half-space; energy integrals equal a quadrature "
        "of those eigenfunctions and the variational identity; group velocity equals d omega / d k from exact mode counts; phase-velocity sensitivities equal the change "
        "of the exact root when one layer (or one slice of it) is perturbed; group-velocity sensitivities equal the change of group velocity; any selection repeats the values.")
ASSUMPTIONS = ["group-velocity sensitivities are documented to use a difference over the selected frequencies: judged with closely spaced frequencies, not for a single one",
               "derivatives by finite differences are judged only where two step sizes agree (not at osculation points of two branches)",
               "density sensitivity is the change at fixed velocities; the eigenfunction scale is arbitrary"]


def values(ctx, eig, *opts):
    """run eigenfn; dict of option letter -> nc variables"""
    out = {}
    args = [f"-C{eig}"]; k = ""
    for o in opts:
        if o[0] == "W": args.append(f"-Ww.nc{o[1:]}")
        elif o == "U": args.append("-Uu.nc")
        elif o[0] in "xcu" and len(o) == 1: k += f"+{o}{o}s.nc"
        elif o[0] == "z": k += f"+{o}"
        else: args.append(o)
    if k: args.append("-K" + k)
    for n in ("w.nc", "u.nc", "xs.nc", "cs.nc", "us.nc"):
        Path(ctx.path(n)).unlink(missing_ok=True)
    r = ctx.grt("eigenfn", *args)
    for o in opts:
        n = {"W": "w.nc", "U": "u.nc", "x": "xs.nc", "c": "cs.nc", "u": "us.nc"}.get(o[0])
        if n and (o[0] == "W" or len(o) == 1): out[o[0] if o[0] != "u" else "s"] = gio.read_nc(ctx.path(n))[0]
    return out


def layer_at(L, z):
    top = 0.0
    for i, l in enumerate(L[:-1]):
        if z < top + l[0] - 1e-12 * max(1, top): return i, top
        top += l[0]
    return len(L) - 1, top


def tops(L):
    return np.concatenate([[0.0], np.cumsum([l[0] for l in L[:-1]])])


def pieces(L, z0, z1):
    """[(layer, thickness)] between two depths"""
    T = np.concatenate([tops(L), [np.inf]]); out = []
    for i in range(len(L)):
        a, b = max(z0, T[i]), min(z1, T[i + 1])
        if b > a + 1e-13 * max(1.0, b): out.append((i, b - a))
    return out


def prop_solid(L, w, k, y, i, d):
    """y = (r1, r2, t1, t2) physical"""
    mu = L[i][3] * L[i][2]**2
    s = np.array([1, 1, k * mu, k * mu])
    return s * (refmodal.transfer_solid(*L[i][1:4], [d], w, k)[0] @ (y / s))


def motion(ctx, L, f, c, z, e, tag):
    """Rayleigh: e[z, (q, w, sigma, tau)] complex"""
    w = 2 * np.pi * f; k = w / c
    y = np.c_[e[:, 0], -e[:, 1], e[:, 3], -e[:, 2]]
    zmod = lambda i: L[i][3] * (L[i][2] if L[i][2] > 0 else L[i][1])**2
    liq = [l[2] <= 0 for l in L]
    amp = np.abs(y[:, 0]) + np.abs(y[:, 1])
    worst = 0.0; n = 0; where = None
    gmax = np.max(amp)
    for a in range(len(z) - 1):
        P = pieces(L, z[a], z[a + 1])
        kinds = [liq[i] for i, _ in P]
        sw = sum(kinds[i] != kinds[i + 1] for i in range(len(P) - 1))
        if sw > 1: ctx.tag("interval-skipped"); continue
        S = max(amp[a], amp[a + 1], 1e-9 * gmax)
        m = max(zmod(i) for i, _ in P) * k
        # downward up to the change solid/liquid, upward from below
        A = y[a].copy(); B = y[a + 1].copy()
        down = P if sw == 0 else P[:[i for i in range(len(P) - 1) if kinds[i] != kinds[i + 1]][0] + 1]
        up = P[len(down):]
        def go(Y, ps, sign):
            for i, d in (ps if sign > 0 else ps[::-1]):
                if liq[i]:
                    v = refmodal.transfer_liquid(L[i][1], L[i][3], sign * d, w, k) @ Y[[1, 3]]
                    Y = np.array([k * v[1] / (L[i][3] * w * w), v[0], 0, v[1]])
                else:
                    Y = prop_solid(L, w, k, Y, i, sign * d)
            return Y
        A = go(A, down, 1); B = go(B, up, -1)
        scale = np.array([1, 1, 1 / m, 1 / m])
        R = (A - B) * scale
        if sw: err = max(abs(R[1]), abs(R[3]), abs(A[2] / m), abs(B[2] / m))
        elif kinds and kinds[-1]:
            # the end sample may sit on the top of a solid below
            err = max(abs(R[1]), abs(R[3]))
        else:
            nexti = layer_at(L, z[a + 1])[0]
            if nexti != P[-1][0] and liq[nexti] and not liq[P[-1][0]]: err = max(abs(R[1]), abs(R[3]), abs(A[2] / m))
            else: err = np.max(np.abs(R))
        n += 1
        if err / S > worst: worst = err / S; where = (z[a], z[a + 1], (np.abs(R) / S).tolist())
    tol = 2e-5
    ctx.stats["intervals"] = ctx.stats.get("intervals", 0) + n
    ctx.close(f"motion:{tag}", worst, 0.0, rtol=0, atol=tol, scale=1, detail=f"f={f} c={c}: equations of motion broken by {worst:.2e} of the local amplitude between {where}; model {L}")
    for j, zz in enumerate(z):
        i, top = layer_at(L, zz)
        S = max(amp[j], 1e-9 * gmax)
        if liq[i]:
            q = k * y[j, 3] / (L[i][3] * w * w)
            ctx.check(f"liquid:{tag}", abs(y[j, 2]) <= 1e-7 * S * zmod(i) * k and abs(q - y[j, 0]) <= 1e-5 * max(S, 1e-3 * gmax), f"f={f} c={c} z={zz}: in the liquid tau={y[j, 2]}, q={y[j, 0]} but the pressure demands q={q}; model {L}")
        if i == len(L) - 1 and not liq[i]:
            K = refmodal.half_stiffness(L[-1], w, k)
            R = np.abs(y[j, 2:] + K @ y[j, :2]) / (zmod(i) * k * S)
            ctx.close(f"decay:{tag}", float(np.max(R)), 0.0, rtol=0, atol=tol, scale=1, detail=f"f={f} c={c} z={zz}: not the decaying solution of the half-space {R}; model {L}")
        if zz == 0:
            # residual traction in units of the largest traction of the mode
            R = np.max(np.abs(y[j, 2:])) / max(np.max(np.abs(y[:, 2:])), 1e-3 * zmod(0) * k * S)
            ctx.close(f"surface:{tag}", float(R), 0.0, rtol=0, atol=2e-5, scale=1, detail=f"f={f} c={c}: traction at the surface {y[j, 2:]}; model {L}")


def motion_love(ctx, L, f, c, z, e, tag):
    w = 2 * np.pi * f; k = w / c
    amp = np.abs(e[:, 0]); gmax = amp.max(); worst = 0; where = None; n = 0
    liq = [l[2] <= 0 for l in L]
    def go(y, i, d):
        mu = L[i][3] * L[i][2]**2; x = np.sqrt(complex(k * k - (w / L[i][2])**2))
        ch = np.cosh(x * d); sh = np.sinh(x * d) / x
        return np.array([ch * y[0] + sh * y[1] / mu, mu * x * x * sh * y[0] + ch * y[1]])
    for a in range(len(z) - 1):
        P = pieces(L, z[a], z[a + 1])
        if any(liq[i] for i, _ in P): 
            if all(liq[i] for i, _ in P): ctx.check(f"liquid:{tag}", np.all(e[a] == 0), f"f={f} z={z[a]}: SH motion in a liquid {e[a]}")
            continue
        if liq[layer_at(L, z[a + 1])[0]]: continue
        y = e[a]
        for i, d in P: y = go(y, i, d)
        m = max(L[i][3] * L[i][2]**2 for i, _ in P) * k
        S = max(np.sqrt(amp[a]**2 + abs(e[a, 1] / m)**2), amp[a + 1], 1e-9 * gmax)
        err = max(abs(y[0] - e[a + 1, 0]), abs(y[1] - e[a + 1, 1]) / m) / S; n += 1
        if err > worst: worst = err; where = (z[a], z[a + 1])
    ctx.stats["intervals"] = ctx.stats.get("intervals", 0) + n
    ctx.close(f"motion:{tag}", worst, 0.0, rtol=0, atol=2e-5, scale=1, detail=f"f={f} c={c}: SH equation of motion broken by {worst:.2e} between {where}; model {L}")
    for j, zz in enumerate(z):
        i, top = layer_at(L, zz)
        if liq[i]: continue
        mu = L[i][3] * L[i][2]**2
        if i == len(L) - 1:
            g = np.sqrt(k * k - (w / L[i][2])**2)
            S = max(amp[j], 1e-9 * gmax)
            ctx.close(f"decay:{tag}", abs(e[j, 1] + mu * g * e[j, 0]) / (mu * k * S), 0.0, rtol=0, atol=2e-5, scale=1, detail=f"f={f} c={c} z={zz}: not decaying in the half-space; model {L}")
        if zz == 0 or (i > 0 and liq[i - 1] and abs(zz - top) < 1e-12):
            ctx.close(f"surface:{tag}", abs(e[j, 1]) / (mu * k * max(amp[j], 1e-4 * gmax)), 0.0, rtol=0, atol=2e-5, scale=1, detail=f"f={f} c={c} z={zz}: traction on a free face {e[j]}; model {L}")


GX, GW = np.polynomial.legendre.leggauss(7)


def integrals(L, f, c, z, e, wt):
    """I1..I4 of the sampled eigenfunction, by Gauss quadrature between the samples (each interval continued from its upper end) and exactly below the last one"""
    w = 2 * np.pi * f; k = w / c
    I = np.zeros(4, complex)
    def add(i, q, wv, dq, dw, wt_):
        mu = L[i][3] * L[i][2]**2; lm = L[i][3] * L[i][1]**2 - 2 * mu; rho = L[i][3]
        I[0] += wt_ * .5 * rho * (q * q + wv * wv); I[1] += wt_ * .5 * ((lm + 2 * mu) * q * q + mu * wv * wv)
        I[2] += wt_ * (lm * q * dw - mu * wv * dq); I[3] += wt_ * .5 * (mu * dq * dq + (lm + 2 * mu) * dw * dw)
    if wt == "R":
        Y = np.c_[e[:, 0], -e[:, 1], e[:, 3], -e[:, 2]]
        def state(i, y):
            mu = L[i][3] * L[i][2]**2; lm = L[i][3] * L[i][1]**2 - 2 * mu
            r1, r2, t1, t2 = y
            if mu > 0: d1 = k * r2 + t1 / mu
            else: d1 = k * (-w * w * L[i][3] * r2) / (L[i][3] * w * w)
            d2 = (t2 - lm * k * r1) / (lm + 2 * mu)
            return r1, -r2, d1, -d2
    for a in range(len(z) - 1):
        P = pieces(L, z[a], z[a + 1])
        y = Y[a] if wt == "R" else e[a]
        for n_, (i, d) in enumerate(P):
            l = L[i]; mu = l[3] * l[2]**2
            if wt == "R" and n_ > 0 and (l[2] <= 0) != (L[P[n_ - 1][0]][2] <= 0):
                if l[2] <= 0: y = np.array([k * y[3] / (l[3] * w * w), y[1], 0, y[3]])
                else:          # liquid above solid: the horizontal motion comes from the sample below
                    if n_ != len(P) - 1: return None
                    y = prop_solid(L, w, k, Y[a + 1], i, -d)
            for x, g in zip(GX, GW):
                s = d * (x + 1) / 2
                if wt == "R":
                    if l[2] > 0: yy = prop_solid(L, w, k, y, i, s)
                    else:
                        v = refmodal.transfer_liquid(l[1], l[3], s, w, k) @ y[[1, 3]]
                        yy = np.array([k * v[1] / (l[3] * w * w), v[0], 0, v[1]])
                    add(i, *state(i, yy), g * d / 2)
                elif l[2] > 0:
                    xx = np.sqrt(complex(k * k - (w / l[2])**2)); ch = np.cosh(xx * s); sh = np.sinh(xx * s) / xx
                    v = ch * y[0] + sh * y[1] / mu; dv = (mu * xx * xx * sh * y[0] + ch * y[1]) / mu
                    I[0] += g * d / 2 * .5 * l[3] * v * v; I[1] += g * d / 2 * .5 * mu * v * v; I[3] += g * d / 2 * .5 * mu * dv * dv
            if n_ < len(P) - 1:
                if wt == "R":
                    if l[2] > 0: y = prop_solid(L, w, k, y, i, d)
                    else:
                        v = refmodal.transfer_liquid(l[1], l[3], d, w, k) @ y[[1, 3]]; y = np.array([k * v[1] / (l[3] * w * w), v[0], 0, v[1]])
                elif l[2] > 0:
                    xx = np.sqrt(complex(k * k - (w / l[2])**2)); ch = np.cosh(xx * d); sh = np.sinh(xx * d) / xx
                    y = np.array([ch * y[0] + sh * y[1] / mu, mu * xx * xx * sh * y[0] + ch * y[1]])
                    if L[P[n_ + 1][0]][2] <= 0: y = None
                elif n_ + 1 < len(P) and L[P[n_ + 1][0]][2] > 0:
                    if n_ + 1 != len(P) - 1: return None
                    ii, dd = P[n_ + 1]; m2 = L[ii][3] * L[ii][2]**2
                    xx = np.sqrt(complex(k * k - (w / L[ii][2])**2)); ch = np.cosh(xx * dd); sh = -np.sinh(xx * dd) / xx
                    y = np.array([ch * e[a + 1, 0] + sh * e[a + 1, 1] / m2, m2 * xx * xx * sh * e[a + 1, 0] + ch * e[a + 1, 1]])
    # tail
    i = len(L) - 1; _, vp, vs, rho = L[i][:4]; mu = rho * vs**2
    h = np.sqrt(k * k - (w / vs)**2)
    if wt == "L":
        v2 = e[-1, 0]**2 / (2 * h)
        I[0] += .5 * rho * v2; I[1] += .5 * mu * v2; I[3] += .5 * mu * h * h * v2
    else:
        g = np.sqrt(k * k - (w / vp)**2)
        A, B = np.linalg.solve(np.array([[k, h], [g, k]]), Y[-1, :2])
        terms = [(A, k, g, g), (B, h, k, h)]
        for a1, q1, r1, x1 in terms:
            for a2, q2, r2, x2 in terms:
                p = a1 * a2 / (x1 + x2)
                # q q, w w (w = -r2), q w', w q', q' q', w' w'
                lm = rho * vp**2 - 2 * mu
                I[0] += .5 * rho * p * (q1 * q2 + r1 * r2); I[1] += .5 * p * ((lm + 2 * mu) * q1 * q2 + mu * r1 * r2)
                I[2] += p * (lm * q1 * (x2 * r2) - mu * (-r1) * (-x2 * q2)); I[3] += .5 * p * (mu * x1 * x2 * q1 * q2 + (lm + 2 * mu) * x1 * x2 * r1 * r2)
    return I


def slope(fun, h):
    """central difference with an error estimate from two step sizes; None where undefined"""
    v = []
    for s in (h, h / 2):
        a, b = fun(s), fun(-s)
        if a is None or b is None: return None, None
        v.append((a - b) / (2 * s))
    return v[1] + (v[1] - v[0]) / 3, abs(v[1] - v[0])


def index_of(L, w, wt, c):
    n = refmodal.count(L, w, [c * (1 - 1e-7), c * (1 + 1e-7)], wt)
    return int(n[0]) if n[1] == n[0] + 1 else None


def setup(ctx, kind, nf=3):
    rng = ctx.rng
    L = c15.a_model(rng, kind)
    ctx.write("mod", c06.rows(L, str(rng.choice(["thick", "depth"])), False))
    H = sum(l[0] for l in L)
    wt = str(rng.choice(["R", "L"])) if any(l[2] > 0 for l in L[:-1]) else "R"
    f = max(float(np.round(L[-1][2] / H * 10 ** rng.uniform(-0.6, 0.4), 4)), 0.02)
    df = float(f * 1e-3)
    V = c15.solve(ctx, "mod", wt, f"-F{f!r}/{f + (nf - 1) * df!r}/{df!r}", "eig.nc", "-N")
    return L, wt, V


def mode_case(ctx, kind, n=1):
    rng = ctx.rng
    for _ in range(n):
        L, wt, V = setup(ctx, kind)
        if V is None: ctx.tag("none"); continue
        freqs = np.atleast_1d(V["freq"]); cnum = np.atleast_1d(V["cnum"]); C = np.atleast_2d(V["c"])
        T = tops(L); H = T[-1]
        vmin = min(l[2] if l[2] > 0 else l[1] for l in L)
        w0 = 2 * np.pi * freqs[0]
        dz = min(1.0 / (w0 / C[0, 0]), H / 8) * float(rng.uniform(.5, 1))
        dz = max(dz, (H * 1.3) / 160)
        zmax = H * 1.15 + 2 * dz
        z1 = float(rng.choice([0.0, 0.0, round(dz * .37, 6)]))
        if z1 >= zmax: z1 = 0.0
        out = values(ctx, "eig.nc", "-N", f"W+z{z1!r}/{zmax!r}/{dz!r}", "U", "x", "c", "u")
        Z = out["W"]["z"]
        ctx.check("depths", len(Z) == int(np.floor((zmax - z1) / dz + 1e-9)) + 1 and np.allclose(Z, z1 + dz * np.arange(len(Z)), rtol=1e-12, atol=1e-12), f"depths {Z[:3]}..{Z[-1]} for +z{z1}/{zmax}/{dz}")
        for o in out.values():
            ctx.check("same-modes", np.array_equal(o["freq"], freqs) and np.array_equal(o["cnum"], cnum) and ("c" not in o or np.array_equal(np.atleast_2d(o["c"]), C)), "frequencies, numbers of modes or phase velocities differ from the dispersion file")
        ctx.check("sens-depths", np.allclose(out["c"]["z"], T), f"sensitivity depths {out['c']['z']} are not the layer tops {T}")
        e = out["W"]["eigfn"]; e = e[..., 0::2] + 1j * e[..., 1::2]
        picks = {(0, 0), (int(rng.integers(len(freqs))), int(rng.integers(max(cnum[0], 1)))), (0, int(rng.integers(max(cnum[0], 1)))), (1, max(int(cnum[1]) - 1, 0))}
        vel = np.array([x for l in L for x in l[1:3] if x > 0])
        for fi, m in sorted(picks):
            if m >= cnum[fi]: continue
            f, c = float(freqs[fi]), float(C[fi, m]); w = 2 * np.pi * f; k = w / c
            if c > vel[-1] * (1 - 1e-4): ctx.tag("near-cutoff"); continue
            near = np.min(np.abs(vel / c - 1)) < 3e-5
            if near: ctx.tag("near-layer-velocity"); continue
            ctx.tag(f"{kind}:{wt}", f"mode{min(m, 6)}")
            ctx.stats["modes"] = ctx.stats.get("modes", 0) + 1
            tag = f"{wt}"
            ef = e[fi, m]
            if not ctx.check(f"finite:{tag}", np.all(np.isfinite(ef)) and np.max(np.abs(ef)) > 0, f"f={f} c={c}: eigenfunction not finite or zero; model {L}"): continue
            # samples far below (underflow) or steps too long for the transfer are not judged
            if dz * k > 6: ctx.tag("coarse"); judge_motion = False
            else: judge_motion = True
            if judge_motion:
                (motion if wt == "R" else motion_love)(ctx, L, f, c, Z, ef, tag)
            j = index_of(L, w, wt, c)
            # group velocity
            U = float(np.atleast_2d(out["U"]["u"])[fi, m])
            dcdw = None
            if j is not None:
                g = lambda s: (lambda x: None if x is None else w * (1 + s) / x)(refmodal.nth(L, w * (1 + s), wt, j, c))
                d, er = slope(g, 4e-4)          # dk/dln w
                if d is not None and er < 2e-4 * k:
                    want = w / d
                    ctx.close(f"group:{tag}", U, want, rtol=1e-5, atol=3 * want * er / d, scale=want, detail=f"f={f} c={c} mode {m}: group velocity {U}, d omega/d k = {want} (+-{want * er / d:.1e}); model {L}")
                    ctx.stats["groups"] = ctx.stats.get("groups", 0) + 1
            # energy integrals
            X = out["x"]["egyint"][fi, m]; I = X[0:8:2] + 1j * X[1:8:2]; eps = X[8] + 1j * X[9]
            big = abs(w * w * I[0]) + abs(k * k * I[1]) + abs(k * I[2]) + abs(I[3])
            ctx.close(f"identity:{tag}", abs(w * w * I[0] - k * k * I[1] + k * I[2] - I[3]) / big, 0.0, rtol=0, atol=1e-6, scale=1, detail=f"f={f} c={c}: w^2 I1 - k^2 I2 + k I3 - I4 not zero: {I}; model {L}")
            ctx.close(f"residual-stored:{tag}", abs(eps - (w * w * I[0] - k * k * I[1] + k * I[2] - I[3])) / big, 0.0, rtol=0, atol=1e-12, scale=1, detail=f"f={f}: the stored verification term {eps} is not that of {I}")
            if wt == "L": ctx.check("love-I3", I[2] == 0, f"I3 of a Love mode is {I[2]}")
            if Z[0] == 0 and judge_motion and dz * max(k, w / vmin) < 3:
                J = integrals(L, f, c, Z, ef, wt)
                if J is None: ctx.tag("quadrature-skipped")
                else:
                    for n_ in range(4):
                        ctx.close(f"integral{n_ + 1}:{tag}", abs(I[n_] - J[n_]), 0.0, rtol=0, atol=2e-5 * max(abs(J[n_]), .03 * abs(J[[1, 1, 1, 3][n_]]) * ([(k / w)**2, 1, k, 1][n_])), scale=1, detail=f"f={f} c={c} mode {m}: I{n_ + 1} = {I[n_]}, quadrature of the eigenfunction {J[n_]}; model {L}")
                    ctx.stats["quadratures"] = ctx.stats.get("quadratures", 0) + 1
            # phase-velocity sensitivities
            S = out["c"]["csens"][fi, m]
            ctx.check(f"csens-finite:{tag}", np.all(np.isfinite(S)), f"f={f} c={c}: sensitivities not finite {S.tolist()}; model {L}")
            if j is not None:
                for li in {int(rng.integers(len(L))), int(np.argmax(np.abs(S[:, 1])))}:
                    for p in range(3):
                        perturb(ctx, L, w, wt, j, c, li, p, S[li, p], f"csens:{tag}:{'abr'[p]}", f)
            if wt == "L": ctx.check("love-alpha", np.all(S[:, 0] == 0), "Love modes depend on alpha")
            for li, l in enumerate(L):
                if l[2] <= 0: ctx.check("liquid-beta", S[li, 1] == 0, f"sensitivity to the shear velocity of a liquid {S[li]}")
            # scaling all densities changes nothing
            tot = sum(S[li, 2] * L[li][3] for li in range(len(L))); mag = sum(abs(S[li, 2]) * L[li][3] for li in range(len(L))) + 1e-9
            ctx.close(f"density-scale:{tag}", tot / c, 0.0, rtol=0, atol=1e-5 * max(mag / c, 1e-2), scale=1, detail=f"f={f} c={c}: densities scaled together would change the velocity by {tot}; model {L}")
            # scaling all velocities with the frequency: c(s a, s b, s f) = s c: sum a dc/da + b dc/db = c - w dc/dw = c^2 / U
            tot = sum(S[li, 0] * L[li][1] + S[li, 1] * L[li][2] for li in range(len(L)))
            ctx.close(f"velocity-scale:{tag}", tot, c * c / U, rtol=2e-5, scale=c * c / U, detail=f"f={f} c={c} U={U}: sum a dc/da + b dc/db = {tot} is not c^2/U = {c * c / U}; model {L}")
            # group-velocity sensitivities
            usens(ctx, L, wt, freqs, cnum, out, fi, m, rng, kind)


def perturb(ctx, L, w, wt, j, c, li, p, got, key, f, slice_=None):
    base = [list(l) for l in L]
    if base[li][1 + p] == 0: return
    target = li
    if slice_:                                         # (start, thickness) inside the layer
        a, d = slice_
        l = base[li]
        parts = [[a] + l[1:], [d] + l[1:], [l[0] - a - d] + l[1:]]
        parts = [(x, i == 1) for i, x in enumerate(parts) if x[0] > 1e-12]
        base = base[:li] + [x for x, _ in parts] + base[li + 1:]
        target = li + [t for _, t in parts].index(True)
    v = base[target][1 + p]
    def g(s):
        M = [list(l) for l in base]; M[target][1 + p] = v * (1 + s)
        return refmodal.nth(M, w, wt, j, c)
    d, er = slope(g, 1e-3)
    if d is None: ctx.tag("perturb-none"); return
    if er > 2e-3 * max(abs(d), 1e-3 * c): ctx.tag("perturb-unstable"); return
    want = d / v
    ctx.close(key, got, want, rtol=1e-4, atol=(2 * er + 3e-7 * c) / v, scale=max(abs(want), 1e-9), detail=f"f={f} c={c} layer {li} {slice_ or ''}: sensitivity to {'alpha beta rho'.split()[p]} is {got}, perturbing the layer gives {want} (+-{er / v:.1e}); model {L}")
    ctx.stats["perturbations"] = ctx.stats.get("perturbations", 0) + 1


def usens(ctx, L, wt, freqs, cnum, out, fi, m, rng, kind):
    """dU/dX from U recomputed by the program (judged above) in perturbed models, against the stored sensitivity"""
    if m >= min(cnum): return
    S = out["s"]["usens"][:, m]; K = out["c"]["csens"][:, m]; U = np.atleast_2d(out["U"]["u"])[:, m]; C = np.atleast_2d(out["c"]["c"])[:, m]
    li = int(np.argmax(np.abs(K[0][:, 1]))); p = 1 if rng.random() < .7 else (0 if wt == "R" else 2)
    if rng.random() < .4: li = int(rng.integers(len(L)))
    if L[li][1 + p] == 0: return
    f = float(freqs[fi]); v = L[li][1 + p]; w = 2 * np.pi * f
    j = index_of(L, w, wt, float(C[fi]))
    if j is None: return
    def g(s):
        M = [list(l) for l in L]; M[li][1 + p] = v * (1 + s)
        hh = 1e-3
        k = [refmodal.nth(M, w * (1 + x), wt, j, float(C[fi]), span=1e-2) for x in (hh, -hh, hh / 2, -hh / 2)]
        if None in k: return None
        kk = [w * (1 + x) / y for x, y in zip((hh, -hh, hh / 2, -hh / 2), k)]
        d1 = (kk[0] - kk[1]) / (2 * hh); d2 = (kk[2] - kk[3]) / hh
        if abs(d1 - d2) > 1e-3 * abs(d2): return None
        return w / (d2 + (d2 - d1) / 3)
    d, er = slope(g, 2e-3)
    if d is None or er > 5e-3 * max(abs(d), .1 * U[fi]): ctx.tag("usens-unstable"); return
    # a one-sided difference over the frequency step is what the documentation promises; its error is half the second difference
    f2 = abs(K[2][li, p] - 2 * K[1][li, p] + K[0][li, p]) / (freqs[1] - freqs[0])**2 * f * (freqs[1] - freqs[0])
    want = d / v
    ctx.close(f"usens:{wt}", float(S[fi][li, p]), want, rtol=5e-3, atol=er / v * 3 + 2 * f2 + 1e-3 * U[fi] / v, scale=max(abs(want), .1 * U[fi] / v),
              detail=f"f={f} (frequency {fi + 1} of {len(freqs)}) mode {m} layer {li} {'alpha beta rho'.split()[p]}: group sensitivity {S[fi][li, p]}, perturbing gives {want} (+-{er / v:.1e}); model {L}")
    ctx.stats["group-perturbations"] = ctx.stats.get("group-perturbations", 0) + 1


def slices(ctx, kind):
    """-K+z cuts layers: slices sum to the layer and each slice is the sensitivity of that slice"""
    rng = ctx.rng
    L, wt, V = setup(ctx, kind, nf=2)
    if V is None: ctx.tag("none"); return
    H = sum(l[0] for l in L)
    dz = float(np.round(max(min(l[0] for l in L[:-1]) * float(rng.uniform(.3, 1.7)), H / 60), 5))
    A = values(ctx, "eig.nc", "-N", "c", "u", "x", "U"); B = values(ctx, "eig.nc", "-N", "c", "u", "x", "U", f"z{dz!r}")
    T = tops(L)
    want = []; own = []
    for i, l in enumerate(L):
        if i == len(L) - 1: want.append(T[i]); own.append((i, 0, None)); continue
        n = int(np.ceil(l[0] / dz - 1e-5)); n = max(n, 1)
        for s in range(n): want.append(T[i] + s * dz); own.append((i, s * dz, min(dz, l[0] - s * dz)))
    if not ctx.check("slice-depths", len(want) == len(B["c"]["z"]) and np.allclose(want, B["c"]["z"], rtol=1e-9, atol=1e-9), f"slices of {dz} start at {B['c']['z']}, expected {want}; model {L}"): return
    for X in ("x", "U"):
        for n in B[X]:
            a, b = np.asarray(A[X][n], float), np.asarray(B[X][n], float)
            ctx.check(f"slice-{X}", a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-7 * (np.max(np.abs(a)) if a.size else 1)), f"{n} changes with +z{dz}")
    ids = np.array([o[0] for o in own])
    for X, n in (("c", "csens"), ("s", "usens")):
        a = A[X][n]; b = B[X][n]
        s = np.stack([b[:, :, ids == i].sum(axis=2) for i in range(len(L))], axis=2)
        big = np.max(np.abs(b), axis=(2, 3), keepdims=True)
        ctx.check(f"slice-sum:{n}:{wt}", np.all(np.abs(s - a) <= 1e-6 * (np.abs(a) + big)), f"{n}: slices add to {s.tolist()[0][0]} but the layers have {a.tolist()[0][0]}; dz={dz} model {L}")
    f = float(V["freq"][0]); w = 2 * np.pi * f
    for m in {0, int(rng.integers(max(int(V["cnum"][0]), 1)))}:
        if m >= V["cnum"][0]: continue
        c = float(np.atleast_2d(V["c"])[0, m]); j = index_of(L, w, wt, c)
        if j is None: continue
        sens = B["c"]["csens"][0, m]
        for q in {int(rng.integers(len(own))), int(np.argmax(np.abs(sens[:, 1])))}:
            li, a, d = own[q]
            for p in range(3):
                perturb(ctx, L, w, wt, j, c, li, p, sens[q, p], f"slice:{wt}:{'abr'[p]}", f, slice_=(a, d) if d is not None else None)
    ctx.tag(f"slices:{wt}")


def selection(ctx, kind):
    """-F, -N, -W+z select without changing values"""
    rng = ctx.rng
    L = c15.a_model(rng, kind); ctx.write("mod", c06.rows(L, "thick", False))
    H = sum(l[0] for l in L)
    wt = str(rng.choice(["R", "L"])) if any(l[2] > 0 for l in L[:-1]) else "R"
    df = max(float(np.round(L[-1][2] / H / 5, 4)), 0.01)
    nf = int(rng.integers(6, 11))
    V = c15.solve(ctx, "mod", wt, f"-F{df!r}/{nf * df!r}/{df!r}", "eig.nc", "-N")
    if V is None: ctx.tag("none"); return
    freqs = np.atleast_1d(V["freq"]); cnum = np.atleast_1d(V["cnum"]); C = np.atleast_2d(V["c"])
    dz = H / 7
    full = values(ctx, "eig.nc", "-N", f"W+z0/{H!r}/{dz!r}", "U", "x", "c", "u")
    nm = C.shape[1]

    def compare(sub, fsel, msel, what, groups=("W", "U", "x", "c")):
        for X in groups:
            o = sub[X]; r = full[X]
            if not ctx.check("sel-freq", np.array_equal(np.atleast_1d(o["freq"]), freqs[fsel]), f"{what}: frequencies {o['freq']} instead of {freqs[fsel]}"): return
            if not ctx.check("sel-mode", np.array_equal(np.atleast_1d(o["mode"]), np.array(msel)), f"{what}: modes {o['mode']} instead of {msel}"): return
            for n in o:
                if n in ("freq", "mode", "z"): continue
                if n == "cnum":
                    want = [sum(1 for m in msel if m < cnum[i]) for i in fsel]
                    ctx.check("sel-cnum", list(np.atleast_1d(o[n])) == want, f"{what}: cnum {o[n]} instead of {want}"); continue
                a = np.asarray(o[n]); b = np.asarray(r[n])[fsel][:, msel]
                ctx.check(f"sel-{n}", a.shape == b.shape and np.array_equal(a, b), f"{what}: {n} differs from the values without selection (shape {a.shape}, {b.shape})")
    allm = list(range(nm))
    i, j = sorted(int(x) for x in rng.integers(0, nf, 2))
    fsel = np.arange(i, j + 1)
    lo, hi = freqs[i] - .3 * df, freqs[j] + .3 * df
    W = f"W+z0/{H!r}/{dz!r}"
    compare(values(ctx, "eig.nc", "-N", f"-F{lo!r}/{hi!r}", W, "U", "x", "c"), fsel, allm, f"-F{lo}/{hi}")
    ends = [float(np.atleast_1d(V["freq"])[x]) for x in (i, j)]        # both ends belong to the range
    compare(values(ctx, "eig.nc", "-N", f"-F{ends[0]!r}/{ends[1]!r}", W, "U", "x", "c"), fsel, allm, f"-F{ends[0]}/{ends[1]}")
    compare(values(ctx, "eig.nc", "-N", f"-F{1 / hi!r}/{1 / lo!r}+p", W, "U", "x", "c"), fsel, allm, f"-F{1 / hi}/{1 / lo}+p (frequencies {lo} to {hi})")
    one = int(rng.integers(nf))
    compare(values(ctx, "eig.nc", "-N", f"-F{freqs[one]!r}", W, "U", "x", "c"), np.array([one]), allm, f"-F{freqs[one]}")
    compare(values(ctx, "eig.nc", "-N", f"-F{1 / float(freqs[one])!r}+p", W, "U", "x", "c"), np.array([one]), allm, f"-F{1 / freqs[one]}+p")
    st = int(rng.integers(2, 4))
    i = max(i, st - 1)                   # the documented range starts no lower than its step
    compare(values(ctx, "eig.nc", "-N", f"-F{freqs[i]!r}/{freqs[-1] + df / 4!r}/{st * df!r}", W, "U", "x", "c"), np.arange(i, nf, st), allm, f"-F{freqs[i]}/{freqs[-1]}/{st * df}")
    n1, n2 = sorted(int(x) for x in rng.integers(0, nm, 2)); dn = int(rng.integers(1, 3))
    everyf = np.arange(nf)
    compare(values(ctx, "eig.nc", f"-N{n1}/{n2}/{dn}", W, "U", "x", "c", "u"), everyf, list(range(n1, n2 + 1, dn)), f"-N{n1}/{n2}/{dn}", groups=("W", "U", "x", "c", "s"))
    compare(values(ctx, "eig.nc", f"-N{n2}", W, "U", "x", "c", "u"), everyf, [n2], f"-N{n2}", groups=("W", "U", "x", "c", "s"))
    compare(values(ctx, "eig.nc", W, "U", "x", "c", "u"), everyf, [0], "no -N", groups=("W", "U", "x", "c", "s"))
    # depths
    zi = int(rng.integers(1, 8)); zz = float(full["W"]["z"][min(zi, len(full["W"]["z"]) - 1)])
    D = values(ctx, "eig.nc", "-N", f"W+z{zz!r}")
    a = D["W"]["eigfn"][:, :, 0]; b = full["W"]["eigfn"][:, :, list(full["W"]["z"]).index(zz)]
    ctx.check("sel-depth", list(D["W"]["z"]) == [zz] and np.array_equal(a, b), f"eigenfunction at depth {zz} alone differs from the grid")
    D = values(ctx, "eig.nc", "-N", "W")
    ctx.check("sel-layer-depths", np.allclose(D["W"]["z"], tops(L)), f"without +z the depths are {D['W']['z']}, layer tops {tops(L)}")
    ctx.check("sel-layer-surface", np.array_equal(D["W"]["eigfn"][:, :, 0], full["W"]["eigfn"][:, :, 0]), "eigenfunction at the surface changes with the other depths asked")
    ctx.tag(f"selection:{wt}")


def cases(tier, rnd):
    kinds = ["incr", "two", "thin", "lvz", "rand", "contrast", "equal", "liqtop", "liqmid", "many", "soft"]
    for r in range(4 if tier == "quick" else 30):
        for k in kinds:
            yield mode_case, dict(kind=k, n=1)
    for r in range(2 if tier == "quick" else 12):
        for k in ["incr", "lvz", "contrast", "liqtop", "many", "rand"]:
            yield slices, dict(kind=k)
            yield selection, dict(kind=k)
