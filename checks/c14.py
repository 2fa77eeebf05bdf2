"""C14: first-arrival times against Fermat's principle, symmetry, and agreement of command, Python call and headers."""
import numpy as np
from vlib import gen, gio, reftt
from checks import c06

PROP = "C14"
RULE = ("Random layered models (up to 14 layers, low-velocity zones, equal neighbours, fluid layers), depth pairs (surface, inside, on interfaces, equal) "
        "and distances from 0 to 300 km; each time is compared with the least time over every set of layers a path may visit (dual form of Fermat's "
        "principle), with the exchanged problem, and with what the command prints and the trace headers store.")
ASSUMPTIONS = ["times are compared to 1e-4 s (the real code agrees with the reference to about 1e-6 s)"]
CODE = """
import numpy as np, pygrt
OUT=[]
for m in DATA:
    M=pygrt.PyModel1D(modelpath=m['model'])
    p,s=M.compute_travt1d(depsrc=m['ds'],deprcv=m['dr'],dists=m['rs'])
    p2,s2=M.compute_travt1d(depsrc=m['dr'],deprcv=m['ds'],dists=m['rs'])
    one=M.compute_travt1d(depsrc=m['ds'],deprcv=m['dr'],dists=m['rs'][-1])
    OUT.append([list(map(float,x)) for x in (p,s,p2,s2,one)])
"""


def a_model(rng, kind):
    if kind == "many":
        n = int(rng.integers(8, 15))
        h = np.maximum(np.round(rng.uniform(0.2, 4, n) * 64), 1) / 64
        vs = np.sort(rng.uniform(0.8, 4.6, n))
        for _ in range(int(rng.integers(0, n))):
            i, j = rng.integers(n, size=2); vs[i], vs[j] = vs[j], vs[i]
        if rng.random() < 0.4:
            i = int(rng.integers(1, n)); vs[i] = vs[i - 1]
        vs = np.round(vs, 3); vp = np.round(vs * 1.75, 3)
        if rng.random() < 0.3:
            i = int(rng.integers(n - 1)); vs[i] = 0; vp[i] = 1.5
        L = [[float(a), float(b), float(c), 2.5, 0.0, 0.0] for a, b, c in zip(h, vp, vs)]
        L[-1][0] = 0.0
        return L, kind
    return gen.model(rng, kind=kind)


def point(rng, L):
    z = gen.interfaces(L)
    for _ in range(100):
        d = gen.depth(rng, L, solid_only=rng.random() < 0.8)
        if not any(abs(d - z[i]) < 1e-9 and (L[i][2] == 0 or L[i - 1][2] == 0) for i in range(1, len(L))):
            return d
    return 0.0


def batch(ctx, kind, n=12):
    rng = ctx.rng
    req, mods = [], []
    for i in range(n):
        L, kd = a_model(rng, kind)
        ds, dr = point(rng, L), point(rng, L)
        if rng.random() < 0.15:
            dr = ds
        rs = np.round(10 ** rng.uniform(-1, 2.5, 25), 3)
        rs = sorted(set(rs.tolist()) | {0.0})
        ctx.write(f"m{i}", c06.rows(L, str(rng.choice(["thick", "depth"])), any(l[4] > 0 for l in L)))
        req.append(dict(model=f"m{i}", ds=ds, dr=dr, rs=rs)); mods.append(L)
    res = ctx.py(CODE, req)
    for i, (q, L, out) in enumerate(zip(req, mods, res)):
        p, s, p2, s2, one = out

        tol = 1e-4
        ctx.check("scalar", one == [p[-1], s[-1]], f"{one} vs {[p[-1], s[-1]]}")
        ctx.close("reciprocal:P", p2, p, 1e-12, atol=tol, detail=str(q)); ctx.close("reciprocal:S", s2, s, 1e-12, atol=tol, detail=str(q))
        for col, t in ((1, p), (2, s)):
            for X, a in zip(q["rs"], t):
                b, lab = reftt.first(L, col, q["ds"], q["dr"], X)
                ctx.tag(f"{'.PS'[col]}:{lab.rstrip('0123456789')}")
                if b is None:
                    ctx.check("undefined", a == -12345.0, f"{q['model']} r={X}: {a}, no such wave can travel")
                else:
                    ctx.close(f"time:{'.PS'[col]}", a, b, 1e-9, atol=tol, detail=f"{q['model']} ds={q['ds']} dr={q['dr']} r={X} {lab}")
        if i < 4:   # the command prints the same
            k = c06.travel(ctx, q["model"], q["ds"], q["dr"], q["rs"])
            ctx.close("command", k, np.c_[q["rs"], p, s], 1e-9, atol=5.1e-4)
        if i < 2:   # headers
            rs = [q["rs"][j] for j in (2, 9, 15, 20)]
            o = f"g{i}"
            ctx.grt("greenfn", "-M" + q["model"], f"-D{q['ds']}/{q['dr']}", "-R" + ",".join(map(repr, rs)), "-N8/1", "-K+k3+f", "-L5", "-Cn", "-Ge", "-s", "-O" + o, "-H0.3/0.3")
            for sub in gio.subdirs(ctx.path(o)):
                h = next(iter(gio.read_dir(ctx.path(o, sub)).values()))
                j = int(np.argmin(abs(np.array(q["rs"]) - h.dist)))
                ctx.close("header", [h.t0, h.t1], [p[j], s[j]], 3e-7, atol=1e-6, scale=np.abs([p[j], s[j]]))
                ctx.tag("header")
    ctx.tag("kind:" + kind)


def cases(tier, rnd):
    kinds = ["many", "incr", "lvz", "two", "thin", "contrast", "liqtop", "liqmid", "rand", "equal", "half", "many"]
    for i in range(24 if tier == "quick" else 480):
        yield batch, dict(kind=kinds[i % 12])
