"""C19: the Python interface against the commands, argument by argument."""
import os, shutil
import numpy as np
from vlib import gen, gio, reftt
from vlib.core import Halt
from checks import c08

PROP = "C19"
RULE = ("Random keyword combinations of every class method and function of the package run in one interpreter, and the equivalent commands, written independently in other "
        "spellings, run beside it. Files, returned streams, dictionaries and arrays are compared with the command's files; arguments are compared before and after; stream "
        "operations with the command's time function / integration / differentiation; signals with their closed forms; requests the command refuses must raise. Each call runs in a child process, "
        "so an interpreter that dies is seen.")
ASSUMPTIONS = ["values with at most 12 significant digits mean the same number in both spellings", "distances given to Python are ascending, as its documentation demands"]

DRIVER = r'''
import os, pickle, io, contextlib, copy, glob
import numpy as np
import pygrt, obspy
from pygrt import PyModel1D, utils, sigs

def dec(v):
    if isinstance(v, dict):
        if "np" in v: return np.array(v["np"], dtype=v.get("dt", "f8"))
        if "st" in v: return obspy.read(v["st"])
        if "tuple" in v: return tuple(dec(x) for x in v["tuple"])
        if "npf" in v: return np.float64(v["npf"])
        if "path" in v:
            import pathlib; return pathlib.Path(v["path"])
        if "file" in v: return utils.read_statsfile(v["file"])
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, list): return [dec(x) for x in v]
    return v

def enc(v):
    if isinstance(v, obspy.Stream):
        return {"stream": [dict(channel=t.stats.channel, npts=int(t.stats.npts), delta=float(t.stats.delta), data=enc(t.data), sac={k: (float(x) if isinstance(x, (int, float, np.floating, np.integer)) else str(x)) for k, x in t.stats.get("sac", {}).items()}) for t in v]}
    if isinstance(v, np.ndarray):
        if v.dtype.names: return {"rec": {n: enc(v[n]) for n in v.dtype.names}}
        if np.iscomplexobj(v): return {"re": v.real.astype("f8").ravel().tolist(), "im": v.imag.astype("f8").ravel().tolist(), "shape": list(v.shape)}
        return {"a": v.astype("f8").ravel().tolist(), "shape": list(v.shape), "kind": v.dtype.kind}
    if isinstance(v, (np.floating, np.integer)): return v.item()
    if isinstance(v, tuple): return [enc(x) for x in v]
    if isinstance(v, (list, set)): return [enc(x) for x in v]
    if isinstance(v, dict): return {str(k): enc(x) for k, x in v.items()}
    if isinstance(v, (str, int, float, bool)) or v is None: return v
    return repr(type(v))

def same(a, b):
    if isinstance(a, obspy.Stream): return len(a) == len(b) and all(np.array_equal(x.data, y.data) and x.stats == y.stats for x, y in zip(a, b))
    if isinstance(a, np.ndarray): return a.dtype == b.dtype and np.array_equal(a, b, equal_nan=not a.dtype.names and a.dtype.kind in "fc")
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or a != a and b != b

OBJ = {}
def do(q):
    R = {}
    try:
        kw = dec(q.get("kw", {})); ar = dec(q.get("args", []))
        kw0, ar0 = copy.deepcopy(kw), copy.deepcopy(ar)
        if q.get("make") is not None:
            mk = dec(q["make"]); f = getattr(PyModel1D(**mk), q["fn"])
        elif q["fn"].startswith("sigs."): f = getattr(sigs, q["fn"][5:])
        elif q["fn"].startswith("local."): f = globals()[q["fn"][6:]]
        else: f = getattr(utils, q["fn"])
        r = f(*ar, **kw)
        R["ok"] = True; R["ret"] = enc(r)
        R["self"] = bool(ar) and r is ar[0]
        R["type"] = type(r).__name__
        R["mutated"] = [k for k in kw if not same(kw[k], kw0[k])] + [i for i in range(len(ar)) if not same(ar[i], ar0[i])]
        if q.get("after"): R["after"] = enc(ar[0])
    except Exception as e:
        R = {"ok": False, "err": f"{type(e).__name__}: {e}", "cls": type(e).__name__}
    return R

def lines(fn, args):
    import matplotlib.pyplot as plt
    fig, axs = getattr(utils, fn)(*args)
    o = [[[np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)] for l in a.get_lines()] for a in axs]
    plt.close(fig)
    return o

OUT = []
for q in DATA:
    r, w = os.pipe()
    import sys; sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 3
        try:
            b = json.dumps(do(q)).encode()
            with os.fdopen(w, "wb") as f: f.write(b)
            code = 0
        finally:
            sys.stdout.flush(); os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f: b = f.read()
    _, st = os.waitpid(pid, 0)
    OUT.append(json.loads(b) if b else {"ok": False, "died": st, "err": f"the interpreter ended (status {st})"})
'''


def num(x):
    return f"{x:.15g}"


def arr(a):
    v = np.array(a.get("a", a.get("re")), float)
    if "im" in a: v = v + 1j * np.array(a["im"])
    return v.reshape(a["shape"])


def wrap(rng, v):
    """a list as list, tuple or array"""
    k = rng.integers(3)
    return v if k == 0 else {"tuple": v} if k == 1 else {"np": v}


def pth(rng, p):
    return p if rng.random() < .5 else {"path": p}


def join(v):
    return ",".join(num(x) for x in v)


def val(rng, lo, hi):
    return float(f"{rng.uniform(lo, hi):.{rng.choice([2, 3, 6, 10])}g}")


def some(rng, p=.35):
    return rng.random() < p


def good(ctx, key, r, kw=None):
    if r.get("died") is not None:
        ctx.violate(f"{key}:died", f"{kw}: {r['err']}"); return False
    if not r["ok"]:
        ctx.violate(f"{key}:refused", f"{kw}: {r['err']}"); return False
    ctx.check(f"{key}:inputs", not r["mutated"], f"{kw}: arguments {r['mutated']} were modified")
    return True


def boundary(rng, mk):
    t, b = "free", "halfspace"
    if some(rng, .5):
        t = str(rng.choice(["free", "halfspace"])); mk["topbound"] = t
    if some(rng, .3):
        b = str(rng.choice(["halfspace", "free"])) if t != "free" else "halfspace"; mk["botbound"] = b
    return f"-B{dict(free='f', rigid='r', halfspace='h')[t]}{dict(free='F', rigid='R', halfspace='H')[b]}"


def depths_kw(rng, L, kw, multi=.35):
    ds = sorted({gen.depth(rng, L, maxd=4.) for _ in range(3 if rng.random() < multi else 1)})
    dr = sorted({gen.depth(rng, L, maxd=4., solid_only=True) for _ in range(2 if rng.random() < multi else 1)})
    for n, d in (("depsrc", ds), ("deprcv", dr)): kw[n] = d[0] if len(d) == 1 and some(rng, .6) else wrap(rng, d)
    if len(ds) == len(dr) == 1 and some(rng, .7): return ds, dr, [f"-D{ds[0]!r}/{dr[0]!r}"]
    return ds, dr, [f"-Ds{','.join(map(repr, ds))}", f"-Dr{','.join(map(repr, dr))}"]


def integration(rng, kw, static):
    """length, Filon and convergence arguments -> options"""
    o = []
    rmode = rng.integers(5)
    Lk = 15.0 if static else 0.0
    if some(rng, .6) or not static: Lk = float(rng.integers(2, 9)) + .5; kw["Length"] = Lk
    t = f"-L{Lk!r}"
    if rmode == 0: kw["filonLength"] = 3.25; t += "+l3.25"
    if rmode == 1 and some(rng, .4): kw["safilonTol"] = .05; t += "+a0.05"
    if rmode in (0, 1) and some(rng, .6) and ("+" in t): kw["filonCut"] = 2.5; t += "+o2.5"
    o.append(t)
    m = str(rng.choice(["AUTO", "NONE", "DCM", "PTAM", "dcm", "none"])) if some(rng, .6) else "AUTO"
    if m != "AUTO" or some(rng, .3): kw["converg_method"] = m
    if m.upper() != "AUTO": o.append("-C" + dict(NONE="n", DCM="d", PTAM="p")[m.upper()])
    K = []
    k0 = 50.0
    if some(rng, .9): k0 = float(rng.integers(2, 6)) + .125; kw["k0"] = k0
    K.append(f"+k{k0!r}")
    if some(rng, .3): kw["use_kmax_ref"] = True; K.append("+f")
    if some(rng, .25): e = float(rng.choice([1e-4, 1e-3])); kw["keps"] = e; K.append(f"+e{e!r}")
    if not static:
        a = 2.0
        if some(rng, .5): a = 1.375; kw["ampk"] = a
        K.append(f"+s{a!r}")
        if some(rng, .3): v = .75; kw["vmin_ref"] = v; K.append(f"+v{v!r}")
    rng.shuffle(K); o.append("-K" + "".join(K))
    return o


def tree(root):
    return {os.path.relpath(os.path.join(a, f), root): open(os.path.join(a, f), "rb").read() for a, _, fs in os.walk(root) for f in fs}


def same_tree(ctx, key, a, b, what, skip=("command",)):
    A, B = tree(ctx.path(a)), tree(ctx.path(b))
    drop = lambda T: {k: v for k, v in T.items() if os.path.basename(k) not in skip}
    A, B = drop(A), drop(B)
    ctx.check(f"{key}:files", set(A) == set(B) and A, f"{what}: files only from Python {sorted(set(A) - set(B))[:5]}, only from the command {sorted(set(B) - set(A))[:5]}")
    d = [k for k in A if k in B and A[k] != B[k]]
    msg = ""
    if d:
        k = d[0]
        if k.endswith(".sac"):
            x, y = gio.Sac(os.path.join(ctx.path(a), k)), gio.Sac(os.path.join(ctx.path(b), k))
            msg = f"max difference {np.abs(x.data - y.data).max() if x.npts == y.npts else 'length'}, headers {[n for i, n in enumerate(gio.FN) if x.f[i] != y.f[i]]}"
    ctx.check(f"{key}:content", not d, f"{what}: {len(d)} files differ, e.g. {d[:2]} {msg}")
    ctx.stats["files compared"] = ctx.stats.get("files compared", 0) + len(A)


def stream_is(ctx, key, ret, pattern, what):
    """a returned stream holds exactly the files `pattern`"""
    import glob
    files = sorted(glob.glob(ctx.path(pattern)))
    S = ret["stream"] if ret else None
    if not ctx.check(f"{key}:returned", S is not None and len(S) == len(files), f"{what}: {0 if S is None else len(S)} traces returned for {len(files)} files {[os.path.basename(f) for f in files]}"): return
    F = [gio.Sac(f) for f in files]
    left = list(S)
    for p, h in zip(files, F):
        m = [t for t in left if t["npts"] == h.npts and abs(t["delta"] - h.delta) <= 1e-6 + 1e-6 * h.delta and (t["sac"].get("kcmpnm", "").strip() or "-12345") == (h.kcmpnm or "-12345") and np.array_equal(arr(t["data"]), h.data.astype("f8"))]
        if ctx.check(f"{key}:returned", bool(m), f"{what}: no returned trace equals {os.path.basename(p)}: {h.npts} {h.delta} {h.kcmpnm!r} {h.data[:3]}; have {[(t['npts'], t['delta'], t['sac'].get('kcmpnm'), arr(t['data'])[:3]) for t in left][:3]}"): left.remove(m[0])


def nc_is(ctx, key, ret, path, what):
    V, D, A = gio.read_nc(ctx.path(path))
    R = ret["variables"]
    ctx.check(f"{key}:nc-vars", set(R) == set(V), f"{what}: returned variables {sorted(set(R) ^ set(V))}")
    for k in set(R) & set(V):
        x = arr(R[k]["data"]) if isinstance(R[k]["data"], dict) else np.array(R[k]["data"])
        ctx.check(f"{key}:nc-data", x.shape == V[k].shape and np.array_equal(x, V[k], equal_nan=True) and tuple(R[k]["dimensions"]) == tuple(D[k]), f"{what}: variable {k} differs from the file")
    ctx.check(f"{key}:nc-dims", all(ret["dimensions"].get(n) == s for k in V for n, s in zip(D[k], V[k].shape)), f"{what}: dimensions {ret['dimensions']}")
    for k, v in A.items():
        g = ret["attributes"].get(k)
        ctx.check(f"{key}:nc-attr", g == v or isinstance(g, (int, float)) and float(g) == float(v) or isinstance(g, dict) and np.array_equal(arr(g), np.atleast_1d(v)), f"{what}: attribute {k}={g!r}, file {v!r}")


def same_nc(ctx, key, a, b, what):
    if not ctx.check(f"{key}:files", os.path.exists(ctx.path(a)) and os.path.exists(ctx.path(b)), f"{what}: file missing"): return
    (V, D, A), (W, E, B) = gio.read_nc(ctx.path(a)), gio.read_nc(ctx.path(b))
    ctx.check(f"{key}:files", set(V) == set(W) and D == E and set(A) == set(B), f"{what}: {sorted(set(V) ^ set(W))} {sorted(set(A) ^ set(B))}")
    bad = [k for k in V if k in W and not (V[k].shape == W[k].shape and np.array_equal(V[k], W[k], equal_nan=True))]
    ctx.check(f"{key}:content", not bad, f"{what}: variables {bad} differ")
    bad = [k for k in A if k in B and k not in ("command",) and not np.array_equal(A[k], B[k])]
    ctx.check(f"{key}:content", not bad, f"{what}: attributes {[(k, A[k], B[k]) for k in bad]}")
    ctx.stats["files compared"] = ctx.stats.get("files compared", 0) + 1


def source_kw(rng, static=False, okada=False):
    """(kwargs, options)"""
    while True:
        kind, par, args = c08.source(rng)
        if not okada or kind in ("EX", "TS", "DC"): break
    kw = {}
    if kind == "SF": kw["force"] = wrap(rng, list(par))
    elif kind == "MT": kw["moment_tensor"] = wrap(rng, list(par))
    elif kind != "EX":
        for n, v in zip(("strike", "dip", "rake"), par): kw[n] = v
    s = float(f"{10 ** rng.uniform(18, 26):.12g}"); mu = some(rng, .3) and kind != "SF"
    kw["scale"] = s
    if mu: kw["scale_with_mu"] = True
    return kind, kw, [*args, f"-S{'u' if mu else ''}{s!r}"]


def dynamic(ctx):
    rng = ctx.rng
    L, kind = gen.solid(rng, nmax=4); ctx.tag("kind:" + kind)
    mname = ["mod", "my model.txt", "sub/m1"][rng.integers(3)]
    if "/" in mname: os.makedirs(ctx.path("sub"), exist_ok=True)
    ctx.write(mname, gen.text(L))
    mk = dict(grn=pth(rng, "P/lib"), modelpath=pth(rng, mname)); Bopt = boundary(rng, mk)
    kw = {}; o = ["greenfn", f"-M{mname}", "-OC/lib", Bopt, "-s"]
    ds, dr, d = depths_kw(rng, L, kw, .3); o += d
    rs = sorted({val(rng, .5, 9) for _ in range(int(rng.integers(1, 4)))})
    kw["dists"] = rs[0] if len(rs) == 1 and some(rng, .6) else wrap(rng, rs); o.append("-R" + join(rs))
    nt = int(rng.choice([8, 9, 16, 21])); dt = float(rng.choice([.05, .125, .3])); kw["nt"], kw["dt"] = nt, dt
    N = f"-N{nt}/{dt!r}"
    if some(rng): u = int(rng.choice([2, 3])); kw["upsampling_n"] = u; N += f"+n{u}"
    if some(rng, .5): z = val(rng, .4, 2); kw["zeta"] = z; N += f"+w{z!r}"
    if some(rng): kw["keepAllFreq"] = True; N += "+a"
    if some(rng, .25): kw["skipImagComps"] = True; N += "+f"
    o.append(N)
    if some(rng, .4):
        T = nt * dt; f1 = float(rng.choice([-1, 0, 1.2 / T])); f2 = float(rng.choice([-1, 3.4 / T, .45 / dt])); f1, f2 = float(f"{f1:.8g}"), float(f"{f2:.8g}")
        kw["freqband"] = wrap(rng, [f1, f2]); o.append(f"-H{f1!r}/{f2!r}")
    o += integration(rng, kw, False)
    e = rng.integers(4)
    if e == 1: t = val(rng, -2, 2); kw["delayT0"] = t; o.append(f"-E{t!r}")
    if e == 2: t, v = val(rng, -2, 2), val(rng, 2, 8); kw["delayT0"], kw["delayV0"] = t, v; o.append(f"-E{t!r}/{v!r}")
    if e == 3:
        t = -val(rng, .1, 2); kw["delayT0"] = t; kw["ref_first_p"] = True; o.append(f"-Ep{t!r}")
        if some(rng): kw["delayV0"] = 3.0
    up = some(rng, .5)
    if up: kw["calc_upar"] = True; o.append("-e")
    g = None
    if some(rng, .4):
        g = [s for s in ("EX", "VF", "HF", "DC") if some(rng, .6)] or ["DC"]; rng.shuffle(g)
        kw["gf_source"] = wrapn(rng, [s.lower() if some(rng, .2) else s for s in g]); o.append("-G" + "".join(dict(EX="e", VF="v", HF="h", DC="s")[s] for s in g))
    if some(rng, .3):
        idx = sorted({int(x) for x in rng.integers(0, nt // 2 + 1, 3)}) if some(rng, .6) else []
        kw["statsidxs"] = wrapn(rng, idx); o.append("-S" + ",".join(map(str, idx)))
        ctx.tag("stats")
    if some(rng, .6): kw["print_log"] = False
    ctx.tag(*(f"kw:{k}" for k in kw))
    os.makedirs(ctx.path("C"), exist_ok=True)
    q = [dict(make=mk, fn="compute_grn", kw=kw)]
    c = ctx.grt(*o, threads=1, timeout=120, expect=None)
    r = ctx.py(DRIVER, q)[0]
    if c.rc:
        ctx.tag("command-refused"); ctx.check("grn:raise", not r["ok"] and not r.get("died"), f"the command refuses {o}: {c.err[-200:]}, Python does not raise: {kw}"); return
    if not good(ctx, "grn", r, kw): return
    same_tree(ctx, "grn", "P", "C", f"{kw} / {o}")
    # synthesis from the Python library, the command from its own
    have = set("EVHS") if g is None else {s[0] if s != "DC" else "S" for s in g}
    q, cmds, metas = [], [], []
    lit = ["s0", "s[1]", "s 2*"]
    for j in range(3):
        k2, kw2, so = source_kw(rng)
        need = dict(EX="E", SF="VH", DC="S", TS="ES", MT="ES")[k2]
        if not set(need) <= have: continue
        sub = some(rng, .4); s0, z0, r0 = ds[rng.integers(len(ds))], dr[rng.integers(len(dr))], rs[rng.integers(len(rs))]
        d0 = f"{os.path.basename(mname)}_{s0:g}_{z0:g}_{num(r0)}"
        a = ["syn", f"-OC/s{j}", "-s", *so]; m2 = dict(grn=pth(rng, f"P/lib/{d0}" if sub else "P/lib"))
        if sub: a.append(f"-GC/lib/{d0}")
        else:
            a.append("-GC/lib")
            for n, x, all_, f in (("depsrc", s0, ds, "-Ds"), ("deprcv", z0, dr, "-Dr"), ("dist", r0, rs, "-R")):
                if len(all_) > 1 or some(rng, .3): kw2[n] = x; a.append(f"{f}{x!r}")
        az = val(rng, 0, 360); kw2["azimuth"] = az; a.append(f"-A{az!r}")
        kw2["output_path"] = pth(rng, f"P/{lit[j]}")
        if some(rng, .4):
            tf = ["p/0.6", "t/0.3/0.5/0.9", "r/1.2", "0/tf.txt"][rng.integers(4)]
            if tf.endswith("txt"): ctx.write("tf.txt", "0\n0.5\n1\n0.2\n")
            if not (tf[0] == "r" and dt > .2): kw2["time_function"] = tf; a.append("-D" + tf)
        if some(rng, .3): kw2["integrate_order"] = 1 + int(some(rng)); a.append(f"-I{kw2['integrate_order']}")
        if some(rng, .2): kw2["differentiate_order"] = 1; a.append("-J1")
        if some(rng, .5): kw2["zne"] = True; a.append("-N")
        if up and some(rng, .6): kw2["calc_upar"] = True; a.append("-e")
        if some(rng, .7): kw2["return_result"] = True
        ctx.tag(*(f"kw:{k}" for k in kw2))
        q.append(dict(make=m2, fn="compute_syn", kw=kw2)); metas.append(("syn", j, kw2)); cmds.append(a)
        if kw2.get("calc_upar"):
            for m in ("strain", "stress", "rotation"):
                ret = some(rng, .6)
                q.append(dict(fn=f"compute_{m}", args=[pth(rng, f"P/{lit[j]}")], kw=dict(return_result=True) if ret else {})); metas.append((m, j, ret)); cmds.append([m, f"C/s{j}"])
    if not q: return
    rc = [ctx.grt(*a, expect=None) for a in cmds]
    R = ctx.py(DRIVER, q)
    done = set()
    for (m, j, x), c, r, a in zip(metas, rc, R, cmds):
        if c.rc:
            ctx.check(f"{m}:raise", not r["ok"] and not r.get("died"), f"the command refuses {a}: {c.err[-200:]}; Python: {r}"); ctx.tag("command-refused"); continue
        if not good(ctx, m, r, x): continue
        if m == "syn":
            done.add(j)
            if x.get("return_result"):
                n = 3 + 9 * bool(x.get("calc_upar")) + ("time_function" in x)
                ctx.check("syn:returned", len(r["ret"]["stream"]) == n, f"{x}: {len(r['ret']['stream'])} traces returned, {n} expected")
            else: ctx.check("syn:returned", r["ret"] is None, f"{x}: returned {r['type']}")
        elif x: stream_is(ctx, m, r["ret"], f"C/s{j}/{m}_*.sac", f"compute_{m}")
        else: ctx.check(f"{m}:returned", r["ret"] is None, f"compute_{m} returned {r['type']}")
        if m == "syn" and x.get("return_result"):
            X = dict(r["ret"]); import glob
            files = [f for f in glob.glob(ctx.path(f"C/s{j}/*.sac")) if not os.path.basename(f).startswith(("strain", "stress", "rotation"))]
            tmp = ctx.path(f"only{j}"); os.makedirs(tmp, exist_ok=True)
            for f in files: shutil.copy(f, tmp)
            stream_is(ctx, "syn", X, f"only{j}/*.sac", f"{x}")
    for j in done: same_tree(ctx, "syn", f"P/{lit[j]}", f"C/s{j}", f"{[x for m, i, x in metas if i == j][0]}")
    # a second synthesis into the same folder: only what it generated comes back
    js = [j for m, j, x in metas if m == "syn" and j in done]
    if js and some(rng, .5):
        m0, kw2 = next((d["make"], dict(d["kw"])) for d, (m, j, x) in zip(q, metas) if m == "syn" and j == js[0])
        z = not kw2.get("zne"); kw2["zne"] = z; kw2["return_result"] = True; kw2.pop("calc_upar", None); kw2.pop("time_function", None)
        r = ctx.py(DRIVER, [dict(make=m0, fn="compute_syn", kw=kw2)])[0]
        if good(ctx, "syn", r, kw2):
            ch = sorted(t["sac"].get("kcmpnm", "").strip() for t in r["ret"]["stream"])
            ctx.check("syn:generated", ch == sorted("ZNE" if z else "ZRT"), f"a synthesis of {'ZNE' if z else 'ZRT'} into a folder with earlier results returned {ch}")


def wrapn(rng, v):
    return v if some(rng, .5) else {"tuple": v}


def axis(rng):
    n = int(rng.integers(1, 4)); d = float(rng.choice([.5, .25, 1.125])); a = round(float(rng.uniform(-2, 2)), 2)
    return [a, round(a + d * (n - 1), 6), d]


FF = "#  x\n# y\n  1 0.0 -1.0 0.0 1.0 {kode} {a} {b} {dip} 1.0 2.2 f\n"


def static(ctx):
    rng = ctx.rng
    L, kind = gen.solid(rng, nmax=3); ctx.write("mod", gen.text(L))
    mk = dict(stgrn=pth(rng, "P/g.nc"), modelpath=pth(rng, "mod")); Bopt = boundary(rng, mk)
    kw = {}; o = ["static", "greenfn", "-Mmod", "-OC/g.nc", Bopt]
    ds, dr, d = depths_kw(rng, L, kw, .4); o += d
    if some(rng, .7):
        rs = sorted({val(rng, .3, 9) for _ in range(int(rng.integers(2, 5)))})
        kw["dists"] = rs[0] if len(rs) == 1 else wrap(rng, rs); o.append("-R" + join(rs))
    else:
        xs, ys = axis(rng), axis(rng)
        kw["norths"], kw["easts"] = wrap(rng, xs), wrap(rng, ys); o += ["-X" + "/".join(map(repr, xs)), "-Y" + "/".join(map(repr, ys))]
    o += integration(rng, kw, True)
    up = some(rng, .5)
    if up: kw["calc_upar"] = True; o.append("-e")
    if some(rng, .3):
        kw["stats"] = True
        if len(ds) * len(dr) == 1: o.append("-S")
    ctx.tag(*(f"kw:st:{k}" for k in kw))
    os.makedirs(ctx.path("C"), exist_ok=True)
    c = ctx.grt(*o, expect=None, timeout=200)
    # where the command leaves its records
    if os.path.isdir(ctx.path("stgrtstats")): shutil.move(ctx.path("stgrtstats"), ctx.path("C/stgrtstats"))
    r = ctx.py(DRIVER, [dict(make=mk, fn="compute_static_grn", kw=kw)])[0]
    if os.path.isdir(ctx.path("stgrtstats")): shutil.move(ctx.path("stgrtstats"), ctx.path("P/stgrtstats"))
    if c.rc:
        ctx.tag("command-refused"); ctx.check("stgrn:raise", not r["ok"] and not r.get("died"), f"the command refuses {o}: {c.err[-200:]}; Python {r}"); return
    if not good(ctx, "stgrn", r, kw): return
    same_nc(ctx, "stgrn", "P/g.nc", "C/g.nc", f"{kw}")
    A, B = ctx.path("P/stgrtstats"), ctx.path("C/stgrtstats")
    ctx.check("stgrn:stats", tree(A) == tree(B), f"saved records differ: {sorted(set(tree(A)) ^ set(tree(B)))[:4]}")
    q, cmds, metas = [], [], []
    for j in range(3):
        kw2, a = {}, ["static", "syn", "-GC/g.nc", f"-OC/y{j}.nc"]
        ff = len(ds) > 1 and some(rng, .5)
        if ff:
            mid = .5 * (ds[0] + ds[-1]); dd = max(ds[-1] - ds[0], 1e-3)
            kode = [100, 200, 300, 400, 500][rng.integers(5)]
            ctx.write(f"ff{j}.inp", f"  1 0.0 -1.0 0.0 1.0 {kode} 0.50 1.25 90.0 {ds[0] + .1 * dd:.6f} {ds[0] + .9 * dd:.6f} f\n")
            kw2["finite_fault"] = pth(rng, f"ff{j}.inp"); t = f"-Cff{j}.inp"
            if some(rng, .5): kw2["subfault_size"] = wrap(rng, [.75, .5]); t += "+i0.75/0.5"
            a.append(t); kw2["__ff"] = True
        else:
            _, k3, so = source_kw(rng); kw2.update(k3); a += so
            if len(ds) > 1 or some(rng, .3): s0 = ds[rng.integers(len(ds))] if some(rng, .5) else val(rng, ds[0], ds[-1]); s0 = min(max(s0, ds[0]), ds[-1]); kw2["depsrc"] = s0; a.append(f"-Ds{s0!r}")
        kw2.pop("__ff", None)
        how = rng.integers(3)
        pick = lambda: dr[rng.integers(len(dr))] if some(rng, .5) else min(max(val(rng, dr[0], dr[-1]), dr[0]), dr[-1])
        if how == 0:
            ctx.write(f"q{j}", "".join(f"{rng.uniform(-2, 2):.4f} {rng.uniform(-2, 2):.4f} {pick()!r}" + (" 10 20 30" if j == 1 else "") + "\n" for _ in range(4)))
            kw2["recv_points"] = pth(rng, f"q{j}"); a.append(f"-Qq{j}")
        else:
            if len(dr) > 1 or some(rng, .3): z0 = pick(); kw2["deprcv"] = z0; a.append(f"-Dr{z0!r}")
            if how == 1:
                xs, ys = axis(rng), axis(rng); kw2["norths"], kw2["easts"] = wrap(rng, xs), wrap(rng, ys); a += ["-X" + "/".join(map(repr, xs)), "-Y" + "/".join(map(repr, ys))]
        kw2["output_path"] = pth(rng, f"P/y{j}.nc")
        if some(rng, .5): kw2["zne"] = True; a.append("-N")
        if up and some(rng, .6): kw2["calc_upar"] = True; a.append("-e")
        if some(rng, .6): kw2["return_result"] = True
        ctx.tag(*(f"kw:st:{k}" for k in kw2))
        q.append(dict(make=dict(stgrn="P/g.nc"), fn="compute_static_syn", kw=kw2)); metas.append(("ssyn", j, kw2)); cmds.append(a)
        if kw2.get("calc_upar"): derived(rng, q, cmds, metas, f"y{j}.nc", j)
    finish(ctx, q, cmds, metas, "y")


def derived(rng, q, cmds, metas, f, j):
    for m in ("strain", "stress", "rotation"):
        ret = some(rng, .6)
        q.append(dict(fn=f"compute_{m}", args=[pth(rng, "P/" + f)], kw=dict(return_result=True) if ret else {})); metas.append((m, j, ret)); cmds.append(["static", m, "C/" + f])


def finish(ctx, q, cmds, metas, stem):
    rc = [ctx.grt(*a, expect=None) for a in cmds]
    R = ctx.py(DRIVER, q)
    done = set(); last = {}
    for (m, j, x), c, r, a in zip(metas, rc, R, cmds):
        if c.rc:
            ctx.check(f"{m}:raise", not r["ok"] and not r.get("died"), f"the command refuses {a}: {c.err[-200:]}; Python: {r}"); ctx.tag("command-refused"); continue
        if not good(ctx, m, r, x): continue
        done.add(j)
        want = x.get("return_result") if isinstance(x, dict) else x
        if not want: ctx.check(f"{m}:returned", r["ret"] is None, f"{m} {x} returned {r['type']}")
        else: last[j] = (m, r["ret"], x)
        if want and m != "rotation" and any(mm == "rotation" and jj == j for mm, jj, _ in metas):
            V = gio.read_nc(ctx.path(f"C/{stem}{j}.nc"))[0]
            ctx.check(f"{m}:nc-data", set(r["ret"]["variables"]) <= set(V) and all(np.array_equal(arr(v["data"]), V[k], equal_nan=True) for k, v in r["ret"]["variables"].items() if isinstance(v["data"], dict)), f"{m} {x}: the returned values are not the file's")
    for j in done:
        same_nc(ctx, "ssyn", f"P/{stem}{j}.nc", f"C/{stem}{j}.nc", f"{[x for m, i, x in metas if i == j][0]}")
    for j, (m, ret, x) in last.items():
        if m == "rotation" or not any(mm == "rotation" and jj == j for mm, jj, _ in metas): nc_is(ctx, m, ret, f"C/{stem}{j}.nc", f"{m} {x}")


def okada(ctx):
    rng = ctx.rng
    q, cmds, metas = [], [], []
    os.makedirs(ctx.path("C"), exist_ok=True)
    for j in range(4):
        vp = val(rng, 4, 7); vs = val(rng, 2, 3.5); rho = val(rng, 2, 3)
        kw = dict(modelparams=wrap(rng, [vp, vs, rho]), output_path=pth(rng, f"P/o{j}.nc")); a = ["okada", f"-I{vp!r}/{vs!r}/{rho!r}", f"-OC/o{j}.nc"]
        if some(rng, .3):
            ctx.write(f"f{j}.inp", f"  1 0.0 -1.0 0.0 1.0 {[100, 200, 300, 400, 500][rng.integers(5)]} 0.50 1.25 60.0 1.0 2.2 f\n"); kw["finite_fault"] = pth(rng, f"f{j}.inp"); a.append(f"-Cf{j}.inp")
        else:
            _, k3, so = source_kw(rng, okada=True); kw.update(k3); a += so
            s = val(rng, .5, 4); kw["depsrc"] = s; a.append(f"-Ds{s!r}")
        if some(rng, .4):
            ctx.write(f"q{j}", "".join(f"{rng.uniform(-2, 2):.4f} {rng.uniform(-2, 2):.4f} {rng.uniform(0, 4):.3f}" + (" 10 20 30" if j == 1 else "") + "\n" for _ in range(4))); kw["recv_points"] = pth(rng, f"q{j}"); a.append(f"-Qq{j}")
        else:
            z = [0.0, val(rng, 0, 3)][rng.integers(2)]; kw["deprcv"] = z; a.append(f"-Dr{z!r}")
            xs, ys = axis(rng), axis(rng); kw["norths"], kw["easts"] = wrap(rng, xs), wrap(rng, ys); a += ["-X" + "/".join(map(repr, xs)), "-Y" + "/".join(map(repr, ys))]
        if some(rng, .5): kw["zne"] = True; a.append("-N")
        if some(rng, .5): kw["calc_upar"] = True; a.append("-e")
        if some(rng, .6): kw["return_result"] = True
        ctx.tag(*(f"kw:ok:{k}" for k in kw))
        q.append(dict(fn="compute_okada", kw=kw)); cmds.append(a); metas.append(("okada", j, kw))
        if kw.get("calc_upar"): derived(rng, q, cmds, metas, f"o{j}.nc", j)
    finish(ctx, q, cmds, metas, "o")


def times(ctx):
    """travel times and Lamb's problem"""
    rng = ctx.rng
    q, ref = [], []
    for j in range(10):
        L, _ = gen.model(rng, nmax=5); ctx.write(f"m{j}", gen.text(L))
        for _ in range(50):
            ds, dr = gen.depth(rng, L, solid_only=False), gen.depth(rng, L, solid_only=False)
            z = gen.interfaces(L)
            if all(abs(d - z[i]) > 1e-9 for d in (ds, dr) for i in range(1, len(L)) if L[i][2] == 0 or L[i - 1][2] == 0): break
        rs = sorted({val(rng, 0, 100) for _ in range(int(rng.integers(1, 6)))})
        single = len(rs) == 1 and some(rng, .7)
        kw = dict(depsrc=ds, deprcv=dr, dists=rs[0] if single else wrap(rng, rs)); mk = {}
        if some(rng, .4): kw["modelpath"] = pth(rng, f"m{j}")
        else: mk["modelpath"] = f"m{j}"
        if "modelpath" in kw and some(rng, .4) and j: mk["modelpath"] = "m0"
        q.append(dict(make=mk, fn="compute_travt1d", kw=kw)); ref.append((L, ds, dr, rs, single, ctx.grt("travt", f"-Mm{j}", f"-D{num(ds)}/{num(dr)}", "-R" + join(rs))))
    for (L, ds, dr, rs, single, c), r, d in zip(ref, ctx.py(DRIVER, q), q):
        if not good(ctx, "travt", r, d): continue
        T = np.array([[float(x) for x in l.split()[-2:]] for l in c.out.split("\n") if len(l.split()) == 3 and not l.strip().startswith(("R", "-", "D", "#"))])
        if single:
            ctx.check("travt:shape", all(isinstance(x, float) for x in r["ret"]), f"a scalar distance returned {r['ret']}"); G = np.array([r["ret"]])
        else:
            G = np.array([arr(x) for x in r["ret"]]).T
        if not ctx.check("travt:shape", G.shape == (len(rs), 2) == T.shape, f"{d['kw']}: shape {G.shape}, command printed {T.shape}: {c.out!r}"): continue
        ctx.check("travt:values", np.all(np.abs(G - T) <= 6e-4 + 1e-6 * np.abs(T)), f"{d['kw']}: {G.tolist()} command {T.tolist()}")
    q, ref = [], []
    for j in range(3):
        nu = round(float(rng.uniform(.05, .45)), 6); az = val(rng, 0, 360); dt = float(rng.choice([.05, .1])); t1 = round(float(rng.uniform(0, 1)), 3); n = int(rng.integers(4, 20))
        ts = t1 + dt * np.arange(n)
        c = ctx.grt("lamb1", f"-P{nu!r}", f"-T{t1!r}/{num(t1 + dt * (n - 1) + .3 * dt)}/{dt!r}", f"-A{az!r}")
        q.append(dict(fn="solve_lamb1", args=[nu, {"np": ts.tolist()}, az])); ref.append(np.array([[float(x) for x in l.split()] for l in c.out.split("\n") if l.strip() and not l.strip().startswith("#")]))
    for d, T, r in zip(q, ref, ctx.py(DRIVER, q)):
        if not good(ctx, "lamb1", r, d): continue
        G = arr(r["ret"])
        if not ctx.check("lamb1:shape", T.shape == (len(G), 10) and G.shape == (len(d["args"][1]["np"]), 3, 3), f"{G.shape} {T.shape}"): continue
        ctx.check("lamb1:values", np.all(np.abs(G.reshape(len(G), 9) - T[:, 1:]) <= 2e-5 * np.abs(T[:, 1:]) + 1e-5), f"{d}: Python {G[0].tolist()} command {T[0].tolist()}")


def ricker(f0, dt, n):
    t = dt * np.arange(n); x = (np.pi * f0 * (t - 1 / f0)) ** 2
    return (1 - 2 * x) * np.exp(-x)


def streams(ctx):
    """time functions and trace operations against syn"""
    rng = ctx.rng
    nt = int(rng.choice([16, 25, 40])); dt = [.05, .125, .1][rng.integers(3)]
    L, ds, dr, dirs, nt, dt = c08.library(ctx, [2.5], nt=nt, dt=dt, randomise=True, e=False)
    g = "G/" + dirs[0]
    k, kw, so = source_kw(rng); az = f"-A{val(rng, 0, 360)!r}"
    base = ["syn", f"-G{g}", az, *so, "-s"]
    ctx.grt(*base, "-OS0")
    tl = float(rng.choice([3.3, 7.7, 1.5 * nt])) * dt
    t = sorted(round(float(x), 3) for x in rng.uniform(.5, min(nt, 12), 3)); t = [round(x * dt, 4) for x in t]
    f0 = round(float(rng.uniform(.02, .2)) / dt, 4)
    if some(rng, .25): f0 = round(.6 / (nt * dt), 4)
    specs = [("p", f"p/{num(tl)}", "gen_parabola_wave", [tl, dt]), ("t", "t/" + "/".join(map(num, t)), "gen_trap_wave", t + [dt]),
             ("tri", f"t/{num(tl / 2)}/{num(tl / 2)}/{num(tl)}", "gen_triangle_wave", [tl, dt]), ("r", f"r/{num(f0)}", "gen_ricker_wave", [f0, dt])]
    q = [dict(fn="sigs." + f, args=a) for _, _, f, a in specs]
    for n, s, _, _ in specs: ctx.grt(*base, f"-OS{n}", "-D" + s)
    n_int, n_dif = int(rng.integers(1, 3)), 1
    ctx.grt(*base, "-OSI", f"-I{n_int}"); ctx.grt(*base, "-OSJ", "-J1")
    inp = some(rng, .5)
    for n, _, _, _ in specs:
        sig = gio.Sac(ctx.path(f"S{n}", "sig.sac"))
        q.append(dict(fn="stream_convolve", args=[{"st": "S0/*.sac"}, {"np": sig.data.astype(float).tolist(), "dt": "f8" if some(rng, .5) else "f4"}], kw={} if inp else {"inplace": False}, after=True))
    q.append(dict(fn="stream_integral", args=[{"st": "S0/*.sac"}], kw={} if inp else {"inplace": False}, after=True))
    q.append(dict(fn="stream_diff", args=[{"st": "S0/*.sac"}], kw={} if inp else {"inplace": False}, after=True))
    q.append(dict(fn="stream_write_sac", args=[{"st": "S0/*.sac"}, "W/a"]))
    R = ctx.py(DRIVER, q)
    for (n, s, f, a), r in zip(specs, R):
        if not good(ctx, "signal", r, a): continue
        sig = gio.Sac(ctx.path(f"S{n}", "sig.sac")); x = arr(r["ret"])
        ctx.check("signal:syn", len(x) == sig.npts and np.abs(x - sig.data).max() <= 3e-5, f"{f}{a}: {len(x)} samples against {sig.npts} in the time function syn used")
        ctx.check("signal:peak", np.all(x <= 1 + 1e-6) and (np.abs(x).max() > .2), f"{f}{a}: peak {x.max()}")
    before = gio.read_dir(ctx.path("S0"))
    for i, r in enumerate(R[4:10]):
        op = q[4 + i]["fn"]
        if r.get("died") or not r["ok"]: good(ctx, op, r, f"{nt} samples, signal of {len(q[4 + i]['args'][1]['np']) if len(q[4 + i]['args']) > 1 else 0}"); continue
        ctx.check(f"{op}:inplace", r["self"] == inp and (1 not in r["mutated"]), f"inplace={inp}: returned object is{'' if r['self'] else ' not'} the input; modified {r['mutated']}")
        A = {t["channel"]: arr(t["data"]) for t in r["after"]["stream"]}; B = {t["channel"]: arr(t["data"]) for t in r["ret"]["stream"]}
        if not inp: ctx.check(f"{op}:inplace", all(np.array_equal(A[c], before[c].data.astype(float)) for c in before), f"{op}(inplace=False) modified its input")
        want = gio.read_dir(ctx.path(f"S{specs[i][0]}" if i < 4 else "SI" if i == 4 else "SJ"))
        if i == 4 and n_int == 2:
            for c in B: B[c] = np.concatenate([[0], np.cumsum(.5 * (B[c][1:] + B[c][:-1]) * dt)])
        wI = before["Z"].user0
        for c in "ZRT":
            m = np.abs(want[c].data).max()
            amp = np.exp(wI * nt * dt) * (len(q[4 + i]["args"][1]["np"]) if i < 4 else 4)
            ctx.close(f"{op}:command", B[c], want[c].data.astype(float), 2e-6 * (1 + amp * .05), scale=max(m, np.abs(before[c].data).max() * dt if i < 5 else 0, 1e-300), detail=f"{op} {specs[i][1] if i < 4 else ''} channel {c}, {nt} samples of {dt} s")
    r = R[10]
    if good(ctx, "write_sac", r):
        W = gio.read_dir(ctx.path("W/a"))
        ctx.check("write_sac:content", set(W) == set(before) and all(np.array_equal(W[c].data, before[c].data) and abs(W[c].delta - before[c].delta) <= 1e-6 * dt and W[c].user0 == before[c].user0 for c in set(W) & set(before)), f"written {sorted(W)}")
    ctx.tag("inplace" if inp else "copy")


def records(ctx):
    """readers and plots of the saved records"""
    rng = ctx.rng
    L, _ = gen.solid(rng, nmax=3); ctx.write("mod", gen.text(L))
    for _ in range(100):
        ds, dr = gen.depth(rng, L, maxd=3.), gen.depth(rng, L, maxd=3.)
        if abs(ds - dr) > .2: break
    r = round(float(rng.uniform(1, 4)), 2)
    nt, dt = 16, .1; i = int(rng.integers(1, 9))
    ctx.grt("greenfn", "-Mmod", f"-D{num(ds)}/{num(dr)}", f"-N{nt}/{dt}", f"-R{r}", "-OG", "-L12", "-K+k3+f", "-Cp", f"-S{i}" if some(rng, .5) else "-S", "-s")
    b = os.path.join("G_grtstats", f"mod_{ds:g}_{dr:g}"); f = f"{i:04d}_{i / (nt * dt):.5e}"
    kf = os.path.join(b, f"K_{f}"); pf = os.path.join(b, f"PTAM_0000_{r:.5e}", f"PTAM_{f}"); k2 = os.path.join(b, f"PTAM_0000_{r:.5e}", f"K_{f}")
    n = int(rng.integers(2, 5)); c1 = round(float(rng.uniform(.5, 1.5)), 3); nc = int(rng.integers(5, 30)); dc = .05
    ctx.grt("kernel", "-Mmod", f"-D{num(ds)}/{num(dr)}", f"-C{c1}/{num(c1 + dc * (nc - 1))}/{dc}", f"-F0.5/{.5 * n:g}/0.5", "-OK")
    kd = "K/" + gio.subdirs(ctx.path("K"))[0]
    S, P = gio.SRC[rng.integers(6)], None
    m = dict(EX=0, VF=0, HF=1, DD=0, DS=1, SS=2)[S]; P = int(rng.choice([0, 2] if m == 0 else [0, 1, 2, 3])); ri = [True, False, 2][rng.integers(3)]
    kt = [f"{s}_{c}" for s in gio.SRC for c in "qwv" if not (c == "v" and s in ("EX", "VF", "DD"))]
    sel = None if some(rng, .4) else [str(x) for x in rng.choice(kt, 3, replace=False)]
    K1 = gio.read_stats(ctx.path(kf), "k")
    w = 2 * np.pi * i / (nt * dt)
    vv = np.sort(w / K1["k"]); vels = np.round(np.linspace(vv[3] * 1.05, vv[-3] * .9, 7), 6).tolist()
    one = "one_dir"; os.makedirs(ctx.path(one)); shutil.copy(ctx.path(kf), ctx.path(one))
    q = [dict(fn="read_statsfile", args=[kf]), dict(fn="read_statsfile_ptam", args=[pf]), dict(fn="read_kernels_freqs", args=[kd], kw=dict(ktypes=sel) if sel else {}),
         dict(fn="local.lines", args=["plot_statsdata", [{"file": kf}, r, S, P if some(rng, .5) else str(P), ri]]),
         dict(fn="read_kernels_freqs", args=[one, {"np": vels}], kw=dict(ktypes=sel) if sel else {}),
         dict(fn="read_statsfile", args=[os.path.join(b, "K_9*")])]
    R = ctx.py(DRIVER, q)
    rec = lambda x: {k: arr(v) for k, v in x["rec"].items()}
    eq = lambda a, t: set(a) == set(t.dtype.names) and all(np.array_equal(a[k], t[k], equal_nan=True) for k in a)
    K2 = gio.read_stats(ctx.path(k2), "k")
    if good(ctx, "statsfile", R[0]): ctx.check("statsfile:values", eq(rec(R[0]["ret"]), K1), kf)
    if good(ctx, "statsfile_ptam", R[1]):
        from checks.c20 import ptam_dtype
        a, c, p, d = R[1]["ret"]; T = np.fromfile(ctx.path(pf), ptam_dtype())
        ctx.check("statsfile_ptam:values", eq(rec(a), K1) and eq(rec(c), K2) and eq(rec(p), T) and abs(d - r) < 1e-5 * r, f"{pf}: distance {d}")
    if good(ctx, "kernels", R[2]):
        D = R[2]["ret"]; names = sel or kt
        ctx.check("kernels:keys", set(D) == set(names) | {"_vels", "_freqs"}, f"{sorted(D)}")
        ctx.check("kernels:axes", np.allclose(arr(D["_freqs"]), .5 * np.arange(1, n + 1), rtol=1e-5) and np.allclose(arr(D["_vels"]), c1 + dc * np.arange(nc), rtol=1e-12), f"{D['_freqs']}")
        fs = sorted(os.listdir(ctx.path(kd)), key=lambda x: float(x.split("_")[-1]))
        Cs = [gio.read_stats(ctx.path(kd, x), "c") for x in fs]
        ctx.check("kernels:values", all(np.array_equal(arr(D[k]), np.array([c[k] for c in Cs]), equal_nan=True) for k in names if k in D), "kernels differ from the files")
    if good(ctx, "plot", R[3]):
        T = R[3]["ret"]
        kk = K1["k"]; x = kk * r
        from scipy.special import jv
        F = {0: lambda: K1[f"{S}_q"], 1: lambda: K1[f"{S}_q"] + K1[f"{S}_v"], 2: lambda: K1[f"{S}_w"], 3: lambda: K1[f"{S}_v"]}[P]()
        FJ = {0: lambda: -F * jv(1, x) * kk if m == 0 else F * jv(m - 1, x) * kk, 1: lambda: -m * F * jv(m, x) / r, 2: lambda: F * jv(m, x) * kk, 3: lambda: -F * jv(m - 1, x) * kk}[P]()
        parts = [np.real, np.imag] if ri == 2 and ri is not True else [np.real] if ri else [np.imag]
        for ax, Y in zip(T, (F, FJ, np.cumsum(FJ))):
            ctx.check("plot:lines", len(ax) == len(parts) and all(np.array_equal(arr(l[0]), kk) and np.allclose(arr(l[1]), p(Y), rtol=1e-9, atol=1e-12 * np.abs(Y).max()) for l, p in zip(ax, parts)), f"plot_statsdata({S},{P},{ri}): curves are not the kernel, the integrand and its running sum")
    if good(ctx, "kernels-interp", R[4], f"vels {vels}, velocities in the file {vv.min()}..{vv.max()}"):
        D = R[4]["ret"]
        for k in sel or kt:
            v = w / K1["k"]; o = np.argsort(v)
            ref = np.interp(vels, v[o], K1[k].real[o]) + 1j * np.interp(vels, v[o], K1[k].imag[o])
            ctx.check("kernels-interp:values", k in D and np.allclose(arr(D[k])[0], ref, rtol=1e-4, atol=1e-6 * np.abs(K1[k]).max()), f"{k} interpolated to velocities {vels}")
    ctx.check("statsfile:missing", not R[5]["ok"] and not R[5].get("died"), "a pattern without a match was read")


BAD = [float("nan"), float("inf"), -1.0]


def refused(ctx):
    """one fault in an otherwise valid call: where the command refuses, Python raises, nothing is written, the interpreter survives"""
    rng = ctx.rng
    L, _ = gen.solid(rng, nmax=3); ctx.write("mod", gen.text(L))
    ctx.grt("greenfn", "-Mmod", "-D1/0.5", "-N8/0.1", "-R2,3", "-OG", "-L3", "-K+k1", "-Cn", "-s")
    ctx.grt("static", "greenfn", "-Mmod", "-Ds1,2", "-Dr0,0.5", "-R1,2,3", "-L3", "-K+k1", "-Cn", "-Og.nc")
    ctx.grt("syn", "-GG/mod_1_0.5_2", "-A30", "-S1e20", "-OS", "-s"); ctx.grt("static", "syn", "-Gg.nc", "-S1e20", "-Ds1", "-Dr0", "-Oy.nc")
    bads = {"neg": "1 2 -1 2\n0 4 2 3\n", "short": "1 2\n", "empty": "", "word": "1 2 abc 2\n0 4 2 3\n", "vp": "1 1 2 2\n0 5 3 3\n"}
    for k, v in bads.items(): ctx.write("bad_" + k, v)
    D = dict(make=dict(grn="P", modelpath="mod"), fn="compute_grn", kw=dict(depsrc=1.0, deprcv=.5, dists=[2.0, 3.0], nt=8, dt=.1, Length=3., k0=1., converg_method="NONE", print_log=False))
    ST = dict(make=dict(stgrn="p.nc", modelpath="mod"), fn="compute_static_grn", kw=dict(depsrc=1.0, deprcv=.5, dists=[2.0, 3.0], Length=3., k0=1., converg_method="NONE"))
    SY = dict(make=dict(grn="G"), fn="compute_syn", kw=dict(dist=2.0, azimuth=30.0, scale=1e20, output_path="PS"))
    SS = dict(make=dict(stgrn="g.nc"), fn="compute_static_syn", kw=dict(depsrc=1.0, deprcv=0.0, scale=1e20, output_path="PY.nc"))
    OK = dict(fn="compute_okada", kw=dict(modelparams=[6.0, 3.5, 2.7], depsrc=1.0, deprcv=0.0, norths=[0, 1, .5], easts=[0, 1, .5], scale=1e20, output_path="PO.nc"))
    def mut(b, **k):
        x = dict(b, kw=dict(b["kw"])); x["kw"].update(k); return x
    # (call, command or None when the documentation alone settles it, where a result would appear)
    g = ["greenfn", "-Mmod", "-L3", "-K+k1", "-Cn", "-s", "-OC"]; s = ["syn", "-GG", "-OCS", "-s"]
    Q = []
    for v in BAD:
        Q.append((mut(D, depsrc=v), [*g, f"-D{v}/0.5", "-N8/0.1", "-R2,3"], "P"))
        Q.append((mut(D, dists=[2.0, v]), [*g, "-D1/0.5", "-N8/0.1", f"-R2,{v}"], "P"))
        Q.append((mut(D, dt=v), [*g, "-D1/0.5", f"-N8/{v}", "-R2,3"], "P"))
        Q.append((mut(SY, scale=v, dist=v), [*s, "-A30", f"-S{v}", f"-R{v}"], "PS"))
        Q.append((mut(OK, depsrc=v), ["okada", "-I6/3.5/2.7", f"-Ds{v}", "-Dr0", "-X0/1/.5", "-Y0/1/.5", "-S1e20", "-OCO.nc"], "PO.nc"))
    Q += [(mut(D, nt=0), [*g, "-D1/0.5", "-N0/0.1", "-R2,3"], "P"), (mut(D, nt=-5), [*g, "-D1/0.5", "-N-5/0.1", "-R2,3"], "P"),
          (mut(D, zeta=-1.0), [*g, "-D1/0.5", "-N8/0.1+w-1", "-R2,3"], "P"), (mut(D, upsampling_n=0), [*g, "-D1/0.5", "-N8/0.1+n0", "-R2,3"], "P"),
          (mut(D, dists=[3.0, 2.0]), None, "P"), (mut(D, dists=[]), None, "P"), (mut(D, depsrc=[2.0, 1.0]), None, "P"),
          (mut(D, freqband=[2.0, 1.0]), [*g, "-D1/0.5", "-N8/0.1", "-R2,3", "-H2/1"], "P"), (mut(D, freqband=[1.0]), None, "P"),
          (mut(D, filonLength=2.0, safilonTol=.1), None, "P"), (mut(D, converg_method="FAST"), None, "P"), (mut(D, gf_source=["XX"]), None, "P"),
          (mut(D, statsidxs=[999]), [*g, "-D1/0.5", "-N8/0.1", "-R2,3", "-S999"], "P"),
          (mut(D, delayT0=-1.0, delayV0=-2.0), [*g, "-D1/0.5", "-N8/0.1", "-R2,3", "-E-1/-2"], "P"),
          (mut(SY, azimuth=400.0), [*s, "-A400", "-S1e20", "-R2"], "PS"), (mut(SY, azimuth=-5.0), [*s, "-A-5", "-S1e20", "-R2"], "PS"),
          (mut(SY, strike=10.0), None, "PS"), (mut(SY, strike=10.0, dip=100.0), [*s, "-A30", "-S1e20", "-R2", "-M10/100"], "PS"), (mut(SY, strike=10.0, dip=10.0, rake=200.0), [*s, "-A30", "-S1e20", "-R2", "-M10/10/200"], "PS"),
          (mut(SY, strike=370.0, dip=10.0, rake=20.0), [*s, "-A30", "-S1e20", "-R2", "-M370/10/20"], "PS"),
          (mut(SY, force=[1.0, 2.0]), None, "PS"), (mut(SY, force=[1.0, 2.0, 3.0], strike=1.0), None, "PS"), (mut(SY, moment_tensor=[1.0] * 5), None, "PS"), (mut(SY, rake=1.0), None, "PS"),
          (mut(SY, time_function="q/1"), [*s, "-A30", "-S1e20", "-R2", "-Dq/1"], "PS"), (mut(SY, time_function="t/3/2/1"), [*s, "-A30", "-S1e20", "-R2", "-Dt/3/2/1"], "PS"), (mut(SY, time_function="0/none"), [*s, "-A30", "-S1e20", "-R2", "-D0/none"], "PS"),
          (mut(SY, dist=2.5), [*s, "-A30", "-S1e20", "-R2.5"], "PS"), (mut(SY, depsrc=7.0), [*s, "-A30", "-S1e20", "-R2", "-Ds7"], "PS"), (mut(SY, dist=None), [*s, "-A30", "-S1e20"], "PS"),
          (mut(SY, calc_upar=True), [*s, "-A30", "-S1e20", "-R2", "-e"], "PS"), (mut(SY, integrate_order=-1), [*s, "-A30", "-S1e20", "-R2", "-I-1"], "PS"),
          (dict(SY, make=dict(grn="G/mod_1_0.5_2")), ["syn", "-GG/mod_1_0.5_2", "-OCS", "-s", "-A30", "-S1e20", "-R2"], "PS"),
          (mut(SS, depsrc=5.0), ["static", "syn", "-Gg.nc", "-OCY.nc", "-S1e20", "-Ds5", "-Dr0"], "PY.nc"), (mut(SS, depsrc=None), ["static", "syn", "-Gg.nc", "-OCY.nc", "-S1e20", "-Dr0"], "PY.nc"),
          (mut(SS, scale=None), None, "PY.nc"), (mut(SS, norths=[0, 1, 1]), None, "PY.nc"), (mut(SS, calc_upar=True), ["static", "syn", "-Gg.nc", "-OCY.nc", "-S1e20", "-Ds1", "-Dr0", "-e"], "PY.nc"),
          (mut(SS, norths=[9.0, 9.0, 1.0], easts=[0.0, 0.0, 1.0]), ["static", "syn", "-Gg.nc", "-OCY.nc", "-S1e20", "-Ds1", "-Dr0", "-X9/9/1", "-Y0/0/1"], "PY.nc"),
          (mut(SS, norths=[1.0, 0.0, 1.0], easts=[0.0, 0.0, 1.0]), ["static", "syn", "-Gg.nc", "-OCY.nc", "-S1e20", "-Ds1", "-Dr0", "-X1/0/1", "-Y0/0/1"], "PY.nc"),
          (mut(SS, recv_points="nofile"), None, "PY.nc"), (mut(SS, finite_fault="mod"), None, "PY.nc"),
          (mut(ST, norths=[0, 1, 1]), None, "p.nc"), (mut(ST, dists=[3.0, 2.0]), None, "p.nc"), (mut(ST, dists=None), None, "p.nc"),
          (mut(OK, modelparams=[3.0, 3.5, 2.7]), ["okada", "-I3/3.5/2.7", "-Ds1", "-Dr0", "-X0/1/.5", "-Y0/1/.5", "-S1e20", "-OCO.nc"], "PO.nc"), (mut(OK, modelparams=[6.0, 3.5]), None, "PO.nc"),
          (mut(OK, strike=1.0), None, "PO.nc"), (mut(OK, strike=1.0, dip=95.0), ["okada", "-I6/3.5/2.7", "-Ds1", "-Dr0", "-X0/1/.5", "-Y0/1/.5", "-S1e20", "-M1/95", "-OCO.nc"], "PO.nc"),
          (mut(OK, deprcv=None), None, "PO.nc"), (mut(OK, norths=[0, 1]), None, "PO.nc"), (mut(OK, norths=[0, 1, 0]), ["okada", "-I6/3.5/2.7", "-Ds1", "-Dr0", "-X0/1/0", "-Y0/1/.5", "-S1e20", "-OCO.nc"], "PO.nc"),
          (dict(fn="compute_strain", args=["S"]), ["strain", "S"], None), (dict(fn="compute_stress", args=["y.nc"]), ["static", "stress", "y.nc"], None), (dict(fn="compute_rotation", args=["nothing"]), ["rotation", "nothing"], None),
          (dict(fn="read_static_nc", args=["nothing"]), None, None)]
    for k in bads:
        b = "bad_" + k
        Q.append((dict(D, make=dict(grn="P", modelpath=b)), ["greenfn", f"-M{b}", "-L3", "-K+k1", "-Cn", "-s", "-OC", "-D1/0.5", "-N8/0.1", "-R2,3"], "P"))
        Q.append((dict(ST, make=dict(stgrn="p.nc", modelpath=b)), ["static", "greenfn", f"-M{b}", "-L3", "-K+k1", "-Cn", "-OC.nc", "-D1/0.5", "-R2,3"], "p.nc"))
        Q.append((dict(make=dict(modelpath=b), fn="compute_travt1d", kw=dict(depsrc=1.0, deprcv=.5, dists=[2.0])), ["travt", f"-M{b}", "-D1/0.5", "-R2"], None))
    for v in BAD: Q.append((dict(make=dict(modelpath="mod"), fn="compute_travt1d", kw=dict(depsrc=1.0, deprcv=v, dists=[2.0])), ["travt", "-Mmod", f"-D1/{v}", "-R2"], None))
    for v in BAD: Q.append((dict(make=dict(modelpath="mod"), fn="compute_travt1d", kw=dict(depsrc=1.0, deprcv=.5, dists=v)), ["travt", "-Mmod", "-D1/0.5", f"-R1,{v}"], None))
    sg = lambda t: ["syn", "-GG/mod_1_0.5_2", "-A30", "-S1e20", "-OCS", "-s", "-D" + t]
    Q += [(dict(fn="sigs.gen_parabola_wave", args=[.01, .1]), sg("p/0.01"), None), (dict(fn="sigs.gen_trap_wave", args=[.3, .2, .1, .1]), sg("t/0.3/0.2/0.1"), None), (dict(fn="sigs.gen_trap_wave", args=[0.0, 0.0, .01, .1]), sg("t/0/0/0.01"), None),
          (dict(fn="sigs.gen_ricker_wave", args=[0.0, .1]), sg("r/0"), None), (dict(fn="sigs.gen_ricker_wave", args=[10.0, .1]), sg("r/10"), None), (dict(fn="sigs.gen_ricker_wave", args=[-1.0, .1]), sg("r/-1"), None), (dict(fn="sigs.gen_parabola_wave", args=[-1.0, .1]), sg("p/-1"), None),
          (dict(fn="solve_lamb1", args=[.7, {"np": [1.0, 2.0]}, 20.0]), ["lamb1", "-P0.7", "-T1/2/1", "-A20"], None), (dict(fn="solve_lamb1", args=[.0, {"np": [1.0, 2.0]}, 20.0]), ["lamb1", "-P0", "-T1/2/1", "-A20"], None), (dict(fn="solve_lamb1", args=[.25, {"np": [1.0, -2.0]}, 20.0]), None, None),
          (dict(fn="solve_lamb1", args=[.25, {"np": [1.0, 2.0]}, 400.0]), ["lamb1", "-P.25", "-T1/2/1", "-A400"], None), (dict(fn="solve_lamb1", args=[float("nan"), {"np": [1.0, 2.0]}, 40.0]), ["lamb1", "-Pnan", "-T1/2/1", "-A40"], None)]
    Q = [Q[i] for i in np.sort(rng.permutation(len(Q))[:40])]
    rc = []
    for _, a, _ in Q:
        if a is None: rc.append(None); continue
        rc.append(ctx.grt(*a, expect=None))
        for x in ("C", "CS"): shutil.rmtree(ctx.path(x), ignore_errors=True)
    keep = {x: tree(ctx.path(x)) for x in ("G", "S")}; files = {x: open(ctx.path(x), "rb").read() for x in ("g.nc", "y.nc", "mod")}
    R = ctx.py(DRIVER, [d for d, _, _ in Q])
    for (d, a, out), c, r in zip(Q, rc, R):
        what = f"{d['fn']}({d.get('args', '')} {d.get('kw', '')} {d.get('make', '')})"
        key = d["fn"].replace("sigs.", "")
        if key == "compute_travt1d" and d["make"]["modelpath"].startswith("bad"): key += ":model"
        if r.get("died") is not None: ctx.violate(f"died:{key}", f"{what}: {r['err']}"); continue
        if c is not None and c.rc == 0: ctx.tag("command-accepts"); continue
        ctx.check(f"raise:{key}", not r["ok"], f"{what} does not raise" + (f"; the command refuses: {c.err[-160:]!r}" if c is not None else ""))
        ctx.tag("raises")
    ctx.check("raise:kept", all(tree(ctx.path(x)) == keep[x] for x in keep) and all(open(ctx.path(x), "rb").read() == files[x] for x in files), "a refused call changed existing files")
    bad = [f for x in ("P", "PS") for f in tree(ctx.path(x)) if f.endswith(".sac")] if all(c is None or c.rc for c in rc) else []
    ctx.check("raise:nothing", not bad, f"refused calls left {bad[:5]}")


def cases(tier, rnd):
    m = 6 if tier == "thorough" else 1
    for fn, n in ((dynamic, 20), (static, 14), (okada, 5), (times, 4), (streams, 12), (records, 8), (refused, 5)):
        for _ in range(n * m): yield fn, {}
