"""C03: invalid requests are refused and touch nothing; valid ones, boundary values included, are served."""
import os, shutil, hashlib
import numpy as np
from vlib import gen
from vlib.core import Halt

PROP = "C03"
RULE = ("For every module a valid request is taken as the base (it must succeed) and one fault from the documented option grammar is put into it: a required "
        "option left out, an option without its argument, a word, too few fields, not-a-number, a value outside the stated range, an unknown option or suffix, two "
        "options that exclude each other, an input that is missing, empty, malformed, or of another kind, an output place that cannot be written. The run must end "
        "with a nonzero exit status (not a signal) and an [ERROR] message, print no data, leave no result file, and leave every file that was there - including earlier "
        "results under the very names the request would write, replaced by markers beforehand - byte for byte. Boundary values of the same grammar must be accepted and give a result.")
ASSUMPTIONS = ["the log file 'command' that some modules append to in their output directory is not a result", "ranges are those of the -h text and the documentation",
               "text after a number that is otherwise complete counts as malformed"]
FLAVORS = ["plain"]
NPROC = 8

NOTRES = ("command",)


def snap(d):
    out = {}
    for root, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            if os.path.islink(p): out[os.path.relpath(p, d)] = "link"; continue
            h = hashlib.sha1()
            with open(p, "rb") as fh: h.update(fh.read())
            out[os.path.relpath(p, d)] = h.hexdigest()
    return out


def data_lines(text):
    n = 0
    for l in text.splitlines():
        w = l.split()
        if not w or l.lstrip().startswith("#"): continue
        try: [float(x) for x in w]
        except ValueError: continue
        n += 1
    return n


# ---------------------------------------------------------------- option grammar
# A field is (lo, lo_open, hi, hi_open, integer); None means unbounded.
def f(lo=None, open_lo=False, hi=None, open_hi=False, i=False):
    return (lo, open_lo, hi, open_hi, i)


ANY, NN, POS = f(), f(0), f(0, True)
NAT, NAT1 = f(0, i=True), f(1, i=True)
AZ, DIP, RAKE = f(0, hi=360), f(0, hi=90), f(-180, hi=180)


def num(x):
    return repr(int(x)) if float(x) == int(x) and abs(x) < 1e9 else repr(float(x))


def faults(prefix, vals, spec, sep="/", suffix="", optional=0, notnan=True):
    """-> [(class, token)] invalid, [token] valid at the edges. The last `optional` fields may be missing."""
    bad, good = [], []
    tok = lambda v: prefix + sep.join(v) + suffix
    V = [v if isinstance(v, str) else num(v) for v in vals]
    for k, (lo, ol, hi, oh, isint) in enumerate(spec):
        def put(s): return tok(V[:k] + [s] + V[k + 1:])
        bad.append(("word", put("abc")))
        if notnan and not isint: bad.append(("nan", put("nan")))
        if lo is not None:
            bad.append(("low", put(num(lo - 1))))
            bad.append(("low", put(num(lo - 3 if isint else lo - 1e-3))))
            if not isint: bad.append(("low", put(num(lo - 1e-6))))
            (bad if ol else good).append(("low", put(num(lo))) if ol else put(num(lo)))
        if hi is not None:
            bad.append(("high", put(num(hi + 1)))); bad.append(("high", put(num(hi + 1e-3)))); bad.append(("high", put(num(hi + (1 if isint else 1e-6))))); bad.append(("high", put("inf")))
            (bad if oh else good).append(("high", put(num(hi))) if oh else put(num(hi)))
    for m in range(0, len(V) - optional):
        bad.append(("few", tok(V[:m])))
    bad.append(("trail", tok(V[:-1] + [V[-1] + "x"])))
    if len(V) == len(spec) and optional == 0 and sep == "/": bad.append(("many", tok(V + ["1"])))
    return bad, good


def axis(p):
    b, g = faults(p, [0, 1, .5], [ANY, ANY, POS])
    b += [("order", p + "1/0/.5"), ("order", p + "1/1/0"), ("huge", p + "0/nan/1")]
    g += [p + "1/1/1", p + "-1/1/2"]
    return b, g


def lst(p, asc=True, nofile=True):
    """value lists of -R, -Ds, -Dr"""
    b = [("word", p + "abc"), ("nan", p + "1,nan"), ("low", p + "-1,1"), ("order", p + "2,1"), ("order", p + "1,1"), ("word", p + "1,x,2"), ("order", p + "2/1/.5"),
         ("step", p + "1/2/0"), ("step", p + "1/2/-1"), ("few", p + "1/2"), ("nofile", p + "no_such_file"), ("empty", p + "empty.txt"), ("word", p + "words.txt"),
         ("order", p + "desc.txt"), ("low", p + "neg.txt"), ("nan", p + "nan.txt"), ("trail", p + "1,2x"), ("trail", p + "1/2/1x"), ("many", p + "1/2/1/3")]
    return b, [p + "1/2/.5", p + "list.txt", p + "1.5"]


def merge(*x):
    b, g = [], []
    for i, j in x: b += i; g += j
    return b, g


def nofew(x):
    return [(c, t) for c, t in x[0] if c != "few"], x[1]


def only(bad, good=()):
    return list(bad), list(good)


FAULT = lambda rows: "xy source\n\n\n" + rows


def models(rng, L):
    m = {"empty": "", "comment": "# nothing\n", "word": "1 2 abc 2\n0 4 2 3\n", "short": "1 2\n",
         "vp": "1 0 1 2\n0 5 3 3\n", "negvp": "1 -5 2 2\n0 5 3 3\n", "negvs": "1 5 -2 2\n0 5 3 3\n", "rho": "1 5 2 0\n0 5 3 3\n", "negh": "1 5 2 2\n-1 5 3 3\n0 6 3 3\n",
         "zeroh": "1 5 2 2\n0 5 3 3\n0 6 3 3\n", "q": "1 5 2 2 0 10\n0 5 3 3 10 10\n", "negq": "1 5 2 2 10 -10\n0 5 3 3 10 10\n", "nan": "1 nan 2 2\n0 5 3 3\n",
         "inf": "inf 5 2 2\n0 5 3 3\n", "depth": "0 5 2 2\n2 5 3 3\n1 6 3 3\n", "binary": "\x01\x02\x7f\x03\n", "five": "1 5 2 2 10\n0 5 3 3 10\n",
         "trail": "1 5 2 2z\n0 5 3 3\n"}
    return m


def prepare(ctx):
    rng = ctx.rng
    L, _ = gen.solid(rng, kind="two" if rng.random() < .5 else "incr", nmax=3, q=True)
    L[0][0] = 5.0      # all depths used here lie in the first layer
    ctx.write("mod", gen.text(L))
    ctx.write("liq", "1 1.5 0 1.03\n1 5 3 2.6\n0 6 3.5 2.8\n")
    for k, t in models(rng, L).items(): ctx.write("bm_" + k, t)
    ctx.write("empty.txt", ""); ctx.write("words.txt", "a\nb\n"); ctx.write("desc.txt", "2\n1\n"); ctx.write("neg.txt", "-1\n1\n"); ctx.write("nan.txt", "1\nnan\n")
    ctx.write("list.txt", "1\n2\n"); ctx.write("junk", "this is not a result file\n" * 40)
    ctx.grt("greenfn", "-Mmod", "-Ds1,2", "-Dr0.25,0.5", "-N16/0.1", "-R2,3", "-OG", "-L3", "-K+k1", "-Cn", "-s", "-e")
    ctx.grt("greenfn", "-Mmod", "-D1/0.5", "-N16/0.1", "-R2", "-OGne", "-L3", "-K+k1", "-Cn", "-s")
    ctx.grt("greenfn", "-Mmod", "-D1/0.5", "-N16/0.1", "-R2", "-OGk", "-L3", "-K+k1", "-Cp", "-s", "-S3")
    ctx.grt("greenfn", "-Mmod", "-D1/0.5", "-N16/0.1", "-R2", "-OGf", "-L3", "-K+k1", "-Cn", "-s", "-Gv")
    ctx.grt("syn", "-GG/mod_1_0.5_2", "-A30", "-S1e20", "-OS", "-s", "-e"); ctx.grt("syn", "-GG/mod_1_0.5_2", "-A30", "-S1e20", "-OSne", "-s")
    ctx.grt("static", "greenfn", "-Mmod", "-Ds1/3/.5", "-Dr0,0.5", "-R0.5/8/0.5", "-L3", "-K+k1", "-Cn", "-Og.nc", "-e")
    ctx.grt("static", "greenfn", "-Mmod", "-D1/0", "-R1,2", "-L3", "-K+k1", "-Cn", "-Og1.nc")
    ctx.grt("static", "syn", "-Gg.nc", "-S1e20", "-Ds1", "-Dr0", "-Oy.nc", "-e", "-s"); ctx.grt("static", "syn", "-Gg1.nc", "-S1e20", "-Oyne.nc", "-s")
    ctx.grt("eigenv", "-Mmod", "-SR", "-F0/2/0.25", "-N1", "-Cph.nc", "-s"); ctx.grt("eigenv", "-Mmod", "-SR", "-F0.5", "-Cone.nc", "-s")
    ctx.grt("eigenv", "-Mmod", "-SR", "-F1/4/1+p", "-Cper.nc", "-s")
    ctx.grt("eigenfn", "-Cph.nc", "-N0", "-Ugr.nc")
    Hdr = "  #   X-start    Y-start     X-fin      Y-fin   Kode  shear  reverse  dip   top  bot\nxxx xxxxxxxxxx xxxxxxxxxx xxxxxxxxxx xxxxxxxxxx xxx xxxxxxxxxx xxxxxxxxxx\n"
    row = "  1 {x0} 0.0 {x1} 1.0 {k} 1.0 0.5 {dip} {top} {bot} a\n"
    d = dict(x0=0.0, x1=1.0, k=100, dip=45, top=1.2, bot=1.8)
    ctx.write("ff.inp", Hdr + row.format(**d))
    for n, c in (("dip0", dict(dip=0)), ("dip91", dict(dip=91)), ("bot", dict(bot=1.2)), ("top", dict(top=2.5)), ("kode", dict(k=600)), ("len", dict(x1=0.0, x0=0.0)), ("word", dict(x0="abc")),
                 ("deep", dict(bot=9)), ("nan", dict(dip="nan")), ("infx", dict(x0="inf"))):
        r = row.format(**dict(d, **c))
        if n == "len": r = r.replace(" 0.0 0.0 0.0 1.0 ", " 0.0 0.0 0.0 0.0 ")
        ctx.write(f"ff_{n}.inp", Hdr + r)
    ctx.write("ff_none.inp", Hdr); ctx.write("ff_short.inp", Hdr + "  1 0.0 0.0 1.0\n"); ctx.write("ff_hdr.inp", "one line\n")
    ctx.write("q.txt", "1 1 0.25\n0 2 0\n"); ctx.write("q_empty.txt", ""); ctx.write("q_short.txt", "1 1\n"); ctx.write("q_word.txt", "1 a 0\n"); ctx.write("q_nan.txt", "1 nan 0\n")
    ctx.write("q_neg.txt", "1 1 -1\n"); ctx.write("q_far.txt", "1 1 0\n50 50 0\n"); ctx.write("q_deep.txt", "1 1 0.2\n1 1 3\n"); ctx.write("q_five.txt", "1 1 0 30 40\n"); ctx.write("q_ang.txt", "1 1 0 400 95 0\n")
    ctx.write("tf", "0\n1\n0\n"); ctx.write("tf_word", "0\nabc\n"); ctx.write("tf_nan", "0\nnan\n1\n")


INS = {  # inputs of another kind, or broken
    "dir": ["no_such_dir", "mod", "emptyd"], "nc": ["no_such.nc", "junk", "empty.txt", "emptyd"],
}


def table(ctx):
    """module -> dict(base, out, opts {opt: (bad, good)}, req, excl[list of extra tokens], extra [(class, argv)])"""
    T = {}
    D = lambda p="-D", n=(1, .5): faults(p, list(n), [NN, NN])
    B = only([("word", "-Bx"), ("word", "-BfFr"), ("many", "-BfFH"), ("few", "-B")], ["-BfH", "-BF", "-BrH", "-BhH"])
    dsr = [("pair", ["-D", "-Ds1", "-Dr.5"], 0), ("pair", ["-Ds1"], 1), ("pair", ["-Dr.5"], 1)]
    M = only([("nofile", "-Mno_such_file"), ("dir", "-Memptyd")] + [("model-" + k, f"-Mbm_{k}") for k in models(None, None)])
    C = only([("word", "-Cx"), ("few", "-C")], ["-Cd", "-Cn", "-Cp"])
    LK = merge(faults("-L", [3], [POS]) if False else only([("word", "-Labc"), ("nan", "-Lnan"), ("trail", "-L3x"), ("low", "-L-3"), ("word", "-L3+q1"), ("both", "-L3+l5+a.1"), ("few", "-L3+l"), ("few", "-L3+a"),
                                                            ("few", "-L3+o"), ("low", "-L3+l-5"), ("low", "-L3+a-1"), ("low", "-L3+l5+o-3"), ("nan", "-L3+lnan"), ("nan", "-L3+anan"), ("nan", "-L3+l5+onan")], ["-L", "-L0", "-L3+l5", "-L3+l5+o2"][1:]))
    K = only([("low", "-K+k-1"), ("word", "-K+kx"), ("nan", "-K+knan"), ("word", "-K+q1"), ("few", "-K+k"), ("word", "-K+ex"), ("nan", "-K+enan")], ["-K+k2", "-K+k1+e0", "-K+k1+e1e-4"])
    KD = only([("low", "-K+k1+s-1"), ("nan", "-K+k1+snan"), ("nan", "-K+k1+vnan"), ("few", "-K+k1+s"), ("few", "-K+k1+v"), ("low", "-K+k1+v-1")], ["-K+k1+s1.5", "-K+k1+v0.5", "-K+k1+f"])
    G = only([("word", "-Gx"), ("word", "-Gex"), ("few", "-G")], ["-Ge", "-Gvh", "-Gs", "-Gevhs"])
    P = faults("-P", [1], [NAT1])
    E = merge(faults("-E", [1, 3], [ANY, NN], optional=1), only([("low", "-Ep0"), ("low", "-Ep1"), ("word", "-Epx"), ("nan", "-Epnan")], ["-Ep-1"]))
    O = only([("notdir", "-Ojunk/x"), ("isfile", "-Ojunk")])
    Onc = only([("notdir", "-Ono_such_dir/o.nc"), ("isdir", "-Oemptyd")])
    N = merge(faults("-N", [16, .1], [NAT1, POS]), faults("-N16/.1+w", [.8], [POS]), faults("-N16/.1+n", [2], [NAT1]), only([("word", "-N16/.1+q1")], ["-N16/.1+a", "-N16/.1+f", "-N1/.1", "-N2/.1", "-N15/.1"]))
    H = merge(only([("order", "-H2/1"), ("few", "-H1"), ("word", "-Ha/b"), ("nan", "-Hnan/2"), ("nan", "-H1/nan"), ("trail", "-H1/2x")], ["-H-1/-1", "-H1/2", "-H-1/2", "-H2/-1", "-H1/1"]))
    T["greenfn"] = dict(base=["-Mmod", "-D1/.5", "-N16/.1", "-R2,3", "-L3", "-K+k1", "-Cn", "-s", "-OO"], out="O", req="MDNRO",
                        opts={"M": M, "D": merge(D(), only([("order", "-D")])), "N": N, "R": lst("-R"), "H": H, "L": LK, "K": merge(K, KD), "C": C, "E": E, "G": G, "P": P, "B": B, "O": O,
                              "S": only([("word", "-Sabc"), ("high", "-S9"), ("high", "-S1,99"), ("low", "-S-1")], ["-S", "-S0,8", "-S3"])},
                        extra=[("pair", "D", ["-Ds1", "-Dr.5"], True), ("pair", "D", ["-Ds1"], True), ("pair", "-D", ["-Ds1"], False), ("pair", "-D", ["-Dr1"], False), ("zero-fim", "L", ["-L3+l5", "-R0,2"], True),
                               ("zero-fim", "L", ["-L3+a.1", "-R0,2"], True)])
    for q in ("s", "r"):
        b, g = lst(f"-D{q}"); o = "-Dr.25" if q == "s" else "-Ds4"
        T["greenfn"]["extra"] += [(c, "-D", [t, o], False) for c, t in b]; T["greenfn"].setdefault("ok", []).extend([("-D", [t, o]) for t in g])
    T["static greenfn"] = dict(base=["-Mmod", "-D1/.5", "-R2,3", "-L3", "-K+k1", "-Cn", "-Oo.nc"], out="o.nc", req="MDRO",
                               opts={"M": M, "D": D(), "R": lst("-R"), "L": LK, "K": K, "C": C, "B": B, "O": Onc},
                               extra=[("pair", "D", ["-Ds1", "-Dr.5"], True), ("pair", "-D", ["-Ds1"], False), ("pair", "-D", ["-Dr1"], False), ("liquid", "-M", ["-Mliq"], False), ("pair", "-R", ["-X0/1/1"], False)]
                               + [(c, "-R", [t, "-Y0/1/1"], False) for c, t in axis("-X")[0]] + [(c, "-R", [t, "-X0/1/1"], False) for c, t in axis("-Y")[0]],
                               ok=[("-R", [t, "-Y1/2/1"]) for t in axis("-X")[1]])
    for q in ("s", "r"):
        b, g = lst(f"-D{q}"); o = "-Dr.25" if q == "s" else "-Ds4"
        T["static greenfn"]["extra"] += [(c, "-D", [t, o], False) for c, t in b]; T["static greenfn"]["ok"] += [("-D", [t, o]) for t in g]
    T["kernel"] = dict(base=["-Mmod", "-D1/.5", "-F0/2/1", "-C3/4/.5", "-OO"], out="O", req="MDFCO",
                       opts={"M": M, "D": D(), "B": B, "P": P, "O": O,
                             "F": merge(faults("-F", [0, 2, 1], [NN, POS, POS]), faults("-F0/2/1+w", [20], [POS]), only([("order", "-F3/2/.1"), ("word", "-F0/2/1+q"), ("few", "-F1/1/1")], ["-F1/2/1"])),
                             "C": merge(faults("-C", [3, 4, .5], [POS, POS, POS], optional=2), only([("low", "-C0"), ("low", "-C-1"), ("order", "-C4/3/.1"), ("order", "-C3/3/.1"), ("few", "-C3/4")], ["-C.5"]))})
    mech = [("-M", *faults("-M", [30, 40, 50], [AZ, DIP, RAKE], optional=1)), ("-T", *faults("-T", [1, 2, 3, 4, 5, 6], [ANY] * 6)), ("-F", *faults("-F", [1, 2, 3], [ANY] * 3))]
    mx = [(c, None, [t], True) for _, b, _ in mech for c, t in b] + [("both", None, ["-M1/2/3", "-F1/2/3"], True), ("both", None, ["-T1/2/3/4/5/6", "-F1/2/3"], True), ("both", None, ["-M1/2", "-T1/2/3/4/5/6"], True)]
    mg = [(None, [t]) for _, _, g in mech for t in g]
    S = merge(faults("-S", [1e20], [ANY]), faults("-Su", [1e12], [ANY]))
    S = (S[0], ["-S0", "-S-1e20", "-S1e-3"])
    tfn = only([("word", "-Dq/1"), ("few", "-Dp"), ("few", "-Dp/"), ("low", "-Dp/0"), ("low", "-Dp/-1"), ("nan", "-Dp/nan"), ("word", "-Dp/x"), ("order", "-Dt/.3/.2/.1"), ("few", "-Dt/.1/.2"), ("low", "-Dt/-1/1/2"), ("nan", "-Dt/nan/1/2"),
                ("low", "-Dr/0"), ("low", "-Dr/-1"), ("nan", "-Dr/nan"), ("nofile", "-D0/no_such"), ("word", "-D0/tf_word"), ("empty", "-D0/empty.txt"), ("nan", "-D0/tf_nan"), ("trail", "-Dp/.5x"), ("trail", "-Dt/.1/.2/.3x"), ("trail", "-Dr/2x")],
               ["-Dp/.5", "-Dt/.1/.2/.4", "-Dt/.2/.2/.4", "-Dt/0/.2/.4", "-Dr/2", "-D0/tf"])
    T["syn"] = dict(base=["-GG/mod_1_0.5_2", "-A30", "-S1e20", "-s", "-OO"], out="O", req="GAS",
                    opts={"G": only([("nofile", "-Gno_such"), ("file", "-Gmod"), ("empty", "-Gemptyd"), ("choose", "-GG")]), "A": faults("-A", [30], [AZ]), "S": S, "O": O, "D": tfn,
                          "I": faults("-I", [1], [NAT1]), "J": faults("-J", [1], [NAT1])},
                    extra=mx + [("sub", None, ["-R2"], True), ("sub", None, ["-Ds1"], True), ("sub", None, ["-Dr.5"], True), ("noupar", "-G", ["-GGne", "-e"], False), ("nogf", "-G", ["-GGf/mod_1_0.5_2"], False)]
                    + [("choose", "-G", ["-GG", *[t for j, t in enumerate(("-Ds1", "-Dr.5", "-R2")) if j != i]], False) for i in range(3)]
                    + [("nomatch", "-G", ["-GG", a, b, c], False) for a, b, c in (("-Ds1.5", "-Dr.5", "-R2"), ("-Ds1", "-Dr.3", "-R2"), ("-Ds1", "-Dr.5", "-R2.5"), ("-Ds1.01", "-Dr.5", "-R2"))]
                    + [(c, "-G", ["-GG", a, b, d], False) for c, a, b, d in (("low", "-Ds-1", "-Dr.5", "-R2"), ("nan", "-Dsnan", "-Dr.5", "-R2"), ("word", "-Dsx", "-Dr.5", "-R2"), ("low", "-Ds1", "-Dr-.5", "-R2"), ("nan", "-Ds1", "-Drnan", "-R2"),
                                                                             ("nan", "-Ds1", "-Dr.5", "-Rnan"), ("low", "-Ds1", "-Dr.5", "-R-2"), ("trail", "-Ds1x", "-Dr.5", "-R2"), ("trail", "-Ds1", "-Dr.5x", "-R2"), ("trail", "-Ds1", "-Dr.5", "-R2x"))],
                    ok=mg + [("-G", ["-GG", "-Ds1", "-Dr.5", "-R2"]), (None, ["-e"]), (None, ["-N"]), ("-G", ["-GGne"]), ("-G", ["-GGne", "-R2", "-Ds1"])])
    Q = only([("nofile", "-Qno_such"), ("empty", "-Qq_empty.txt"), ("few", "-Qq_short.txt"), ("word", "-Qq_word.txt"), ("nan", "-Qq_nan.txt"), ("low", "-Qq_neg.txt"), ("few", "-Qq_five.txt")], ["-Qq.txt"])
    T["static syn"] = dict(base=["-Gg.nc", "-S1e20", "-Ds1", "-Dr0", "-s", "-Oo.nc"], out="o.nc", req="GSO",
                           opts={"G": only([("nofile", "-Gno_such"), ("junk", "-Gjunk"), ("empty", "-Gempty.txt"), ("kind", "-Gph.nc"), ("kind", "-Gy.nc"), ("dir", "-Gemptyd")]), "S": S, "O": Onc},
                           extra=mx + [("depth", "-Ds", [], False), ("depth", "-Dr", [], False)] + [("depth", "-Ds", [t], False) for t in ("-Ds.9", "-Ds3.1", "-Ds3.0001", "-Ds0.9999", "-Ds3.000001", "-Ds-1", "-Dsnan", "-Dsabc")] + [("trail", "-Ds", ["-Ds1x"], False), ("trail", "-Ds", ["-Ds1/2"], False)]
                           + [("depth", "-Dr", [t], False) for t in ("-Dr.6", "-Dr.50001", "-Dr-1", "-Drnan", "-Drabc")] + [("trail", "-Dr", ["-Dr0x"], False), ("depth", None, ["-D1/0"], True)]
                           + [(c, None, [t, "-Y1/2/1"], True) for c, t in axis("-X")[0]] + [(c, None, [t, "-X1/2/1"], True) for c, t in axis("-Y")[0]] + [("pair", None, ["-X1/2/1"], True), ("pair", None, ["-Y1/2/1"], True)]
                           + [(c, "-Dr", [t], False) for c, t in Q[0]] + [("range", "-Dr", ["-Qq_deep.txt"], False), ("both", None, ["-Qq.txt"], True), ("both", "-Dr", ["-Qq.txt", "-X1/2/1", "-Y1/2/1"], False)]
                           + [("noupar", "-G", ["-Gg1.nc", "-e"], False), ("both", None, ["-Cff.inp"], True), ("neither", "-S", [], False)]
                           + [("fault", ("-S", "-Ds"), [f"-Cff_{k}.inp"], False) for k in ("dip0", "dip91", "bot", "top", "kode", "len", "word", "deep", "nan", "infx", "none", "short", "hdr")]
                           + [("fault", ("-S", "-Ds"), [f"-C{t}"], False) for t in ("no_such", "emptyd", "empty.txt", "ff.inp+i1", "ff.inp+i0/1", "ff.inp+i1/-1", "ff.inp+inan/1", "ff.inp+q1", "")] + [("trail", ("-S", "-Ds"), ["-Cff.inp+i.5/.5x"], False)]
                           + [("fault", "-S", ["-Cff.inp"], False), ("fault", ("-S", "-Ds", "-Dr"), ["-Cff.inp"], False), ("fault", ("-S", "-Ds", "-Dr", "-G"), ["-Gg1.nc", "-Cff.inp"], False)],
                           ok=mg + [("-Dr", ["-Qq.txt"]), (None, ["-X1/2/1", "-Y1/2/1"]), (("-S", "-Ds"), ["-Cff.inp"]), (("-S", "-Ds"), ["-Cff.inp+i.5/.5"]), ("-Ds", ["-Ds3"]), ("-Dr", ["-Dr.5"]), (None, ["-e"]), (None, ["-N", "-e"]),
                                    (None, ["-X0/0/1", "-Y.5/8/7.5"])])
    T["okada"] = dict(base=["-I6/3.5/2.7", "-S1e20", "-Ds2", "-Dr0", "-X1/2/1", "-Y1/2/1", "-s", "-Oo.nc"], out="o.nc", req="IXYO",
                      opts={"I": merge(faults("-I", [6, 3.5, 2.7], [POS, POS, POS]), only([("inf", "-Iinf/3.5/2.7")])), "S": S, "O": Onc, "X": axis("-X"), "Y": axis("-Y")},
                      extra=[(c, None, [t], True) for c, t in mech[0][1]] + [("depth", "-Ds", [], False), ("depth", "-Dr", [], False), ("neither", "-S", [], False), ("both", None, ["-Cff.inp"], True), ("both", None, ["-Qq.txt"], True)]
                      + [("depth", "-Ds", [t], False) for t in ("-Ds-1", "-Dsnan", "-Dsx", "-Dsinf")] + [("trail", "-Ds", ["-Ds1x"], False), ("trail", "-Dr", ["-Dr0x"], False)]
                      + [("depth", "-Dr", [t], False) for t in ("-Dr-1", "-Drnan", "-Drx")] + [("depth", None, ["-D1/0"], True)]
                      + [(c, ("-Dr", "-X", "-Y"), [t], False) for c, t in Q[0]]
                      + [("fault", ("-S", "-Ds"), [f"-Cff_{k}.inp"], False) for k in ("dip0", "dip91", "bot", "top", "kode", "len", "word", "nan", "infx", "none", "short", "hdr")]
                      + [("fault", ("-S", "-Ds"), [f"-C{t}"], False) for t in ("no_such", "emptyd", "empty.txt", "ff.inp+i1/1", "")] + [("fault", "-S", ["-Cff.inp"], False), ("both", "-Ds", ["-Cff.inp"], False)],
                      ok=[(None, [t]) for t in mech[0][2]] + [(("-Dr", "-X", "-Y"), ["-Qq.txt"]), (("-S", "-Ds"), ["-Cff.inp"]), ("-S", ["-Su1e12"]), (None, ["-e", "-N"]), ("-I", ["-I2/1/.5"]), (("-S", "-Ds"), ["-Cff_deep.inp"])])
    for m in ("strain", "stress", "rotation"):
        T[m] = dict(base=["S"], out="S", req="", opts={}, extra=[("nofile", "S", ["no_such"], False), ("file", "S", ["mod"], False), ("empty", "S", ["emptyd"], False), ("noupar", "S", ["Sne"], False), ("kind", "S", ["G/mod_1_0.5_2"], False)], inplace="S")
        T["static " + m] = dict(base=["y.nc"], out="y.nc", req="", opts={}, extra=[("nofile", "y", ["no_such"], False), ("junk", "y", ["junk"], False), ("noupar", "y", ["yne.nc"], False), ("kind", "y", ["ph.nc"], False), ("kind", "y", ["g1.nc"], False)], inplace="y.nc")
    nr = nofew(merge(faults("-N", [0, 1, 1], [NAT, NAT, NAT1], optional=2), only([("order", "-N1/0")], ["-N", "-N1", "-N0/1"])))
    fr = merge(faults("-F", [.25, 2, .25], [NN, POS, POS], optional=2), only([("low", "-F0"), ("low", "-F-1"), ("order", "-F2/1"), ("word", "-F1/2/.5+q")], ["-F.25/2", "-F.5/1.5/.5", "-F.5/4+p"]))
    T["eigenv"] = dict(base=["-Mmod", "-SR", "-F0.5/1/.5", "-Co.nc", "-s"], out="o.nc", req="MSFC",
                       opts={"M": M, "S": only([("word", "-SX"), ("word", "-SRL"), ("few", "-S")], ["-SL"]), "C": only([("notdir", "-Cno_such_dir/o.nc"), ("isdir", "-Cemptyd")]), "P": P,
                             "N": merge(faults("-N", [1], [NAT], optional=1), only([], ["-N", "-N0"])), "F": merge(faults("-F", [.5, 1, .5], [NN, POS, POS], optional=2), only([("low", "-F0"), ("low", "-F-1"), ("order", "-F2/1/.1"), ("few", "-F1/2"), ("word", "-F1/2/.5+q")], ["-F.5", "-F1/2/1+p"])),
                             "T": only([("word", "-T+tx"), ("word", "-T+q1"), ("nan", "-T+tnan"), ("trail", "-T+t3x")], ["-T+t3+c7"])},
                       extra=[("both", None, ["-X1"], True)])
    T["eigenv -X"] = dict(mod="eigenv", base=["-Mmod", "-SR", "-X1"], out=None, req="", opts={"X": merge(faults("-X", [1], [POS]), only([("order", "-X1+c3/2"), ("low", "-X1+c-1/2"), ("few", "-X1+c2"), ("word", "-X1+q"), ("low", "-X1+i-1"), ("high", "-X1+i99"), ("nan", "-X1+cnan/3"), ("trail", "-X1+c2/3x")], ["-X1+c1/3", "-X1+i0"]))})
    cin = only([("nofile", "-Cno_such"), ("junk", "-Cjunk"), ("kind", "-Cg.nc"), ("dir", "-Cemptyd"), ("kind", "-Cgr.nc")])
    T["eigenfn"] = dict(base=["-Cph.nc", "-Wo.nc"], out="o.nc", req="C",
                        opts={"C": cin, "N": nr, "F": fr, "W": only([("notdir", "-Wno_such_dir/o.nc"), ("low", "-Wo.nc+z-1"), ("order", "-Wo.nc+z2/1/.1"), ("low", "-Wo.nc+z0/1/0"), ("few", "-Wo.nc+z"), ("word", "-Wo.nc+zx"), ("nan", "-Wo.nc+znan"), ("trail", "-Wo.nc+z1x")], ["-Wo.nc+z0", "-Wo.nc+z0/1/.5"]),
                              "K": only([("word", "-K+qo2.nc"), ("low", "-K+co2.nc+z0"), ("low", "-K+co2.nc+z-1"), ("word", "-K+co2.nc+zx"), ("nan", "-K+co2.nc+znan"), ("few", "-K+c")], ["-K+co2.nc", "-K+uo2.nc+z.5"]), },
                        extra=[("notdir", "-W", ["-K+cno_such_dir/a.nc"], False), ("notdir", "-W", ["-Uno_such_dir/a.nc"], False)], ok=[("-W", ["-Uo2.nc"])])
    T["modsum"] = dict(base=["-Cph.nc", "-D1/.5", "-R2,3", "-OO"], out="O", req="CDRO",
                       opts={"C": (cin[0] + [("kind", "-Cone.nc"), ("kind", "-Cper.nc")], []), "D": D(), "R": lst("-R"), "N": nr, "E": E, "G": G, "P": P, "O": O, "W": faults("-W", [2], [NAT1]),
                             "F": merge((faults("-F", [.25, 2], [NN, NN])[0], []), only([("order", "-F2/1"), ("none", "-F5/6"), ("one", "-F.5/.6")], ["-F.25/2", "-F.5/1.5"]))},
                       extra=[("pair", "D", ["-Ds1", "-Dr.5"], True), ("pair", "-D", ["-Ds1"], False), ("pair", "-D", ["-Dr1"], False)])
    T["lamb1"] = dict(base=["-P.25", "-T0/1/.5", "-A30"], out=None, req="PTA", opts={"P": merge(faults("-P", [.25], [f(0, True, .5, True)]), only([], ["-P.01", "-P.49"])), "T": merge(faults("-T", [0, 1, .5], [NN, NN, POS]), only([("order", "-T2/1/.1")], ["-T1/1/1"])), "A": faults("-A", [30], [AZ])})
    T["travt"] = dict(base=["-Mmod", "-D1/.5", "-R1,2"], out=None, req="MDR", opts={"M": M, "D": D(), "R": lst("-R")})
    T["disp2asc"] = dict(base=["-Cph.nc"], out=None, req="C", opts={"C": cin, "N": nr, "F": fr}, extra=[("both", None, ["-Ugr.nc"], True), ("kind", "-C", ["-Uph.nc"], False)], ok=[("-C", ["-Ugr.nc"])])
    ks = sorted(k for k in snap(ctx.path("Gk_grtstats")) if os.path.basename(k).startswith("K_"))
    pt = sorted(k for k in snap(ctx.path("Gk_grtstats")) if os.path.basename(k).startswith("PTAM"))
    T["ker2asc"] = dict(base=["Gk_grtstats/" + ks[0]], out=None, req="", opts={}, extra=[("nofile", "Gk", ["K_none"], False), ("file", "Gk", ["mod"], False), ("dir", "Gk", ["Kdir"], False), ("cut", "Gk", ["K_cut"], False), ("cut", "Gk", ["PTAM_cut"], False)], ok=[("Gk", ["Gk_grtstats/" + pt[0]])] if pt else [])
    T["sac2asc"] = dict(base=["S/Z.sac"], out=None, req="", opts={}, extra=[("nofile", "S/", ["no_such"], False), ("junk", "S/", ["junk"], False), ("empty", "S/", ["empty.txt"], False), ("dir", "S/", ["emptyd"], False), ("cut", "S/", ["cut.sac"], False)])
    if ks:
        b = open(ctx.path("Gk_grtstats", ks[0]), "rb").read(); open(ctx.path("K_cut"), "wb").write(b[:len(b) - 11])
    if pt:
        b = open(ctx.path("Gk_grtstats", pt[0]), "rb").read(); open(ctx.path("PTAM_cut"), "wb").write(b[:len(b) - 11])
    b = open(ctx.path("S", "Z.sac"), "rb").read(); open(ctx.path("cut.sac"), "wb").write(b[:-5])
    os.makedirs(ctx.path("emptyd"), exist_ok=True); os.makedirs(ctx.path("Kdir"), exist_ok=True)
    return T


def fresh(ctx, t):
    """removes what a valid request left"""
    for x in ("O", "O_grtstats", "o.nc", "o2.nc"):
        p = ctx.path(x)
        if os.path.isdir(p): shutil.rmtree(p)
        elif os.path.exists(p): os.remove(p)


def markers(ctx, t):
    """replaces results of the base request by markers under the same names"""
    n = 0
    if t["out"] is None or t.get("inplace"): return 0
    for root, _, fs in [(os.path.dirname(ctx.path(t["out"])), None, [os.path.basename(t["out"])])] if not os.path.isdir(ctx.path(t["out"])) else os.walk(ctx.path(t["out"])):
        for x in fs:
            with open(os.path.join(root, x), "wb") as fh: fh.write(b"earlier result " + x.encode()); n += 1
    return n


def is_result(p):
    return os.path.basename(p) not in NOTRES


def module(ctx, name, part=0, parts=1):
    prepare(ctx)
    t = table(ctx)[name]
    rng = ctx.rng
    mod = t.get("mod", name).split()
    base = t["base"]
    label = name.replace(" ", "_")

    def drop(pref):
        if pref is None: return list(base)
        return [a for a in base if not any(a.startswith(p) for p in ([pref] if isinstance(pref, str) else pref))]

    def run(args, **kw):
        return ctx.grt(*mod, *args, expect=None, **kw)

    # the base request itself
    if t.get("inplace"): keep = snap(ctx.path(t["inplace"])) if os.path.isdir(ctx.path(t["inplace"])) else open(ctx.path(t["inplace"]), "rb").read()
    s0 = snap(ctx.dir)
    r = run(base)
    if not ctx.check(f"valid:{label}", r.rc == 0, "base request refused: " + r.desc()): raise Halt()
    made = {p for p, h in snap(ctx.dir).items() if s0.get(p) != h and is_result(p)}
    ctx.check(f"valid:{label}:result", bool(made) if t["out"] else data_lines(r.out) > 0, "base request gives no result: " + r.desc())
    if t.get("inplace"):
        p = ctx.path(t["inplace"])
        if os.path.isdir(p):
            for x in set(snap(p)) - set(keep): os.remove(os.path.join(p, x))
        else: open(p, "wb").write(keep)

    # ---- valid requests at the edges
    good = [(drop("-" + o), [g], o) for o, (_, gs) in t["opts"].items() for g in gs] + [(drop(p), a, p or "") for p, a in t.get("ok", [])]
    good = [x for i, x in enumerate(good) if i % parts == part]
    for b, a, o in good:
        fresh(ctx, t)
        s0 = snap(ctx.dir)
        r = run([*b, *a])
        k = f"valid:{label}:{o if isinstance(o, str) else o[0]}"
        if ctx.check(k, r.rc == 0, f"valid request refused: {r.desc()}"):
            if t.get("inplace"): continue
            s1 = snap(ctx.dir)
            new = [p for p in s1 if s0.get(p) != s1[p] and is_result(p)]
            ctx.check(k + ":result", bool(new) if t["out"] else data_lines(r.out) > 0, f"no result: {r.desc()}")
            ctx.tag("accepted")
    # ---- invalid requests
    bad = []
    for o in t["req"]: bad.append(("missing", o, drop("-" + o)))
    for o, (bs, _) in t["opts"].items():
        for c, tok in bs: bad.append((c, o, [*drop("-" + o), tok]))
        if o not in "S" or name != "greenfn":
            if not (o == "N" and name in ("eigenv", "eigenfn", "modsum", "disp2asc")): bad.append(("noarg", o, [*drop("-" + o), "-" + o]))
    for c, p, a, add in t.get("extra", []):
        if add and p is not None:      # replace nothing, add; p only names the option
            bad.append((c, p.strip("-"), [*[x for x in base if not (c == "zero-fim" and x[:2] in ("-L", "-R"))], *a]))
        else: bad.append((c, (a[-1][1:2] if a and a[-1].startswith("-") else "file") if a else (p if isinstance(p, str) else p[0]).strip("-"), [*drop(p), *a]))
    bad += [("unknown", "Z", [*base, "-Z"]), ("noargs", "", [])]
    bad = [x for i, x in enumerate(bad) if i % parts == part]
    for c, o, args in bad:
        mode = rng.integers(3)
        fresh(ctx, t)
        nm = 0
        if mode < 2 and not t.get("inplace") and t["out"]:
            r = run(base)
            nm = markers(ctx, t)
        s0 = snap(ctx.dir)
        if rng.random() < .3 and args and c not in ("noarg",): args = [args[i] for i in rng.permutation(len(args))] if name not in ("ker2asc", "sac2asc") else args
        r = run(args)
        s1 = snap(ctx.dir)
        k = f"{c}:{label}:{o}"
        ctx.tag("class:" + c.split("-")[0])
        if r.rc == 0 and args and c == "noarg" and False: continue
        ok = ctx.check(f"accepted:{k}", r.rc != 0, f"invalid request ({c}) served: {r.desc()}")
        if ok:
            ctx.check(f"signal:{k}", r.rc > 0 and r.rc < 128, f"killed: {r.desc()}")
            ctx.check(f"message:{k}", "[ERROR]" in r.err, f"no error message: {r.desc()}")
            ctx.check(f"printed:{k}", t["out"] is not None or c == "cut" or data_lines(r.out) == 0, f"prints data before refusing: {r.desc()}")
            gone = [p for p in s0 if is_result(p) and s1.get(p) != s0[p]]
            ctx.check(f"overwritten:{k}", not gone, f"refused, but earlier results {gone[:4]} changed ({nm} markers): {r.desc()}")
            new = [p for p in s1 if p not in s0 and is_result(p)]
            ctx.check(f"leftover:{k}", not new, f"refused, but left {new[:4]}: {r.desc()}")
            ctx.tag("refused"); ctx.tag("over-markers" if nm else "clean-place")
        elif t.get("inplace"):
            pass
    if t.get("inplace"): ctx.tag("inplace")
    ctx.tag("module:" + label)


MODS = [("greenfn", 6), ("static greenfn", 5), ("kernel", 3), ("syn", 4), ("static syn", 4), ("okada", 3), ("strain", 1), ("stress", 1), ("rotation", 1), ("static strain", 1), ("static stress", 1), ("static rotation", 1), ("eigenv", 4),
        ("eigenv -X", 1), ("eigenfn", 3), ("modsum", 4), ("lamb1", 1), ("travt", 1), ("disp2asc", 1), ("ker2asc", 1), ("sac2asc", 1)]


def cases(tier, rnd):
    for m, n in MODS:
        for p in range(n): yield module, dict(name=m, part=p, parts=n)
