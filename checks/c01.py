"""C01: AddressSanitizer + UBSan over random sessions of every module, with valid and corrupted arguments and text files; memcheck on the optimised build."""
import os, re, glob, subprocess
import numpy as np
from vlib import workload

PROP = "C01"
RULE = ("Random sessions (model, Green's functions, synthesis, derived quantities, kernels, dispersion, eigenfunctions, modal summation, half-space solutions, "
        "conversion tools) are executed on a build with AddressSanitizer and UBSan, first as they are and then with corrupted arguments (dropped, doubled, reordered "
        "options, hostile numbers and separators, missing files) and corrupted text files (truncated, wrong columns, garbage, long lines, binary, CRLF). "
        "Every execution must end by itself with exit status 0 or an error status; sanitizer reports and signals are violations. "
        "Valid sessions of the uninstrumented optimised build are also run under valgrind memcheck (uninitialised values, invalid accesses).")
ASSUMPTIONS = ["requests that exhaust memory or run longer than the time limit are skipped (counted as inconclusive)",
               "files written by the toolkit itself are not corrupted", "shared libraries (NetCDF, FFTW, libc) are trusted",
               "leaks are not violations: every command is one process"]
FLAVORS = ["asan", "plain"]

HOSTILE = ["0", "-1", "-0.0", "1e-300", "1e-12", "1e9", "1e300", "nan", "inf", "-inf", "", "abc", "99999999999999999999", "-99999999999", "0x10", "1.5.2", "%s%n", " ", "1 2", "1e", "-", "2147483648", "4294967297"]
MILD = ["0", "-1", "0.001", "100", "7", "1000000", "3.7", "-2.5", "1e-5"]


def corrupt_arg(rng, a):
    k = rng.integers(10)
    nums = list(re.finditer(r"-?\d+\.?\d*(?:[eE][-+]?\d+)?", a[2:]))
    if k <= 4 and nums:
        m = nums[rng.integers(len(nums))]
        v = (HOSTILE if rng.random() < .6 else MILD)[rng.integers(len(HOSTILE) if 0 else min(len(HOSTILE), len(MILD)))] if 0 else None
        pool = HOSTILE if rng.random() < .6 else MILD
        v = pool[rng.integers(len(pool))]
        return a[:2 + m.start()] + v + a[2 + m.end():]
    if k == 5:
        i = rng.integers(2, len(a) + 1) if len(a) >= 2 else len(a)
        return a[:i] + ["/", ",", "+", "+x", "++", "//", ",,", "+k", "/1", ",1", "u", "p", "-"][rng.integers(13)] + a[i:]
    if k == 6 and len(a) > 2:
        i = rng.integers(2, len(a))
        return a[:i] + a[i + 1:]
    if k == 7:
        return a[:2]
    if k == 8:
        return a[:2] + ["x" * 300, "/" * 50, "1," * 300, "1/" * 40, "nosuchfile", ".", "+" * 30, "1/2/3/4/5/6/7/8/9"][rng.integers(8)]
    if k == 9:
        return a + a[2:]
    return a + "1"


def corrupt_argv(rng, argv):
    a = list(argv)
    for _ in range(int(rng.choice([1, 1, 1, 2, 3]))):
        n = len(a)
        idx = [i for i in range(1, n) if not a[i].startswith("-O") and not re.match(r"-[CUWK].*\.nc", a[i])] or None
        if idx is None:
            break
        i = idx[rng.integers(len(idx))]
        k = rng.integers(12)
        if k <= 6:
            if a[i].startswith("-"):
                a[i] = corrupt_arg(rng, a[i])
            else:
                a[i] = ["nosuch", ".", "mod", "", "x" * 5000][rng.integers(5)]
        elif k == 7:
            del a[i]
        elif k == 8:
            a.insert(int(rng.integers(1, n + 1)), a[i])
        elif k == 9:
            b = a[1:]; rng.shuffle(b); a = [a[0]] + list(b)
        elif k == 10:
            a.insert(int(rng.integers(1, n + 1)), ["-e", "-N", "-s", "-S", "-K", "-C", "-E", "-L", "-T1/2/3/4/5/6", "-F1/2/3", "-M10/20", "-Zq", "--help", "-P3", "-H0.5/1", "-I1", "-Ds1", "-Dr0", "-R3", "-X0/1/1", "-Y0/1/1", "-Bfr", "-W2", "extra"][rng.integers(24)])
        else:
            a.insert(int(rng.integers(1, n + 1)), corrupt_arg(rng, a[i]) if a[i].startswith("-") else a[i])
    return a


def corrupt_text(rng, t):
    lines = t.split("\n")
    for _ in range(int(rng.choice([1, 1, 2, 3]))):
        n = len(lines)
        i = int(rng.integers(n))
        k = rng.integers(16)
        w = lines[i].split()
        if k == 0 and w:
            lines[i] = " ".join(w[:rng.integers(len(w))])
        elif k == 1:
            lines[i] = lines[i] + " " + " ".join(["1.5"] * int(rng.integers(1, 30)))
        elif k <= 5 and w:
            w[rng.integers(len(w))] = HOSTILE[rng.integers(len(HOSTILE))]; lines[i] = " ".join(w)
        elif k == 6 and w:
            w[rng.integers(len(w))] = MILD[rng.integers(len(MILD))]; lines[i] = " ".join(w)
        elif k == 7:
            lines.insert(i, lines[rng.integers(n)])
        elif k == 8:
            del lines[i]
            if not lines:
                lines = [""]
        elif k == 9:
            lines[i] = ["# comment", "", "   ", "\t", "#", "a b c", "x" * 3000, "1 " * 2500, "\x01\xff\x00z"][rng.integers(9)]
        elif k == 10:
            lines = lines[:i]
            lines = lines or [""]
        elif k == 11:
            return "\r\n".join(lines)
        elif k == 12:
            return "\n".join(lines).rstrip("\n")
        elif k == 13:
            return ""
        elif k == 14:
            j = int(rng.integers(n)); lines[i], lines[j] = lines[j], lines[i]
        else:
            lines[i] = lines[i].replace(" ", ["\t", ",", "  "][rng.integers(3)])
    return "\n".join(lines)


def resolve(ctx, argv):
    """Fills $-tokens from files produced so far; None when they are missing."""
    out = []
    for a in argv:
        if "$" in a:
            if "$GDIR" in a:
                g = sorted(x for x in glob.glob(ctx.path("G", "*")) if os.path.isdir(x) and "STAT" not in os.path.basename(x).upper())
                if not g:
                    return None
                a = a.replace("$GDIR", os.path.relpath(g[ctx.rng.integers(len(g))], ctx.dir))
            for tok, pat in (("$SAC", "**/*.sac"), ("$STATS", "G/**/K_*"), ("$KER", "K/**/*")):
                if tok in a:
                    g = sorted(x for x in glob.glob(ctx.path(pat), recursive=True) if os.path.isfile(x))
                    if not g:
                        return None
                    a = a.replace(tok, os.path.relpath(g[ctx.rng.integers(len(g))], ctx.dir))
        out.append(a)
    return out


SIG = re.compile(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*)")
FRAME = re.compile(r"#\d+ 0x\w+ in (\w+) (?:\S*/)?(src/[\w/]+\.c):(\d+)|^(?:\S*/)?(src/[\w/]+\.c):(\d+):\d+: runtime", re.M)


def judge(ctx, r, kind):
    """The oracle for one execution."""
    ctx.evals += 1
    ctx.tag(f"{kind}:{r.argv[0]}", "ok" if r.rc == 0 else "error")
    if r.timeout:
        ctx.tag("timeout")
        return False
    text = r.err + r.out
    m = SIG.search(text)
    big = re.search(r"requested allocation size|allocation-size-too-big|out-of-memory|calloc-overflow|exceeds maximum", text)
    bad = r.rc in (97, 98, 99) or r.rc < 0 or m
    if bad and big:
        ctx.tag("memory-exhausted"); ctx.inconclusive += 1
        return False
    if bad:
        f = FRAME.search(text)
        loc = f"{f[1] or ''}:{os.path.basename(f[2] or f[4])}" if f else "?"
        what = re.sub(r"0x\w+|\d+", "N", m.group(1))[:80] if m else f"signal {-r.rc}" if r.rc < 0 else f"rc {r.rc}"
        key = "%s@%s" % (re.sub(r"\W+", "-", what.split("runtime error:")[-1].replace("ERROR: AddressSanitizer:", "").strip())[:40], loc)
        ctx.violate(key, f"{' '.join(r.argv)[:700]} :: {text[max(0, m.start() - 200):][:1500] if m else text[-800:]}")
        return False
    if r.rc not in (0, 1):
        ctx.violate("odd-exit", f"rc={r.rc} {r.desc()[:700]}")
    if r.rc == 1 and not r.err.strip() and not r.out.strip():
        ctx.violate("silent-failure", r.desc()[:700])
    return r.rc == 0


def run(ctx, argv, kind, flavor="asan", timeout=15):
    if argv is None or any("\0" in a for a in argv):
        return False
    from vlib.core import run_bin
    b = os.path.join(ctx.builds[flavor], "bin", "grt")
    r = run_bin(b, argv, ctx.dir, timeout, int(ctx.rng.choice([1, 1, 2, 4])))
    ctx.cmds.append(" ".join(argv))
    if r.timeout:
        ctx.inconclusive += 1
    return judge(ctx, r, kind)


def put(ctx, files):
    for n, t in files.items():
        with open(ctx.path(n), "wb") as f:
            f.write(t.encode("latin1", "replace"))


def sessions(ctx, kind, n):
    rng = ctx.rng
    for _ in range(n):
        _, files, steps = workload.session(rng, kind)
        put(ctx, files)
        bad = 0
        for s in steps:
            a = resolve(ctx, s)
            if a is None:
                continue
            ok = run(ctx, a, "valid")
            for _ in range(int(rng.integers(1, 4))):
                run(ctx, corrupt_argv(rng, a), "args")
            if files and rng.random() < .6:
                f = list(files)[rng.integers(len(files))]
                used = [x for x in files if any(x in t for t in s[1:])]
                if used:
                    f = used[rng.integers(len(used))]
                    put(ctx, {f: corrupt_text(rng, files[f])})
                    run(ctx, a, "text:" + re.sub(r"\d", "", f))
                    put(ctx, files)
            # what follows needs the proper outputs
            if ok:
                run(ctx, a, "valid")
        subprocess.run(["find", ctx.dir, "-mindepth", "1", "-delete"])


def initialised(ctx, kind):
    """valgrind memcheck on the optimised build."""
    rng = ctx.rng
    b = os.path.join(ctx.builds["plain"], "bin", "grt")
    _, files, steps = workload.session(rng, kind)
    put(ctx, files)
    for s in steps:
        a = resolve(ctx, s)
        if a is None:
            continue
        from vlib.core import run_bin
        log = ctx.path("vg.log")
        r = run_bin("/usr/bin/valgrind", ["--quiet", "--error-exitcode=96", f"--log-file={log}", "--undef-value-errors=yes", "--leak-check=no", "--show-realloc-size-zero=no", b, *a], ctx.dir, 150, 1)
        ctx.cmds.append("valgrind " + " ".join(a))
        ctx.evals += 1
        if r.timeout:
            ctx.inconclusive += 1; ctx.tag("memcheck-timeout")
            r = run_bin(b, a, ctx.dir, 60, 1)
            continue
        ctx.tag(f"memcheck:{a[0]}", "ok" if r.rc == 0 else "error")
        if r.rc == 96:
            t = open(log).read()
            m = re.search(r"(?:at|by) 0x\w+: (\w+) \((\w+\.c):(\d+)\)|(?:at|by) 0x\w+: (grt_\w+|\w+_main)", t)
            ctx.violate("memcheck@%s" % (next((x for x in m.groups() if x), "?") if m else "?"), f"{' '.join(a)} :: {t[:1500]}")
        elif r.rc not in (0, 1):
            ctx.violate("memcheck-crash", f"rc={r.rc} {' '.join(a)} {open(log).read()[:800]}")


def cases(tier, rnd):
    out = []
    m = 1 if tier == "quick" else 12
    for kind, n in (("dynamic", 6), ("static", 7), ("kernel", 3), ("modal", 5), ("small", 5)):
        out += [(sessions, dict(kind=kind, n=3))] * n * m
        out += [(initialised, dict(kind=kind))] * (1 if tier == "quick" else 6)
    return out
