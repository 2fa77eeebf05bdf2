"""Check driver: cases, monitors, known findings, evidence, replays."""
import hashlib, json, multiprocessing as mp, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback, random
import numpy as np
from . import build as B

VERIF = B.VERIF
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")


class Halt(Exception):
    """Stop this case (a violation was already recorded)."""


class Result:
    def __init__(self, rc, out, err, argv, cwd, timeout):
        self.rc, self.out, self.err, self.argv, self.cwd, self.timeout = rc, out, err, argv, cwd, timeout

    @property
    def ok(self):
        return self.rc == 0

    def desc(self):
        return f"grt {' '.join(self.argv)} -> rc={self.rc} stderr={self.err[-400:]!r}"


def run_bin(binary, argv, cwd, timeout=120, threads=1, env=None, stdin=None):
    e = {"PATH": "/usr/bin:/bin", "HOME": cwd, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
         "OMP_NUM_THREADS": str(threads), "OMP_WAIT_POLICY": "passive", "TMPDIR": cwd,
         "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4000",
         "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98:halt_on_error=1",
         "TSAN_OPTIONS": "exitcode=97:halt_on_error=0:report_thread_leaks=0"}
    if env:
        e.update(env)
    p = subprocess.Popen([binary, *[str(a) for a in argv]], cwd=cwd, env=e, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, stdin=stdin or subprocess.DEVNULL, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        to = True
    return Result(p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace"),
                  [str(a) for a in argv], cwd, to)


class Ctx:
    """Handed to every case; records observations."""

    def __init__(self, prop, tier, seed, name, idx, builds, work):
        self.prop, self.tier, self.seed, self.name, self.idx = prop, tier, seed, name, idx
        self.builds = builds
        h = int(hashlib.sha256(f"{prop}/{seed}/{name}/{idx}".encode()).hexdigest()[:16], 16)
        self.rng = np.random.default_rng(h)
        self.dir = os.path.join(work, f"{name}-{idx}")
        os.makedirs(self.dir, exist_ok=True)
        self.evals = 0
        self.tags = {}
        self.viol = []
        self.cmds = []
        self.stats = {}
        self.inconclusive = 0
        self.worst = {}

    # ---- running
    def grt(self, *argv, threads=1, timeout=120, flavor="plain", cwd=None, env=None, expect=0, key=None):
        """Runs grt; expect=0 demands success, 1 demands a clean error, None leaves it open."""
        argv = [str(a) for a in argv]
        binary = os.path.join(self.builds[flavor], "bin", "grt")
        cwd = cwd or self.dir
        r = run_bin(binary, argv, cwd, timeout, threads, env)
        if r.timeout:
            r = run_bin(binary, argv, cwd, timeout * 3, threads, env)
        self.cmds.append(" ".join(argv))
        if r.timeout:
            self.inconclusive += 1
            if expect is None:
                return r
            self.violate(key or f"hang:{argv[0]}", f"no result within {timeout*3}s: {r.desc()}")
            raise Halt()
        if expect == 0 and r.rc != 0:
            self.violate(key or f"refused:{argv[0]}", "valid request failed: " + r.desc())
            raise Halt()
        return r

    def py(self, code, data=None, timeout=300, threads=1, expect=0, flavor="plain"):
        """Runs Python code against the built pygrt package; `data` (JSON) is bound to DATA, the code fills OUT."""
        import json as _j
        self._npy = getattr(self, "_npy", 0) + 1
        sp, dp, op = (self.path(f"py{self._npy}.{x}") for x in ("py", "json", "out"))
        with open(dp, "w") as f:
            _j.dump(data, f)
        with open(sp, "w") as f:
            f.write("import json,sys,warnings\nDATA=json.load(open(sys.argv[1]))\nOUT={}\n" + code +
                    "\njson.dump(OUT,open(sys.argv[2],'w'))\n")
        root = self.builds[flavor]
        e = {"PATH": os.path.join(root, "py", "pygrt", "C_extension", "bin") + ":/usr/bin:/bin", "HOME": self.dir, "LANG": "C.UTF-8",
             "PYTHONPATH": os.path.join(root, "py"), "OMP_NUM_THREADS": str(threads), "OPENBLAS_NUM_THREADS": "1", "TMPDIR": self.dir,
             "OMP_WAIT_POLICY": "passive", "MPLBACKEND": "Agg", "MPLCONFIGDIR": self.dir, "PYTHONDONTWRITEBYTECODE": "1"}
        p = subprocess.Popen([sys.executable, "-W", "ignore", sp, dp, op], cwd=self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
        self.cmds.append(f"# python {sp} {dp} {op}")
        out, err = out.decode("utf8", "replace"), err.decode("utf8", "replace")
        if p.returncode != 0:
            if expect == 0:
                self.violate("python-failed", f"rc={p.returncode} {err[-1500:]} {out[-300:]}")
                raise Halt()
            return None
        return _j.load(open(op))

    # ---- recording
    def tag(self, *tags):
        for t in tags:
            self.tags[str(t)] = self.tags.get(str(t), 0) + 1

    def check(self, key, ok, detail=""):
        self.evals += 1
        if not ok:
            self.violate(key, detail)
        return ok

    def close(self, key, a, b, rtol, atol=0.0, scale=None, detail="", ref="max"):
        """|a-b| <= rtol*scale+atol, with scale=max|b| unless given."""
        a = np.asarray(a); b = np.asarray(b)
        self.evals += int(max(1, a.size))
        if a.shape != b.shape:
            self.violate(key, f"shape {a.shape} != {b.shape} {detail}")
            return False
        if a.size == 0:
            return True
        if not np.all(np.isfinite(a)):
            self.violate(key, f"non-finite values {detail}")
            return False
        if scale is None:
            scale = np.max(np.abs(b))
        d = np.abs(a - b)
        lim = rtol * np.asarray(scale) + atol
        with np.errstate(divide="ignore", invalid="ignore"):
            rel = np.where(lim > 0, d / np.where(lim > 0, lim, 1), np.where(d > 0, np.inf, 0.0))
        w = float(np.max(rel))
        self.worst[key] = max(self.worst.get(key, 0.0), w)
        if not (w <= 1.0):
            i = int(np.argmax(rel))
            self.violate(key, f"{detail} max|diff|/tol={w:.3g} at {np.unravel_index(i, a.shape)}: got {a.flat[i]!r} want {b.flat[i]!r} scale={np.max(np.abs(scale)):.4g} rtol={rtol} atol={atol}")
            return False
        return True

    def violate(self, key, detail):
        self.viol.append((str(key), str(detail)[:3000]))

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def write(self, name, text):
        with open(self.path(name), "w") as f:
            f.write(text)
        return name


def _load_known(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


_G = {}


def _run_one(job):
    fn, prop, tier, seed, name, idx, params, keep = job
    ctx = Ctx(prop, tier, seed, name, idx, _G["builds"], _G["work"])
    t0 = time.time()
    try:
        fn(ctx, **params)
    except Halt:
        pass
    except Exception as e:
        ctx.violate(f"unreadable:{name}", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}\nlast commands: {ctx.cmds[-3:]}")
    kept = None
    if ctx.viol:
        kept = os.path.join(_G["replays"], f"{name}-{idx}")
        shutil.rmtree(kept, ignore_errors=True)
        try:
            sz = sum(os.path.getsize(os.path.join(d, f)) for d, _, fs in os.walk(ctx.dir) for f in fs)
            if sz < 30e6:
                shutil.copytree(ctx.dir, kept, symlinks=True)
            else:
                os.makedirs(kept)
            with open(os.path.join(kept, "REPLAY.txt"), "w") as f:
                f.write(f"# property {prop}, case {name}[{idx}], VERIF_SEED={seed} VERIF_TIER={tier}\n"
                        f"# replay: cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} ./check {prop} --only {name}:{idx}\n")
                f.write(f"# parameters: {params}\n# commands run (in order, cwd = this directory):\n")
                for c in ctx.cmds:
                    f.write(f"grt {c}\n")
                f.write("# violations:\n")
                for k, d in ctx.viol:
                    f.write(f"[{k}] {d}\n")
        except OSError as e:
            print("replay not saved:", e)
    shutil.rmtree(ctx.dir, ignore_errors=True)
    return dict(name=name, idx=idx, params={k: str(v)[:120] for k, v in params.items()}, evals=ctx.evals, tags=ctx.tags,
                viol=ctx.viol, cmds=ctx.cmds, kept=kept, wall=time.time() - t0, stats=ctx.stats,
                inconclusive=ctx.inconclusive, worst=ctx.worst)


def main(mod, argv):
    prop = mod.PROP
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in argv:
        tier = "thorough"
    only = None
    if "--only" in argv:
        only = argv[argv.index("--only") + 1]
    verbose = "-v" in argv
    t0 = time.time()
    flavors = getattr(mod, "FLAVORS", ["plain"])
    try:
        _G["builds"] = {f: B.build(f) for f in flavors}
    except B.BuildError as e:
        print(str(e))
        print(f"ERROR: could not build for property {prop}")
        return 2
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=os.environ.get("VERIF_TMP", "/tmp"))
    _G["work"] = work
    _G["replays"] = os.path.join(VERIF, "replays", prop)
    if only is None:
        shutil.rmtree(_G["replays"], ignore_errors=True)
    os.makedirs(_G["replays"], exist_ok=True)
    try:
        jobs = []
        counts = {}
        for fn, params in mod.cases(tier, random.Random(seed)):
            name = fn.__name__
            i = counts.get(name, 0)
            counts[name] = i + 1
            if only:
                on, _, oi = only.partition(":")
                if on != name or (oi and int(oi) != i):
                    continue
            jobs.append((fn, prop, tier, seed, name, i, params, False))
        nproc = getattr(mod, "NPROC", 8)
        res = []
        if nproc == 1 or len(jobs) == 1:
            res = [_run_one(j) for j in jobs]
        else:
            with mp.get_context("fork").Pool(nproc, maxtasksperchild=50) as pool:
                for r in pool.imap_unordered(_run_one, jobs, chunksize=1):
                    res.append(r)
                    if verbose:
                        print(f"  {r['name']}[{r['idx']}] {r['wall']:.1f}s evals={r['evals']} viol={len(r['viol'])} {r['params']}", flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    res.sort(key=lambda r: (r["name"], r["idx"]))
    known = _load_known(prop)
    kf, vio = {}, []
    for r in res:
        for k, d in r["viol"]:
            hit = next((e for e in known if e[0] == k or (e[0].endswith("*") and k.startswith(e[0][:-1]))), None)
            if hit:
                kf.setdefault(hit, []).append((r, k, d))
            else:
                vio.append((r, k, d))
    for (k, txt), occ in kf.items():
        print(f"KNOWN-FINDING: property={prop} {k}: {txt}")
    tags = {}
    worst = {}
    stats = {}
    for r in res:
        for t, n in r["tags"].items():
            tags[t] = tags.get(t, 0) + n
        for t, n in r["worst"].items():
            worst[t] = max(worst.get(t, 0), n)
        for t, n in r["stats"].items():
            stats[t] = stats.get(t, 0) + n
    distinct = len({json.dumps([r["name"], r["params"], r["cmds"]], sort_keys=True) for r in res if r["evals"] > 0 and r["tags"]})
    samples = []
    byname = {}
    for r in res:
        byname.setdefault(r["name"], []).append(r)
    for n, rs in byname.items():
        r = rs[len(rs) // 2]
        samples.append(dict(case=f"{n}[{r['idx']}]", params=r["params"], commands=r["cmds"][:6], comparisons=r["evals"],
                            tags=sorted(r["tags"])[:12]))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=len(res), distinct_nontrivial=distinct,
                            rule=getattr(mod, "RULE", "") + " A case counts as non-trivial when it ran the real code, at least one monitor compared a value, and it recorded at least one feature tag; distinct = different parameters or command lines.",
                            samples=samples, comparisons=int(sum(r["evals"] for r in res)),
                            executions=int(sum(len(r["cmds"]) for r in res)),
                            cases_per_monitor={n: len(rs) for n, rs in byname.items()},
                            features_seen=dict(sorted(tags.items())),
                            closest_to_tolerance={k: round(v, 6) for k, v in sorted(worst.items(), key=lambda x: -x[1])[:40]},
                            inconclusive=int(sum(r["inconclusive"] for r in res)), **{f"count_{k}": v for k, v in stats.items()}),
              wall_s=round(time.time() - t0, 2), violations=len(vio), assumptions=getattr(mod, "ASSUMPTIONS", []))
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"[{prop}] tier={tier} seed={seed} cases={len(res)} comparisons={ev['coverage']['comparisons']} "
          f"executions={ev['coverage']['executions']} build={t_build:.1f}s wall={ev['wall_s']}s violations={len(vio)}")
    if verbose or "--worst" in argv:
        for k, v in sorted(worst.items(), key=lambda x: -x[1])[:60]:
            print(f"   worst {k}: {v:.4g}")
    if vio:
        for r, k, d in vio[:int(os.environ.get("VERIF_SHOW", 30))]:
            print(f"  - case {r['name']}[{r['idx']}] [{k}] {d[:1200]}")
        seen = set()
        for r, k, d in vio:
            if r["kept"] in seen:
                continue
            seen.add(r["kept"])
            if len(seen) > 10:
                break
            print(f"VIOLATION property={prop} replay={os.path.join(r['kept'], 'REPLAY.txt')}")
        return 1
    return 0
