"""Out-of-tree builds of /repo's current working tree.

Every flavour is built with the repository's own Makefile (its flags, its file
list), only the output directories and the FOMPFLAGS variable are overridden.
Products are cached by the hash of the sources, so one run builds once.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
CEXT = os.path.join(REPO, "pygrt", "C_extension")

FLAVORS = {
    # name: FOMPFLAGS
    "plain": "-fopenmp",
    "asan": "-fopenmp -g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow "
            "-fno-sanitize-recover=undefined,float-cast-overflow",
}


def source_hash(flavor):
    h = hashlib.sha256()
    h.update(FLAVORS.get(flavor, flavor).encode())
    files = []
    for root in ("src", "include"):
        for d, _, fs in os.walk(os.path.join(CEXT, root)):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(CEXT, "Makefile"), os.path.join(CEXT, "version")]
    files += glob.glob(os.path.join(REPO, "pygrt", "*.py"))
    files += glob.glob(os.path.join(VERIF, "shim", "*.c"))
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, "rb") as fp:
            h.update(fp.read())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def _make(out, fomp, targets=("all",), extra=()):
    cmd = ["make", "-s", "-j8", "-C", CEXT, "CC=gcc",
           f"BUILD_DIR={out}/build", f"BIN_DIR={out}/bin", f"LIB_DIR={out}/lib",
           f"FOMPFLAGS={fomp}", *extra, *targets]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(f"build failed: {' '.join(cmd)}\n{r.stdout[-6000:]}")


def build(flavor="plain"):
    """Returns the directory with bin/grt, lib/libgrt.so and a pygrt package."""
    os.makedirs(CACHE, exist_ok=True)
    key = source_hash(flavor)
    out = os.path.join(CACHE, f"{flavor}-{key}")
    with open(os.path.join(CACHE, f"lock-{flavor}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "done")):
            return out
        # keep the cache small
        olds = sorted(glob.glob(os.path.join(CACHE, f"{flavor}-*")), key=os.path.getmtime)
        for o in olds[:-2]:
            shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        if flavor == "tsan":
            shim = os.path.join(VERIF, "shim", "gomp_shim.c")
            obj = os.path.join(out, "gomp_shim.o")
            subprocess.run(["gcc", "-g", "-O1", "-fPIC", "-fsanitize=thread", "-c", shim, "-o", obj], check=True)
            _make(out, "-fopenmp -g -O1 -fsanitize=thread", ("objs",))
            objs = []
            for d, _, fs in os.walk(os.path.join(out, "build")):
                objs += [os.path.join(d, f) for f in fs if f.endswith(".o")]
            os.makedirs(os.path.join(out, "bin"), exist_ok=True)
            r = subprocess.run(["gcc", "-fsanitize=thread", "-o", os.path.join(out, "bin", "grt"), *objs, obj,
                                "-lm", "-lfftw3", "-lfftw3f", "-lnetcdf", "-lpthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError(r.stdout[-4000:])
        elif flavor == "shim":
            shim = os.path.join(VERIF, "shim", "gomp_shim.c")
            obj = os.path.join(out, "gomp_shim.o")
            subprocess.run(["gcc", "-g", "-O2", "-fPIC", "-c", shim, "-o", obj], check=True)
            _make(out, "-fopenmp", ("objs",))
            objs = []
            for d, _, fs in os.walk(os.path.join(out, "build")):
                objs += [os.path.join(d, f) for f in fs if f.endswith(".o")]
            os.makedirs(os.path.join(out, "bin"), exist_ok=True)
            r = subprocess.run(["gcc", "-o", os.path.join(out, "bin", "grt"), *objs, obj,
                                "-lm", "-lfftw3", "-lfftw3f", "-lnetcdf", "-lpthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError(r.stdout[-4000:])
        else:
            _make(out, FLAVORS[flavor], ("all",) if flavor == "plain" else ("progs",))
        if flavor == "plain":
            pk = os.path.join(out, "py", "pygrt")
            os.makedirs(os.path.join(pk, "C_extension"))
            for f in glob.glob(os.path.join(REPO, "pygrt", "*.py")):
                shutil.copy(f, pk)
            for d in ("bin", "lib"):
                os.symlink(os.path.join(out, d), os.path.join(pk, "C_extension", d))
        shutil.rmtree(os.path.join(out, "build"), ignore_errors=True)
        open(os.path.join(out, "done"), "w").close()
    return out


if __name__ == "__main__":
    for f in sys.argv[1:] or ["plain"]:
        print(build(f))
