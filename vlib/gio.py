"""Independent readers/writers for the files PyGRT exchanges."""
import struct, os, glob
import numpy as np
from scipy.io import netcdf_file

FN = ("delta depmin depmax scale odelta b e o a internal t0 t1 t2 t3 t4 t5 t6 t7 t8 t9 f "
      "resp0 resp1 resp2 resp3 resp4 resp5 resp6 resp7 resp8 resp9 stla stlo stel stdp evla evlo evel evdp mag "
      "user0 user1 user2 user3 user4 user5 user6 user7 user8 user9 dist az baz gcarc").split()
FI = {n: i for i, n in enumerate(FN)}


class Sac:
    def __init__(self, path):
        raw = open(path, "rb").read()
        if len(raw) < 632:
            raise ValueError(f"{path}: short SAC file ({len(raw)} bytes)")
        self.f = np.frombuffer(raw, "<f4", 70)
        self.i = np.frombuffer(raw, "<i4", 40, 280)
        self.k = raw[440:632]
        self.npts = int(self.i[9])
        self.data = np.frombuffer(raw, "<f4", -1, 632)
        if len(self.data) != self.npts:
            raise ValueError(f"{path}: npts {self.npts} but {len(self.data)} samples")
        self.kstnm = self.k[0:8].decode("latin1").strip()
        self.kcmpnm = self.k[160:168].split(b"\0")[0].decode("latin1").strip()

    def __getattr__(self, n):
        if n in FI:
            return float(self.f[FI[n]])
        raise AttributeError(n)


def write_sac(path, data, delta, b=0.0, **hd):
    f = np.full(70, -12345.0, "<f4"); i = np.full(40, -12345, "<i4")
    k = b"".join(b"-12345  " for _ in range(24))
    f[FI["delta"]] = delta; f[FI["b"]] = b; f[FI["e"]] = b + (len(data) - 1) * delta
    for n, v in hd.items():
        f[FI[n]] = v
    i[9] = len(data); i[6] = 6; i[15] = 1; i[35] = 1; i[36] = 1; i[37] = 1; i[38] = 1; i[39] = 0
    with open(path, "wb") as fp:
        fp.write(f.tobytes() + i.tobytes() + k[:192] + np.asarray(data, "<f4").tobytes())


def read_dir(d):
    return {os.path.basename(p)[:-4]: Sac(p) for p in glob.glob(os.path.join(glob.escape(d), "*.sac"))}


def read_nc(path):
    """(vars, dims_of_var, attrs)"""
    with netcdf_file(path, "r", mmap=False) as f:
        v = {k: np.array(x[...]) if x.shape else np.array(x.data).reshape(()) for k, x in f.variables.items()}
        dims = {k: tuple(x.dimensions) for k, x in f.variables.items()}
        at = {}
        for k, x in f._attributes.items():
            at[k] = x.decode("utf8", "replace") if isinstance(x, bytes) else x
    for k in v:
        if v[k].dtype.byteorder == ">":
            v[k] = v[k].astype(v[k].dtype.newbyteorder("="))
    return v, dims, at


SRC = ["EX", "VF", "HF", "DD", "DS", "SS"]
ORD = [0, 0, 1, 0, 1, 2]
QWV = "qwv"


def stats_dtype(first="k"):
    dt = [(first, "<f8")]
    for s, m in zip(SRC, ORD):
        for c in QWV:
            if m == 0 and c == "v":
                continue
            dt.append((f"{s}_{c}", "<c16"))
    return np.dtype(dt)


def read_stats(path, first="k"):
    return np.fromfile(path, stats_dtype(first))


def replace_data(path, data):
    """Keep the header, replace the samples."""
    raw = open(path, "rb").read()[:632]
    with open(path, "wb") as fp:
        fp.write(raw + np.asarray(data, "<f4").tobytes())


def subdirs(d):
    return sorted(x for x in os.listdir(d) if os.path.isdir(os.path.join(d, x)))
