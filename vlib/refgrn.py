"""Reference Green's functions: wavenumber sums over refkernel solutions, inverse transform."""
import numpy as np
from scipy.special import jv, jvp
from . import refkernel as R

ORD = dict(EX=0, VF=0, HF=1, DD=0, DS=1, SS=2)
CHN = {s: ("ZR" if ORD[s] == 0 else "ZRT") for s in ORD}


def bess(m, x):
    """J_m, J_m', J_m'', m J_m/x, (m J_m/x)' at x (x=0 allowed)."""
    J = jv(m, x); D = jvp(m, x); D2 = jvp(m, x, 2)
    xs = np.where(x == 0, 1.0, x)
    q = np.where(x == 0, {0: 0.0, 1: 0.5, 2: 0.0}[m], m * J / xs)
    qd = np.where(x == 0, {0: 0.0, 1: 0.0, 2: 0.25}[m], (m * D - q) / xs)
    return J, D, D2, q, qd


def combine(ker, ks, r, sources=None, deriv=True):
    """integrand (without dk) -> dict name -> array over k; names like EXZ, zEXZ, rEXZ (program's signs)."""
    out = {}
    for s in sources or ORD:
        m = ORD[s]
        J, D, D2, qq, qd = bess(m, ks * r)
        q, w, v = ker[s, "q"], ker[s, "w"], ker[s, "v"]
        out[s + "Z"] = -w * J * ks
        out[s + "R"] = (q * D + v * qq) * ks
        if m:
            out[s + "T"] = (q * qq + v * D) * ks
        if deriv:
            qz, wz, vz = ker[s, "qz"], ker[s, "wz"], ker[s, "vz"]
            # depth derivative taken upward
            out["z" + s + "Z"] = wz * J * ks
            out["z" + s + "R"] = -(qz * D + vz * qq) * ks
            out["r" + s + "Z"] = -w * D * ks ** 2
            out["r" + s + "R"] = (q * D2 + v * qd) * ks ** 2
            if m:
                out["z" + s + "T"] = -(qz * qq + vz * D) * ks
                out["r" + s + "T"] = (q * qd + v * D2) * ks ** 2
    return out


def spectra(model, ds, dr, rs, freqs, wI, dk, kmax, omgref, deriv=True, fsel=None):
    """kmax: function(w)->kmax. DWM sum as documented: k = dk, 2dk, ... (floor(kmax/dk)+1 terms)."""
    S = {}
    vm = max(float(np.max(model.vp)), 0.1)
    for i, f in enumerate(freqs):
        if fsel is not None and not fsel(i):
            continue
        w = 2 * np.pi * f
        om = w - 1j * wI
        n = int(np.floor(kmax(w) / dk)) + 1
        ks = dk * np.arange(1, n + 1)
        ker = R.solve(model, ds, dr, om, ks, omgref=omgref, rcv_below=False)
        for ir, r in enumerate(rs):
            c = combine(ker, ks, r, deriv=deriv)
            for nme, val in c.items():
                S.setdefault((ir, nme), np.zeros(len(freqs), complex))[i] = np.sum(val) * dk
                # rounding level of a potential-based recursion in double precision: eps (k v/omega)^4
                nz = np.minimum(1.0, 3e-13 * (1 + ks * vm / abs(om)) ** 4)
                S.setdefault(("noise", ir, nme), np.zeros(len(freqs)))[i] = np.sum(np.abs(val) * nz) * dk
    return S


def to_time(U, nt, dt, wI, b=0.0, ups=1, comp=True):
    """Inverse transform of the one-sided spectrum U (df = 1/(nt*dt)), shifted to start at b."""
    df = 1.0 / (nt * dt)
    n = nt * ups
    X = np.zeros(n // 2 + 1, complex)
    X[:len(U)] = U * np.exp(2j * np.pi * df * b * np.arange(len(U)))
    y = np.fft.irfft(X, n) * n * df
    t = b + np.arange(n) * dt / ups
    return y * np.exp(wI * t) if comp else y
