"""Surface-to-surface step response of a uniform half-space by slowness quadrature.

The Hankel integrals of the step response are inverted analytically (cosine
transforms of J0, J1, J2), which leaves integrals of the imaginary part of the
surface compliance over real slownesses below the S slowness plus the Rayleigh
pole. Independent of the partial fractions and elliptic integrals of lamb1.
Units: S speed, distance and shear modulus 1; x3 down.
"""
import numpy as np

TH, WT = np.polynomial.legendre.leggauss(600)
TH = TH * np.pi / 2; WT = WT * np.pi / 2


def kappa(nu):
    return np.sqrt(0.5 * (1 - 2 * nu) / (1 - nu))


def rayleigh(nu):
    """Rayleigh slowness (root of R above 1) and dR/dp there."""
    k2 = kappa(nu) ** 2
    R = lambda p: (2 * p * p - 1) ** 2 - 4 * p * p * np.sqrt((p * p - k2) * (p * p - 1))
    lo, hi = 1.0, 3.0
    for _ in range(200):
        m = (lo + hi) / 2
        if R(m) > 0:
            lo = m
        else:
            hi = m
    p = (lo + hi) / 2
    a, b = np.sqrt(p * p - k2), np.sqrt(p * p - 1)
    return p, 8 * p * (2 * p * p - 1) - 8 * p * a * b - 4 * p ** 3 * (b / a + a / b)


def step(nu, t):
    """dict of rr, pp (transverse), zz, zr (vertical due to radial) at time t; each is pi^2 mu r times the displacement."""
    k = kappa(nu); k2 = k * k
    pR, dR = rayleigh(nu)
    out = dict(V0=0.0, zz=0.0, zr=0.0, V2=0.0, S0=0.0, S2=0.0)

    def kern(p):
        na = np.sqrt((p * p - k2).astype(complex)); nb = np.sqrt((p * p - 1).astype(complex))
        na = np.where(p < k, 1j * np.abs(na), na); nb = np.where(p < 1, 1j * np.abs(nb), nb)
        R = (2 * p * p - 1) ** 2 - 4 * p * p * na * nb
        return (-na / R).imag, (-nb / R).imag, (p * (2 * p * p - 1 - 2 * na * nb) / R).imag, (1 / nb).imag

    def add(p, w):
        a, v, c, s = kern(p)
        q = np.sqrt(np.maximum(p * p - t * t, 1e-300)); on = p > t
        j0 = np.where(on, 1 / q, 0.0); j2 = np.where(on, (1 - 2 * t * t / p ** 2) / q, 0.0)
        q2 = np.sqrt(np.maximum(t * t - p * p, 1e-300))
        j1 = np.where(on, 1 / p, -p / (q2 * (t + q2)))
        out["zz"] += np.sum(w * a * p * j0); out["V0"] += np.sum(w * v * p * j0); out["V2"] += np.sum(w * v * p * j2)
        out["S0"] += np.sum(w * s * p * j0); out["S2"] += np.sum(w * s * p * j2); out["zr"] += np.sum(w * c * p * j1)

    cut = sorted({0.0, k, 1.0} | ({t} if 0 < t < 1 else set()))
    for lo, hi in zip(cut[:-1], cut[1:]):
        h = (hi - lo) / 2
        # sin substitution twice over at both ends keeps square-root end points smooth
        add(np.clip(lo + h * (1 + np.sin(TH)), lo * (1 + 4e-15) + 1e-300, hi * (1 - 4e-15)), WT * h * np.cos(TH))
    na, nb = np.sqrt(pR * pR - k2), np.sqrt(pR * pR - 1)
    P = -np.pi / dR         # half residue; the side the pole is passed on follows from the radiation condition
    if t < pR:
        q = np.sqrt(pR * pR - t * t)
        out["zz"] += P * -na * pR / q; out["V0"] += P * -nb * pR / q; out["V2"] += P * -nb * pR * (1 - 2 * t * t / pR ** 2) / q
        out["zr"] += P * pR * (2 * pR * pR - 1 - 2 * na * nb)
    else:
        q = np.sqrt(t * t - pR * pR)
        out["zr"] += P * pR * (2 * pR * pR - 1 - 2 * na * nb) * pR * (-pR / (q * (t + q)))
    # static parts (Boussinesq, Cerruti) times pi^2
    st = dict(zz=np.pi / 2 * (1 - nu), rr=np.pi / 2, pp=np.pi / 2 * (1 - nu), zr=np.pi / 4 * (1 - 2 * nu))
    return dict(zz=st["zz"] + out["zz"], rr=st["rr"] + ((out["V0"] - out["V2"]) / 2 + (out["S0"] + out["S2"]) / 2),
                pp=st["pp"] + ((out["V0"] + out["V2"]) / 2 + (out["S0"] - out["S2"]) / 2), zr=st["zr"] - out["zr"])
