"""Analytic static solutions of a homogeneous half-space with a free surface (Mindlin 1936).

Independent of Okada's formulation: the point-force Green's tensor is Mindlin's,
force couples come from complex-step derivatives of it with respect to the
source position, gradients from Richardson central differences.
Coordinates: x north, y east, z down; source at (0,0,c).
"""
import numpy as np


def mindlin(x, y, z, sx, sy, c, G, nu):
    """3x3 tensor u[i][j]: displacement i at (x,y,z) for a unit force along j at (sx,sy,c). Complex arguments allowed."""
    X = x - sx; Y = y - sy
    r2 = X * X + Y * Y
    R1 = np.sqrt(r2 + (z - c) ** 2); R2 = np.sqrt(r2 + (z + c) ** 2)
    k = 1 / (16 * np.pi * G * (1 - nu))
    a = 3 - 4 * nu; b = 4 * (1 - nu) * (1 - 2 * nu)
    S = R2 + z + c
    # vertical force
    fz = (z - c) / R1 ** 3 + a * (z - c) / R2 ** 3 - b / (R2 * S) + 6 * c * z * (z + c) / R2 ** 5
    uzz = a / R1 + (8 * (1 - nu) ** 2 - a) / R2 + (z - c) ** 2 / R1 ** 3 + (a * (z + c) ** 2 - 2 * c * z) / R2 ** 3 + 6 * c * z * (z + c) ** 2 / R2 ** 5
    # horizontal force
    d = a / R1 + 1 / R2 + 2 * c * z / R2 ** 3 + b / S
    e = 1 / R1 ** 3 + a / R2 ** 3 - 6 * c * z / R2 ** 5 - b / (R2 * S * S)
    g = (z - c) / R1 ** 3 + a * (z - c) / R2 ** 3 - 6 * c * z * (z + c) / R2 ** 5 + b / (R2 * S)
    return [[k * (d + X * X * e), k * X * Y * e, k * X * fz],
            [k * X * Y * e, k * (d + Y * Y * e), k * Y * fz],
            [k * X * g, k * Y * g, k * uzz]]


H = 1e-30


def couple(x, y, z, sx, sy, c, G, nu):
    """D[i][j][l] = d u_ij / d(source coordinate l)."""
    out = np.zeros((3, 3, 3))
    for l in range(3):
        s = [complex(sx), complex(sy), complex(c)]
        s[l] += 1j * H
        t = mindlin(complex(x), complex(y), complex(z), *s, G, nu)
        for i in range(3):
            for j in range(3):
                out[i, j, l] = t[i][j].imag / H
    return out


def disp(x, y, z, c, G, nu, force=None, M=None, sx=0.0, sy=0.0):
    u = np.zeros(3)
    if force is not None:
        u += np.array(mindlin(x, y, z, sx, sy, c, G, nu), float) @ np.asarray(force, float)
    if M is not None:
        u += np.einsum("ijl,jl->i", couple(x, y, z, sx, sy, c, G, nu), np.asarray(M, float))
    return u


def grad(f, x, y, z, h):
    """g[i][l] = d f_i / d x_l by 4-point Richardson differences (z may be one-sided by analyticity)."""
    g = np.zeros((3, 3))
    for l in range(3):
        def F(t):
            p = [x, y, z]; p[l] += t
            return f(*p)
        d1 = (F(h) - F(-h)) / (2 * h); d2 = (F(h / 2) - F(-h / 2)) / h; d3 = (F(h / 4) - F(-h / 4)) / (h / 2)
        r1 = (4 * d2 - d1) / 3; r2 = (4 * d3 - d2) / 3
        g[:, l] = (16 * r2 - r1) / 15
    return g


MT = dict(EX=np.eye(3), DD=np.diag([-1.0, -1.0, 2.0]),
          DSr=np.array([[0, 0, -1], [0, 0, 0], [-1, 0, 0.0]]), DSt=np.array([[0, 0, 0], [0, 0, -1], [0, -1, 0.0]]),
          SSr=np.diag([1.0, -1.0, 0]), SSt=np.array([[0, 1, 0], [1, 0, 0], [0, 0, 0.0]]))


def greens(r, z, c, vp, vs, rho, deriv=True):
    """PyGRT's static Green's functions (names EXZ ... SST, z*, r*): receiver north of the source."""
    G = rho * vs * vs; lam = rho * vp * vp - 2 * G
    nu = lam / (2 * (lam + G))
    out = {}
    for name in ("EX", "VF", "HF", "DD", "DS", "SS"):
        for part in "rt":
            if part == "t" and name in ("EX", "VF", "DD"):
                continue
            if name == "VF":
                kw = dict(force=[0, 0, 1])
            elif name == "HF":
                kw = dict(force=[1, 0, 0] if part == "r" else [0, 1, 0])
            else:
                kw = dict(M=MT[name] if name in MT else MT[name + part])

            def f(x, y, zz):
                return disp(x, y, zz, c, G, nu, **kw)
            u = f(r, 0.0, z)
            if part == "r":
                out[name + "Z"] = -u[2]; out[name + "R"] = u[0]
            else:
                out[name + "T"] = u[1]
            if deriv:
                h = 0.02 * np.hypot(r, z - c)
                g = grad(f, r, 0.0, z, h)
                if part == "r":
                    out["z" + name + "Z"] = g[2, 2]; out["z" + name + "R"] = -g[0, 2]
                    out["r" + name + "Z"] = -g[2, 0]; out["r" + name + "R"] = g[0, 0]
                else:
                    out["z" + name + "T"] = -g[1, 2]; out["r" + name + "T"] = g[1, 0]
    return out
