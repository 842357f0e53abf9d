"""Boring reference models, written from batoid's documentation, in plain numpy."""
import math

import numpy as np


# ------------------------------------------------------------------ annular Zernike (Noll / Mahajan)
def noll(j):
    n, j1 = 0, j - 1
    while j1 > n:
        n += 1
        j1 -= n
    m = (-1)**j * ((n % 2) + 2 * ((j1 + ((n + 1) % 2)) // 2))
    return n, m


_RC = {}


def radial(n, m, eps):
    """coefficients (ascending powers of rho) of the annular radial polynomial, by Gram-Schmidt"""
    key = (n, m, eps)
    if key in _RC:
        return _RC[key]
    from fractions import Fraction as F
    e = F(eps).limit_denominator(10**6) if eps else F(0)
    assert abs(float(e) - eps) < 1e-15

    def inner(p, q):        # int_e^1 p q rho drho * 2/(1-e^2)
        s = F(0)
        for a, ca in p.items():
            for b, cb in q.items():
                k = a + b + 2
                s += ca * cb * (1 - e**k) / k
        return s * 2 / (1 - e * e)
    basis = []
    for k in range(m, n + 1, 2):
        p = {k: F(1)}
        for b in basis:
            c = inner(p, b) / inner(b, b)
            for kk, v in b.items():
                p[kk] = p.get(kk, F(0)) - c * v
        basis.append(p)
    p = basis[-1]
    nrm = math.sqrt(float(inner(p, p)))
    _RC[key] = {k: float(v) / nrm for k, v in p.items()}
    return _RC[key]


def zernike(j, x, y, R_outer=1.0, R_inner=0.0):
    """value of Noll Z_j, unit rms over the annulus"""
    u, v = np.asarray(x) / R_outer, np.asarray(y) / R_outer
    n, m = noll(j)
    rc = radial(n, abs(m), R_inner / R_outer)
    r2 = u * u + v * v
    mm = abs(m)
    cs = (u + 1j * v)**mm if mm else np.ones_like(r2) + 0j
    ang = (cs.real if m >= 0 else cs.imag) * (math.sqrt(2) if mm else 1.0)
    rad = 0.0
    for k, c in rc.items():
        rad = rad + c * r2**((k - mm) // 2)
    return rad * ang


# ------------------------------------------------------------------ surfaces
def conic_sag(r2, R, k):
    if R == 0:
        return np.zeros_like(r2)
    with np.errstate(all='ignore'):
        return r2 / (R * (1 + np.sqrt(1 - (1 + k) * r2 / R**2)))


def conic_dsdr2(r2, R, k):
    """d sag / d(r^2)"""
    if R == 0:
        return np.zeros_like(r2)
    with np.errstate(all='ignore'):
        return 1 / (2 * R * np.sqrt(1 - (1 + k) * r2 / R**2))


class Model:
    """sag(x,y) and grad(x,y) of a batoid Surface computed from its public attributes."""
    def __init__(self, B, s):
        self.B, self.s = B, s
        self.kind = type(s).__name__
        if self.kind == "Sum":
            self.parts = [Model(B, q) for q in s.surfaces]

    def sag(self, x, y):
        x, y = np.broadcast_arrays(np.asarray(x, float), np.asarray(y, float))
        s, k = self.s, self.kind
        r2 = x * x + y * y
        if k == "Plane":
            return np.zeros_like(x)
        if k == "Tilted":
            return x * s.tanx + y * s.tany
        if k == "Paraboloid":
            return r2 / (2 * s.R) if s.R else np.zeros_like(x)
        if k == "Sphere":
            return conic_sag(r2, s.R, 0.0)
        if k == "Quadric":
            return conic_sag(r2, s.R, s.conic)
        if k == "Asphere":
            z = conic_sag(r2, s.R, s.conic)
            for i, a in enumerate(s.coefs):
                z = z + a * r2**(s.imin + i)
            return z
        if k == "Zernike":
            z = np.zeros_like(x)
            for j in range(1, len(s.coef)):
                if s.coef[j]:
                    z = z + s.coef[j] * zernike(j, x - s.x_origin, y - s.y_origin, s.R_outer, s.R_inner)
            return z
        if k == "Sum":
            return sum(p.sag(x, y) for p in self.parts)
        if k == "Bicubic":
            return self._bicubic(x, y)[0]
        raise NotImplementedError(k)

    def grad(self, x, y):
        x, y = np.broadcast_arrays(np.asarray(x, float), np.asarray(y, float))
        s, k = self.s, self.kind
        r2 = x * x + y * y
        if k == "Plane":
            return np.zeros_like(x), np.zeros_like(x)
        if k == "Tilted":
            return np.full_like(x, s.tanx), np.full_like(x, s.tany)
        if k in ("Paraboloid", "Sphere", "Quadric", "Asphere"):
            kk = {"Paraboloid": -1.0, "Sphere": 0.0}.get(k, getattr(s, "conic", 0.0))
            d = conic_dsdr2(r2, s.R, kk)
            if k == "Asphere":
                for i, a in enumerate(s.coefs):
                    n = s.imin + i
                    d = d + a * n * r2**(n - 1)
            return 2 * x * d, 2 * y * d
        if k == "Zernike":
            h = 1e-3 * s.R_outer       # exact for polynomials up to 8th order (8th-order stencil)
            c = [(1, 4 / 5), (2, -1 / 5), (3, 4 / 105), (4, -1 / 280)]
            gx = sum(w * (self.sag(x + i * h, y) - self.sag(x - i * h, y)) for i, w in c) / h
            gy = sum(w * (self.sag(x, y + i * h) - self.sag(x, y - i * h)) for i, w in c) / h
            return gx, gy
        if k == "Sum":
            g = [p.grad(x, y) for p in self.parts]
            return sum(a for a, _ in g), sum(b for _, b in g)
        if k == "Bicubic":
            return self._bicubic(x, y)[1:]
        raise NotImplementedError(k)

    def _bicubic(self, x, y):
        """Hermite bicubic interpolation of the tabulated values and derivatives"""
        s = self.s
        xs, ys = s.xs, s.ys
        dx, dy = (xs[-1] - xs[0]) / (len(xs) - 1), (ys[-1] - ys[0]) / (len(ys) - 1)
        fx, fy = (x - xs[0]) / dx, (y - ys[0]) / dy
        ok = np.isfinite(fx) & np.isfinite(fy) & (fx >= 0) & (fy >= 0) & (fx < len(xs) - 1) & (fy < len(ys) - 1)
        ix = np.clip(np.floor(np.where(ok, fx, 0)).astype(int), 0, len(xs) - 2)
        iy = np.clip(np.floor(np.where(ok, fy, 0)).astype(int), 0, len(ys) - 2)
        u, v = fx - ix, fy - iy

        def H(t):
            return (2 * t**3 - 3 * t**2 + 1, -2 * t**3 + 3 * t**2, t**3 - 2 * t**2 + t, t**3 - t**2)

        def D(t):
            return (6 * t**2 - 6 * t, -6 * t**2 + 6 * t, 3 * t**2 - 4 * t + 1, 3 * t**2 - 2 * t)
        out = []
        for A, Bv, sc in ((H(u), H(v), 1.0), (D(u), H(v), 1 / dx), (H(u), D(v), 1 / dy)):
            z = 0.0
            for a in (0, 1):
                for b in (0, 1):
                    i, j = iy + b, ix + a
                    z = z + (s.zs[i, j] * A[a] * Bv[b] + s.dzdxs[i, j] * dx * A[2 + a] * Bv[b]
                             + s.dzdys[i, j] * dy * A[a] * Bv[2 + b] + s.d2zdxdys[i, j] * dx * dy * A[2 + a] * Bv[2 + b])
            bad = np.nan if s.nanpolicy.upper() == "NAN" else 0.0
            out.append(np.where(ok, z * sc, bad))
        return out

    def normal(self, x, y):
        gx, gy = self.grad(x, y)
        n = np.stack([-gx, -gy, np.ones_like(gx)], axis=-1)
        return n / np.sqrt(np.sum(n * n, axis=-1))[..., None]


# ------------------------------------------------------------------ optics
def unit(v):
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def reflect(v, n):
    return v - 2 * np.sum(v * n, axis=-1, keepdims=True) * n


def refract(v, n, n1, n2):
    """(new velocity, tir mask) by vector Snell's law: n1 (d x n) = n2 (d' x n)"""
    d = unit(v)
    n1 = np.asarray(n1)[..., None]
    n2 = np.asarray(n2)[..., None]
    cosi = np.sum(d * n, axis=-1, keepdims=True)
    tang = (n1 / n2) * (d - cosi * n)
    s2 = np.sum(tang**2, axis=-1, keepdims=True)
    with np.errstate(all='ignore'):
        out = tang + np.sign(cosi) * np.sqrt(1 - s2) * n
    return out / n2, (s2 > 1)[..., 0]


# ------------------------------------------------------------------ frames
class Frame:
    """origin/rot in global coordinates, composed from first principles"""
    def __init__(self, o=(0, 0, 0), R=None):
        self.o = np.array(o, float)
        self.R = np.eye(3) if R is None else np.array(R, float)

    def shiftGlobal(self, d):
        return Frame(self.o + np.asarray(d, float), self.R)

    def shiftLocal(self, d):
        return Frame(self.o + d[0] * self.R[:, 0] + d[1] * self.R[:, 1] + d[2] * self.R[:, 2], self.R)

    def rotateAbout(self, G, c):
        """apply the global rotation G about global point c"""
        return Frame(G @ (self.o - c) + c, G @ self.R)

    def rotateGlobal(self, rot, center=(0, 0, 0), cs=None):
        c = np.asarray(center, float) if cs is None else cs.point(center)
        return self.rotateAbout(rot, c)

    def rotateLocal(self, rot, center=(0, 0, 0), cs=None):
        c = (self if cs is None else cs).point(center)
        return self.rotateAbout(self.R @ rot @ self.R.T, c)     # rotation about the local axes

    def point(self, p):
        return self.o + self.R @ np.asarray(p, float)

    def vec(self, v):
        return self.R @ np.asarray(v, float)


def rot(axis, th):
    """Rodrigues"""
    a = np.asarray(axis, float)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(th) * K + (1 - math.cos(th)) * K @ K
