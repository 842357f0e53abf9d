"""Finite alphabets shared by the checks.  Everything is deterministic and built from the public API."""
import numpy as np


def surfaces(B, tilted=True, bicubic=True):
    """name -> (Surface, usable radius)"""
    out = {}
    out["plane"] = (B.Plane(), 3.0)
    if tilted:
        out["tilted"] = (B.Tilted(0.1, -0.05), 3.0)
    out["sphere+"] = (B.Sphere(10.0), 3.0)
    out["sphere-"] = (B.Sphere(-8.0), 3.0)
    out["para+"] = (B.Paraboloid(10.0), 3.0)
    out["para-"] = (B.Paraboloid(-7.0), 3.0)
    out["quad-hyper"] = (B.Quadric(10.0, -2.3), 3.0)
    out["quad-hyper-neg"] = (B.Quadric(-9.0, -1.5), 3.0)
    out["quad-para"] = (B.Quadric(10.0, -1.0), 3.0)
    out["quad-prolate"] = (B.Quadric(11.0, -0.4), 3.0)
    out["quad-oblate"] = (B.Quadric(-12.0, 0.7), 3.0)
    out["asphere"] = (B.Asphere(10.0, -0.3, [1e-4, -1e-6]), 3.0)
    out["asphere-neg"] = (B.Asphere(-14.0, -1.2, [2e-3, -1e-5, 3e-7], imin=1), 3.0)
    coef = np.zeros(23)
    coef[[2, 3, 4, 5, 6, 7, 8, 11, 14, 22]] = [0.01, -0.02, 0.015, 0.007, -0.004, 0.003, 0.002, 0.001, -0.002, 0.0007]
    out["zernike"] = (B.Zernike(coef, R_outer=3.5, R_inner=1.0), 3.0)
    out["zernike-off"] = (B.Zernike(coef[:12], R_outer=4.0, x_origin=0.2, y_origin=-0.3), 3.0)
    if bicubic:
        xs = np.linspace(-4.0, 4.0, 17)
        ys = np.linspace(-3.8, 4.2, 21)
        X, Y = np.meshgrid(xs, ys)
        out["bicubic"] = (B.Bicubic(xs, ys, 0.02 * np.sin(X) + 0.03 * np.cos(0.7 * Y) + 0.01 * X * Y), 3.0)
    out["sum"] = (B.Sum([B.Paraboloid(10.0), B.Zernike(coef * 0.1, R_outer=3.5)]), 3.0)
    out["sum3"] = (B.Sum([B.Quadric(12.0, -0.5), B.Asphere(40.0, 0.1, [1e-4]), B.Plane()]), 3.0)
    return out


def media(B):
    w = np.linspace(300e-9, 1200e-9, 10)
    return {
        "vac": B.ConstMedium(1.0),
        "const": B.ConstMedium(1.5),
        "table": B.TableMedium(w, 1.4 + 0.1 * np.cos(np.arange(10))),
        "sellmeier": B.SellmeierMedium([0.6961663, 0.4079426, 0.8974794, 0.0046791, 0.0135121, 97.9340025]),
        "sumita": B.SumitaMedium([2.2377, -0.0098, 0.0126, 0.0004, -1e-5, 1e-6]),
        "air": B.Air(),
    }


def obscurations(B):
    return {
        "circle": B.ObscCircle(1.0, 0.1, -0.2),
        "annulus": B.ObscAnnulus(0.5, 1.4, 0.1, 0.0),
        "rect": B.ObscRectangle(1.2, 0.7, 0.1, 0.2, 0.3),
        "ray": B.ObscRay(0.3, 0.4, 0.0, 0.1),
        "polygon": B.ObscPolygon([-1.0, 1.0, 0.7, -0.4], [-0.8, -0.5, 1.1, 0.9]),
        "neg": B.ObscNegation(B.ObscCircle(1.0)),
        "union": B.ObscUnion(B.ObscCircle(0.6, 0.4), B.ObscRectangle(0.5, 2.0)),
        "inter": B.ObscIntersection(B.ObscCircle(1.2, 0.4), B.ObscNegation(B.ObscRay(0.4, 1.0))),
    }


def coatings(B):
    return {"none": None, "ar": B.SimpleCoating(0.03, 0.9), "mirror": B.SimpleCoating(0.8, 0.0)}


def mixed_rays(B, n, seed=0, speed=1.0, coordSys=None):
    """A batch of n rays: deterministic mixture of good, vignetted, failed, missing and steep rays."""
    i = np.arange(n) + seed
    ang = 2.399963 * i
    r = 0.15 + 2.2 * ((i * 0.6180339887498949) % 1.0)
    x, y = r * np.cos(ang), r * np.sin(ang)
    z = 5.0 + 0.5 * np.sin(i)
    kind = (i * 7 + seed) % 11
    vx = 0.05 * np.cos(1.3 * i)
    vy = 0.05 * np.sin(0.7 * i)
    vz = -np.sqrt(1 - vx**2 - vy**2)
    up = kind == 3                       # coming from below
    vz = np.where(up, -vz, vz)
    z = np.where(up, -z, z)
    side = kind == 5                     # steep
    vx = np.where(side, 0.9, vx)
    vz = np.where(side, -np.sqrt(np.maximum(0, 1 - vx**2 - vy**2)), vz)
    x = np.where(side, x - 5.0 * 0.9 / 0.43, x)
    miss = kind == 7                     # far away from finite surfaces
    x = np.where(miss, x + 60.0, x)
    kw = {} if coordSys is None else dict(coordSys=coordSys)
    return B.RayVector(
        x, y, z, vx * speed, vy * speed, vz * speed, t=0.1 * i,
        wavelength=(400 + 50 * (i % 9)) * 1e-9, flux=1.0 + 0.25 * (i % 4),
        vignetted=(kind == 2) | (kind == 9), failed=kind == 9, **kw)


FIELDS = ("x", "y", "z", "vx", "vy", "vz", "t", "wavelength", "flux")
FLAGS = ("vignetted", "failed")


def snap(rv):
    """All stored fields as an (n,11) float array."""
    return np.stack([np.array(getattr(rv, f), dtype=float) for f in FIELDS + FLAGS], axis=1) \
        if len(rv) else np.zeros((0, 11))


def frames(B):
    """name -> CoordSys"""
    c = B.CoordSys()
    return {
        "id": c,
        "shift": c.shiftGlobal([0.3, -0.2, 1.0]),
        "rotx": c.rotateGlobal(B.RotX(0.2)),
        "mix": c.shiftGlobal([1.0, 0.5, -0.7]).rotateLocal(B.RotY(-0.3)).rotateGlobal(B.RotZ(0.9)),
        "flip": c.shiftGlobal([0, 0, 2.0]).rotateLocal(B.RotX(np.pi)),
    }
