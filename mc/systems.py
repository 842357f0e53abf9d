"""Small optical systems and a reference interpreter that uses only surface-level public operations."""
import itertools

import numpy as np


def leaf(B, kind, name, i, m1, m2, obsc=True, tilt=True, curved=True):
    """i-th interface of a chain: sits at z = -0.4*i with a small tilt and decentre"""
    cs = B.CoordSys().shiftGlobal([0.02 * i, -0.03 * i, -0.4 * i])
    if tilt:
        cs = cs.rotateLocal(B.RotX(0.02 * (i + 1))).rotateLocal(B.RotY(-0.015 * i))
    surfs = [B.Quadric(6.0 + i, -0.6), B.Sphere(-7.0 - i), B.Paraboloid(9.0), B.Asphere(8.0, 0.1, [1e-4])]
    s = surfs[i % 4] if curved else B.Plane()
    ob = None
    if obsc:
        ob = [B.ObscNegation(B.ObscCircle(1.1)), B.ObscCircle(0.25, 0.1, 0.0), B.ObscRectangle(0.3, 5.0, 0.2, 0, 0.3), None][i % 4]
    kw = dict(name=name, coordSys=cs, obscuration=ob)
    if kind == "R":
        return B.RefractiveInterface(s, inMedium=m1, outMedium=m2, **kw)
    if kind == "M":
        return B.Mirror(s, inMedium=m1, outMedium=m1, **kw)
    if kind == "B":
        return B.Baffle(B.Plane(), inMedium=m1, outMedium=m1, **kw)
    if kind == "D":
        return B.Detector(B.Plane(), inMedium=m1, outMedium=m1, **kw)
    if kind == "I":
        return B.Interface(B.Plane(), inMedium=m1, outMedium=m1, **kw)
    if kind == "O":
        return B.OPDScreen(B.Plane(), B.Zernike([0, 0, 0.01, -0.02, 0.01], R_outer=2.0), inMedium=m1, outMedium=m1, **kw)
    raise ValueError(kind)


def chain(B, kinds, obsc=True, tilt=True, names=None):
    """consistent media: every refractive interface toggles vacuum <-> glass"""
    med = [B.ConstMedium(1.0), B.SellmeierMedium(0.6961663, 0.4079426, 0.8974794, 0.0046791, 0.0135121, 97.9340025)]
    g = 0
    out = []
    for i, k in enumerate(kinds):
        m1 = med[g]
        if k == "R":
            g ^= 1
        out.append(leaf(B, k, (names or [f"s{j}" for j in range(len(kinds))])[i], i, m1, med[g], obsc, tilt))
    return out


def rays(B, n=13):
    i = np.arange(n)
    a = 2.4 * i
    r = 0.05 + 0.9 * ((i * 0.618034) % 1)
    vx, vy = 0.03 * np.cos(i), 0.02 * np.sin(2 * i)
    k = i % 8
    x, y = r * np.cos(a), r * np.sin(a)
    x = np.where(k == 5, 40.0, x)                                # misses finite surfaces
    return B.RayVector(x, y, 2.0, vx, vy, -np.sqrt(1 - vx**2 - vy**2), t=0.1 * i, wavelength=(400 + 60 * (i % 9)) * 1e-9,
                       flux=1.0 + 0.25 * (i % 3), vignetted=(k == 2) | (k == 7), failed=k == 7)


def step(B, it, rv, reverse=False, reflect=False):
    """one interface on a copy of rv, with surface-level operations only"""
    rv = rv.copy()
    s, cs = it.surface, it.coordSys
    if reflect or isinstance(it, B.Mirror):
        s.reflect(rv, coordSys=cs)
    elif isinstance(it, B.RefractiveInterface):
        m1, m2 = (it.outMedium, it.inMedium) if reverse else (it.inMedium, it.outMedium)
        s.refract(rv, m1, m2, coordSys=cs)
    elif isinstance(it, B.OPDScreen):
        s.refractScreen(rv, it.screen, coordSys=cs)
    else:
        s.intersect(rv, coordSys=cs)
    if it.obscuration is not None:
        w = np.asarray(it.obscuration.contains(rv.x, rv.y), bool)
        rv.vignetted[w] = True
    return rv


def leaves(o, skip=True):
    """visible interfaces in order; a skipped node hides everything inside it"""
    if hasattr(o, "items"):
        return [l for i in o.items if not (skip and i.skip) for l in leaves(i, skip)]
    return [o]


def history(B, seq, rv, reverse=False):
    """rays after each interface of seq"""
    out = []
    for it in (reversed(seq) if reverse else seq):
        rv = step(B, it, rv, reverse)
        out.append((it.name, rv))
    return out


def shapes(n):
    """all nestings of the sequence 0..n-1 in which every inner group has at least two members; also all of them wrapped once"""
    def seqs(i, j, top):
        """all ways to write i..j-1 as a list of items (not a lone group)"""
        if i == j:
            yield ()
            return
        for k in range(i + 1, j + 1):
            if k == i + 1:
                heads = [i]
            elif (i, k) == top:
                heads = []
            else:
                heads = list(seqs(i, k, (i, k)))
            for h in heads:
                for rest in (seqs(k, j, None) if k < j else [()]):
                    yield (h,) + rest
    for s in seqs(0, n, (0, n)):
        yield s
        if n > 1:
            yield (s,)


def build(B, shape, lv, name="T", cls=None, depth=0, **kw):
    items = []
    for j, s in enumerate(shape):
        if isinstance(s, tuple):
            items.append(build(B, s, lv, f"{name}g{j}", cls, depth + 1))
        else:
            items.append(lv[s])
    ls = leaves_all(items)
    C = (B.Lens if cls == "Lens" and depth and len(items) == 2 else B.CompoundOptic)
    return C(items, name=name, inMedium=ls[0].inMedium, outMedium=ls[-1].outMedium, **kw)


def leaves_all(items):
    return [l for i in items for l in (leaves_all(i.items) if hasattr(i, "items") else [i])]


def nodes(o):
    """all nodes below o (not o itself), preorder"""
    out = []
    for i in getattr(o, "items", ()):
        out.append(i)
        out += nodes(i)
    return out


CACHES = ("itemDict", "_names")


def snapshot(o):
    """everything a user can see of an optic, recursively"""
    if hasattr(o, "items") and isinstance(o.items, (list, tuple)):
        return (type(o).__name__, tuple(sorted((k, repr(v)) for k, v in vars(o).items() if k not in CACHES and k not in ("items", "stopSurface"))),
                snapshot(o.stopSurface) if hasattr(o, "stopSurface") else None, tuple(snapshot(i) for i in o.items))
    return (type(o).__name__, tuple(sorted((k, repr(v)) for k, v in vars(o).items() if k not in CACHES)))
