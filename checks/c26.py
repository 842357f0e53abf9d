"""C26 - the written form of a value does not matter: every public constructor, operation, query, generator, analysis and configuration
x every numeric argument x every form of the same numbers (int, NumPy scalars, list, tuple, arrays of any element type and layout,
read-only) x positional / named, and every argument in that form at once; oracle = the call with plain floats and float64 C arrays."""
import contextlib
import copy
import importlib.util
import inspect
import io
import itertools
import os
import warnings

import numpy as np

import alpha
import systems as S


def _load(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(__file__), n + ".py"))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


C13, C23, C24 = _load("c13"), _load("c23"), _load("c24")
WL = 2.0**-21                                                             # a wavelength every element type holds exactly
W2 = 1.25 * 2.0**-21


# ---------------------------------------------------------------- forms
def numeric(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def forms(v):
    """name -> the same numbers written another way"""
    F = {}
    if isinstance(v, bool):
        F["npbool"] = lambda: np.bool_(v)
        return F
    if numeric(v):
        count = isinstance(v, int)                                        # a number of things: only integers are meant
        if not count:
            F["f8"] = lambda: np.float64(v)
            if float(np.float32(v)) == v:
                F["f4"] = lambda: np.float32(v)
            if float(np.float16(v)) == v and v == int(v):
                F["f2"] = lambda: np.float16(v)
        if v == int(v):
            if not count:
                F["int"] = lambda: int(v)
            F["i8"] = lambda: np.int64(v)
            F["i4"] = lambda: np.int32(v)
        return F
    a = np.asarray(v)
    b = a.astype(a.dtype if a.dtype.kind == "b" else float)

    def pad(sel, big):
        def g():
            big[...] = np.nan if big.dtype.kind == "f" else ~big
            big[sel] = b
            return big[sel]
        return g
    tup = lambda x: tuple(tup(q) for q in x) if isinstance(x, list) else x
    F["array"] = lambda: b.copy()
    F["list"] = lambda: b.tolist()
    F["tuple"] = lambda: tup(b.tolist())
    if b.ndim > 1:
        F["arrays"] = lambda: [q.copy() for q in b]
        F["fortran"] = lambda: np.array(b, order="F")
        F["window"] = pad((slice(1, -1),) * b.ndim, np.empty(tuple(n + 2 for n in b.shape), b.dtype))
    F["scalars"] = lambda: [type(b.flat[0])(q) for q in b] if b.ndim == 1 else [list(q) for q in b]
    F["strided"] = pad((..., slice(None, None, 2)), np.empty(b.shape[:-1] + (2 * b.shape[-1],), b.dtype))
    F["reversed"] = pad((..., slice(None, None, -1)), np.empty(b.shape, b.dtype))
    F["readonly"] = lambda: np.frombuffer(b.tobytes(), b.dtype).reshape(b.shape)
    if b.dtype.kind == "f":
        F["swapped"] = lambda: b.astype(">f8")
        if np.array_equal(b.astype("f4"), b):
            F["f4"] = lambda: b.astype("f4")
        if np.array_equal(b, np.round(b)):
            F["i8"] = lambda: b.astype("i8")
            F["i4"] = lambda: b.astype("i4")
            F["ints"] = lambda: b.astype("i8").tolist()
            F["mixed"] = lambda: [int(q) if i % 2 else float(q) for i, q in enumerate(b)] if b.ndim == 1 else [[int(q) if i % 2 else float(q) for i, q in enumerate(r)] for r in b]
            if (b >= 0).all():
                F["u1"] = lambda: b.astype("u1")
    return F


# ---------------------------------------------------------------- the calls
def table(B, W):
    """name -> (f(**arguments), ordered arguments as plain floats / float64 arrays, positional count or None, arguments whose form is fixed)"""
    V = B.RayVector
    A = np.array
    T = {}

    def add(name, f, pos=None, fixed=(), **kw):
        assert name not in T
        T[name] = (f, kw, len(kw) if pos is None else pos, fixed)
    # --- surfaces
    add("Tilted", B.Tilted, tanx=1.0, tany=-2.0)
    add("Paraboloid", B.Paraboloid, R=8.0)
    add("Sphere", B.Sphere, R=-9.0)
    add("Quadric", B.Quadric, R=10.0, conic=-2.0)
    add("Quadric0", B.Quadric, R=-16.0, conic=1.0)
    add("Asphere", B.Asphere, R=10.0, conic=-1.0, coefs=A([0.0, 1.0, 0.0]), imin=3)
    add("Asphere2", B.Asphere, R=10.0, conic=-1.0, coefs=A([2.0**-10, 2.0**-12]))
    add("AsphereA", B.Asphere, R=8.0, conic=0.0, coefs=A([1.0, -2.0, 3.0]))
    add("Zernike", B.Zernike, coef=A([0.0, 1.0, 0.0, -1.0, 2.0]), R_outer=2.0, R_inner=1.0, x_origin=1.0, y_origin=-1.0, pos=1)
    add("Zernike2", B.Zernike, coef=A([0.0, 0.25, 0.5, -0.125, 2.0, 0.0, 0.5, 0.25]), R_outer=1.5, R_inner=0.5, x_origin=0.25, y_origin=-0.125, pos=3)
    xs, ys = A([-2.0, -1.0, 0.0, 1.0, 2.0]), A([-3.0, -1.0, 1.0, 3.0])
    zs = A([[1.0, 2, 0, -1, 3], [0, 1, 1, 2, 2], [3, 1, 0, 0, 1], [2, 2, 1, 3, 0]])
    add("Bicubic", B.Bicubic, xs=xs, ys=ys, zs=zs)
    add("BicubicD", lambda dzdxs, dzdys, d2zdxdys: B.Bicubic(xs, ys, zs, dzdxs=dzdxs, dzdys=dzdys, d2zdxdys=d2zdxdys), dzdxs=zs + 1, dzdys=zs[::-1] - 2, d2zdxdys=2 * zs)
    # --- media, coatings
    add("ConstMedium", B.ConstMedium, n=2.0)
    add("ConstMedium2", B.ConstMedium, n=1.5)
    add("TableMedium", B.TableMedium, wavelengths=A([0.5, 1.0, 2.0, 4.0]) * WL, ns=A([4.0, 3.0, 2.0, 1.0]))
    add("TableMedium2", lambda w, n: W_table(B, w, n), w=A([0.0, 1.0, 2.0, 3.0]), n=A([4.0, 3.0, 2.0, 1.0]))
    # ten coefficients: as numbers one by one, and as one sequence
    add("Sellmeier", B.SellmeierMedium, pos=0, B1=1.0, B2=2.0, B3=3.0, C1=0.0, C2=1.0, C3=64.0)
    add("SellmeierL", lambda coefs: B.SellmeierMedium(coefs), coefs=A([1.0, 2.0, 3.0, 0.0, 1.0, 64.0]))
    add("SellmeierF", lambda coefs: B.SellmeierMedium(coefs), coefs=A([0.75, 0.5, 1.0, 0.0078125, 0.015625, 98.0]))
    add("Sumita", B.SumitaMedium, pos=0, A0=3.0, A1=0.0, A2=0.0, A3=0.0, A4=0.0, A5=0.0)
    add("SumitaL", lambda coefs: B.SumitaMedium(coefs), coefs=A([4.0, 1.0, 0.0, 0.0, 0.0, 0.0]))
    add("Air", B.Air, pressure=70.0, temperature=290.0, h2o_pressure=1.0)
    add("SimpleCoating", B.SimpleCoating, reflectivity=1.0, transmissivity=0.0)
    # --- obscurations
    add("ObscCircle", B.ObscCircle, radius=1.0, x=1.0, y=-1.0)
    add("ObscAnnulus", B.ObscAnnulus, inner=1.0, outer=2.0, x=1.0, y=0.0)
    add("ObscRectangle", B.ObscRectangle, width=1.0, height=2.0, x=1.0, y=0.0, theta=1.0)
    add("ObscRay", B.ObscRay, width=1.0, theta=2.0, x=1.0, y=0.0)
    add("ObscPolygon", B.ObscPolygon, xs=A([0.0, 1.0, 1.0, -1.0]), ys=A([-1.0, 0.0, 1.0, 1.0]))
    add("ObscPolygon2", B.ObscPolygon, xs=A([0.0, 0.75, 0.5, -0.5]), ys=A([-0.75, 0.0, 0.5, 1.0]))
    # --- frames
    R90 = A([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]])
    R2 = A([[0.0, 0, 1], [0, -1, 0], [1, 0, 0]])
    single = ("f4", "f2")                                                 # single precision in, single precision out: NumPy's own rule
    for n in ("RotX", "RotY", "RotZ"):
        add(n, getattr(B, n), th=1.0, fixed=single)
    cs = B.CoordSys(A([1.0, 2, 3]), R90)
    cg = B.CoordSys().rotateGlobal(B.RotX(0.3)).shiftGlobal([0.1, 0.2, 0.3])
    add("CoordSys", B.CoordSys, origin=A([1.0, 2.0, -3.0]), rot=R90)
    for nm, c0 in (("cs", cs), ("cg", cg)):
        add(f"shiftGlobal:{nm}", c0.shiftGlobal, dr=A([1.0, -2.0, 3.0]))
        add(f"shiftLocal:{nm}", c0.shiftLocal, dr=A([1.0, -2.0, 3.0]))
        add(f"rotateGlobal:{nm}", c0.rotateGlobal, rot=R2, rotCenter=A([1.0, 0.0, 2.0]))
        add(f"rotateLocal:{nm}", c0.rotateLocal, rot=R2, rotCenter=A([1.0, 0.0, 2.0]))
        add(f"rotateIn:{nm}", lambda rot, rotCenter, c0=c0: c0.rotateGlobal(rot, rotCenter, cg), rot=R2, rotCenter=A([1.0, 0.0, 2.0]))
        add(f"toGlobal:{nm}", c0.toGlobal, v=A([[1.0, 2.0, 3.0], [0.0, -1.0, 4.0]]))
        add(f"toLocal:{nm}", c0.toLocal, v=A([1.0, 2.0, 3.0]))
        add(f"toLocals:{nm}", c0.toLocal, v=A([[1.0, 2.0, 3.0], [0.0, -1.0, 4.0]]))
    add("frames", lambda o, r, p: [B.CoordTransform(B.CoordSys(o, r), B.CoordSys(p)), B.CoordTransform(B.CoordSys(p, r), B.CoordSys(o, r))], o=A([1.0, 2.0, 3.0]), r=R90, p=A([0.0, -1.0, 1.0]))
    add("frame-rays", lambda o, r: [alpha.mixed_rays(B, 5).toCoordSys(B.CoordSys(o, r)), alpha.mixed_rays(B, 5, coordSys=B.CoordSys(o, r)).toCoordSys(B.CoordSys())], o=A([1.0, 2.0, 3.0]), r=R90)
    add("frame-surface", lambda o, r: [f(alpha.mixed_rays(B, 7), coordSys=B.CoordSys(o, r)) for f in (B.Sphere(9.0).intersect, B.Paraboloid(5.0).reflect)], o=A([0.0, 0.0, 1.0]), r=R90)
    ct = B.CoordTransform(cs, cg)
    for d in ("Forward", "Reverse"):
        add(f"apply{d}", getattr(ct, f"apply{d}Array"), x=A([1.0, 2.0, -3.0, 0.0]), y=A([0.0, 2.0, 1.0, 1.0]), z=A([1.0, 1.0, 2.0, 5.0]))
        add(f"apply{d}2", getattr(ct, f"apply{d}Array"), x=A([[1.0, 2.0], [-3.0, 0.0]]), y=A([[0.0, 2.0], [1.0, 1.0]]), z=A([[1.0, 1.0], [2.0, 5.0]]))
        add(f"apply{d}1", getattr(ct, f"apply{d}Array"), x=1.0, y=2.0, z=-3.0)
    add("Lattice", lambda primitiveVectors: B.Lattice(np.arange(12.0).reshape(3, 4), primitiveVectors), primitiveVectors=A([[1.0, 0.0], [1.0, 2.0]]))
    add("Lattice1", lambda primitiveVectors: B.Lattice(np.arange(3.0), primitiveVectors), primitiveVectors=A([[2.0]]))
    # --- rays
    n4 = dict(x=A([1.0, 2.0, 0.0, -1.0]), y=A([0.0, 1.0, 1.0, 2.0]), z=A([3.0, 3.0, 2.0, 1.0]), vx=A([0.0, 1.0, 0.0, 0.0]), vy=A([0.0, 0.0, -1.0, 0.0]), vz=A([-1.0, 0.0, 0.0, 1.0]))
    add("RayVector", V, **n4)
    add("RayVectorAll", V, **n4, t=A([0.0, 1.0, 2.0, 3.0]), wavelength=A([1.0, 2.0, 1.5, 1.0]) * WL, flux=A([1.0, 2.0, 3.0, 4.0]), vignetted=A([True, False, False, True]), failed=A([False, False, True, False]))
    add("RayVector1", V, x=1.0, y=2.0, z=3.0, vx=0.0, vy=0.0, vz=-1.0, t=1.0, wavelength=WL, flux=2.0, vignetted=True, failed=False)
    add("RayVectorMix", V, x=A([1.0, 2.0, 3.0]), y=0.0, z=3.0, vx=0.0, vy=0.0, vz=-1.0, t=1.0, wavelength=WL, flux=A([2.0, 1.0, 0.0]))
    R = lambda: V(W["x"], W["y"], 1.0, 0.25, 0.0, -0.5, t=0.5, wavelength=WL, flux=2.0)
    add("positionAtTime", lambda t: R().positionAtTime(t), t=3.0)
    add("propagate", lambda t: R().propagate(t), t=3.0)
    for n in ("phase", "amplitude", "sumAmplitude"):
        add(n, lambda r, t, n=n: getattr(R(), n)(r, t), r=A([1.0, 0.0, -2.0]), t=1.0)
    add("sumAll", lambda r, t, ignoreVignetted: R().sumAmplitude(r, t, ignoreVignetted), r=A([1.0, 0.0, -2.0]), t=1.0, ignoreVignetted=False)
    add("getitem", lambda i: R()[i], i=2)
    add("mask", lambda i: R()[i], i=A([True, False, True, True, False, False]), fixed=("list", "tuple", "scalars"))
    # --- queries
    q = dict(x=A([0.0, 1.0, -1.0, 2.0]), y=A([1.0, 0.0, 1.0, -1.0]))
    q2 = dict(x=A([[0.0, 0.5], [-0.25, 1.0]]), y=A([[0.75, 0.0], [0.125, -1.0]]))
    for n, s in dict(plane=B.Plane(), tilted=B.Tilted(0.1, 0.2), sphere=B.Sphere(9.0), para=B.Paraboloid(-9.0), quad=B.Quadric(9.0, -0.5), asph=B.Asphere(9.0, 0.2, [1e-3, 1e-4]), zern=W["zer"], bic=W["bic"], sum=W["sum"]).items():
        add(f"sag:{n}", s.sag, **q)
        add(f"sag2:{n}", s.sag, **q2)
        add(f"sag1:{n}", s.sag, x=0.0, y=1.0)
        add(f"normal:{n}", s.normal, **q)
        add(f"normal2:{n}", s.normal, **q2)
        add(f"normal1:{n}", s.normal, x=0.0, y=1.0)
    for n, s in dict(circle=B.ObscCircle(1.0), annulus=B.ObscAnnulus(0.5, 1.2), rect=B.ObscRectangle(1.0, 2.0, 0.1, 0.0, 0.3), ray=B.ObscRay(0.5, 0.3), poly=W["poly"], neg=B.ObscNegation(W["poly"]), union=B.ObscUnion(B.ObscCircle(0.7), W["poly"]), inter=W["inter"]).items():
        add(f"contains:{n}", s.contains, **q)
        add(f"contains2:{n}", s.contains, **q2)
        add(f"contains1:{n}", s.contains, x=0.0, y=1.0)
    add("containsGrid", W["poly"].containsGrid, xgrid=A([-1.0, 0.0, 1.0]), ygrid=A([-1.0, 0.0, 1.0, 2.0]))
    add("containsGrid2", W["poly"].containsGrid, xgrid=A([-0.5, 0.0, 0.5]), ygrid=A([-0.75, 0.0, 0.25, 0.5]))
    for n, m in dict(const=B.ConstMedium(1.5), table=B.TableMedium(A([0.5, 1.0, 2.0, 4.0]) * WL, [1.6, 1.5, 1.45, 1.4]), sel=W["sel"], sumita=W["sumita"], air=W["air"]).items():
        add(f"getN:{n}", m.getN, wavelength=A([1.0, 1.5, 2.0]) * WL)
        add(f"getN2:{n}", m.getN, wavelength=A([[1.0, 1.5], [1.0, 2.0]]) * WL)
        add(f"getN1:{n}", m.getN, wavelength=WL)
    sc = B.SimpleCoating(0.25, 0.5)
    for n in ("getCoefs", "getReflect", "getTransmit"):
        add(n, getattr(sc, n), wavelength=WL, cosIncidenceAngle=1.0)
    # --- projections: exact inputs and the usual way of naming
    for p in ("postel", "zemax", "gnomonic", "stereographic", "lambert", "orthographic"):
        add(f"to:{p}", lambda u, v, p=p: B.utils.fieldToDirCos(u, v, projection=p), u=A([0.0, 0.25, -0.5, 0.125]), v=A([0.0, 0.5, 0.25, -0.25]), fixed=single)
        add(f"to-int:{p}", lambda u, v, p=p: B.utils.fieldToDirCos(u, v, projection=p), u=A([0.0, 1.0, 0.0]), v=A([0.0, 0.0, -1.0]), fixed=single)
        add(f"to1:{p}", lambda u, v, p=p: B.utils.fieldToDirCos(u, v, projection=p), u=0.0, v=0.0, fixed=single)
        d = B.utils.fieldToDirCos(A([0.0, 0.25, -0.5, 0.125]), A([0.0, 0.5, 0.25, -0.25]), projection=p)
        add(f"from:{p}", lambda alpha, beta, gamma, p=p: B.utils.dirCosToField(alpha, beta, gamma, projection=p), alpha=d[0], beta=d[1], gamma=d[2], fixed=single)
        add(f"from-int:{p}", lambda alpha, beta, gamma, p=p: B.utils.dirCosToField(alpha, beta, gamma, projection=p), alpha=A([0.0, 0.0]), beta=A([0.0, 0.0]), gamma=A([-1.0, -1.0]), fixed=single)
        add(f"from1:{p}", lambda alpha, beta, gamma, p=p: B.utils.dirCosToField(alpha, beta, gamma, projection=p), alpha=0.0, beta=0.0, gamma=-1.0, fixed=single)
    add("normalized", B.utils.normalized, **{"args": A([3.0, 4.0, 12.0])}, fixed=("f4", "f2"))
    add("hexapolar", B.utils.hexapolar, outer=2.0, inner=1.0, nrad=3, naz=12)
    # --- beams
    t = W["T"]
    ang = dict(theta_x=0.0, theta_y=0.0, wavelength=WL)
    off = dict(theta_x=0.0078125, theta_y=-0.00390625, wavelength=WL)
    G = B.ConstMedium(1.25)
    stop = B.Interface(B.Quadric(64.0, 0.5), coordSys=B.CoordSys().shiftGlobal([0, 0, 0.125]))
    for n, f, kw in (("asGrid", V.asGrid, dict(nx=4, lx=2.0)), ("asGrid:ny", V.asGrid, dict(nx=4, ny=3, lx=A([1.0, 0.0]), ly=A([0.0, 1.0]))), ("asGrid:dx", V.asGrid, dict(nx=3, ny=4, dx=A([1.0, 1.0]), dy=A([0.0, 2.0]))),
                     ("asGrid:dxs", V.asGrid, dict(nx=3, dx=1.0, dy=2.0)), ("asGrid:lxly", V.asGrid, dict(dx=0.5, lx=2.0, ly=3.0)), ("asFan", V.asFan, dict(nx=4, ny=3, lx=2.0, ly=1.0)) if False else ("asGrid:rnd", V.asGrid, dict(nx=4, lx=1.0)),
                     ("asPolar", V.asPolar, dict(outer=2.0, inner=1.0, nrad=3, naz=12)), ("asSpokes", V.asSpokes, dict(outer=2.0, inner=1.0, rings=3, spokes=5)),
                     ("asSpokes:GQ", lambda **k: V.asSpokes(spacing="GQ", **k), dict(outer=2.0, inner=0.0, rings=3)), ("asSpokes:arr", lambda rings, spokes, **k: V.asSpokes(rings=rings, spokes=spokes, **k), dict(outer=2.0, rings=A([0.0, 1.0, 2.0]), spokes=A([0.0, 1.0, 2.0, 3.0]))),
                     ("fromStop", V.fromStop, dict(x=A([0.0, 1.0, -1.0]), y=A([1.0, 0.0, 2.0]))), ("fromStop1", V.fromStop, dict(x=1.0, y=2.0))):
        pl = dict(kw, backDist=8.0, flux=2.0)
        for tag, extra in (("on", ang), ("off", off), ("dir", dict(dirCos=A([0.0, 0.0, -1.0]), wavelength=WL)), ("src", dict(source=A([0.0, 1.0, 10.0]), wavelength=WL)), ("dir2", dict(dirCos=A([0.0, 0.5, -1.0]), wavelength=WL))):
            add(f"{n}:{tag}", lambda f=f, **k: f(medium=G, stopSurface=stop, **k), pos=0, fixed=single if tag in ("on", "off") or n.endswith("GQ") else (), **{**pl, **extra})
    add("fromFieldAngles", lambda **k: V.fromFieldAngles(medium=G, stopSurface=stop, **k), pos=0, fixed=single, theta_x=A([0.0, 0.0078125]), theta_y=A([0.00390625, 0.0]), wavelength=WL, x=1.0, y=0.0, backDist=8.0, flux=2.0)
    add("fromFieldAngles0", lambda **k: V.fromFieldAngles(medium=G, stopSurface=stop, **k), pos=0, fixed=single, theta_x=A([0.0, 0.0]), theta_y=A([0.0, 0.0]), wavelength=WL, x=1.0, y=0.0, backDist=8.0, flux=2.0)
    # --- systems and their derivatives
    It = lambda **k: B.Interface(B.Plane(), **k)
    Cm = lambda **k: B.CompoundOptic([B.Mirror(B.Paraboloid(-20.0), name="m"), B.Detector(B.Plane(), name="D", coordSys=B.CoordSys().shiftGlobal([0, 0, 8.0]))], name="T", stopSurface=B.Interface(B.Plane()), **k)
    add("CompoundOptic", lambda **k: [Cm(**k), V.asGrid(optic=Cm(**k), nx=4, lx=1.0, wavelength=WL, theta_x=0.0, theta_y=0.0), B.huygensPSF(Cm(**k), 0.001, 0.0, WL, nx=8, nxOut=4), B.zernike(Cm(**k), 0.001, 0.0, WL, jmax=6, nx=8)],
        backDist=16.0, pupilSize=2.0, pupilObscuration=0.0, sphereRadius=8.0, R_outer=3.0, R_inner=0.0, pos=0, fixed=single)
    for n, f in dict(shift=lambda v: t.withGlobalShift(v), lshift=lambda v: t.withLocalShift(v), oshift=lambda v: t.withGloballyShiftedOptic("L.a", v), olshift=lambda v: t.withLocallyShiftedOptic("L", v),
                     ishift=lambda v: t["L.a"].withGlobalShift(v), ilshift=lambda v: t["L.b"].withLocalShift(v)).items():
        add(f"with:{n}", f, v=A([0.0, 1.0, -2.0]))
    for n, f in dict(rot=lambda r, p: t.withLocalRotation(r, p), grot=lambda r, p: t.withGlobalRotation(r, p), orot=lambda r, p: t.withLocallyRotatedOptic("L.b", r, p), grotin=lambda r, p: t.withGlobalRotation(r, p, cg),
                     irot=lambda r, p: t["L.a"].withLocalRotation(r, p), irotg=lambda r, p: t["L.a"].withGlobalRotation(r, p), irotin=lambda r, p: t["L.a"].withLocalRotation(r, p, cg)).items():
        add(f"with:{n}", f, r=R90, p=A([1.0, 0.0, 2.0]))
    beam = lambda **k: W["tele"].copy()
    add("traceSplit", lambda minFlux: W["F"].traceSplit(W["rays"].copy(), minFlux=minFlux), minFlux=1.0)
    add("screen", lambda c, r: B.Plane().refractScreen(alpha.mixed_rays(B, 7), B.Zernike(c, R_outer=r)), c=A([0.0, 0.0, 1.0, 0.0, 0.0]), r=64.0)
    # --- analyses
    aw = dict(theta_x=0.0, theta_y=0.0, wavelength=WL)
    for n, f, kw in (("huygensPSF", B.huygensPSF, dict(nx=6, dx=2.0**-18, dy=2.0**-18, nxOut=4)), ("huygensPSF:v", B.huygensPSF, dict(nx=6, dx=A([2.0**-18, 0.0]), dy=A([0.0, 2.0**-18]), nxOut=4)), ("wavefront", B.wavefront, dict(nx=6, sphereRadius=2.0)),
                     ("spot", B.spot, dict(nx=6)), ("fftPSF", B.fftPSF, dict(nx=6, pad_factor=2, sphereRadius=2.0)), ("zernike", B.zernike, dict(nx=8, sphereRadius=2.0, jmax=6, eps=0.0)), ("zernikeGQ", B.zernikeGQ, dict(rings=3, spokes=7, sphereRadius=2.0, jmax=6, eps=0.0)),
                     ("zernikeTA", B.zernikeTA, dict(nrad=3, naz=12, jmax=6, eps=0.0, focal_length=2.0)), ("zernikeXY", B.zernikeXYAberrations, dict(nrad=3, naz=12, jmax=6, eps=0.0)), ("dkdu", B.analysis.dkdu, dict(nrad=3, naz=12)), ("drdth", B.drdth, dict(nrad=3, naz=12)),
                     ("dthdr", B.dthdr, dict(nrad=3, naz=12)), ("focalLength", B.analysis.focalLength, {})):
        add(n, lambda f=f, **k: f(t, **k), pos=0, fixed=single, **aw, **kw)
        add(n + ":off", lambda f=f, **k: f(t, **k), pos=0, fixed=single, **{**aw, "theta_x": 0.00390625}, **{k: v for k, v in kw.items()})
    add("doubleZernike", lambda **k: B.doubleZernike(t, **k), pos=0, fixed=single, field=2.0**-8, wavelength=WL, rings=2, spokes=3, kmax=3, jmax=4, eps=0.0)
    add("exitPupilPos", lambda **k: B.exitPupilPos(t, **k), pos=0, wavelength=WL)
    # --- from a configuration
    P = B.parse
    add("cfg:coordSys", lambda **k: P.parse_coordSys(dict(k)), pos=0, x=1.0, y=2.0, z=-3.0)
    for a in "XYZ":
        add(f"cfg:rot{a}", lambda a=a, **k: P.parse_coordSys({("rot" + a if q == "r" else q): v for q, v in k.items()}), pos=-1, fixed=single, x=1.0, r=1.0)
    for ty, kw in {"Tilted": dict(tanx=1.0, tany=2.0), "Sphere": dict(R=8.0), "Paraboloid": dict(R=-8.0), "Quadric": dict(R=8.0, conic=-1.0), "Asphere": dict(R=8.0, conic=-1.0, coefs=A([1.0, 0.0])),
                   "Zernike": dict(coef=A([0.0, 1.0, 2.0]), R_outer=2.0, R_inner=1.0)}.items():
        add(f"cfg:{ty}", lambda ty=ty, **k: P.parse_surface(dict(k, type=ty)), pos=0, **kw)
    for ty, kw in {"ObscCircle": dict(radius=1.0, x=1.0, y=0.0), "ClearCircle": dict(radius=1.0, x=1.0), "ObscAnnulus": dict(inner=1.0, outer=2.0), "ClearRectangle": dict(width=1.0, height=2.0, theta=1.0), "ObscRay": dict(width=1.0, theta=1.0),
                   "ObscPolygon": dict(xs=A([0.0, 1.0, 1.0]), ys=A([0.0, 0.0, 1.0]))}.items():
        add(f"cfg:{ty}", lambda ty=ty, **k: P.parse_obscuration(dict(k, type=ty)), pos=0, **kw)
    add("cfg:ConstMedium", lambda **k: P.parse_medium(dict(k, type="ConstMedium")), pos=0, n=2.0)
    add("cfg:number", lambda n: P.parse_medium(n), n=2.0)
    add("cfg:Table", lambda **k: P.parse_medium(dict(k, type="TableMedium")), pos=0, wavelengths=A([1.0, 2.0, 4.0]) * WL, ns=A([3.0, 2.0, 1.0]))
    add("cfg:Sellmeier", lambda **k: P.parse_medium(dict(k, type="SellmeierMedium")), pos=0, B1=1.0, B2=2.0, B3=3.0, C1=0.0, C2=1.0, C3=64.0)
    add("cfg:optic", lambda z, R, backDist, pupilSize, n: P.parse_optic(dict(type="CompoundOptic", name="C", backDist=backDist, pupilSize=pupilSize, items=[dict(type="RefractiveInterface", name="c", inMedium=n, outMedium=n, surface=dict(type="Sphere", R=R), coordSys=dict(z=z))])),
        pos=0, z=1.0, R=8.0, backDist=4.0, pupilSize=2.0, n=2.0)
    return T


def W_table(B, w, n):
    m = B.TableMedium(w, n)
    return [m, m.getN(np.array([0.0, 0.25, 1.0, 2.5]))]


# ---------------------------------------------------------------- observation
def observe(B, x):
    """list of float/bool arrays; element types and containers take no part, values do"""
    if isinstance(x, (list, tuple)):
        return [a for q in x for a in observe(B, q)] + [np.array(len(x))]
    if isinstance(x, dict):
        return [a for q in x.values() for a in observe(B, q)]
    if x is None:
        return [np.array(-77.0)]
    if isinstance(x, B.CoordTransform):
        return C13.behave(B, x) + observe(B, x.fromSys) + observe(B, x.toSys)
    if isinstance(x, B.Optic):
        out = [a for l in S.nodes(x) for a in (np.array(l.coordSys.origin, float), np.array(l.coordSys.rot, float))]
        for a in ("backDist", "pupilSize", "pupilObscuration", "sphereRadius", "R_outer", "R_inner"):
            v = getattr(x, a, None)
            out.append(np.array(np.nan if v is None else v, float))
        return C13.behave(B, x) + out
    if type(x).__module__.startswith("batoid"):
        return C13.behave(B, x)
    if isinstance(x, np.ma.MaskedArray):
        return [np.ma.getmaskarray(x), np.ma.filled(x.astype(float), -99.0)]
    a = np.asarray(x)
    return [a if a.dtype.kind in "cb" else a.astype(float)]


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind in "fc") for x, y in zip(a, b))


def gap(a, b):
    if len(a) != len(b):
        return "lengths"
    for i, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape:
            return f"#{i}: shapes {x.shape} {y.shape}"
        if not np.array_equal(x, y, equal_nan=x.dtype.kind in "fc"):
            with np.errstate(all="ignore"):
                return f"#{i}: " + str(np.nanmax(np.abs(x.astype(complex) - y.astype(complex))) if x.size else 0)
    return None


def run(c, B):
    with contextlib.redirect_stdout(io.StringIO()) as noise, np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        explore(c, B)
    del noise


def explore(c, B):
    c.method = "explicit enumeration on the real library; oracle = the same call written with plain floats and contiguous float64 arrays"
    B.global_vars._batoid_max_threads = 1
    W = C24.world(B, 0)
    T = table(B, W)
    c.extra["calls"] = len(T)
    values = lambda o: isinstance(o, (B.Surface, B.Medium, B.Coating, B.Obscuration, B.CoordSys, B.RayVector, B.CoordTransform))
    for name, (f, kw, npos, fixed) in T.items():
        want = None
        fresh = lambda: {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()}
        with c.case(name):
            r0 = f(**fresh())
            want = observe(B, r0)
            itself = values(r0) and r0 == f(**fresh())
        if want is None:
            continue

        def try_(key, call, note):
            with c.case(key):
                c.beat(key)
                try:
                    r = call()
                except Exception as e:
                    c.fail(key + "#refused", f"{note}: refused, though the same numbers as floats are accepted", raised=repr(e)[:300])
                    return
                got = observe(B, r)
                c.true(key, same(want, got), f"{note}: another result than with plain floats", differs=gap(want, got))
                if itself and type(r) is type(r0):
                    c.true(key + "#equal", r == r0 and r0 == r and (type(r).__hash__ is None or hash(r) == hash(r0)), f"{note}: the object built is not equal to the one built from plain floats", eq=[r == r0, r0 == r])
                    with c.case(key + "#repr"), np.printoptions(precision=20, threshold=10**6):
                        ns = {**vars(np), **vars(B), "np": np}
                        if len(repr(r)) < 2000:
                            c.true(key + "#repr", eval(repr(r), ns) == r0, f"{note}: does not print as an expression for itself", printed=repr(r)[:300])
                c.trans()
                c.outcome("formed")
            c.states.add(key)
        # --- by position
        for k in range(1, npos + 1):
            a = fresh()
            pos = [a.pop(q) for q in list(a)[:k]]
            if isinstance(f, type) or inspect.ismethod(f) or inspect.isfunction(f):
                try_(f"{name}:positional{k}", lambda: f(*pos, **a), f"first {k} arguments by position")
        # --- named in another order
        a = fresh()
        if npos >= 0:
            try_(f"{name}:reordered", lambda: f(**{k: a[k] for k in list(a)[::-1]}), "arguments named in another order")
        # --- one argument, every form; then every argument in that form
        F = {k: {n: g for n, g in forms(v).items() if n not in fixed} for k, v in kw.items()}
        for k in kw:
            for n, g in F[k].items():
                try_(f"{name}:{k}={n}", lambda: f(**{**fresh(), k: g()}), f"{k} given as {n}")
        for n in sorted({n for k in kw for n in F[k]}):
            if sum(n in F[k] for k in kw) > 1:
                try_(f"{name}:*={n}", lambda: f(**{**fresh(), **{k: F[k][n]() for k in kw if n in F[k]}}), f"everything given as {n}")
        # --- pairs of forms
        ks = [k for k in kw if len(F[k]) > 1]
        if not c.quick or len(ks) <= 4:
            for k1, k2 in itertools.combinations(ks, 2):
                for n1, n2 in itertools.product(F[k1], F[k2]):
                    if n1 != n2:
                        try_(f"{name}:{k1}={n1},{k2}={n2}", lambda: f(**{**fresh(), k1: F[k1][n1](), k2: F[k2][n2]()}), f"{k1} given as {n1} and {k2} as {n2}")
        c.trace()
