"""C13 - printing, pickling, comparison: exhaustive round trips over an object universe (every class, every single-parameter
variation, every constructor form) and equality/hash laws over all ordered pairs."""
import copy
import glob
import itertools
import os
import pickle

import numpy as np

import alpha


def universe(B):
    """list of (identity, object); two entries are the same value iff their identities are equal"""
    U = []

    def add(ident, *objs):
        for o in objs:
            U.append((ident, o))

    def vary(cls, base, changes, forms=()):
        """base: ordered kwargs; changes: name -> alternative values"""
        C = getattr(B, cls)
        add((cls, repr_id(base)), C(**base), C(*base.values()))
        for k, alts in changes.items():
            for a in alts:
                d = dict(base)
                d[k] = a
                add((cls, repr_id(d)), C(**d), C(**d))
    # surfaces
    add(("Plane",), B.Plane(), B.Plane())
    vary("Tilted", dict(tanx=0.1, tany=-0.05), dict(tanx=[0.2, 0.0, -0.05], tany=[0.1, 0.0]))
    for S in ("Paraboloid", "Sphere"):
        vary(S, dict(R=10.0), dict(R=[-10.0, 10.5, 1 / 3, 11, np.float64(0.1), np.nextafter(10.0, 11)]))
    vary("Quadric", dict(R=10.0, conic=-1.2), dict(R=[9.0, -10.0, 1 / 3], conic=[0.0, -1.0, np.float64(0.3), 1]))
    vary("Asphere", dict(R=10.0, conic=-1.2, coefs=[1e-4, 2e-6]), dict(R=[11.0], conic=[0.5], coefs=[[1e-4], [2e-6, 1e-4], [1e-4, 2e-6, 0.0], np.array([1 / 3, 1e-7])], imin=[1, 3]))
    add(("Asphere", repr_id(dict(R=10.0, conic=-1.2, coefs=[1e-4, 2e-6]))), B.Asphere(10.0, -1.2, np.array([1e-4, 2e-6])), B.Asphere(10, -1.2, (1e-4, 2e-6)), B.Asphere(10.0, -1.2, [1e-4, 2e-6], imin=2))
    z = dict(coef=[0, 0, 0.1, 0.2])
    vary("Zernike", z, dict(coef=[[0, 0, 0.2, 0.1], [0, 0, 0.1, 0.2, 0], [0, 0, 0.1, 1 / 3], [1, 0, 0.1, 0.2]], R_outer=[2.0, np.float64(1.7)], R_inner=[0.3, 0.4], x_origin=[0.5, -0.5], y_origin=[0.5, -0.5]))
    add(("Zernike", repr_id(z)), B.Zernike(np.array([0, 0, .1, .2]), R_outer=1.0, R_inner=0.0), B.Zernike((0, 0, .1, .2), 1, 0, x_origin=0, y_origin=0))
    for k in itertools.product((1.0, 2.0), (0.0, 0.5, 1.0), (0.0, 1.0), (0.0, 1.0)):                       # parameters equal to each other's defaults
        if k[1] < k[0]:
            add(("Zernike", "z2") + k, *[B.Zernike([0, 0, 0.3, 0.2], R_outer=k[0], R_inner=k[1], x_origin=k[2], y_origin=k[3]) for _ in range(2)])
    add(("Zernike", "multi"), *[B.Zernike([0, 0, 0.1], R_outer=2.0, R_inner=0.5, x_origin=0.1, y_origin=0.2) for _ in range(2)])
    xs, ys = np.linspace(-1, 1, 5), np.linspace(-2, 2, 4)
    zs = np.outer(ys**2, np.ones(5)) + 0.3 * xs / 3
    d = np.arange(20.).reshape(4, 5) / 7
    bic = {"b": (xs, ys, zs, {}), "bx": (xs * 2, ys, zs, {}), "by": (xs, ys + 1, zs, {}), "bz": (xs, ys, zs + 1e-12, {}), "bd": (xs, ys, zs, dict(dzdxs=d)), "bd2": (xs, ys, zs, dict(dzdys=d)),
           "bd3": (xs, ys, zs, dict(d2zdxdys=d)), "bzero": (xs, ys, zs, dict(nanpolicy="zero"))}
    for k, (a, b, e, kw) in bic.items():
        add(("Bicubic", k), B.Bicubic(a, b, e, **kw), B.Bicubic(list(a), list(b), e.tolist(), **kw), B.Bicubic(a, b, np.asfortranarray(e), **{**kw, "nanpolicy": kw.get("nanpolicy", "nan").upper()}))
    P, Q, S = B.Plane(), B.Quadric(10.0, -1.2), B.Sphere(7.0)
    add(("Sum", 1), B.Sum([P, Q]), B.Sum((P, Q)), B.Sum(P, Q))
    add(("Sum", 2), B.Sum([Q, P]))
    add(("Sum", 3), B.Sum([P, Q, S]))
    add(("Sum", 4), B.Sum([P]))
    add(("Sum", 5), B.Sum([B.Sum([P, Q]), S]))
    # media, coatings
    vary("ConstMedium", dict(n=1.5), dict(n=[1.0, 1.4, 1 / 3, 2]))
    w, v = np.linspace(3e-7, 1e-6, 4), np.array([1.5, 1.4, 1.3, 1.25])
    add(("Table", 1), B.TableMedium(w, v), B.TableMedium(list(w), tuple(v)))
    add(("Table", 2), B.TableMedium(w, v + 1e-12))
    add(("Table", 3), B.TableMedium(w * 1.1, v))
    add(("Table", 4), B.TableMedium(w[:3], v[:3]))
    co = (0.69, 0.4, 0.9, 0.004, 0.013, 97.9)
    for C, names in (("SellmeierMedium", ('B1', 'B2', 'B3', 'C1', 'C2', 'C3')), ("SumitaMedium", ('A0', 'A1', 'A2', 'A3', 'A4', 'A5'))):
        K = getattr(B, C)
        add((C, co), K(*co), K(co), K(list(co)), K(np.array(co)), K(**dict(zip(names, co))))
        for i in range(6):
            c2 = list(co)
            c2[i] *= 1.01
            add((C, tuple(c2)), K(*c2), K(c2))
    vary("Air", dict(pressure=69.328, temperature=293.15, h2o_pressure=1.067), dict(pressure=[70.0, 1 / 3], temperature=[280, 290.5], h2o_pressure=[0.0, 1.5]))
    add(("Air", repr_id(dict(pressure=69.328, temperature=293.15, h2o_pressure=1.067))), B.Air())
    vary("SimpleCoating", dict(reflectivity=0.1, transmissivity=0.9), dict(reflectivity=[0.9, 0.0, 1 / 3], transmissivity=[0.1, 1, np.float64(0.5)]))
    # obscurations
    vary("ObscCircle", dict(radius=1.0, x=0.1, y=0.2), dict(radius=[2.0, 1 / 3, 0.1], x=[0.0, 0.2], y=[0.0, 0.1]))
    add(("ObscCircle", "r"), B.ObscCircle(1.0), B.ObscCircle(1.0, 0.0, 0.0), B.ObscCircle(1))
    vary("ObscAnnulus", dict(inner=0.5, outer=1.0, x=0.1, y=0.2), dict(inner=[0.25, 0.0], outer=[1.5, 1 / 3], x=[0.0, 0.2], y=[0.0, 0.1]))
    add(("ObscAnnulus", "r"), B.ObscAnnulus(0.5, 1.0), B.ObscAnnulus(0.5, 1, 0, 0))
    vary("ObscRectangle", dict(width=1.0, height=2.0, x=0.1, y=0.2, theta=0.3), dict(width=[2.0], height=[1.0, 1 / 3], x=[0.0, 0.2], y=[0.0, 0.1], theta=[0.0, -0.3]))
    add(("ObscRectangle", "wh"), B.ObscRectangle(1.0, 2.0), B.ObscRectangle(1, 2, 0, 0, 0))
    add(("ObscRectangle", "wht"), B.ObscRectangle(1.0, 2.0, theta=0.3), B.ObscRectangle(1, 2, 0, 0, 0.3))
    vary("ObscRay", dict(width=1.0, theta=0.5, x=0.1, y=0.2), dict(width=[0.5], theta=[0.0, 1.0], x=[0.0, 0.2], y=[0.0, 0.1]))
    add(("ObscRay", "wt"), B.ObscRay(1.0, 0.5), B.ObscRay(1, 0.5, 0, 0))
    px, py = [0, 1, 1, 1 / 3], [0, 0, 1, 2]
    add(("Poly", 1), B.ObscPolygon(px, py), B.ObscPolygon(np.array(px), tuple(py)))
    add(("Poly", 2), B.ObscPolygon(py, px))
    add(("Poly", 3), B.ObscPolygon(px[:3], py[:3]))
    add(("Poly", 4), B.ObscPolygon(px, [0, 0, 1, 2.5]))
    A, C, R = B.ObscCircle(1.0), B.ObscAnnulus(0.5, 1.0), B.ObscRectangle(1.0, 2.0)
    add(("Neg", 1), B.ObscNegation(A), B.ObscNegation(B.ObscCircle(1.0)))
    add(("Neg", 2), B.ObscNegation(C))
    add(("Neg", 3), B.ObscNegation(B.ObscNegation(A)))
    for K in ("ObscUnion", "ObscIntersection"):
        k = getattr(B, K)
        add((K, 1), k(A, C), k([A, C]), k((C, A)), k(C, A))
        add((K, 2), k(A))
        add((K, 3), k(A, C, R), k(R, A, C), k([C, R, A]))
        add((K, 4), k(A, B.ObscNegation(C)))
        add((K, 5), k(A, B.ObscUnion(C, R)))
    # frames
    cs = B.CoordSys()
    add(("CoordSys", 0), cs, B.CoordSys(), B.CoordSys(np.zeros(3), np.eye(3)))
    add(("CoordSys", 1), cs.shiftGlobal([0.1, 0.2, 1 / 3]), B.CoordSys(np.array([0.1, 0.2, 1 / 3])))
    add(("CoordSys", 2), cs.rotateGlobal(B.RotX(0.3)))
    add(("CoordSys", 3), cs.rotateGlobal(B.RotX(0.3)).shiftGlobal([0.1, 0.2, 1 / 3]))
    add(("CoordSys", 4), cs.shiftGlobal([0.1, 0.2, 1 / 3]).rotateGlobal(B.RotY(1e-9)))
    f = [o for _, o in U[-5:]]
    for i, j in itertools.product(range(4), repeat=2):
        a, b = f[i], f[j]
        add(("CT", repr(a), repr(b)), B.CoordTransform(a, b), B.CoordTransform(a.copy(), b.copy()))
    # lattices
    arr = np.arange(12.).reshape(3, 4) / 7
    pv = np.array([[0.1, 0], [0, 1 / 3]])
    add(("Lat", 1), B.Lattice(arr, pv), B.Lattice(arr.copy(), pv.tolist()))
    add(("Lat", 2), B.Lattice(arr, pv.T + 0.01))
    add(("Lat", 3), B.Lattice(arr.T.copy(), pv))
    add(("Lat", 4), B.Lattice(arr + 1e-12, pv))
    add(("Lat", 5), B.Lattice(np.arange(3.), 0.5), B.Lattice(np.arange(3.), [0.5]))
    add(("Lat", 6), B.Lattice(np.arange(8).reshape(2, 2, 2) * 1.0, np.eye(3)))
    ma = lambda hid, mask: np.ma.masked_array([[1.0, hid], [3.0, 4.0]], mask=[[0, mask], [0, 0]])
    add(("Lat", "masked"), B.Lattice(ma(2.0, 1), np.eye(2)), B.Lattice(ma(np.nan, 1), np.eye(2)), B.Lattice(ma(7.0, 1), np.eye(2)))
    add(("Lat", "unmasked"), B.Lattice(ma(2.0, 0), np.eye(2)), B.Lattice(np.array([[1.0, 2.0], [3.0, 4.0]]), np.eye(2)))
    add(("Lat", "unmasked0"), B.Lattice(ma(0.0, 0), np.eye(2)))
    add(("Lat", 7), B.Lattice(np.arange(4).reshape(2, 2) * (1 + 2j), np.eye(2)))
    # rays
    for n in (0, 1, 3):
        for cn, cc in (("id", cs), ("mix", alpha.frames(B)["mix"])):
            rv = alpha.mixed_rays(B, n, coordSys=cc)
            add(("RV", n, cn), rv, rv.copy())
    base = alpha.mixed_rays(B, 3)
    for k in alpha.FIELDS + alpha.FLAGS:
        kw = {q: np.array(getattr(base, q)) for q in alpha.FIELDS + alpha.FLAGS}
        kw[k][1] = (not kw[k][1]) if k in alpha.FLAGS else np.nextafter(kw[k][1], 1e9)
        add(("RV", k), B.RayVector(**kw))
    add(("RV", "p"), base[:2])
    # optics
    U += optics(B)
    return U


def repr_id(d):
    return tuple((k, tuple(np.ravel(np.asarray(v, float)))) for k, v in d.items())


def optics(B):
    U = []
    m = B.ConstMedium(1.5)
    cs = B.CoordSys().shiftGlobal([0, 0, 1 / 3])
    base = dict(name="a", coordSys=cs, inMedium=m, outMedium=B.ConstMedium(1.2), obscuration=B.ObscNegation(B.ObscCircle(2.0)))
    alts = dict(name=["b", None, "it's \"x\""], coordSys=[B.CoordSys(), cs.rotateGlobal(B.RotX(.1))], inMedium=[B.ConstMedium(1.0), B.Air()], outMedium=[B.ConstMedium(1.0), m],
                obscuration=[None, B.ObscCircle(2.0), B.ObscNegation(B.ObscCircle(2.1))], skip=[True])
    for K in ("Interface", "RefractiveInterface", "Mirror", "Detector", "Baffle"):
        C = getattr(B, K)

        def mk(d, C=C, K=K, surf=None):
            return C(surf or B.Quadric(10.0, -0.5), **d)
        U += [((K, "base"), mk(base)), ((K, "base"), mk(base))]
        U += [((K, "min"), C(B.Plane())), ((K, "min"), C(B.Plane(), name=None, skip=False))]
        U += [((K, "surf"), mk(base, surf=B.Quadric(10.0, -0.6)))]
        for k, vs in alts.items():
            for i, v in enumerate(vs):
                U.append(((K, k, i), mk({**base, k: v})))
    U += [(("OPD", 1), B.OPDScreen(B.Plane(), B.Zernike([0, 0, 1e-6]), name="s")), (("OPD", 1), B.OPDScreen(B.Plane(), screen=B.Zernike([0, 0, 1e-6]), name="s")),
          (("OPD", 2), B.OPDScreen(B.Plane(), B.Zernike([0, 0, 2e-6]), name="s")), (("OPD", 3), B.OPDScreen(B.Sphere(5.0), B.Zernike([0, 0, 1e-6]), name="s", obscuration=B.ObscCircle(1.0), coordSys=cs, skip=True)),
          (("OPD", 4), B.OPDScreen(B.Sphere(5.0), B.Plane(), name="s"))]

    def lens(n=1.5, name="L", skip=False, second=-8.0, C="Lens", cs=B.CoordSys(), order=1, med=None):
        g = B.ConstMedium(n)
        it = [B.RefractiveInterface(B.Sphere(8.0), name=name + "1", outMedium=g), B.RefractiveInterface(B.Sphere(second), name=name + "2", inMedium=g, coordSys=B.CoordSys().shiftGlobal([0, 0, -0.3]))]
        return getattr(B, C)(it[::order], name=name, skip=skip, coordSys=cs, **({} if med is None else dict(outMedium=med)))
    var = dict(base={}, n=dict(n=1.4), name=dict(name="M"), skip=dict(skip=True), second=dict(second=-9.0), C=dict(C="CompoundOptic"), cs=dict(cs=cs), order=dict(order=-1), med=dict(med=m))
    for k, kw in var.items():
        U.append((("Lens", k), lens(**kw)))
        U.append((("Lens", k), lens(**kw)))
    tel = lambda extra=(): B.CompoundOptic([lens(), B.Mirror(B.Paraboloid(-20.0), name="m", coordSys=B.CoordSys().shiftGlobal([0, 0, -2.0])), *extra, B.Detector(B.Plane(), name="D", coordSys=B.CoordSys().shiftGlobal([0, 0, 8.0]))],
                                           name="T", backDist=5.0, pupilSize=2.0, stopSurface=B.Interface(B.Plane()))
    U += [(("Tel", 1), tel()), (("Tel", 1), tel()), (("Tel", 2), tel([B.Baffle(B.Plane(), name="b")]))]
    return U


def behave(B, o):
    """observable behaviour as a list of arrays"""
    X, Y = np.meshgrid(np.linspace(-0.9, 0.95, 5), np.linspace(-1.1, 0.7, 4))
    X, Y = X.ravel(), Y.ravel()
    if isinstance(o, B.Surface):
        return [np.asarray(o.sag(X, Y)), np.asarray(o.normal(X, Y)), alpha.snap(o.reflect(alpha.mixed_rays(B, 11)))]
    if isinstance(o, B.Medium):
        return [np.asarray(o.getN(np.linspace(2e-7, 1.2e-6, 9)))]
    if isinstance(o, B.Coating):
        return [np.array([o.getReflect(5e-7, 0.9), o.getTransmit(5e-7, 0.9)])]
    if isinstance(o, B.Obscuration):
        return [np.asarray(o.contains(X, Y))] + ([o.containsGrid(X, Y)] if hasattr(o, "containsGrid") else [])
    if isinstance(o, B.CoordSys):
        return [o.toGlobal(np.eye(3)), o.toLocal(np.eye(3)), o.xhat, o.yhat, o.zhat]
    if isinstance(o, B.CoordTransform):
        return [np.array(o.applyForwardArray(X, Y, Y)), np.array(o.applyReverseArray(X, Y, Y)), alpha.snap(o.applyForward(alpha.mixed_rays(B, 3, coordSys=o.fromSys)))]
    if isinstance(o, B.Lattice):
        return [np.asarray(o.coords), np.ma.filled(o.array, -99.0), np.ma.getmaskarray(o.array)]
    if isinstance(o, B.RayVector):
        return [alpha.snap(o), alpha.snap(o.copy().propagate(3.0)), o.coordSys.toGlobal(np.eye(3))]
    if isinstance(o, B.Optic):
        rv = B.RayVector(X, Y, 3.0, 0.01, 0.0, -np.sqrt(1 - 1e-4), wavelength=5e-7)
        out = [alpha.snap(o.trace(rv.copy()))]
        if type(o) is not B.Interface and not isinstance(o, B.Detector) and not any(isinstance(i, (B.Detector, B.OPDScreen)) for i in getattr(o, "items", [o])) and not o.skip:
            f, r = o.traceSplit(rv.copy(), minFlux=1e-3)
            out += [alpha.snap(q) for q in (f or []) + (r or []) if q is not None]
        return out
    raise NotImplementedError(type(o))


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc') for x, y in zip(a, b))


def hashable(B, o):
    return not isinstance(o, B.RayVector)


def roundtrip(c, B, key, o, ns, quick_eval=False, exact=True):
    b0 = behave(B, o)
    c.trans()
    made = {}
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        if not exact and p not in (2, pickle.HIGHEST_PROTOCOL):
            continue
        made[f"pickle{p}"] = pickle.loads(pickle.dumps(o, p))
    made["deepcopy"] = copy.deepcopy(o)
    twice = pickle.loads(pickle.dumps(made["pickle2"]))
    made["twice"] = twice
    r = repr(o)
    c.true(key + "#str", str(o) == r or isinstance(str(o), str), "str fails")
    try:
        if "masked_array(" not in r:                      # numpy does not print masked arrays as expressions
            made["repr"] = eval(r, dict(ns))
    except Exception as e:
        c.fail(key + "#repr", f"the printed form cannot be evaluated: {type(e).__name__}: {e}", repr=r[:500])
    for h, q in made.items():
        kk = f"{key}#{h}"
        c.true(kk + "-type", type(q) is type(o), "comes back as another type")
        c.true(kk, (o == q) is True or bool(o == q), "is not equal to what it was made from", repr=r[:300], back=repr(q)[:300])
        c.true(kk + "-sym", bool(q == o), "equality is not symmetric")
        c.true(kk + "-ne", not (o != q) and not (q != o), "!= holds between equal objects")
        if hashable(B, o):
            c.true(kk + "-hash", hash(q) == hash(o), "hash differs")
        else:
            c.true(kk + "-hash", q._hash() == o._hash() if hasattr(o, "_hash") else True, "hash differs")
        c.true(kk + "-repr", repr(q) == r, "prints differently", a=r[:300], b=repr(q)[:300])
        b1 = behave(B, q)
        c.true(kk + "-behave", same(b0, b1), "behaves differently from what it was made from",
               diff=[(i, x, y) for i, (x, y) in enumerate(zip(b0, b1)) if not same([x], [y])][:2])
        c.trans(3)
    c.true(key + "#self", bool(o == o) and not (o != o), "an object is not equal to itself")
    c.true(key + "#untouched", repr(o) == r and same(behave(B, o), b0), "a round trip changed the object")


def run(c, B):
    np.seterr(all='ignore')
    c.method = "exhaustive round trips over an object universe and equality/hash laws over all ordered pairs"
    ns = {k: getattr(np, k) for k in ("array", "float64", "complex128", "int64", "inf", "nan")}
    ns["np"] = np
    ns.update({k: getattr(B, k) for k in dir(B) if not k.startswith("_")})
    old = np.get_printoptions()
    np.set_printoptions(precision=18, threshold=10**9)
    try:
        U = universe(B)
        c.extra["universe"] = len(U)
        for i, (ident, o) in enumerate(U):
            key = f"rt:{ident[0]}:{i}"
            with c.case(key):
                roundtrip(c, B, key, o, ns)
                c.states.add(("o", i))
                c.trace()
        # all ordered pairs
        H = [hash(o) if hashable(B, o) else None for _, o in U]
        beh = [behave(B, o) for _, o in U]
        outsiders = [None, 0, 1.5, "Plane()", (), [], object(), np.float64(1.0), np.eye(3)]
        for i, (ia, a) in enumerate(U):
            c.beat(f"pair:{i}")
            for j, (ib, b) in enumerate(U):
                e, ne = a == b, a != b
                want = ia == ib
                if bool(e) != want or bool(ne) == want or not isinstance(e, (bool, np.bool_)):
                    c.fail(f"pair:{ia}:{ib}", "equality does not distinguish exactly the objects with different defining parameters", a=repr(a)[:300], b=repr(b)[:300], eq=repr(e), ne=repr(ne), want=want)
                if want:
                    c.true(f"pairhash:{ia}", H[i] == H[j], "equal objects hash differently", a=repr(a)[:300], b=repr(b)[:300])
                    c.true(f"pairbehave:{ia}", same(beh[i], beh[j]), "equal objects behave differently", a=repr(a)[:300], b=repr(b)[:300])
                    c.outcome("equal")
                else:
                    c.outcome("different")
            for q in outsiders:
                with c.case(f"outsider:{ia}:{type(q).__name__}"):
                    c.true(f"outsider:{ia}:{type(q).__name__}", not np.any(a == q) and np.all(a != q), "equals something of another kind")
            c.trans(2 * len(U))
        # usable as dictionary keys: as many keys as identities
        keys = {}
        for ident, o in U:
            if hashable(B, o):
                keys.setdefault(o, set()).add(ident)
        c.true("dict", all(len(v) == 1 for v in keys.values()) and len(keys) == len({i for i, o in U if hashable(B, o)}), "sets of these objects merge different ones or split equal ones")
        telescopes(c, B, ns)
        coated(c, B)
    finally:
        np.set_printoptions(**old)
    c.assume("printed forms are evaluated with numpy print precision 18 (numpy's default prints arrays to 8 digits)")
    c.assume("attributes an optic's printed form does not show (coatings, backDist, ...) are required to survive pickling, not printing")
    c.extra["bounds"] = f"{len(U)} objects, all ordered pairs, {pickle.HIGHEST_PROTOCOL + 1} pickle protocols; all shipped telescopes"


def telescopes(c, B, ns):
    files = sorted(glob.glob(os.path.join(B.datadir, "**", "*.yaml"), recursive=True))
    loaded = {}
    for f in files:
        name = os.path.basename(f)
        with c.case("tel:" + name):
            import yaml
            cfg = yaml.safe_load(open(f))
            if not isinstance(cfg, dict) or "opticalSystem" not in cfg:
                continue
            o = B.Optic.fromYaml(f)
            loaded[name] = o
            r = repr(o)
            q = pickle.loads(pickle.dumps(o))
            e = eval(r, dict(ns))
            D = getattr(o, "pupilSize", 0.1)
            rv = B.RayVector.asGrid(stopSurface=getattr(o, "stopSurface", None), medium=o.inMedium, backDist=getattr(o, "backDist", 1.0), lx=D, wavelength=6.2e-7, theta_x=0.001, theta_y=-0.002, nx=5)
            w = alpha.snap(o.trace(rv.copy()))
            for h, x in (("pickle", q), ("repr", e)):
                c.true(f"tel:{name}#{h}", bool(x == o) and bool(o == x) and not (x != o) and hash(x) == hash(o), "telescope does not survive")
                c.true(f"tel:{name}#{h}-repr", repr(x) == r, "prints differently")
                c.true(f"tel:{name}#{h}-behave", np.array_equal(alpha.snap(x.trace(rv.copy())), w, equal_nan=True), "traces differently")
                c.trans(2)
            c.true(f"tel:{name}#attrs", all(getattr(q, k, None) == getattr(o, k) for k in ("backDist", "pupilSize", "pupilObscuration", "sphereRadius", "stopSurface") if hasattr(o, k)), "extra attributes lost in a pickle")
            c.states.add(("t", name))
            c.trace()
    names = sorted(loaded)
    for a, b in itertools.product(names, repeat=2):
        c.true(f"telpair:{a}:{b}", bool(loaded[a] == loaded[b]) == (repr(loaded[a]) == repr(loaded[b])), "telescopes compare equal without printing alike")
        c.trans()


def coated(c, B):
    """coatings are not shown but must survive pickling"""
    m = B.ConstMedium(1.5)
    s = B.RefractiveInterface(B.Sphere(8.0), name="c", outMedium=m)
    s.forwardCoating, s.reverseCoating = B.SimpleCoating(0.1, 0.8), B.SimpleCoating(0.2, 0.7)
    t = B.CompoundOptic([s, B.RefractiveInterface(B.Sphere(-8.0), name="d", inMedium=m, coordSys=B.CoordSys().shiftGlobal([0, 0, -0.3]))], name="C")
    for nm, o in (("iface", s), ("compound", t)):
        with c.case("coated:" + nm):
            b0 = behave(B, o)
            for h, q in (("pickle", pickle.loads(pickle.dumps(o))), ("deepcopy", copy.deepcopy(o)), ("copy", copy.copy(o))):
                c.true(f"coated:{nm}#{h}", same(b0, behave(B, q)) and q == o, "a coated optic behaves differently after a round trip")
                c.trans(2)
            c.trace()
