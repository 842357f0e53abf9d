"""C25 - malformed requests are refused and leave everything as it was.  A request that names nothing, contradicts itself or is built of parts
that do not fit is an operation whose only transition is to the state it started from.  Enumerated: a table of malformed requests x world
variants, every dotted name up to three tokens x every by-name operation, every subset of the arguments that define a beam x every generator,
every assignment of lengths to arrays that must agree, every short configuration with one broken place, and histories: every ordered pair of
malformed requests, every (malformed request, ordinary operation) pair on long-lived worlds."""
import contextlib
import copy
import importlib.util
import io
import itertools
import os
import tempfile
import warnings

import numpy as np


def _load(n):
    sp = importlib.util.spec_from_file_location(n + "_sys", os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


C24 = _load("c24")
fp, diff, digest = C24.fp, C24.diff, C24.digest
WL = 5e-7


def world(B, v):
    """C24's world, and a system in which some short names fit more than one part"""
    W = C24.world(B, v)
    m = lambda n, z: B.Mirror(B.Plane(), name=n, coordSys=B.CoordSys().shiftGlobal([0, 0, z]))
    W["A"] = B.CompoundOptic([B.CompoundOptic([m("x", -0.1), m("y", -0.2)], name="P"), B.CompoundOptic([m("x", -0.3), m("z", -0.4)], name="Q"), B.CompoundOptic([m("x", -0.5), m("y", -0.6), m("x2", -0.7)], name="S"), m("w", -0.8)], name="R")
    return W


# ---------------------------------------------------------------- requests
def table(B):
    """key -> request(W).  Every one of them is malformed."""
    M = {}
    V = B.RayVector
    x3, x2 = [0.0, 1.0, 2.0], [0.0, 1.0]
    xs, ys = np.linspace(-1, 1, 5), np.linspace(-2, 2, 4)
    zs = np.arange(20.0).reshape(4, 5)
    ag = lambda W: dict(optic=W["T"], theta_x=0.0, theta_y=0.0, wavelength=WL)
    an = lambda W: (W["T"], 0.001, 0.002, WL)
    e3 = np.eye(3)

    def add(key, f):
        assert key not in M
        M[key] = f
    # rays
    add("rays:few", lambda W: V(x3, x3, x3))
    for i in (99, -99, 13, -14, "a", 1.5, [99], (0, 0)):
        add(f"rays:item:{i}", lambda W, i=i: W["rays"][i])
    add("rays:mask", lambda W: W["rays"][np.ones(5, bool)])
    add("rays:join:none", lambda W: B.concatenateRayVectors([]))
    add("rays:join:int", lambda W: B.concatenateRayVectors([W["rays"], 3]))
    add("rays:phase", lambda W: W["rays"].phase(x2, 0.0))
    add("rays:amp", lambda W: W["rays"].amplitude(x2, 0.0))
    add("rays:sum", lambda W: W["rays"].sumAmplitude(x2, 0.0))
    add("rays:prop", lambda W: W["rays"].propagate(x2))
    add("rays:prop:str", lambda W: W["rays"].propagate("a"))
    add("rays:at", lambda W: W["rays"].positionAtTime(x2))
    add("rays:frame:None", lambda W: W["rays"].toCoordSys(None))
    add("rays:frame:int", lambda W: W["rays"].toCoordSys(3))
    # generators
    for g, kw in (("asGrid", dict(nx=4)), ("asPolar", dict(nrad=3, naz=6)), ("asSpokes", dict(rings=3, spokes=4)), ("fromStop", dict(x=0.1, y=0.2))):
        mk = lambda W, g=g, kw=kw, **k: getattr(V, g)(**{**ag(W), **kw, **k})
        add(f"{g}:projection", lambda W, mk=mk: mk(W, projection="foo"))
        add(f"{g}:wavelength", lambda W, mk=mk: mk(W, wavelength=None))
        add(f"{g}:direction", lambda W, mk=mk: mk(W, theta_x=None, theta_y=None))
        add(f"{g}:half-direction", lambda W, mk=mk: mk(W, theta_y=None))
        add(f"{g}:dirCos2", lambda W, mk=mk: mk(W, dirCos=[0.0, 1.0]))
        add(f"{g}:source2", lambda W, mk=mk: mk(W, source=[0.0, 1.0]))
        for n in (2, 5):
            add(f"{g}:flux{n}", lambda W, mk=mk, n=n: mk(W, flux=np.ones(n)))
            add(f"{g}:flux{n}:source", lambda W, mk=mk, n=n: mk(W, flux=np.ones(n), source=[0.0, 0.0, 10.0]))
    for bad in ("foo", "", "gq"):
        add(f"asSpokes:spacing:{bad}", lambda W, bad=bad: V.asSpokes(**ag(W), rings=3, spokes=4, spacing=bad))
    add("asSpokes:nospokes", lambda W: V.asSpokes(**ag(W), rings=3))
    add("asPolar:norings", lambda W: V.asPolar(**ag(W)))
    add("asGrid:neg", lambda W: V.asGrid(**ag(W), nx=-3))
    add("asGrid:float", lambda W: V.asGrid(**ag(W), nx=3.5))
    add("asFan:none", lambda W: V.asFan(**ag(W)))
    add("angles:lengths", lambda W: V.fromFieldAngles(np.array(x3), np.array(x2), optic=W["T"], wavelength=WL))
    add("angles:wavelength", lambda W: V.fromFieldAngles(x3, x3, optic=W["T"]))
    add("angles:projection", lambda W: V.fromFieldAngles(np.array(x3), np.array(x3), optic=W["T"], wavelength=WL, projection="foo"))
    add("angles:flux", lambda W: V.fromFieldAngles(np.array(x3), np.array(x3), optic=W["T"], wavelength=WL, flux=x2))
    # surfaces
    add("asphere:imin0", lambda W: B.Asphere(1.0, 0.0, [1.0], imin=0))
    add("asphere:imin-1", lambda W: B.Asphere(1.0, 0.0, [1.0], imin=-1))
    add("asphere:imin1.5", lambda W: B.Asphere(1.0, 0.0, [1.0], imin=1.5))
    add("asphere:iminstr", lambda W: B.Asphere(1.0, 0.0, [1.0], imin="2"))
    add("asphere:coefs", lambda W: B.Asphere(1.0, 0.0, ["a"]))
    add("asphere:mixed", lambda W: B.Asphere(1.0, 0.0, [1.0, "a"]))
    add("asphere:scalar", lambda W: B.Asphere(1.0, 0.0, 3.0))
    add("sphere:str", lambda W: B.Sphere("a"))
    add("quadric:None", lambda W: B.Quadric(1.0, None))
    add("paraboloid:list", lambda W: B.Paraboloid([1, 2]))
    add("tilted:str", lambda W: B.Tilted("a", 0.1))
    add("zernike:radii", lambda W: B.Zernike([0, 0, 1], R_outer=1.0, R_inner=2.0))
    add("zernike:R0", lambda W: B.Zernike([0, 1], R_outer=0.0))
    for shape in ((20,), (4,), (5,), ()):
        add(f"bicubic:zs:{shape}", lambda W, shape=shape: B.Bicubic(xs, ys, np.ones(shape)))
    for n in ("foo", "", "NANN"):
        add(f"bicubic:nan:{n}", lambda W, n=n: B.Bicubic(xs, ys, zs, nanpolicy=n))
    add("bicubic:empty", lambda W: B.Bicubic([], [], np.zeros((0, 0))))
    add("sum:int", lambda W: B.Sum(1))
    add("sum:mixed", lambda W: B.Sum([1, B.Plane()]))
    add("sum:mixed2", lambda W: B.Sum([B.Plane(), W["T"]]))
    add("sum:add", lambda W: B.Plane() + 1)
    add("sum:add2", lambda W: W["sum"] + W["poly"])
    for s in ("bic", "zer", "sum"):
        add(f"sag:{s}", lambda W, s=s: W[s].sag(np.array(x3), np.array(x2)))
        add(f"normal:{s}", lambda W, s=s: W[s].normal(np.array(x3), np.array(x2)))
        add(f"intersect:{s}:notrays", lambda W, s=s: W[s].intersect(3))
        add(f"intersect:{s}:frame", lambda W, s=s: W[s].intersect(W["rays"], coordSys=3))
        add(f"reflect:{s}:frame", lambda W, s=s: W[s].reflect(W["rays"], coordSys=3))
        add(f"refract:{s}:media", lambda W, s=s: W[s].refract(W["rays"], 1.0, 1.5))
        add(f"refract:{s}:nomedium", lambda W, s=s: W[s].refract(W["rays"], W["air"], None))
        add(f"screen:{s}", lambda W, s=s: W[s].refractScreen(W["rays"], 3))
        for n, cs in (("", None), (":moved", "cs")):
            fr = lambda W, cs=cs: W[cs] if cs else None
            add(f"intersect:{s}:coating{n}", lambda W, s=s, fr=fr: W[s].intersect(W["rays"], coordSys=fr(W), coating=3))
            add(f"reflect:{s}:coating{n}", lambda W, s=s, fr=fr: W[s].reflect(W["rays"], coordSys=fr(W), coating=3))
            add(f"refract:{s}:coating{n}", lambda W, s=s, fr=fr: W[s].refract(W["rays"], W["air"], W["glass"], coordSys=fr(W), coating=3))
            add(f"refract:{s}:m1{n}", lambda W, s=s, fr=fr: W[s].refract(W["rays"], None, W["glass"], coordSys=fr(W)))
            add(f"refract:{s}:m2{n}", lambda W, s=s, fr=fr: W[s].refract(W["rays"], W["glass"], 1.5, coordSys=fr(W)))
            add(f"screen:{s}:s{n}", lambda W, s=s, fr=fr: W[s].refractScreen(W["rays"], None, coordSys=fr(W)))
            add(f"rsplit:{s}:m1{n}", lambda W, s=s, fr=fr: W[s].rSplit(W["rays"], None, W["glass"], B.SimpleCoating(0.1, 0.9), coordSys=fr(W)))
            add(f"rsplit:{s}:coating{n}", lambda W, s=s, fr=fr: W[s].rSplit(W["rays"], W["air"], W["glass"], 3, coordSys=fr(W)))
        add(f"rsplit:{s}", lambda W, s=s: W[s].rSplit(W["rays"], W["air"], W["glass"], None))
    # media, coatings
    for a, b in ((3, 2), (2, 3), (4, 2), (2, 0), (0, 2), (5, 4), (1, 2)):
        add(f"table:{a}:{b}", lambda W, a=a, b=b: B.TableMedium(np.linspace(3e-7, 1e-6, a), np.linspace(1.5, 1.4, b)))
    add("table:2d", lambda W: B.TableMedium(np.linspace(3e-7, 1e-6, 4).reshape(2, 2), [1.5, 1.4]))
    add("table:2dn", lambda W: B.TableMedium([3e-7, 6e-7], np.ones((2, 2))))
    add("table:file", lambda W: B.TableMedium.fromTxt("no-such-file.txt"))
    add("const:str", lambda W: B.ConstMedium("a"))
    add("const:None", lambda W: B.ConstMedium(None))
    for m in (B.SellmeierMedium, B.SumitaMedium):
        for n in (0, 2, 3, 4, 5, 7):
            add(f"{m.__name__}:{n}", lambda W, m=m, n=n: m(*[0.1 * i for i in range(n)]))
        for n in (3, 5, 7):
            add(f"{m.__name__}:list{n}", lambda W, m=m, n=n: m([0.1 * i for i in range(n)]))
        names = ("B1", "B2", "B3", "C1", "C2", "C3") if m is B.SellmeierMedium else ("A0", "A1", "A2", "A3", "A4", "A5")
        for k in names:
            add(f"{m.__name__}:no{k}", lambda W, m=m, k=k, names=names: m(**{n: 0.1 for n in names if n != k}))
    add("air:str", lambda W: B.Air(pressure="a"))
    add("n:str", lambda W: W["glass"].getN("a"))
    add("coating:str", lambda W: B.SimpleCoating("a", 1))
    # obscurations
    for u in (B.ObscUnion, B.ObscIntersection):
        n = u.__name__
        add(f"{n}:none", lambda W, u=u: u())
        add(f"{n}:int", lambda W, u=u: u(1))
        add(f"{n}:empty", lambda W, u=u: u([]))
        add(f"{n}:mixed", lambda W, u=u: u(B.ObscCircle(1.0), 3))
        add(f"{n}:mixedlist", lambda W, u=u: u([3, B.ObscCircle(1.0)]))
        add(f"{n}:optic", lambda W, u=u: u(W["poly"], W["T"]))
    add("negation:int", lambda W: B.ObscNegation(1))
    add("negation:none", lambda W: B.ObscNegation())
    add("rect:few", lambda W: B.ObscRectangle(1.0))
    add("circle:str", lambda W: B.ObscCircle("a"))
    for a, b in ((3, 2), (2, 3), (4, 3), (3, 0), (0, 3), (3, 1), (1, 3)):
        add(f"polygon:{a}:{b}", lambda W, a=a, b=b: B.ObscPolygon(np.linspace(0, 1, a), np.linspace(0, 2, b) ** 2))
    for s in ("poly", "inter"):
        add(f"contains:{s}", lambda W, s=s: W[s].contains(np.array(x3), np.array(x2)))
        add(f"obscure:{s}", lambda W, s=s: W[s].obscure(3))
    # optics
    add("compound:int", lambda W: B.CompoundOptic([3]))
    add("compound:optic", lambda W: B.CompoundOptic(W["T"]["D"]))
    add("lens:one", lambda W: B.Lens([W["F"]["e"]], name="l"))
    add("lens:three", lambda W: B.Lens([W["F"]["e"], W["F"]["f"], W["F"]["f"]], name="l"))
    add("lens:media", lambda W: B.Lens([W["F"]["e"], W["T"]["b"]], name="l"))
    add("mirror:none", lambda W: B.Mirror())
    add("screen:none", lambda W: B.OPDScreen(B.Plane()))
    add("yaml:file", lambda W: B.Optic.fromYaml("no-such-file.yaml"))
    for n, v in (("short", [0, 1]), ("long", [0, 1, 2, 3])):
        add(f"optshift:{n}", lambda W, v=v: W["T"].withGlobalShift(v))
        add(f"optlshift:{n}", lambda W, v=v: W["T"]["D"].withLocalShift(v))
        add(f"partshift:{n}", lambda W, v=v: W["T"].withGloballyShiftedOptic("L.a", v))
        add(f"csshift:{n}", lambda W, v=v: W["cs"].shiftGlobal(v))
        add(f"cslshift:{n}", lambda W, v=v: W["cs"].shiftLocal(v))
        add(f"optcenter:{n}", lambda W, v=v: W["T"].withGlobalRotation(e3, rotCenter=v))
        add(f"cscenter:{n}", lambda W, v=v: W["cs"].rotateGlobal(e3, v))
        add(f"toGlobal:{n}", lambda W, v=v: W["cs"].toGlobal(v))
        add(f"toLocal:{n}", lambda W, v=v: W["cs"].toLocal(v))
    for n, r in (("2", np.eye(2)), ("4", np.eye(4)), ("int", 3)):
        add(f"optrot:{n}", lambda W, r=r: W["T"].withGlobalRotation(r))
        add(f"optlrot:{n}", lambda W, r=r: W["T"].withLocalRotation(r))
        add(f"partrot:{n}", lambda W, r=r: W["T"].withLocallyRotatedOptic("b", r))
        add(f"csrot:{n}", lambda W, r=r: W["cs"].rotateGlobal(r))
        add(f"cslrot:{n}", lambda W, r=r: W["cs"].rotateLocal(r))
    add("csframe", lambda W: W["cs"].rotateGlobal(e3, [0, 1, 2], 3))
    add("transform:int", lambda W: B.CoordTransform(W["cs"], 3))
    for k, a in (("xy", (x3, x2, x3)), ("xz", (x3, x3, x2)), ("x", (x2, x3, x3))):
        add(f"applyF:{k}", lambda W, a=a: W["ct"].applyForwardArray(*a))
        add(f"applyR:{k}", lambda W, a=a: W["ct"].applyReverseArray(*a))
    add("apply:frame", lambda W: W["ct"].applyForward(3))
    add("withSurface:part", lambda W: W["T"].withSurface("L", B.Plane()))
    add("withPerturbed:part", lambda W: W["T"].withPerturbedSurface("L", B.Plane()))
    add("withPerturbed:kind", lambda W: W["T"].withPerturbedSurface("a", 3))
    # tracing
    for o, rv in (("T", "tele"), ("F", "rays")):
        add(f"trace:{o}:notrays", lambda W, o=o: W[o].trace(3))
        add(f"full:{o}:notrays", lambda W, o=o: W[o].traceFull(3))
        add(f"split:{o}:notrays", lambda W, o=o: W[o].traceSplit(3))
    ok = ["e", "f", "m"]
    for L in (1, 2, 3, 4):
        for i in range(L):
            p = (ok * 2)[:L]
            p[i] = "nope"
            add(f"path:{'-'.join(p)}", lambda W, p=p: W["F"].trace(W["rays"], path=list(p)))
            add(f"fullpath:{'-'.join(p)}", lambda W, p=p: W["F"].traceFull(W["rays"], path=list(p)))
    add("interface:refract", lambda W: W["F"]["E"].refract(W["rays"]))
    # analyses
    big = dict(jmax=22)
    add("fit:zernike", lambda W: B.zernike(*an(W), nx=3, **big))
    add("fit:zernikeTA", lambda W: B.zernikeTA(*an(W), nrad=1, naz=6, focal_length=2.0, **big))
    add("fit:zernikeXY", lambda W: B.zernikeXYAberrations(*an(W), nrad=1, naz=6, **big))
    hug = dict(nx=4, dx=1e-6, dy=1e-6, nxOut=3)
    for n, f, kw in (("huygens", B.huygensPSF, hug), ("wavefront", B.wavefront, dict(nx=4)), ("fft", B.fftPSF, dict(nx=4)), ("zernike", B.zernike, dict(nx=6, jmax=4)),
                     ("zernikeGQ", B.zernikeGQ, dict(rings=2, jmax=4)), ("zernikeTA", B.zernikeTA, dict(nrad=2, naz=6, jmax=4, focal_length=2.0)),
                     ("zernikeXY", B.zernikeXYAberrations, dict(nrad=2, naz=6, jmax=4))):
        for r in ("foo", "", "Chief", None):
            add(f"reference:{n}:{r}", lambda W, f=f, kw=kw, r=r: f(*an(W), **kw, reference=r))
    for n, f, kw in (("huygens", B.huygensPSF, hug), ("wavefront", B.wavefront, dict(nx=4)), ("spot", B.spot, dict(nx=4)), ("zernikeGQ", B.zernikeGQ, dict(rings=2, jmax=4)),
                     ("dkdu", B.analysis.dkdu, dict(nrad=2, naz=6)), ("drdth", B.drdth, dict(nrad=2, naz=6)), ("dthdr", B.dthdr, dict(nrad=2, naz=6)), ("fft", B.fftPSF, dict(nx=4))):
        add(f"projection:{n}", lambda W, f=f, kw=kw: f(*an(W), **kw, projection="foo"))
    for p in ("foo", "", "Postel"):
        add(f"project:{p}", lambda W, p=p: B.utils.fieldToDirCos(0.1, 0.1, projection=p))
        add(f"unproject:{p}", lambda W, p=p: B.utils.dirCosToField(0.0, 0.0, -1.0, projection=p))

    def failing(W):
        """a third of the rays miss the first surface"""
        t = B.CompoundOptic([B.Mirror(B.Sphere(-0.03), name="m"), B.Detector(B.Plane(), name="d")], name="t", pupilSize=0.1, backDist=1.0, sphereRadius=1.0,
                            stopSurface=B.Interface(B.Plane(), name="s"))
        return B.zernikeGQ(t, 0.0, 0.0, WL, rings=4, jmax=4)
    add("GQ:failed", failing)
    # lattices
    add("lattice:few", lambda W: B.Lattice(zs, [[1.0, 0.0]]))
    add("lattice:many", lambda W: B.Lattice(zs, e3))
    add("lattice:scalar", lambda W: B.Lattice(zs, [1.0]))
    add("lattice:flat", lambda W: B.Lattice(np.zeros((2, 2, 2)), np.ones((3, 2))))
    add("lattice:excess", lambda W: B.Lattice(zs, [[1, 0], [0, 1], [1, 1]]))
    # drawing
    Rec = C24.C23.Rec
    for d, f in (("2d", B.drawTrace2d), ("3d", B.drawTrace3d)):
        for n, kw in (("start", dict(start="nope")), ("end", dict(end="nope")), ("order", dict(start="D", end="a")), ("both", dict(start="nope", end="nope"))):
            add(f"track{d}:{n}", lambda W, f=f, kw=kw: f(Rec(), W["T"].traceFull(W["tele"]), **kw))
    # configurations
    P = B.parse
    for k, f in (("surface", P.parse_surface), ("medium", P.parse_medium), ("obscuration", P.parse_obscuration), ("optic", P.parse_optic)):
        add(f"parse:{k}:type", lambda W, f=f: f(dict(type="NoSuchType", name="q")))
        add(f"parse:{k}:notype", lambda W, f=f: f(dict(R=1.0)))
        add(f"parse:{k}:str", lambda W, f=f: f("nope"))
        add(f"parse:{k}:None", lambda W, k=k, f=f: f(None) if k != "medium" else f([1]))
    add("parse:frame", lambda W: P.parse_coordSys(dict(x="a")))
    add("parse:shift", lambda W: P.parse_coordSys(dict(shift=[0.0, 1.0])))
    return M


ABSENT = object()
def broken_configs():
    """a small complete configuration with one place broken in one way: every place x (removed, unknown type, unknown parameter, wrong kind)"""
    def base():
        return dict(type="CompoundOptic", name="C", backDist=3.0, items=[
            dict(type="Lens", name="l", medium=dict(type="ConstMedium", n=1.4), items=[
                dict(type="RefractiveInterface", name="c1", surface=dict(type="Quadric", R=5.0, conic=-0.4), obscuration=dict(type="ClearAnnulus", inner=0.1, outer=0.9)),
                dict(type="RefractiveInterface", name="c2", surface=dict(type="Sum", items=[dict(type="Sphere", R=5.0), dict(type="Asphere", R=2.0, conic=0.1, coefs=[1e-3])]))]),
            dict(type="Mirror", name="c3", inMedium=dict(type="SellmeierMedium", B1=0.6, B2=0.4, B3=0.8, C1=0.01, C2=0.02, C3=90.0), surface=dict(type="Paraboloid", R=5.0),
                 obscuration=dict(type="ObscUnion", items=[dict(type="ObscCircle", radius=0.1), dict(type="ObscNegation", original=dict(type="ObscRectangle", width=1.0, height=2.0))])),
            dict(type="OPDScreen", name="c5", surface=dict(type="Plane"), screen=dict(type="Zernike", coef=[0, 0, 1e-7])),
            dict(type="Baffle", name="c6", surface=dict(type="Plane")), dict(type="Interface", name="c7", surface=dict(type="Tilted", tanx=0.1, tany=0.0)),
            dict(type="Detector", name="c4", surface=dict(type="Plane"), stopSurface=dict(type="Interface", surface=dict(type="Plane")))])

    def places(d, path=()):
        if isinstance(d, dict):
            yield path, d
            for k, v in d.items():
                yield from places(v, path + (k,))
        elif isinstance(d, list):
            for i, v in enumerate(d):
                yield from places(v, path + (i,))

    def at(d, path):
        for k in path:
            d = d[k]
        return d
    REQ = {"Quadric": ("R", "conic"), "Sphere": ("R",), "Asphere": ("R", "conic", "coefs"), "Paraboloid": ("R",), "Zernike": ("coef",), "Tilted": ("tanx", "tany"), "Sum": ("items",), "Plane": (),
           "ConstMedium": ("n",), "SellmeierMedium": ("B1", "B2", "B3", "C1", "C2", "C3"), "ClearAnnulus": ("inner", "outer"), "ObscCircle": ("radius",), "ObscUnion": ("items",), "ObscNegation": ("original",),
           "ObscRectangle": ("width", "height"), "CompoundOptic": ("items",), "Lens": ("items", "medium"), "OPDScreen": ("surface", "screen")}
    for path, d in list(places(base())):
        if "type" not in d:
            continue
        n = "/".join(map(str, path)) or "top"
        for k in ("type",) + REQ.get(d["type"], ("surface",)):
            c = base()
            del at(c, path)[k]
            yield f"{n}-{k}", c
        for t in ("NoSuchType", "", "plane"):
            c = base()
            at(c, path)["type"] = t
            yield f"{n}.type={t!r}", c
        if d["type"] in ("Quadric", "Sphere", "Asphere", "Paraboloid", "Zernike", "Tilted", "Plane", "ConstMedium", "ObscCircle", "ObscRectangle", "ClearAnnulus"):
            c = base()
            at(c, path)["nosuch"] = 1.0
            yield f"{n}+nosuch", c
    yield None, base()


def run(c, B):
    with contextlib.redirect_stdout(io.StringIO()) as noise:
        explore(c, B)
    del noise


def refused(f):
    try:
        r = f()
    except Exception as e:
        return type(e).__name__, None
    return None, r


def explore(c, B):
    c.method = "explicit exploration of refused requests and the histories around them on the real library"
    B.global_vars._batoid_max_threads = 1
    old = np.seterr(all="warn")
    warnings.filterwarnings("ignore")
    M = table(B)
    O = C24.ops(B)
    build = lambda v: world(B, v)

    # 1. every malformed request on every world of its own: refused, twice, and nothing moved
    for k, f in M.items():
        for v in (0, 1, 2):
            key = f"one:{k}@{v}"
            with c.case(key):
                W = build(v)
                f0 = fp(B, W, "world", {})
                for i in (0, 1):
                    e, r = refused(lambda: f(W))
                    c.true(f"{key}#{i}", e is not None, f"a malformed request is answered instead of refused{' the second time' if i else ''}", answer=repr(r)[:300])
                    c.trans()
                df = diff(f0, fp(B, W, "world", {}))
                c.true(key + "#world", not df, "a refused request changed the objects it worked on", changed=df)
                c.state(key)
                c.trace()
                c.outcome("refused:" + str(e))
    # 2. names: every dotted string of up to three tokens, by every by-name operation
    names(c, B, build)
    # 3. every subset of the arguments that define a beam
    beams(c, B, build)
    # 4. lengths that must agree
    lengths(c, B)
    # 5. configurations with one broken place
    for k, cfg in broken_configs():
        key = f"config:{k}"
        with c.case(key):
            before = copy.deepcopy(cfg)
            g0 = fp(B, C24.Env(B), "env", {})
            e, r = refused(lambda: B.parse.parse_optic(cfg))
            c.true(key, (e is None) == (k is None), "a complete configuration is refused" if k is None else "a broken configuration is accepted", answer=repr(r)[:400])
            c.true(key + "#kept", cfg == before and not diff(g0, fp(B, C24.Env(B), "env", {})), "reading a configuration changed it")
            if k is not None:
                import yaml
                with tempfile.NamedTemporaryFile("w", suffix=".yaml") as t:
                    yaml.dump(dict(opticalSystem=cfg), t)
                    t.flush()
                    e, r = refused(lambda: B.Optic.fromYaml(t.name))
                    c.true(key + "#file", e is not None, "a broken configuration file is accepted", answer=repr(r)[:400])
            c.state(key)
            c.trans(2)
            c.trace()
            c.outcome("configuration")
    # 6. histories
    histories(c, B, M, O, build)
    np.seterr(**old)
    c.extra["malformed"] = len(M)


def tree(o, path=()):
    p = path + (o.name,)
    yield p, o
    for i in getattr(o, "items", ()):
        yield from tree(i, p)


def names(c, B, build):
    P = B.Plane()
    new = B.Baffle(B.Plane(), name="new")
    for sysname, alphabet in (("T", ("T", "L", "G", "a", "b", "p", "s", "D", "nope", "")), ("A", ("R", "P", "Q", "S", "x", "y", "z", "w", "X", "")), ("F", ("F", "E", "e", "f", "m", "e ", ""))):
        W = build(0)
        opt = W[sysname]
        rv = W["tele" if sysname == "T" else "rays"]
        parts = list(tree(opt))
        calls = {
            "item": lambda s: opt[s], "gshift": lambda s: opt.withGloballyShiftedOptic(s, [0, 0, 0.1]), "lshift": lambda s: opt.withLocallyShiftedOptic(s, [0, 0, 0.1]),
            "rot": lambda s: opt.withLocallyRotatedOptic(s, np.eye(3)), "surface": lambda s: opt.withSurface(s, P), "perturbed": lambda s: opt.withPerturbedSurface(s, P),
            "inserted": lambda s: opt.withInsertedOptic(s, new), "removed": lambda s: opt.withRemovedOptic(s),
            "path": lambda s: opt.trace(rv, path=[s]), "fullpath": lambda s: opt.traceFull(rv, path=[s]),
        }
        f0 = fp(B, W, "world", {})
        for call, f in calls.items():
            bad = 0
            for n in (1, 2, 3):
                for toks in itertools.product(alphabet, repeat=n):
                    hits = [(p, o) for p, o in parts if p[-n:] == toks]
                    s = ".".join(toks)
                    key = f"name:{call}:{sysname}:{s}"
                    c.trans()
                    if len(hits) == 1:
                        if call in ("item", "gshift", "lshift", "rot"):
                            e, r = refused(lambda: f(s))
                            c.true(key, e is None and (call != "item" or r is hits[0][1]), "a part that exists is not found under its name", raised=e)
                        continue
                    e, r = refused(lambda: f(s))
                    c.true(key, e is not None, "a name that fits no part is accepted" if not hits else "a name that fits more than one part is accepted", answer=repr(r)[:300])
                    bad += 1
            df = diff(f0, fp(B, W, "world", {}))
            c.true(f"name:{call}:{sysname}#world", not df, "refused names changed the system or the rays", changed=df)
            c.state("names", call, sysname)
            c.trace(bad)
            c.outcome("name refused", bad)


def beams(c, B, build):
    V = B.RayVector
    W = build(0)
    T = W["T"]
    size = dict(nx=4, dx=0.01, lx=0.04)
    G = B.ConstMedium(1.1)
    f0 = fp(B, W, "world", {})
    directions = {"none": (dict(), False), "both": (dict(theta_x=0.001, theta_y=0.002), True), "x": (dict(theta_x=0.001), False), "y": (dict(theta_y=0.001), False), "cos": (dict(dirCos=[0.0, 0.001, -1.0]), True),
                  "source": (dict(source=[0.0, 0.1, 10.0]), True), "badproj": (dict(theta_x=0.001, theta_y=0.002, projection="bad"), False), "cos+source": (dict(dirCos=[0.0, 0.0, -1.0], source=[0.0, 0.1, 10.0]), True)}
    optional = [dict(zip(("backDist", "medium", "stopSurface"), v)) for v in itertools.product((None, 2.0), (None, G), (None, B.Interface(B.Plane())))]

    def shapes(optic):
        for n in range(4):
            for ks in itertools.combinations(size, n):
                have = set(ks)
                if optic and "lx" not in have and not {"nx", "dx"} <= have:
                    have.add("lx")
                yield "asGrid", {k: size[k] for k in ks}, len(have) == 2
                yield "asGrid", dict({k: size[k] for k in ks}, nrandom=5, rng=1), len(have) == 2
                yield "asGrid", dict({k: size[k] for k in ks}, ny=3, ly=0.03), len(have) == 2
        for kw, ok in (({}, False), (dict(nrad=2), False), (dict(nrad=2, naz=6), True)):
            for o in ((), ("outer",), ("inner",), ("outer", "inner")):
                yield "asPolar", {**kw, **{k: dict(outer=0.02, inner=0.01)[k] for k in o}}, ok and (optic or "outer" in o)
        for spacing in ("uniform", "GQ", "GQ2"):
            for kw, ok in (({}, False), (dict(rings=2), spacing == "GQ"), (dict(rings=2, spokes=3), True), (dict(spokes=3), False), (dict(rings=[0.01, 0.02], spokes=[0.0, 1.0]), spacing != "GQ2" or None)):
                for o in ((), ("outer",)):
                    given = optic or "outer" in o or not isinstance(kw.get("rings"), int)
                    yield "asSpokes", {**kw, **{k: 0.02 for k in o}, "spacing": spacing}, (ok if ok is None else ok and given and spacing != "GQ2")
        yield "fromStop", dict(x=0.01, y=0.02), True
        yield "fromStop", dict(x=[0.01, 0.02], y=0.0), True
        yield "fromStop", dict(x=[0.01, 0.02], y=[0.0, 1.0, 2.0]), False

    for optic in (False, True):
        for g, kw, ok in shapes(optic):
            for dn, (dk, dok) in directions.items():
                for wave in (None, WL):
                    for opt in (optional if c.quick is False or wave else optional[:1]):
                        a = {k: v for k, v in {**kw, **dk, **opt, "wavelength": wave}.items() if v is not None}
                        if optic:
                            a["optic"] = T
                        key = f"beam:{g}:{'optic' if optic else 'bare'}:{'+'.join(f'{k}={kw[k]}' for k in kw)}:{dn}:{wave}:{'+'.join(k for k in opt if opt[k] is not None)}"
                        e, r = refused(lambda: getattr(V, g)(**a))
                        c.trans()
                        if ok is None:
                            continue
                        if ok and dok and wave:
                            c.true(key, e is None and len(r) > 0, "a complete description of a beam is refused", raised=e)
                            c.outcome("beam")
                        else:
                            c.true(key, e is not None, "an incomplete or contradictory description of a beam is accepted", answer=repr(r)[:300])
                            c.outcome("beam refused")
                c.beat(f"beam:{g}:{kw}:{dn}")
            c.state("beam", optic, g, repr(kw))
            c.trace()
    df = diff(f0, fp(B, W, "world", {}))
    c.true("beam#world", not df, "describing beams changed the system", changed=df)


def lengths(c, B):
    """arrays that must agree: every assignment of lengths"""
    V = B.RayVector
    F = ("x", "y", "z", "vx", "vy", "vz", "t", "wavelength", "flux", "vignetted", "failed")
    full = itertools.product((1, 2, 3), repeat=11) if not c.quick else itertools.chain(
        itertools.product((2, 3), repeat=11), (tuple(v if i in idx else b for i in range(11)) for b in (1, 2, 3) for idx in itertools.combinations(range(11), 2) for v in (1, 2, 3)))
    data = {n: {f: np.ones(n, bool) if f in ("vignetted", "failed") else np.linspace(0.1, 0.2, n) for f in F} for n in (1, 2, 3)}
    n = 0
    for ls in full:
        want = {k for k in ls if k != 1}
        e, r = refused(lambda: V(*[data[k][f] for f, k in zip(F[:6], ls)], **{f: data[k][f] for f, k in zip(F[6:], ls[6:])}))
        c.true(f"length:rays:{''.join(map(str, ls))}", (e is None) == (len(want) <= 1), "a batch of rays is " + ("refused" if len(want) <= 1 else "made from arrays that do not agree"), raised=e)
        if e is None:
            c.true(f"length:rays:{''.join(map(str, ls))}#n", len(r) == max(want or {1}), "wrong number of rays", got=len(r))
        n += 1
    c.trans(n)
    c.state("length", "rays")
    c.outcome("lengths", n)
    two = {"TableMedium": lambda a, b: B.TableMedium(np.linspace(3e-7, 1e-6, a), np.linspace(1.5, 1.4, b)), "ObscPolygon": lambda a, b: B.ObscPolygon(np.linspace(0, 1, a), np.linspace(0, 2, b)),
           "TableMedium:list": lambda a, b: B.TableMedium(np.linspace(3e-7, 1e-6, a).tolist(), np.linspace(1.5, 1.4, b).tolist()), "ObscPolygon:list": lambda a, b: B.ObscPolygon([0.1] * a, [0.2] * b),
           "Table:int": lambda a, b: B.TableMedium(np.arange(a), np.arange(b))}
    for nm, f in two.items():
        for a, b in itertools.product(range(2, 9), repeat=2):
            e, r = refused(lambda: f(a, b))
            c.true(f"length:{nm}:{a}:{b}", (e is None) == (a == b), "arrays that do not agree are accepted" if a != b else "arrays that agree are refused", raised=e)
            c.trans()
        c.state("length", nm)
        c.trace()


def histories(c, B, M, O, build):
    keys = list(M)
    # every ordered pair of malformed requests on one world
    cheap = [k for k in keys if not k.startswith(("fit:", "reference:", "projection:", "GQ:", "track", "double:"))]
    W = build(0)
    f0 = fp(B, W, "world", {})
    seq = C24.debruijn(len(cheap), 2)
    for i, j in enumerate(seq):
        if i % 500 == 0:
            c.beat(f"pairs:{i}")
        e, r = refused(lambda: M[cheap[j]](W))
        if e is None:
            c.fail(f"pairs:{cheap[j]}", "a malformed request is answered after other malformed requests", after=cheap[seq[i - 1]], answer=repr(r)[:300])
    c.trans(len(seq))
    c.trace(len(cheap) ** 2)
    df = diff(f0, fp(B, W, "world", {}))
    c.true("pairs#world", not df, "refused requests changed the objects they worked on", changed=df)
    c.outcome("pairs", len(seq))
    # every ordinary operation after every malformed request
    letters = [(v, n, q) for n in O for v, q in (((0, 0),) if c.quick else ((0, 0), (1, 1)))]
    base = C24.alone(B, O, letters, build)
    for l, d in base.items():
        c.true(f"alone:{l}", not d.startswith(b"!"), "an ordinary operation fails on a fresh system: " + d[:300].decode("latin1"))
    slow = {}
    for l in letters:
        v, n, q = l
        W = build(v)
        f0 = fp(B, W, "world", {})
        for k in cheap if c.quick else keys:
            e, r = refused(lambda: M[k](W))
            if e is None:
                c.fail(f"after:{k}:{n}#answered", "a malformed request is answered", answer=repr(r)[:300])
            c.beat(f"after:{k}:{n}")
            # quick: groups of requests between two operations; thorough: the operation after every single one
            if c.quick and k != cheap[-1] and not k.endswith(HOT):
                continue
            d = digest(B, O[n](W, q))
            c.true(f"after:{k}:{n}.{q}@{v}", d == base[l], "an ordinary operation gives another result after refused requests")
            c.trans()
        df = diff(f0, fp(B, W, "world", {}))
        c.true(f"after:{n}.{q}@{v}#world", not df, "the system changed over refused requests and ordinary operations", changed=df)
        c.state("after", l)
        c.trace()
        c.outcome("after")


HOT = ("projection", "source", "media", "nope", "file", "type", "order", "empty")
