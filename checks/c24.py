"""C24 - optics and their parts are values: histories of operations over one shared world of optics, surfaces, media, masks, coatings,
frames, rays, lattices and configurations.  Operations x argument sets x world variants are the alphabet; every ordered pair on a fresh
world, every ordered pair (thorough: triple) consecutively on one long-lived world (de Bruijn sequence), every result overwritten afterwards;
the oracle for each operation is its result in a process of its own on a world of its own."""
import contextlib
import copy
import hashlib
import importlib.util
import io
import itertools
import os
import pickle
import warnings

import numpy as np

import alpha
import systems as S


def _load(n):
    sp = importlib.util.spec_from_file_location(n + "_sys", os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


C13, C23 = _load("c13"), _load("c23")


# ---------------------------------------------------------------- the world
def world(B, v):
    """variants share every name and every shape; 1 differs from 0 in every number, 2 only in what takes no part in comparisons"""
    hid, v = v == 2, v % 2
    k = 1.0 + 0.06 * v
    W = {}
    vac = B.ConstMedium(1.0)
    w = np.linspace(3e-7, 1.1e-6, 6)
    glass = B.TableMedium(w, (1.52 + 0.01 * v) - 0.01 * np.arange(6))
    sel = B.SellmeierMedium(np.array([0.6961663, 0.4079426, 0.8974794, 0.0046791, 0.0135121, 97.9340025]) * k)
    W.update(glass=glass, sel=sel, air=B.Air(pressure=69.0 * k), sumita=B.SumitaMedium([2.2377, -0.0098 * k, 0.0126, 0.0004, -1e-5, 1e-6]))
    co = lambda z: B.CoordSys().shiftGlobal([0, 0, z])
    z = [0, 0, 0, 0, 1e-6, 2e-6 * k, -1e-6]
    a = B.RefractiveInterface(B.Quadric(-2.0 * k, -0.3), name="a", inMedium=vac, outMedium=glass, coordSys=co(-0.3), obscuration=B.ObscNegation(B.ObscCircle(0.2 * k)))
    b = B.RefractiveInterface(B.Asphere(3.0 * k, 0.1, [1e-3 * k, 1e-4]), name="b", inMedium=glass, outMedium=vac, coordSys=co(-0.32).rotateLocal(B.RotX(0.001 * k)), obscuration=B.ObscAnnulus(0.22, 0.3))
    p = B.Baffle(B.Plane(), name="p", coordSys=co(-0.5 * k), obscuration=B.ObscUnion(B.ObscCircle(0.004 * k), B.ObscRay(0.001, 0.4 * k)))
    s = B.OPDScreen(B.Plane(), B.Zernike(z, R_outer=0.1), name="s", coordSys=co(-0.6))
    D = B.Detector(B.Plane(), name="D", coordSys=co(-2.75 * k))
    L = B.Lens([a, b], name="L", outMedium=vac, coordSys=co(-0.3))
    G = B.CompoundOptic([p, s], name="G", coordSys=co(-0.5))
    W["T"] = B.CompoundOptic([L, G, D], name="T", stopSurface=B.Interface(B.Plane(), name="stop", coordSys=co(0.01 * v + 0.02 * hid)), backDist=1.0 * k + 0.5 * hid, sphereRadius=2.0 * k + 0.1 * hid,
                              pupilSize=(0.05 - 0.01 * hid) * k, pupilObscuration=0.2 + 0.1 * v + 0.05 * hid)
    e = B.RefractiveInterface(B.Sphere(8.0 * k), name="e", outMedium=sel, coordSys=co(0.0))
    f = B.RefractiveInterface(B.Sphere(-9.0 * k), name="f", inMedium=sel, coordSys=co(-0.3), obscuration=B.ObscNegation(B.ObscCircle(0.9)))
    e.forwardCoating, e.reverseCoating = B.SimpleCoating(0.1 * k, 0.85 - 0.2 * hid), B.SimpleCoating(0.15 + 0.1 * hid, 0.8 / k - 0.1 * hid)
    f.forwardCoating, f.reverseCoating = B.SimpleCoating(0.2 + 0.15 * hid, 0.7 / k - 0.2 * hid), B.SimpleCoating(0.05 * k, 0.9 - 0.1 * hid)
    W["F"] = B.CompoundOptic([B.Lens([e, f], name="E"), B.Mirror(B.Paraboloid(-9.0 * k), name="m", coordSys=co(-1.5))], name="F")
    # a system with parts that are skipped unless a path names them
    g = B.RefractiveInterface(B.Sphere(8.0 * k), name="g", outMedium=sel, skip=True, coordSys=co(0.0))
    h = B.RefractiveInterface(B.Sphere(-9.0 * k), name="h", inMedium=sel, coordSys=co(-0.3), obscuration=B.ObscRay(0.1 * k, 0.3))
    W["K"] = B.CompoundOptic([B.Lens([g, h], name="H", skip=True), B.Mirror(B.Plane(), name="i", skip=True, coordSys=co(-1.0)), B.Mirror(B.Paraboloid(-9.0 * k), name="j", coordSys=co(-1.5), obscuration=B.ObscCircle(0.1 * k))], name="K")
    xs, ys = np.linspace(-1.5, 1.5, 5) * k, np.linspace(-2, 2, 4)
    W["bic"] = B.Bicubic(xs, ys, np.outer(ys**2, np.ones(5)) * 0.05 + 0.1 * xs)
    W["zer"] = B.Zernike(np.array([0, 0.1, 0.2, 0.1 * k, 0.05, 0.03]), R_outer=1.5, R_inner=0.3 * k)
    W["sum"] = B.Sum([W["zer"], B.Quadric(9.0 * k, -0.5), B.Tilted(0.1, 0.02 * k)])
    W["poly"] = B.ObscPolygon(np.array([-1.0, 1.0, 0.7, -0.4]) * k, [-0.8, -0.5, 1.1, 0.9])
    W["inter"] = B.ObscIntersection(B.ObscCircle(0.9 * k, 0.1), B.ObscNegation(B.ObscRectangle(0.5, 0.3, 0.1, 0.0, 0.2 * k)))
    W["cs"] = B.CoordSys().rotateGlobal(B.RotX(0.3 * k)).shiftGlobal([0.1, 0.2, 0.3 * k])
    W["cs2"] = B.CoordSys().shiftGlobal([0.4, 0.0, -0.2]).rotateLocal(B.RotZ(0.7 * k))
    W["ct"] = B.CoordTransform(W["cs"], W["cs2"])
    W["lat"] = B.Lattice(np.arange(12.).reshape(3, 4) * k, np.array([[0.1, 0.02], [0, 0.3 * k]]))
    r = S.rays(B)
    W["rays"] = B.RayVector(r.x * k, r.y, 1.0 + 0 * r.x, r.vx, r.vy, r.vz, t=r.t, wavelength=r.wavelength, flux=r.flux * k, vignetted=r.vignetted, failed=r.failed)
    W["one"] = B.RayVector(0.01 * k, 0.02, 1.0, 0.01, 0.0, -np.sqrt(1 - 1e-4), wavelength=5e-7)
    W["tele"] = B.RayVector(r.x * 0.1 * k, r.y * 0.1, 1.0 + 0 * r.x, r.vx * 0.2, r.vy * 0.2, -np.sqrt(1 - 0.04 * (r.vx**2 + r.vy**2)), wavelength=r.wavelength, flux=r.flux)
    W["x"], W["y"] = np.linspace(-0.8, 0.9, 6) * k, np.linspace(0.7, -0.6, 6)
    W["config"] = dict(type="CompoundOptic", name="C", medium=dict(type="ConstMedium", n=1.1 * k), backDist=3.0, coordSys=dict(z=0.5 * k, rotX=0.02), items=[
        dict(type="RefractiveInterface", name="c1", outMedium=1.5, surface=dict(type="Quadric", R=5.0 * k, conic=-0.4), coordSys=dict(x=0.01, z=-0.1 * k, rotY=0.05),
             obscuration=dict(type="ClearAnnulus", inner=0.1, outer=0.9)),
        dict(type="CompoundOptic", name="c2", items=[dict(type="Mirror", name="c3", surface=dict(type="Asphere", R=-9.0, conic=0.2 * k, coefs=[1e-3, 1e-5]), coordSys=dict(z=-0.4))], coordSys=dict(z=-0.2)),
        dict(type="Detector", name="c4", surface=dict(type="Plane"), coordSys=dict(z=1.0 * k))])
    W["env"] = Env(B)
    return W


class Env:
    """state of the process that every user shares"""
    def __init__(self, B):
        self.B = B

    def read(self):
        B = self.B
        r = np.random.get_state()
        import random
        return dict(err=repr(np.geterr()), print=repr(np.get_printoptions()), npr=hashlib.md5(r[1].tobytes() + repr(r[2:]).encode()).hexdigest(), rnd=hashlib.md5(repr(random.getstate()).encode()).hexdigest(),
                    glob=repr(B.globalCoordSys), vac=repr(B.vacuum), threads=repr(B.global_vars._batoid_max_threads), niter=repr(B.global_vars._batoid_niter), cwd=os.getcwd(), warn=repr(warnings.filters[:6]), dflt=repr(B.CoordSys()) + repr(B.Air()))


# ---------------------------------------------------------------- the operations
def ops(B):
    """name -> f(W, q): result; q selects one of two argument sets.  None of them is documented to change what it works on."""
    O = {}
    wl = lambda q: (5.0e-7, 6.2e-7)[q]
    th = lambda q: ((0.004, -0.006), (-0.002, 0.003))[q]
    pj = lambda q: ("postel", "gnomonic")[q]
    an = lambda q, W: (W["T"], *th(q), wl(q))

    # tracing
    for s, rv in (("T", "tele"), ("F", "rays")):
        O["trace:" + s] = lambda W, q, s=s, rv=rv: W[s].trace(W[rv].copy(), reverse=bool(q) and s == "F")
        O["full:" + s] = lambda W, q, s=s, rv=rv: list(W[s].traceFull(W[rv].copy(), reverse=bool(q) and s == "F").items())
    O["path:F"] = lambda W, q: W["F"].trace(W["rays"].copy(), path=(["e", "f", "m"], ["e", "f", "e", "f", "m"])[q])
    O["fullpath:F"] = lambda W, q: list(W["F"].traceFull(W["rays"].copy(), path=(["e", "f", "m"], ["e", "f", "e"])[q]).items())
    O["skipped"] = lambda W, q: [W["K"].trace(W["rays"].copy()), W["K"].trace(W["rays"].copy(), path=(["g", "h", "j"], ["H", "i", "h", "j"])[q]), list(W["K"].traceFull(W["rays"].copy(), path=["g", "j", "i"]).items()), W["K"].traceSplit(W["rays"].copy(), minFlux=0.3)]
    O["split:F"] = lambda W, q: W["F"].traceSplit(W["rays"].copy(), minFlux=(3e-2, 1e-1)[q], reverse=bool(q))
    O["interface"] = lambda W, q: [W["F"]["E.e"].trace(W["rays"].copy(), reverse=bool(q)), W["T"]["T.G.s"].interact(W["tele"].copy(), reverse=bool(q)), W["F"]["m"].reflect(W["rays"].copy()), W["F"]["e"].rSplit(W["rays"].copy(), reverse=bool(q))]
    # generators
    O["asGrid"] = lambda W, q: B.RayVector.asGrid(optic=W["T"], theta_x=th(q)[0], theta_y=th(q)[1], wavelength=wl(q), nx=(4, 5)[q], projection=pj(q))
    O["asPolar"] = lambda W, q: B.RayVector.asPolar(optic=W["T"], theta_x=th(q)[0], theta_y=th(q)[1], wavelength=wl(q), nrad=3, naz=(12, 7)[q])
    O["asSpokes"] = lambda W, q: B.RayVector.asSpokes(optic=W["T"], theta_x=th(q)[0], theta_y=th(q)[1], wavelength=wl(q), rings=3, spokes=(5, 6)[q], spacing=("uniform", "GQ")[q])
    O["fromStop"] = lambda W, q: [B.RayVector.fromStop(0.01, 0.02, optic=W["T"], theta_x=th(q)[0], theta_y=th(q)[1], wavelength=wl(q)), B.RayVector.fromFieldAngles(W["x"] * 0.01, W["y"] * 0.01, projection=pj(q), optic=W["T"], wavelength=wl(q))]
    # analyses
    O["dkdu"] = lambda W, q: B.analysis.dkdu(*an(q, W), nrad=3, naz=12, projection=pj(q))
    O["drdth"] = lambda W, q: B.drdth(*an(q, W), nrad=3, naz=12, projection=pj(q))
    O["dthdr"] = lambda W, q: B.dthdr(*an(q, W), nrad=3, naz=12, projection=pj(q))
    O["huygens"] = lambda W, q: B.huygensPSF(*an(q, W), nx=(6, 5)[q], nxOut=(4, 3)[q], dx=2e-6, dy=2e-6, reference=("chief", "mean")[q])
    O["fft"] = lambda W, q: B.fftPSF(*an(q, W), nx=(6, 8)[q], pad_factor=2, reference=("chief", "mean")[q])
    O["wavefront"] = lambda W, q: B.wavefront(*an(q, W), nx=(6, 5)[q], sphereRadius=(None, 1.7)[q])
    O["spot"] = lambda W, q: B.spot(*an(q, W), nx=(6, 5)[q], reference=("mean", "chief")[q])
    O["zernike"] = lambda W, q: B.zernike(*an(q, W), nx=(8, 7)[q], jmax=(6, 10)[q], eps=(0.0, 0.2)[q])
    O["zernikeGQ"] = lambda W, q: B.zernikeGQ(*an(q, W), rings=3, jmax=(6, 10)[q], eps=(0.0, 0.2)[q])
    O["zernikeTA"] = lambda W, q: B.zernikeTA(*an(q, W), nrad=3, naz=12, jmax=(6, 8)[q], focal_length=2.4)
    O["zernikeXY"] = lambda W, q: B.zernikeXYAberrations(*an(q, W), nrad=3, naz=12, jmax=(6, 8)[q])
    O["double"] = lambda W, q: B.doubleZernike(W["T"], (0.004, 0.003)[q], wl(q), rings=2, spokes=3, kmax=3, jmax=(4, 5)[q])
    O["exitpupil"] = lambda W, q: [B.exitPupilPos(W["T"], wl(q)), B.analysis.focalLength(*an(q, W), nrad=2, naz=6)]
    # deriving
    sh, ro = (lambda q: ([0.01, -0.02, 0.03], np.array([-0.03, 0.01, 0.0]))[q]), (lambda q: (B.RotX(0.01), B.RotY(-0.02) @ B.RotZ(0.3))[q])
    O["withShift"] = lambda W, q: [W["T"].withGlobalShift(sh(q)), W["T"].withLocalShift(sh(q)), W["T"]["L"].withLocalShift(sh(q)), W["T"]["D"].withGlobalShift(sh(q))]
    O["withRot"] = lambda W, q: [W["T"].withGlobalRotation(ro(q)), W["T"].withLocalRotation(ro(q), rotCenter=sh(q), coordSys=W["cs"]), W["T"]["a"].withLocalRotation(ro(q))]
    O["withShifted"] = lambda W, q: [W["T"].withGloballyShiftedOptic(("L.a", "T.G")[q], sh(q)), W["T"].withLocallyShiftedOptic(("b", "D")[q], sh(q))]
    O["withRotated"] = lambda W, q: [W["T"].withLocallyRotatedOptic(("L", "s")[q], ro(q)), W["F"].withLocallyRotatedOptic(("E.f", "m")[q], ro(q), rotCenter=[0, 0, 1.0], coordSys=W["cs2"])]
    O["withSurface"] = lambda W, q: [W["T"].withSurface(("a", "T.D")[q], W["sum"]), W["T"].withPerturbedSurface(("b", "L.a")[q], W["zer"]), W["T"]["a"].withSurface(W["zer"]), W["F"].withPerturbedSurface("m", W["bic"])]
    O["withItem"] = lambda W, q: [W["T"].withInsertedOptic(("T.G", "T.L.b")[q], B.Baffle(B.Plane(), name="new")), W["T"].withRemovedOptic(("T.G", "T.L.a")[q])]
    O["derivetrace"] = lambda W, q: W["T"].withLocallyShiftedOptic("L", sh(q)).withLocallyRotatedOptic("D", ro(q)).trace(W["tele"].copy())
    # looking
    O["items"] = lambda W, q: [list(W["T"].itemDict), list(W["F"].itemDict), W["T"][("T.L.a", "s")[q]], W["F"][("m", "E")[q]], [W["T"]["L"].itemDict, list(W["T"]._names)]]
    O["radii"] = lambda W, q: [[i.R_outer, i.R_inner] for i in S.leaves(W["T"], False)]
    O["compare"] = lambda W, q: [W["T"] == world(B, 0)["T"], W["T"] != W["F"], hash(W["T"]) == hash(world(B, 0)["T"]), repr(W["T"]), repr(W["F"]), str(W["rays"])]
    O["pickle"] = lambda W, q: [pickle.loads(pickle.dumps(W[k], (2, 4)[q])) for k in ("T", "F", "bic", "sum", "poly", "glass", "cs", "ct", "lat", "rays")]
    O["deepcopy"] = lambda W, q: [(copy.deepcopy, copy.copy)[q](W[k]) for k in ("T", "F", "bic", "zer", "inter", "sel", "cs", "ct", "lat")]

    def draw(W, q):
        ax = C23.Rec()
        for o in (W["T"], W["F"]):
            (o.draw3d if q else o.draw2d)(ax, c="k")
        return [ax.lines, ax.fills, [o.get3dmesh() for o in (W["T"]["a"], W["T"])], W["T"]["a"].getXZSlice((0, 5)[q])]

    def track(W, q):
        ax = C23.Rec()
        tf = W["T"].traceFull(W["tele"].copy())
        (B.drawTrace3d if q else B.drawTrace2d)(ax, tf, start=(None, "a")[q])
        return ax.lines
    O["draw"], O["track"] = draw, track
    # parts
    for s in ("bic", "zer", "sum"):
        O["surf:" + s] = lambda W, q, s=s: [W[s].sag(W["x"], W["y"]), W[s].normal(W["x"], W["y"]), W[s].intersect(W["rays"].copy(), coordSys=(None, W["cs"])[q])]
    O["screen"] = lambda W, q: [W["sum"].refractScreen(W["rays"].copy(), W["zer"]), W["sum"].refract(W["rays"].copy(), W["air"], (W["glass"], W["sel"])[q]), W["zer"].reflect(W["rays"].copy(), coordSys=W["cs2"])]
    O["rsplit"] = lambda W, q: W["sum"].rSplit(W["rays"].copy(), W["air"], (W["glass"], W["sumita"])[q], B.SimpleCoating(0.2, 0.7), coordSys=W["cs"])
    O["media"] = lambda W, q: [W[m].getN((np.linspace(3e-7, 1.1e-6, 7), 6.5e-7)[q]) for m in ("glass", "sel", "air", "sumita")] + [W["F"]["e"].forwardCoating.getReflect(5e-7, 0.9), W["F"]["e"].reverseCoating.getTransmit(5e-7, 0.9)]
    O["masks"] = lambda W, q: [W["poly"].contains(W["x"], W["y"]), W["inter"].contains(W["x"], W["y"]), W["poly"].containsGrid(W["x"], np.sort(W["y"])), B.obscure((W["poly"], W["inter"])[q], W["rays"].copy())]
    O["frames"] = lambda W, q: [W["cs"].shiftGlobal(sh(q)), W["cs"].shiftLocal(sh(q)), W["cs"].rotateGlobal(ro(q)), W["cs"].rotateLocal(ro(q), rotCenter=sh(q), coordSys=W["cs2"]), W["cs"].toGlobal(np.eye(3) * (1 + q)), W["cs"].toLocal(sh(q)), np.array(W["cs"].xhat), np.array(W["cs"].zhat), W["cs"].copy()]
    O["transforms"] = lambda W, q: [W["ct"].applyForward(W["rays"].copy().toCoordSys(W["cs"])), np.array(W["ct"].applyForwardArray(W["x"], W["y"], W["x"])), np.array(W["ct"].applyReverseArray(W["x"], W["y"], W["x"]))]
    O["lattice"] = lambda W, q: [W["lat"].coords * 1.0, W["lat"].array * 1.0, repr(W["lat"])]
    O["rays"] = lambda W, q: [W["rays"].positionAtTime(1.0 + q), W["rays"].phase(W["x"][:3], 2.0 + q), W["rays"].amplitude(W["x"][:3], 1.5), W["rays"].sumAmplitude(W["x"][:3], 1.5, ignoreVignetted=bool(q)), W["rays"].k, W["rays"].omega, W["rays"][2:9:2], W["rays"][4], W["rays"].copy().propagate(2.0), W["rays"].copy().toCoordSys(W["cs"]), B.concatenateRayVectors([W["rays"], W["rays"]])]
    O["parse"] = lambda W, q: B.parse.parse_optic(W["config"]) if not q else B.Optic.fromYaml(("HSC_no_obsc.yaml", "LSST_r.yaml")[int(W["T"].backDist > 1.0)])
    PR = ("postel", "zemax", "gnomonic", "stereographic", "lambert", "orthographic")

    def project(W, q):
        u, v = np.append(W["x"] * 0.1, 0.0), np.append(W["y"] * 0.1, 0.0)
        out = []
        for p in PR[q::2] if q else PR:
            d = B.utils.fieldToDirCos(u, v, projection=p)
            out += [d, B.utils.dirCosToField(*d, projection=p)]
        return out
    O["project"] = project
    O["utils"] = lambda W, q: [B.utils.hexapolar(1.0 + 0.1 * W["x"][0], (0.2, 0.0)[q], 3, 12), B.utils.hexapolar(1.0, 0.2, 3, 12, rth=bool(q)), B.utils.normalized(np.stack([W["x"], W["y"]], 1)), B.utils.bilinear_fit(W["x"], W["y"], W["x"] * 2, W["y"] + 1 + q)]
    return O


# ---------------------------------------------------------------- observation
LAZY = S.CACHES + ("R_inner", "R_outer", "coords")
def fp(B, x, path, out):
    """flat {path: digest} of everything public below x (values built lazily are additions, not changes)"""
    t = type(x)
    if isinstance(x, np.ndarray):
        out[path] = (x.dtype.str, x.shape, x.tobytes(), bool(x.flags.writeable))
    elif isinstance(x, (bytes, str, int, float, complex, bool, type(None), np.generic)):
        out[path] = (t.__name__, repr(x))
    elif isinstance(x, B.RayVector):
        out[path] = (alpha.snap(x).tobytes(), repr(x.coordSys))
    elif isinstance(x, Env):
        for k, v in x.read().items():
            out[f"{path}.{k}"] = v
    elif isinstance(x, (list, tuple)):
        out[path] = (t.__name__, len(x))
        for i, v in enumerate(x):
            fp(B, v, f"{path}[{i}]", out)
    elif isinstance(x, dict):
        out[path] = (t.__name__, tuple(map(str, x)))
        for k, v in x.items():
            fp(B, v, f"{path}[{k}]", out)
    elif (t.__module__ or "").startswith("batoid"):
        plain = isinstance(x, (B.Optic, B.CoordSys, B.Lattice, B.CoordTransform))                    # all of their state is public
        out[path] = (t.__name__,) if plain else (t.__name__, repr(x), hash(x))
        for k, v in vars(x).items():
            if not k.startswith("_") and k not in LAZY:
                fp(B, v, f"{path}.{k}", out)
    else:
        out[path] = (t.__name__, repr(x))
    return out


def digest(B, x):
    return hashlib.blake2b(repr(sorted(fp(B, x, "", {}).items())).encode(), digest_size=12).hexdigest().encode()


def diff(a, b):
    return [k for k in a if a[k] != b.get(k)][:6]


def spoil(B, x, keep, depth=0):
    """overwrite what an operation handed out, as its caller may"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size and not any(np.shares_memory(x, k) for k in keep):
            x[...] = ~x if x.dtype.kind == "b" else 7
    elif isinstance(x, B.RayVector):
        for k in alpha.FIELDS + alpha.FLAGS:
            a = getattr(x, k)
            a[...] = ~a if a.dtype.kind == "b" else 7
    elif isinstance(x, B.Lattice):
        spoil(B, x.array, keep)
    elif isinstance(x, dict):
        for v in x.values():
            spoil(B, v, keep, depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(B, v, keep, depth + 1)


def alone(B, O, letters, builder):
    """every letter in a process of its own: digest of its result"""
    out = {}
    for v, n, q in letters:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                W = builder(v)
                try:
                    d = digest(B, O[n](W, q))
                except Exception as e:
                    d = b"!" + repr(e).encode()[:3000]
                os.write(w, d)
            finally:
                os._exit(0)
        os.close(w)
        d = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            d += b
        os.close(r)
        os.waitpid(pid, 0)
        out[v, n, q] = d
    return out


def debruijn(k, n):
    """sequence of letters 0..k-1 in which every n-tuple occurs consecutively exactly once (cyclically)"""
    a, s = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                s.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return s + s[:n - 1]


def independent(c, B):
    """an element holds its parameters by value: every constructor taking arrays or lists x each argument x each way of passing it x
    overwriting what was passed afterwards"""
    xs, ys = np.linspace(-1.5, 1.5, 5), np.linspace(-2, 2, 4)
    zs = np.outer(ys**2, np.ones(5)) + 0.3 * xs / 3
    d = np.arange(20.).reshape(4, 5) / 70
    P, Q, A, C = B.Plane(), B.Quadric(10.0, -1.2), B.ObscCircle(1.0), B.ObscAnnulus(0.5, 1.2)
    its = [B.Mirror(B.Paraboloid(-20.0), name="m"), B.Detector(B.Plane(), name="D", coordSys=B.CoordSys().shiftGlobal([0, 0, 8.0]))]
    cases = {
        "Asphere": (lambda a: B.Asphere(10.0, -1.2, a), [[1e-3, 2e-4]]), "Asphere1": (lambda a: B.Asphere(10.0, -1.2, a, imin=1), [[1e-3, 2e-4]]),
        "Zernike": (lambda a: B.Zernike(a), [[0.0, 0.1, 0.2, 0.3]]), "Bicubic": (lambda x, y, z: B.Bicubic(x, y, z), [xs, ys, zs]),
        "BicubicD": (lambda p, q, r: B.Bicubic(xs, ys, zs, dzdxs=p, dzdys=q, d2zdxdys=r), [d, d + 1, d - 1]),
        "Sum": (B.Sum, [[P, Q]]), "Table": (B.TableMedium, [np.linspace(3e-7, 1e-6, 4), [1.5, 1.4, 1.3, 1.25]]),
        "Sellmeier": (B.SellmeierMedium, [[0.69, 0.4, 0.9, 0.004, 0.013, 97.9]]), "Sumita": (B.SumitaMedium, [[2.2, -0.01, 0.01, 1e-4, 1e-6, 1e-8]]),
        "Poly": (B.ObscPolygon, [[0.0, 1.0, 1.0, 0.3], [0.0, 0.0, 1.0, 2.0]]), "Union": (B.ObscUnion, [[A, C]]), "Inter": (B.ObscIntersection, [[A, C]]),
        "CoordSys": (B.CoordSys, [[0.1, 0.2, 0.3], np.array(B.RotX(0.3))]), "shift": (lambda v: B.CoordSys().rotateGlobal(B.RotX(0.2)).shiftGlobal(v), [[0.1, 0.2, 0.3]]),
        "lshift": (lambda v: B.CoordSys().shiftLocal(v), [[0.1, 0.2, 0.3]]), "rot": (lambda r, v: B.CoordSys().shiftGlobal([1, 2, 3.0]).rotateGlobal(r, v), [np.array(B.RotX(0.3)), [0.1, 0.2, 0.3]]),
        "Compound": (lambda i: B.CompoundOptic(i, name="T"), [its]), "optshift": (lambda v: B.CompoundOptic(its, name="T").withGlobalShift(v), [[0.0, 0.1, 0.2]]),
        "optrot": (lambda r, v: B.CompoundOptic(its, name="T").withLocallyRotatedOptic("m", r, v), [np.array(B.RotY(0.1)), [0.0, 0.1, 0.2]]),
    }

    def ways(v):
        if isinstance(v, list) and not isinstance(v[0], float):
            return {"list": lambda: list(v)}
        a = np.asarray(v, float)
        w = {"list": lambda: a.tolist(), "array": lambda: a.copy(), "fortran": lambda: np.array(a, order="F"), "strided": lambda: np.repeat(a, 2, axis=-1)[..., ::2]}
        return w

    def spoil(x):
        if isinstance(x, np.ndarray):
            x[...] = x[::-1] * 7 + 0.25
        elif isinstance(x[0], list):
            for q in x:
                spoil(q)
        else:
            x.reverse()
            x[0] = x[0] * 7 + 0.25 if isinstance(x[0], float) else x[1]

    for nm, (mk, args) in cases.items():
        for combo in itertools.product(*[ways(a).items() for a in args]):
            if len(set(h for h, _ in combo) - {"list"}) > 1 and len(combo) > 1:
                continue
            key = f"indep:{nm}:{'/'.join(h for h, _ in combo)}"
            with c.case(key):
                arr = [f() for _, f in combo]
                o, ref_ = mk(*arr), mk(*[f() for _, f in combo])
                h, r, b = hash(o), repr(o), C13.behave(B, o)
                for k in range(len(arr)):
                    spoil(arr[k])
                    b1 = C13.behave(B, o)
                    c.true(f"{key}#{k}", C13.same(b, b1) and hash(o) == h and repr(o) == r and o == ref_, "an element changes when the array or list it was built from is changed afterwards",
                           behaves=C13.same(b, b1), hash=hash(o) == h, repr=[r[:200], repr(o)[:200]])
                    c.trans()
                c.true(key + "#attr", o == copy.deepcopy(ref_) and C13.same(C13.behave(B, copy.deepcopy(o)), b), "its copies have changed")
                c.states.add(key)
                c.trace()
                c.outcome("by value")


def calls(B):
    """name -> (f(W, **arguments), base arguments, one alternative per argument): for memos whose key misses a single argument"""
    V = B.RayVector
    beam = dict(theta_x=0.004, theta_y=-0.006, wavelength=5e-7, projection="postel")
    beam2 = dict(theta_x=-0.003, theta_y=0.002, wavelength=6.2e-7, projection="gnomonic")
    G = B.ConstMedium(1.1)
    stop = B.Interface(B.Plane(), coordSys=B.CoordSys().shiftGlobal([0, 0, 0.1]))
    src = dict(backDist=2.0, medium=G, stopSurface=stop, source=np.array([0.0, 0.1, 10.0]), flux=2.5)
    dirs = dict(dirCos=np.array([0.001, 0.002, -0.9]))
    T = lambda f: lambda W, **k: f(W["T"], **k)
    L = {
        "asGrid": (lambda W, **k: V.asGrid(optic=W["T"], **k), dict(beam, nx=4, lx=0.05), dict(beam2, nx=5, lx=0.04, ny=3, ly=0.03, **src, **dirs)),
        "asPolar": (lambda W, **k: V.asPolar(optic=W["T"], **k), dict(beam, nrad=3, naz=12, outer=0.02, inner=0.01), dict(beam2, nrad=4, naz=18, outer=0.03, inner=0.005, **src, **dirs)),
        "asSpokes": (lambda W, **k: V.asSpokes(optic=W["T"], **k), dict(beam, rings=3, spokes=5, outer=0.02, inner=0.01, spacing="uniform"), dict(beam2, rings=4, spokes=6, outer=0.03, inner=0.005, spacing="GQ", **src, **dirs)),
        "fromStop": (lambda W, **k: V.fromStop(optic=W["T"], **k), dict(beam, x=0.01, y=0.02), dict(beam2, x=0.02, y=0.01, **src, **dirs)),
        "angles": (lambda W, **k: V.fromFieldAngles(W["x"] * 0.01, W["y"] * 0.01, optic=W["T"], **k), dict(wavelength=5e-7, projection="postel", x=0.01, y=0.0), dict(wavelength=6e-7, projection="gnomonic", x=0.0, y=0.01, backDist=2.0, medium=G, stopSurface=stop, flux=2.0)),
        "wavefront": (T(B.wavefront), dict(beam, nx=5, reference="chief"), dict(beam2, nx=6, sphereRadius=1.7, reference="mean")),
        "huygens": (T(B.huygensPSF), dict(beam, nx=5, dx=2e-6, dy=2e-6, nxOut=3, reference="chief"), dict(beam2, nx=6, dx=3e-6, dy=3e-6, nxOut=4, reference="mean")),
        "fft": (T(B.fftPSF), dict(beam, nx=6, pad_factor=2, reference="chief"), dict(beam2, nx=8, pad_factor=3, sphereRadius=1.7, reference="mean")),
        "spot": (T(B.spot), dict(beam, nx=5, reference="chief"), dict(beam2, nx=6, reference="mean")),
        "zernike": (T(B.zernike), dict(beam, nx=8, jmax=6, eps=0.0, reference="chief"), dict(beam2, nx=7, jmax=10, eps=0.2, sphereRadius=1.7, reference="mean")),
        "zernikeGQ": (T(B.zernikeGQ), dict(beam, rings=3, jmax=6, eps=0.0, reference="chief"), dict(beam2, rings=4, spokes=9, jmax=10, eps=0.2, sphereRadius=1.7, reference="mean")),
        "zernikeTA": (T(B.zernikeTA), dict(beam, nrad=3, naz=12, jmax=6, eps=0.0, focal_length=2.4, reference="chief"), dict(beam2, nrad=4, naz=18, jmax=8, eps=0.2, focal_length=2.0, reference="mean")),
        "zernikeXY": (T(B.zernikeXYAberrations), dict(beam, nrad=3, naz=12, jmax=6, eps=0.0, reference="chief"), dict(beam2, nrad=4, naz=18, jmax=8, eps=0.2, reference="mean")),
        "dkdu": (T(B.analysis.dkdu), dict(beam, nrad=3, naz=12), dict(beam2, nrad=4, naz=18)),
        "drdth": (T(B.drdth), dict(beam, nrad=3, naz=12), dict(beam2, nrad=4, naz=18)),
        "dthdr": (T(B.dthdr), dict(beam, nrad=3, naz=12), dict(beam2, nrad=4, naz=18)),
        "double": (lambda W, **k: B.doubleZernike(W["T"], **k), dict(field=0.004, wavelength=5e-7, rings=2, spokes=3, kmax=3, jmax=4), dict(field=0.003, wavelength=6e-7, rings=3, spokes=5, kmax=2, jmax=5, eps=0.2)),
        "pupil": (lambda W, **k: B.exitPupilPos(W["T"], **k), dict(wavelength=5e-7), dict(wavelength=6e-7, smallAngle=1e-4)),
        "focal": (T(B.analysis.focalLength), dict(beam, nrad=2, naz=6), dict(beam2, nrad=3, naz=12)),
        "hexapolar": (lambda W, **k: B.utils.hexapolar(**k), dict(outer=1.0, inner=0.2, nrad=3, naz=12), dict(outer=1.1, inner=0.1, nrad=4, naz=18, rth=True)),
        "trace": (lambda W, **k: W["F"].trace(W["rays"].copy(), **k), dict(reverse=False), dict(reverse=True, path=["e", "f", "m"])),
        "full": (lambda W, **k: list(W["F"].traceFull(W["rays"].copy(), **k).items()), dict(reverse=False), dict(reverse=True, path=["e", "f", "m"])),
        "split": (lambda W, **k: W["F"].traceSplit(W["rays"].copy(), **k), dict(minFlux=1e-1, reverse=False), dict(minFlux=5e-2, reverse=True)),
        "grid": (lambda W, xs, ys: W["poly"].containsGrid(xs, ys), dict(xs=np.linspace(-1, 1, 4), ys=np.linspace(-1, 1, 3)), dict(xs=np.linspace(-1, 0.9, 4), ys=np.linspace(-1, 0.9, 3))),
    }
    for s in ("T", "F"):
        for w, al in (("2d", dict(only=B.Detector, c="r")), ("3d", dict(c="r"))):
            def drawn(W, s=s, w=w, **k):
                ax = C23.Rec()
                getattr(W[s], "draw" + w)(ax, **k)
                return [ax.lines, ax.fills, ax.kw]
            L[f"draw{w}:{s}"] = (drawn, dict(c="k"), al)
    for w, t in (("2d", B.drawTrace2d), ("3d", B.drawTrace3d)):
        def tracks(W, t=t, **k):
            ax = C23.Rec()
            t(ax, W["T"].traceFull(W["tele"].copy()), **k)
            return [ax.lines, ax.kw]
        L["track" + w] = (tracks, dict(c="k"), dict(start="b", end="s", globalSys=B.CoordSys().shiftGlobal([0, 0, 1.0]), c="r"))
    return L


def variants(B, W):
    """systems that differ from W's in exactly one number"""
    T, F = W["T"], W["F"]
    R = {"same": (T, F)}
    for n in ("L.a", "L.b", "D", "G.s", "G.p"):
        R["shift:" + n] = (T.withGloballyShiftedOptic(n, [0, 0, 1e-3]), F)
        R["rot:" + n] = (T.withLocallyRotatedOptic(n, B.RotX(1e-3)), F)
        R["surface:" + n] = (T.withPerturbedSurface(n, B.Quadric(50.0, 0.1)), F)
    for n in ("E.e", "E.f", "m"):
        R["Fshift:" + n] = (T, F.withGloballyShiftedOptic(n, [0, 0, 1e-3]))
        R["Fsurface:" + n] = (T, F.withPerturbedSurface(n, B.Quadric(50.0, 0.1)))
    def re(o, **k):
        d = {a: getattr(o, a) for a in ("name", "coordSys", "inMedium", "outMedium", "stopSurface", "backDist", "sphereRadius", "pupilSize", "pupilObscuration") if hasattr(o, a)}
        return B.CompoundOptic(o.items, **{**d, **k})
    for k, v in dict(coordSys=B.CoordSys().shiftGlobal([0, 0, 0.1]), inMedium=B.ConstMedium(1.01), stopSurface=B.Interface(B.Plane(), name="stop", coordSys=B.CoordSys().shiftGlobal([0, 0, 0.03])),
                     backDist=1.3, sphereRadius=2.2, pupilSize=0.045, pupilObscuration=0.3).items():
        R["attr:" + k] = (re(T, **{k: v}), F)

    def swap(o, name, f):
        """o with the leaf called name replaced by f(copy of it)"""
        if not hasattr(o, "items"):
            if o.name != name:
                return o
            n = copy.copy(o)
            n.__dict__.pop("R_outer", None)
            n.__dict__.pop("R_inner", None)
            f(n)
            return n
        n = copy.copy(o)
        n.__dict__.pop("itemDict", None)
        n.__dict__.pop("_names", None)
        n.items = tuple(swap(i, name, f) for i in o.items)
        return n
    def attr(a, v):
        def g(o):
            setattr(o, a, v)
        return g
    c = B.SimpleCoating(0.3, 0.6)
    R["coat"] = (T, swap(F, "e", attr("forwardCoating", c)))
    R["coat2"] = (T, swap(F, "f", attr("reverseCoating", c)))
    R["obsc"] = (swap(T, "b", attr("obscuration", B.ObscAnnulus(0.22, 0.31))), swap(F, "f", attr("obscuration", B.ObscNegation(B.ObscCircle(0.8)))))
    R["noobsc"] = (swap(T, "a", attr("obscuration", None)), swap(F, "f", attr("obscuration", None)))
    R["medium"] = (swap(swap(T, "a", attr("outMedium", B.ConstMedium(1.5))), "b", attr("inMedium", B.ConstMedium(1.5))), swap(swap(F, "e", attr("outMedium", B.ConstMedium(1.4))), "f", attr("inMedium", B.ConstMedium(1.4))))
    R["screen"] = (swap(T, "s", attr("screen", B.Zernike([0, 0, 0, 0, 2e-6, 2e-6, -1e-6], R_outer=0.1))), F)
    R["skip"] = (swap(T, "s", attr("skip", True)), swap(F, "m", attr("skip", True)))
    return R


def single(c, B, O):
    """everything equal but one argument, or one number of the system: every ordered pair around a common base"""
    def go(tag, L, mk):
        """L: letters; mk(letter) -> thunk.  Results alone in processes of their own, then base/letter/base histories in this one"""
        base = {}
        for l in L:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    try:
                        d = digest(B, mk(l)())
                    except Exception as e:
                        d = b"!" + repr(e).encode()[:2000]
                    os.write(w, d)
                finally:
                    os._exit(0)
            os.close(w)
            d = b""
            while True:
                b = os.read(r, 65536)
                if not b:
                    break
                d += b
            os.close(r)
            os.waitpid(pid, 0)
            base[l] = d
        for l in L:
            c.true(f"{tag}:{l}:alone", not base[l].startswith(b"!"), "fails on a fresh system: " + base[l][:300].decode("latin1"))
        live = {l: mk(l) for l in L}
        for i in debruijn(len(L), 2) if len(L) <= 16 or not c.quick else [j for k in range(1, len(L)) for j in (0, k)] + list(range(len(L))) + list(range(len(L)))[::-1]:
            l = L[i]
            key = f"{tag}:{l}"
            c.beat(key)
            with c.case(key):
                c.true(key, digest(B, live[l]()) == base[l], "another result than alone, after the same operation with one thing different")
            c.trans()
        c.state(tag)
        c.trace(len(L))
        c.outcome("single", len(L))
        return len(set(base.values()))

    W = world(B, 0)
    for n, (f, a0, alt) in calls(B).items():
        letters = [""] + list(alt)
        nd = go(f"arg:{n}", letters, lambda l, f=f, a0=a0, alt=alt: (lambda: f(W, **(a0 if not l else {**a0, l: alt[l]}))))
        c.extra.setdefault("distinct_by_argument", {})[n] = f"{nd}/{len(letters)}"
    R = variants(B, W)
    Ws = {k: {**W, "T": t, "F": f} for k, (t, f) in R.items()}
    letters = list(R)
    for n in O:
        nd = go(f"sys:{n}", letters, lambda l, n=n: (lambda: O[n](Ws[l], 0)))
        c.extra.setdefault("distinct_by_system", {})[n] = f"{nd}/{len(letters)}"


def run(c, B):
    with contextlib.redirect_stdout(io.StringIO()) as noise:
        explore(c, B)
    del noise


def explore(c, B):
    c.method = "explicit exploration of operation histories on the real library; oracle = the same operation alone in a forked process"
    B.global_vars._batoid_max_threads = 1
    old = np.seterr(all="warn")                                          # a state in which every change of it shows
    warnings.filterwarnings("ignore", category=RuntimeWarning)
    O = ops(B)
    names = list(O)
    build = lambda v: world(B, v)
    letters = [(v, n, q) for n in names for v in (0, 1, 2) for q in (0, 1) if v < 2 or q == 0]
    with c.case("alone"):
        base = alone(B, O, letters, build)
        for l, d in base.items():
            c.true(f"alone:{l}", not d.startswith(b"!"), "the operation fails on a fresh system: " + d[:300].decode("latin1"))
        again = alone(B, O, letters, build)
        for l in letters:
            c.true(f"alone:{l}#twice", base[l] == again[l], "two runs of the same operation on equally built systems differ")
            c.trans(2)
            c.state(l)
        c.outcome("distinct results", len(set(base.values())))
    # letters that must differ do: the alphabet can tell arguments and systems apart
    c.extra["letters"] = len(letters)
    c.extra["distinct"] = len(set(base.values()))

    def histories(tag, seq_of, mode):
        """every sequence on a world of its own"""
        for seq in seq_of:
            key = tag + ":" + "/".join(f"{n}.{q}@{v}" for v, n, q in seq)
            with c.case(key):
                Ws = {v: build(v) for v in {l[0] for l in seq}}
                f0 = {v: fp(B, W, f"world{v}", {}) for v, W in Ws.items()} if mode != "spoil" else None
                held = []
                for i, (v, n, q) in enumerate(seq):
                    r = O[n](Ws[v], q)
                    d = digest(B, r)
                    c.true(f"{key}#{i}", d == base[v, n, q], "an operation gives another result because of what was done before")
                    held.append((r, d))
                    c.trans()
                    if mode == "spoil" and i + 1 < len(seq):
                        spoil(B, r, ())
                if mode != "spoil":
                    for i, (r, d) in enumerate(held[:-1]):
                        c.true(f"{key}#held{i}", digest(B, r) == d, "a result already handed out changed during a later operation")
                    for v, W in Ws.items():
                        df = diff(f0[v], fp(B, W, f"world{v}", {}))
                        c.true(f"{key}#world{v}", not df, "operations changed the objects they worked on", changed=df)
                c.state(key)
                c.trace()
                c.outcome(tag)

    independent(c, B)
    single(c, B, O)
    # 1. singles and all ordered pairs in one variant on a fresh world, across argument sets
    histories("one", ([l] for l in letters), "watch")
    n0 = [(0, n, 0) for n in names]
    histories("pair", ([a, b] for a, b in itertools.product(n0, n0)), "watch")
    # 2. the same operation twice with everything else different (partial memo keys): all ordered pairs of its five letters
    histories("same", ([a, b] for n in names for a, b in itertools.product([l for l in letters if l[1] == n], repeat=2)), "watch")
    # 3. results overwritten by the caller
    sp = [n for n in names if n not in ("withShift", "withRot", "withShifted", "withRotated", "withSurface", "withItem", "items", "parse", "pickle", "deepcopy", "compare")]
    histories("spoil", ([(v, a, q), (v, b, q)] for a in sp for b in names for v, q in ((1, 1),)), "spoil")
    # 4. one long-lived pair of worlds: every ordered pair of letters happens consecutively
    long = [(v, n, q) for n in names for v, q in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 0))] if not c.quick else [(i % 2, n, (i // 2) % 2) for i, n in enumerate(names)] + [((i + 1) % 2, n, (i // 3) % 2) for i, n in enumerate(names)]
    Ws = {v: build(v) for v in (0, 1, 2)}
    f0 = {v: fp(B, W, f"world{v}", {}) for v, W in Ws.items()}

    def live(tag, seq, alphabet):
        prev = None
        for i, j in enumerate(seq):
            v, n, q = alphabet[j]
            key = f"{tag}:{i}:{n}.{q}@{v}"
            c.beat(key)
            try:
                d = digest(B, O[n](Ws[v], q))
            except Exception as e:
                c.fail(key + "#raised", f"fails on a used system: {e!r}", after=prev)
                d = base[v, n, q]
            if d != base[v, n, q]:
                c.fail(f"{tag}:{n}.{q}@{v}", "an operation on a used system gives another result than on a fresh one", position=i, after=prev)
            if i % 97 == 0 or i == len(seq) - 1:
                for w, W in Ws.items():
                    df = diff(f0[w], fp(B, W, f"world{w}", {}))
                    c.true(f"{tag}:world{w}:{n}", not df, "a long history changed the objects it worked on", changed=df)
            prev = (n, q, v)
            c.trans()
        c.trace()
        c.outcome(tag, len(seq))
    live("live2", debruijn(len(long), 2), long)
    if not c.quick:
        cheap = [(0, n, 0) for n in names]
        live("live3", debruijn(len(cheap), 3), cheap)
    c.extra["alphabet"] = len(long)
    np.seterr(**old)
