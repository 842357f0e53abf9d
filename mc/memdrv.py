"""Child process of C22: runs the enumeration of call shapes on the AddressSanitizer/UBSan build.

usage: memdrv.py VARIANT FILL TIER SHARD NSHARDS START OUT
Writes to OUT:  "B i key" before a case, "E i digest" after it, "V i key message" for an input that was modified.
Two runs that differ only in what fresh memory contains (FILL, and VARIANT's stack fill) must produce the same digests."""
import copy
import gc
import hashlib
import itertools
import os
import pickle
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
CANARY = 0xC5


class Case:
    """what one call shape may use: guarded inputs, a digest of its results"""
    def __init__(self, fill):
        self.guards, self.out, self.fill = [], [], fill

    def arr(self, a, dtype=float, layout="C"):
        """the values of a in memory surrounded by canaries; remembered, to be compared after the case"""
        a = np.asarray(a, dtype=dtype)
        if layout == "S":                     # strided view
            sh = a.shape[:-1] + (a.shape[-1] * 2,)
            v = self.block(sh, a.dtype)[..., ::2]
        elif layout == "R":                   # reversed view
            v = self.block(a.shape, a.dtype)[..., ::-1]
        elif layout == "F":
            v = self.block(a.shape[::-1], a.dtype).T
        else:
            v = self.block(a.shape, a.dtype)
        v[...] = a
        self.guards[-1] = (self.guards[-1][0], self.guards[-1][0].copy())
        if layout == "RO":
            v.flags.writeable = False
        return v

    def block(self, shape, dtype):
        n = int(np.prod(shape, dtype=int)) * dtype.itemsize
        raw = np.full(n + 128, CANARY, np.uint8)
        self.guards.append((raw, None))
        return raw[64:64 + n].view(dtype).reshape(shape)

    def put(self, *xs):
        for x in xs:
            if isinstance(x, (list, tuple)):
                self.put(*x)
            elif hasattr(x, "_rv"):
                self.put(*[np.array(getattr(x, f)) for f in ("x", "y", "z", "vx", "vy", "vz", "t", "wavelength", "flux", "vignetted", "failed")])
            elif isinstance(x, dict):
                self.put(*[v for k, v in sorted(x.items())])
            elif isinstance(x, (str, bool, type(None))):
                self.out.append(repr(x).encode())
            else:
                a = np.array(x)
                if a.dtype.kind in "fc":
                    a = np.where(np.isnan(a), np.nan, a) + 0.0
                self.out.append(str((a.shape, a.dtype.str)).encode() + a.tobytes())

    def changed(self):
        return [i for i, (raw, was) in enumerate(self.guards) if was is not None and not np.array_equal(raw, was)]

    def digest(self):
        h = hashlib.blake2b(digest_size=10)
        for o in self.out:
            h.update(o)
            h.update(b"|")
        return h.hexdigest()

    def refuses(self, f, *exc):
        """f() either works or raises cleanly"""
        try:
            self.put(f())
        except exc or (ValueError, TypeError, RuntimeError, IndexError, AssertionError) as e:
            self.put(type(e).__name__)


def pollute(fill):
    """numpy keeps freed small blocks; make what they contain differ between the two runs"""
    keep = [np.full(n, fill, np.uint8) for n in list(range(1, 64)) + list(range(64, 1025, 8)) for _ in range(8)]
    del keep


def rays(B, n, k=0, coordSys=None):
    i = np.arange(n)
    a = 2.4 * i + k
    r = 0.1 + 1.1 * ((i * 0.618034) % 1)
    q = (i * 5 + k) % 9
    x = np.where(q == 3, r * np.cos(a) + 50, r * np.cos(a))
    vx, vy = 0.04 * np.cos(i), 0.03 * np.sin(2 * i)
    vz = np.where(q == 4, 1, -1) * np.sqrt(1 - vx**2 - vy**2)
    kw = {} if coordSys is None else dict(coordSys=coordSys)
    return B.RayVector(x, r * np.sin(a), 2.0 + 0 * r, vx, vy, vz, t=0.1 * i, wavelength=(400 + 50.0 * (i % 7)) * 1e-9, flux=1 + 0.1 * i, vignetted=q == 5, failed=q == 6, **kw)


def ulps(v):
    return [v, np.nextafter(v, -np.inf), np.nextafter(v, np.inf)]


BAD = [np.nan, np.inf, -np.inf, 1e300, -1e300, 1e18, -1e18, 3e9, -3e9, 0.0, -0.0, 5e-324]


def cases(B, quick):
    """yields (key, function(case))"""
    import alpha
    sizes = (0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33) if quick else tuple(range(0, 20)) + (31, 32, 33, 63, 64, 65, 127, 128, 129, 257)
    cs1 = B.CoordSys().shiftGlobal([0.1, -0.2, 0.3]).rotateLocal(B.RotX(0.1))
    surf = alpha.surfaces(B)
    med = alpha.media(B)
    obs = alpha.obscurations(B)
    coat = B.SimpleCoating(0.2, 0.7)

    # --- ray vectors: every operation at every length
    def every_op(c, get):
        w = get()
        c.put(w, w.positionAtTime(1.0), w.phase([0, 0, 1e-7], 0.5), w.amplitude([0.1, 0, 0], 0.5), w.sumAmplitude([0, 0.1, 0], 0.0), w.k, w.omega)
        c.put(get().propagate(2.0), get().toCoordSys(cs1), B.Sphere(5.0).intersect(get()), B.Paraboloid(6.0).reflect(get(), coordSys=cs1, coating=coat),
              B.Quadric(7.0, 0.3).refract(get(), med["vac"], med["sellmeier"]), B.Plane().rSplit(get(), med["vac"], med["table"], coat),
              B.Plane().refractScreen(get(), B.Paraboloid(100.0)), B.obscure(obs["neg"], get()))

    def rvcase(n, k):
        def f(c):
            rv = rays(B, n, k)
            c.put(rv, rv.r, rv.v, rv.k, rv.omega, len(rv))
            for t in (0.0, 3.5):
                c.put(rv.positionAtTime(t))
                r = c.arr([0.1, 0.2, 0.3])
                c.put(rv.phase(r, t), rv.amplitude(r, t), rv.sumAmplitude(r, t), rv.sumAmplitude(r, t, False))
            c.put(rv.copy().propagate(7.0), rv.copy().toCoordSys(cs1), rv == rv.copy(), rv == rays(B, n + 1, k), rv != rays(B, n, k + 1))
            c.put(B.concatenateRayVectors([rv, rv]), B.concatenateRayVectors([rv]), B.concatenateRayVectors([rv, rays(B, 0), rays(B, 3)]))
            c.put(pickle.loads(pickle.dumps(rv)))
            t = B.CoordTransform(B.CoordSys(), cs1)
            c.put(t.applyForward(rv.copy()), t.applyReverse(rays(B, n, k, cs1)))
            for s in (slice(None), slice(1, None), slice(None, -1), slice(None, None, 2), slice(None, None, -1), slice(2, 2), slice(-2, None),
                      slice(None, None, -2), np.arange(n)[::-1], np.arange(n) % 2 == 0, [], np.array([0] * min(n, 1) * 3, int)):
                every_op(c, lambda: rv[s])
            every_op(c, lambda: copy.deepcopy(rv))
            every_op(c, lambda: B.concatenateRayVectors([rv[::-1], rv]))
            every_op(c, lambda: pickle.loads(pickle.dumps(rv[::-1])))
            every_op(c, lambda: B.RayVector(rv.x[::-1], rv.y[::-1], rv.z[::-1], rv.vx[::-1], rv.vy[::-1], rv.vz[::-1], rv.t[::-1], rv.wavelength[::-1],
                                            rv.flux[::-1], rv.vignetted[::-1], rv.failed[::-1]))
            if n:
                for i in (0, n - 1, -1, -n):
                    c.put(rv[i], rv[np.int64(i)])
                for i in (n, -n - 1):
                    c.refuses(lambda: rv[i])
        return f
    for n, k in itertools.product(sizes, (0, 1)):
        yield f"rays:{n}:{k}", rvcase(n, k)

    # --- construction: which arguments are arrays, and how they are laid out
    names = ("x", "y", "z", "vx", "vy", "vz", "t", "wavelength", "flux", "vignetted", "failed")

    def mkcase(n, which, lay, dt):
        def f(c):
            kw = {}
            for q, nm in enumerate(names):
                v = np.arange(n) * 0.25 + q
                if nm in ("vignetted", "failed"):
                    v, d = (np.arange(n) + q) % 3 == 0, bool
                else:
                    d = dt
                kw[nm] = c.arr(v, d, lay) if (which >> q) & 1 else (bool(q % 2) if d is bool else 0.5 * q + 1)
            rv = B.RayVector(**kw)
            c.put(rv)
            rv.propagate(3.0)
            B.Sphere(5.0).reflect(rv, coordSys=cs1)
            c.put(rv)
            rv.vignetted[:] = True
            c.put(rv)
        return f
    every = [1 << q for q in range(11)] + [(1 << 11) - 1, 0b111, 0b111000, 0b11000000000, 0b10101010101, 0]
    for n, which, lay, dt in itertools.product((0, 1, 2, 5, 9), every, ("C", "S", "R", "RO"), (float, "f4", "i4", ">f8")):
        if quick and dt != float and (lay != "C" or which not in (2047, 0b111)):
            continue
        yield f"construct:{n}:{which}:{lay}:{np.dtype(dt).str}", mkcase(n, which, lay, dt)

    # --- surfaces
    def scase(s, n):
        def f(c):
            S = surf[s][0]
            for k in (0, 1):
                for cs in (None, cs1):
                    for ct in (None, coat):
                        c.put(S.intersect(rays(B, n, k), coordSys=cs, coating=ct), S.reflect(rays(B, n, k), coordSys=cs, coating=ct), S.refract(rays(B, n, k), med["const"], med["vac"], coordSys=cs, coating=ct))
                    c.put(S.rSplit(rays(B, n, k), med["vac"], med["table"], coat, coordSys=cs))
                    c.put(S.refractScreen(rays(B, n, k), surf["zernike"][0], coordSys=cs))
                    c.put(surf["plane"][0].refractScreen(rays(B, n, k), S, coordSys=cs))
        return f
    for s, n in itertools.product(surf, sizes):
        yield f"surface:{s}:{n}", scase(s, n)

    def qcase(s, shape, lay):
        def f(c):
            S = surf[s][0]
            m = int(np.prod(shape, dtype=int))
            x = c.arr(np.linspace(-1.2, 1.3, m).reshape(shape), layout=lay)
            y = c.arr(np.linspace(0.9, -1.1, m).reshape(shape), layout=lay)
            c.put(S.sag(x, y), S.normal(x, y), S.sag(x, 0.3), S.normal(0.2, y), S.sag(0.1, 0.2), S.normal(0.1, 0.2))
        return f
    for s, shape, lay in itertools.product(surf, ((0,), (1,), (2,), (5,), (17,), (2, 3), (3, 1), (0, 3), (2, 2, 2), (1, 1)), ("C", "S", "R", "F", "RO")):
        yield f"query:{s}:{'x'.join(map(str, shape))}:{lay}", qcase(s, shape, lay)

    # --- tables: every size, every node, both sides of it, and far outside
    def bicase(nx, ny, der, pol, lay):
        def f(c):
            xs, ys = c.arr(np.arange(nx) * 0.5 - 0.75), c.arr(np.arange(ny) * 0.25 + 0.125)
            A = [c.arr(np.cos(np.arange(nx * ny) * (k + 1.0)).reshape(ny, nx), layout=lay) for k in range(4)]
            S = B.Bicubic(xs, ys, A[0], *(A[1:] if der else []), nanpolicy=pol)
            qx = sorted({v for x in np.arange(nx) * 0.5 - 0.75 for v in ulps(x)} | {-0.5, 0.11, 1e3, -1e3})
            qy = sorted({v for y in np.arange(ny) * 0.25 + 0.125 for v in ulps(y)} | {0.3, 1e3, -1e3})
            X, Y = [q.ravel() for q in np.meshgrid(qx + BAD, qy + BAD)]
            X, Y = c.arr(X), c.arr(Y)
            c.put(S.sag(X, Y), S.normal(X, Y))
            ok = np.isfinite(X) & np.isfinite(Y)
            rv = B.RayVector(X[ok], Y[ok], 3.0, 0.0, 0.0, -1.0, wavelength=5e-7)
            c.put(S.intersect(rv.copy()), S.reflect(rv.copy()), S.refract(rv.copy(), med["vac"], med["const"]))
            rv = B.RayVector(X, Y, 3.0, 0.1, -0.1, -1.0, wavelength=5e-7)
            c.put(S.intersect(rv.copy()))
            c.put(B.Plane().refractScreen(B.RayVector(X[ok], Y[ok], 3.0, 0.0, 0.0, -1.0, wavelength=5e-7), S))
            c.put(pickle.loads(pickle.dumps(S)).sag(X, Y), copy.deepcopy(S).normal(X, Y))
        return f
    for nx, ny, der, pol, lay in itertools.product((2, 3, 4, 5) if quick else range(2, 9), (2, 3, 4, 6) if quick else range(2, 9), (False, True), ("nan", "zero"), ("C", "S", "F", "R")):
        if quick and lay != "C" and (nx, ny) not in ((2, 3), (4, 3)):
            continue
        yield f"bicubic:{nx}x{ny}:{int(der)}:{pol}:{lay}", bicase(nx, ny, der, pol, lay)

    def tabcase(n, lay, dt):
        def f(c):
            w = np.arange(n) * 1e-7 + 3e-7
            M = B.TableMedium(c.arr(w, dt, lay), c.arr(1.3 + 0.01 * np.cos(np.arange(n)), dt, lay))
            q = [v for x in w for v in ulps(x)] + [float(np.float32(x)) for x in w] + [2e-7, 1e-6 * n, 3.5e-7] + BAD
            Q = c.arr(q)
            c.put(M.getN(Q), [M.getN(v) for v in q])
            N = B.TableMedium([4e-7, 5e-7], [1.3, 1.4])
            for v in q:
                rv = B.RayVector([0.1, 0.2], 0.1, 1.0, 0.0, 0.1, -1.0, wavelength=v)
                c.put(B.Sphere(5.0).refract(rv.copy(), M, N), B.Sphere(5.0).rSplit(rv.copy(), M, N, coat))
            c.put(pickle.loads(pickle.dumps(M)).getN(Q))
        return f
    for n, lay, dt in itertools.product(range(2, 7 if quick else 14), ("C", "S", "R", "RO"), (float, "f4")):
        if lay == "R":
            continue
        yield f"table:{n}:{lay}:{np.dtype(dt).str}", tabcase(n, lay, dt)

    def medcase(m):
        def f(c):
            q = c.arr(BAD + [3e-7, 5e-7, 1.2e-6])
            c.put(med[m].getN(q), med[m].getN(5e-7), med[m].getN(c.arr([[4e-7, 5e-7]])), med[m].getN(c.arr([])))
        return f
    for m in med:
        yield f"medium:{m}", medcase(m)

    # --- polynomials
    def zcase(j, inner, off):
        def f(c):
            for pad in (0, 3):
                Z = B.Zernike(c.arr(0.01 * np.cos(np.arange(j + 1)) * (np.arange(j + 1 + pad) < j + 1)[:j + 1]), R_outer=1.5, R_inner=inner, **({} if not off else dict(x_origin=0.1, y_origin=-0.2)))
                x, y = c.arr(np.linspace(-1.6, 1.6, 7)), c.arr(np.linspace(1.0, -1.2, 7))
                c.put(Z.sag(x, y), Z.normal(x, y), Z.sag(c.arr(BAD), 0.1), Z.normal(c.arr(BAD), c.arr(BAD)))
                c.put(Z.intersect(rays(B, 5)), Z.refract(rays(B, 5), med["vac"], med["const"]))
                c.put(pickle.loads(pickle.dumps(Z)).normal(x, y))
        return f
    for j, inner, off in itertools.product(range(1, 29 if quick else 67), (0.0, 0.5), (False, True)):
        yield f"zernike:{j}:{inner}:{int(off)}", zcase(j, inner, off)

    def acase(n, imin, lay, dt):
        def f(c):
            A = B.Asphere(9.0, -0.3, c.arr([1e-3 * (-0.5)**k for k in range(n)], dt, lay), **({} if imin is None else dict(imin=imin)))
            x, y = c.arr(np.linspace(-1.6, 1.6, 7)), c.arr(np.linspace(1.0, -1.2, 7))
            c.put(A.sag(x, y), A.normal(x, y), A.sag(c.arr(BAD), 0.1), A.intersect(rays(B, 5)), A.reflect(rays(B, 5)), pickle.loads(pickle.dumps(A)).normal(x, y), copy.copy(A).sag(x, y))
        return f
    for n, imin, lay, dt in itertools.product(range(0, 7 if quick else 14), (None, 1, 2, 3, 5), ("C", "S", "R"), (float, "f4")):
        yield f"asphere:{n}:{imin}:{lay}:{np.dtype(dt).str}", acase(n, imin, lay, dt)

    def sumcase(ks):
        def f(c):
            L = [surf[k][0] for k in ks]
            S = B.Sum(L)
            x, y = c.arr(np.linspace(-1.2, 1.3, 5)), c.arr(np.linspace(0.9, -1.1, 5))
            c.put(S.sag(x, y), S.normal(x, y), S.intersect(rays(B, 5)), S.reflect(rays(B, 9)))
            L.clear()
            c.put(S.sag(x, y), S.normal(x, y))
        return f
    some = ("plane", "sphere+", "asphere", "zernike", "bicubic", "sum")
    for m in (1, 2) if quick else (1, 2, 3):
        for ks in itertools.product(some, repeat=m):
            yield f"sum:{','.join(ks)}", sumcase(ks)

    # --- obscurations
    def ocase(o, n, shape):
        def f(c):
            x, y = c.arr(np.linspace(-1.2, 1.3, n).reshape(shape)), c.arr(np.linspace(0.9, -1.1, n).reshape(shape))
            c.put(obs[o].contains(x, y), obs[o].contains(0.1, 0.2), obs[o].contains(c.arr(BAD), 0.1), obs[o].obscure(rays(B, n)))
        return f
    for o, n in itertools.product(obs, (0, 1, 2, 3, 8, 9)):
        for shape in {(n,), (n, 1), (1, n)} if n else {(0,), (0, 2)}:
            yield f"obsc:{o}:{shape}", ocase(o, n, shape)

    def pcase(n, lay, dt, op):
        def f(c):
            a = np.arange(n) * 2 * np.pi / n
            xs, ys = np.cos(a), 0.7 * np.sin(a) + 0.1
            if op:
                xs, ys = np.append(xs, xs[0]), np.append(ys, ys[0])
            P = B.ObscPolygon(c.arr(xs, dt, lay), c.arr(ys, dt, lay))
            q = sorted({v for x in np.append(xs, ys) for v in ulps(float(x))} | {0.0, 0.3, -5.0}) + BAD
            X, Y = np.meshgrid(q, q)
            c.put(P.contains(c.arr(X), c.arr(Y)), P.obscure(rays(B, 9)), B.ObscNegation(P).contains(0.1, 0.1))
            for gx, gy in itertools.product((0, 1, 2, 3, 5), (0, 1, 2, 4)):
                for glay in ("C", "S", "RO"):
                    c.put(P.containsGrid(c.arr(np.linspace(-1.1, 1.2, gx), layout=glay), c.arr(np.linspace(-0.7, 1.0, gy), layout=glay)))
            for lo, hi in ((-5, -4), (4, 5), (-9, 9), (0.999, 1.001)):
                c.put(P.containsGrid(c.arr(np.linspace(lo, hi, 7)), c.arr(np.linspace(lo, hi, 3))))
            c.put(pickle.loads(pickle.dumps(P)).contains(0.2, 0.2))
        return f
    for n, lay, dt, op in itertools.product(range(1, 8 if quick else 14), ("C", "S", "R", "RO"), (float, "f4"), (False, True)):
        if quick and dt != float and lay != "C":
            continue
        yield f"polygon:{n}:{lay}:{np.dtype(dt).str}:{int(op)}", pcase(n, lay, dt, op)

    def gcase(t, ks):
        def f(c):
            L = [obs[k] for k in ks]
            O = getattr(B, t)(L)
            O2 = getattr(B, t)(*L)
            L.clear()
            gc.collect()
            x, y = c.arr(np.linspace(-1.2, 1.3, 7)), c.arr(np.linspace(0.9, -1.1, 7))
            c.put(O.contains(x, y), O2.contains(x, y), B.ObscNegation(O).obscure(rays(B, 7)))
        return f
    for m in (1, 2, 3) if quick else (1, 2, 3, 4):
        for t, ks in itertools.product(("ObscUnion", "ObscIntersection"), itertools.combinations_with_replacement(sorted(obs), m)):
            yield f"group:{t}:{','.join(ks)}", gcase(t, ks)

    # --- transforms of arrays
    def tcase(shape, lay, dt):
        def f(c):
            m = int(np.prod(shape, dtype=int))
            t = B.CoordTransform(B.CoordSys().rotateLocal(B.RotY(0.2)), cs1)
            v = [c.arr(np.arange(m).reshape(shape) * 0.5 + k, dt, lay) for k in range(3)]
            c.put(t.applyForwardArray(*v), t.applyReverseArray(*v))
            if len(shape) == 1:
                w = c.arr(np.arange(3 * m).reshape(shape + (3,)), dt)
                c.put(cs1.toGlobal(w), cs1.toLocal(w), cs1.toGlobal(w.ravel()[:3]) if m else 0)
        return f
    for shape, lay, dt in itertools.product(((0,), (1,), (2,), (5,), (2, 3), (3, 3), (2, 1, 2)), ("C", "S", "R", "F", "RO"), (float, "f4", "i8")):
        yield f"transform:{'x'.join(map(str, shape))}:{lay}:{np.dtype(dt).str}", tcase(shape, lay, dt)

    def fcase(k):
        def f(c):
            o, r, s = c.arr([0.1, 0.2, 0.3]), c.arr(np.asarray(B.RotX(0.3))), c.arr([1.0, -1.0, 0.5])
            a = B.CoordSys(o, r)
            q = [a.shiftGlobal(s), a.shiftLocal(s), a.rotateGlobal(r), a.rotateLocal(r), a.rotateGlobal(r, s), a.rotateLocal(r, s, cs1), a.copy()][k]
            c.put(q.origin, q.rot, a.origin, a.rot)
            rv = rays(B, 5)
            rv.toCoordSys(q)
            c.put(rv)
            rv.toCoordSys(a)
            c.put(rv, B.CoordSys(origin=o).origin, B.CoordSys(rot=r).rot)
        return f
    for k in range(7):
        yield f"frame:{k}", fcase(k)

    # --- generators with arrays
    lens = alpha_optic(B)
    proj = ("postel", "zemax", "gnomonic", "stereographic", "lambert", "orthographic")

    def fscase(n, lay, dt, src):
        def f(c):
            x, y = c.arr(np.arange(n) * 0.1, dt, lay), c.arr(np.arange(n) * -0.1, dt, lay)
            kw = dict(source=c.arr([0.1, 0.2, 5.0])) if src else dict(dirCos=c.arr([0.1, 0.0, -1.0]))
            fl = c.arr(np.arange(n) + 1.0, layout=lay)
            c.put(B.RayVector.fromStop(x, y, optic=lens, wavelength=5e-7, flux=fl, **kw), B.RayVector.fromStop(x, y, wavelength=5e-7, medium=med["const"], **kw))
            c.put(B.RayVector.fromStop(x, 0.1, wavelength=5e-7, medium=med["table"], coordSys=cs1, **kw))
        return f
    for n, lay, dt, src in itertools.product((0, 1, 2, 5, 9), ("C", "S", "R", "RO"), (float, "f4", "i4"), (False, True)):
        yield f"fromStop:{n}:{lay}:{np.dtype(dt).str}:{int(src)}", fscase(n, lay, dt, src)

    def ffcase(n, lay, p):
        def f(c):
            x, y = c.arr(np.arange(n) * 0.01, layout=lay), c.arr(np.arange(n) * -0.02, layout=lay)
            for m in ("vac", "const"):
                c.put(B.RayVector.fromFieldAngles(x, y, projection=p, medium=med[m], wavelength=5e-7, x=0.1, y=0.2))
            c.put(B.RayVector.fromFieldAngles(x, y, projection=p, optic=lens, wavelength=5e-7))
            d = B.utils.fieldToDirCos(x, y, projection=p)
            c.put(d, B.utils.dirCosToField(c.arr(d[0], layout=lay), c.arr(d[1], layout=lay), c.arr(d[2], layout=lay), projection=p))
        return f
    for n, lay, p in itertools.product((0, 1, 2, 5), ("C", "S", "R", "RO"), proj):
        yield f"fromField:{n}:{lay}:{p}", ffcase(n, lay, p)

    def pattern(kind, a, b):
        def f(c):
            d = c.arr([0.05, -0.02, -1.0])
            for kw in (dict(dirCos=d), dict(source=c.arr([1.0, 0.5, 20.0]), dirCos=d)):
                if kind == "grid":
                    c.put(B.RayVector.asGrid(wavelength=5e-7, nx=a, ny=b, lx=c.arr([1.0, 0.2]), ly=c.arr([0.0, 2.0]), medium=med["const"], **kw))
                elif kind == "gridd":
                    c.put(B.RayVector.asGrid(wavelength=5e-7, nx=a, ny=b, dx=c.arr([0.1, 0.2]), dy=c.arr([0.0, 0.3]), **kw))
                elif kind == "polar":
                    c.refuses(lambda: B.RayVector.asPolar(wavelength=5e-7, outer=1.0, inner=0.2, nrad=a, naz=b, **kw))
                elif kind == "spokes":
                    c.put(B.RayVector.asSpokes(wavelength=5e-7, outer=1.0, inner=0.2, rings=a, spokes=b, **kw), B.RayVector.asSpokes(wavelength=5e-7, outer=1.0, rings=a, spokes=b, spacing="GQ", **kw))
                    c.put(B.RayVector.asSpokes(wavelength=5e-7, outer=1.0, rings=c.arr(np.linspace(0.1, 1, a)), spokes=c.arr(np.linspace(0, 3, b)), **kw))
                    for dr, ds in itertools.product((float, "f4", "f2", "u1", "i4"), repeat=2):
                        c.put(B.RayVector.asSpokes(wavelength=5e-7, outer=1.0, rings=c.arr(np.arange(a) + 1, dr), spokes=c.arr(np.arange(b), ds), **kw))
        return f
    for kind, a, b in itertools.product(("grid", "gridd", "polar", "spokes"), (1, 2, 3, 4, 5), (1, 2, 3, 6)):
        yield f"pattern:{kind}:{a}:{b}", pattern(kind, a, b)

    # --- optics
    def opcase(n):
        def f(c):
            o = alpha_optic(B)
            for k in (0, 1):
                c.put(o.trace(rays(B, n, k)), o.trace(rays(B, n, k), reverse=True))
                c.put([v["out"] for v in o.traceFull(rays(B, n, k)).values()])
                c.put(o.trace(rays(B, n, k), path=["a", "b", "a", "b", "D"]))
                c.put(o["a"].interact(rays(B, n, k)))
            F, R = o.traceSplit(rays(B, n), minFlux=1e-2)
            c.put(F, R)
        return f
    for n in sizes:
        yield f"optic:{n}", opcase(n)

    # --- lifetimes: what a native object points to must outlive everything the user let go of
    def big(k):
        return np.cos(np.arange(200) * 0.1 + k)

    def lcase(nm, mk, use):
        def f(c):
            for how in ("plain", "pickle", "deepcopy", "copy"):
                o = mk()
                if how == "pickle":
                    o = pickle.loads(pickle.dumps(o))
                elif how == "deepcopy":
                    o = copy.deepcopy(o)
                elif how == "copy":
                    o = copy.copy(o)
                gc.collect()
                junk = [np.full(k, c.fill, np.uint8) for k in (1600, 1608, 2048, 3200, 1152, 8 * 144) for _ in range(4)]
                del junk
                c.put(use(o))
                c.put(hash(o) == hash(o))
        return f
    X, Y = np.linspace(-0.7, 0.8, 5), np.linspace(0.6, -0.5, 5)
    surfuse = lambda s: (s.sag(X, Y), s.normal(X, Y), s.reflect(rays(B, 5)))
    obsuse = lambda o: (o.contains(X, Y), o.obscure(rays(B, 5)))
    meduse = lambda m: (m.getN(np.array([3.5e-7, 5e-7])), B.Sphere(5.0).refract(rays(B, 5), m, B.ConstMedium(1.1)))
    g = np.linspace(-2, 2, 14)
    lives = {
        "asphere": (lambda: B.Asphere(9.0, 0.1, big(0) * 1e-200), surfuse), "asphere1": (lambda: B.Asphere(9.0, 0.1, big(0) * 1e-200, imin=1), surfuse),
        "zernike": (lambda: B.Zernike(big(1)[:120] * 1e-3, R_outer=2.0), surfuse),
        "bicubic": (lambda: B.Bicubic(g.copy(), g.copy(), np.outer(np.cos(g), np.sin(g))), surfuse),
        "bicubicd": (lambda: B.Bicubic(g.copy(), g.copy(), np.outer(g, g), np.outer(g, g), np.outer(g, g), np.outer(g, g)), surfuse),
        "sum": (lambda: B.Sum(B.Asphere(9.0, 0.1, big(0) * 1e-200), B.Bicubic(g, g, np.outer(g, g) * 1e-3), B.Sum(B.Plane(), B.Zernike(big(1)[:120] * 1e-4))), surfuse),
        "sumlist": (lambda: B.Sum([B.Sphere(9.0), B.Tilted(0.1, 0.1)]), surfuse),
        "table": (lambda: B.TableMedium(np.linspace(3e-7, 9e-7, 200), big(2) * 0.01 + 1.3), meduse), "sell": (lambda: B.SellmeierMedium([1, 0.2, 0.3, 0.001, 0.002, 100]), meduse),
        "polygon": (lambda: B.ObscPolygon(np.cos(np.arange(200) * np.pi / 100), np.sin(np.arange(200) * np.pi / 100)), obsuse),
        "neg": (lambda: B.ObscNegation(B.ObscPolygon(np.cos(np.arange(200) * np.pi / 100), np.sin(np.arange(200) * np.pi / 100))), obsuse),
        "union": (lambda: B.ObscUnion([B.ObscNegation(B.ObscCircle(0.5)), B.ObscIntersection(B.ObscRay(0.1, 0.2), B.ObscAnnulus(0.1, 0.5))]), obsuse),
        "optic": (lambda: alpha_optic(B, big), lambda o: (o.trace(rays(B, 9)), o.traceSplit(rays(B, 5), minFlux=1e-2))),
        "derived": (lambda: alpha_optic(B, big).withLocallyShiftedOptic("L", [0, 0, 0.01]).withLocallyRotatedOptic("a", B.RotX(0.01)), lambda o: o.trace(rays(B, 9))),
        "coating": (lambda: B.SimpleCoating(0.1, 0.8), lambda k: B.Sphere(9.0).rSplit(rays(B, 5), B.ConstMedium(1.0), B.ConstMedium(1.5), k)),
        "frame": (lambda: B.CoordSys(np.array([0.1, 0.2, 0.3]), np.array(B.RotX(0.2))), lambda f: rays(B, 5).toCoordSys(f)),
        "transform": (lambda: B.CoordTransform(B.CoordSys().shiftGlobal([1, 2, 3]), B.CoordSys().rotateGlobal(B.RotX(0.2))), lambda t: (t.applyForwardArray(X, Y, X), t.applyForward(rays(B, 5, 0)))),
    }
    for nm, (mk, use) in lives.items():
        yield f"life:{nm}", lcase(nm, mk, use)

    def vcase(n):
        def f(c):
            rv = rays(B, n)
            v = [rv.x, rv.vz, rv.r, rv.v, rv.vignetted, rv[1:], rv[::2], rv.k]
            B.Sphere(9.0).reflect(rv)
            del rv
            gc.collect()
            junk = [np.full(8 * n, c.fill, np.uint8) for _ in range(20)]
            del junk
            c.put(v)
            w = rays(B, n)[2:n - 2]
            gc.collect()
            w.propagate(3.0)
            c.put(w, B.Asphere(9.0, 0.1, big(0) * 1e-200).reflect(w))
            w = B.concatenateRayVectors([rays(B, n), rays(B, n)])[n - 1:n + 2]
            gc.collect()
            c.put(w.propagate(1.0).toCoordSys(cs1), pickle.loads(pickle.dumps(w)).propagate(2.0))
        return f
    for n in (5, 9, 130, 300):
        yield f"views:{n}", vcase(n)


def alpha_optic(B, big=None):
    v = B.ConstMedium(1.0)
    g = B.TableMedium(np.linspace(3e-7, 9e-7, 200), 1.5 + 0.01 * np.cos(np.arange(200)))
    s = B.Sum(B.Sphere(-5.0), B.Asphere(50.0, 0.1, big(0) * 1e-200)) if big else B.Sphere(-5.0)
    a = B.RefractiveInterface(s, name="a", inMedium=v, outMedium=g, obscuration=B.ObscNegation(B.ObscCircle(1.1)))
    b = B.RefractiveInterface(B.Quadric(6.0, -0.5), name="b", inMedium=g, outMedium=v, coordSys=B.CoordSys().shiftGlobal([0, 0, -0.2]))
    for q in (a, b):
        q.forwardCoating, q.reverseCoating = B.SimpleCoating(0.1, 0.8), B.SimpleCoating(0.2, 0.7)
    sc = B.OPDScreen(B.Plane(), B.Zernike([0, 0, 1e-3, 2e-3], R_outer=2.0), name="o", inMedium=v, coordSys=B.CoordSys().shiftGlobal([0, 0, 0.2]))
    d = B.Detector(B.Plane(), name="D", inMedium=v, coordSys=B.CoordSys().shiftGlobal([0, 0, -3.0]))
    items = [B.Lens([a, b], name="L"), d] if big is None else [sc, B.Lens([a, b], name="L"), d]
    return B.CompoundOptic(items, name="T", inMedium=v, outMedium=v, stopSurface=B.Interface(B.Plane(), name="st", coordSys=B.CoordSys().shiftGlobal([0, 0, 0.1])), backDist=4.0, pupilSize=1.0)


def main():
    variant, fill, tier, shard, ns, start, out = sys.argv[1:]
    fill, shard, ns, start = int(fill), int(shard), int(ns), int(start)
    import build
    B = build.load(variant)
    np.seterr(all="ignore")
    B.set_max_threads(2) if hasattr(B, "set_max_threads") else None
    import batoid.global_vars as gv
    f = open(out, "a", buffering=1)
    seen = set()
    for i, (key, fn) in enumerate(cases(B, tier == "quick")):
        assert key not in seen, key
        seen.add(key)
        if i % ns != shard or i < start:
            continue
        f.write(f"B {i} {key}\n")
        # reductions in a fixed order: the digest must not depend on scheduling
        gv._batoid_max_threads = 1
        c = Case(fill)
        pollute(fill)
        try:
            fn(c)
        except Exception as e:
            f.write(f"X {i} {key} {type(e).__name__}: {str(e)[:200]!r}\n")
        bad = c.changed()
        if bad:
            f.write(f"V {i} {key} input array(s) {bad[:5]} or the bytes around them were modified\n")
        f.write(f"E {i} {c.digest()} {len(c.out)}\n")
    f.write(f"N {len(seen)}\n")
    f.close()
    os._exit(0)


if __name__ == "__main__":
    main()
