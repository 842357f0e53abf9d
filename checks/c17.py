"""C17 - generated rays: the product of pattern x direction x frame x stop x medium x distance x default-source configurations,
each compared with first-principles geometry (points on the stop, one starting wavefront, direction, speed, flux)."""
import itertools

import numpy as np

import alpha
import ref

PROJ = ("postel", "zemax", "gnomonic", "stereographic", "lambert", "orthographic")


def direction(th, proj):
    """unit vector for a field angle, from the definitions of the projections"""
    u, v = th
    if proj in ("zemax", "gnomonic"):
        d = np.array([u, v, -1.0]) if proj == "gnomonic" else np.array([np.tan(u), np.tan(v), -1.0])
        return d / np.linalg.norm(d)
    r = np.hypot(u, v)
    if r == 0:
        return np.array([0, 0, -1.0])
    psi = {"postel": r, "stereographic": 2 * np.arctan(r / 2), "lambert": 2 * np.arcsin(r / 2), "orthographic": np.arcsin(r)}[proj]
    return np.array([np.sin(psi) * u / r, np.sin(psi) * v / r, -np.cos(psi)])


def sag(B, surf, x, y):
    return ref.Model(B, surf).sag(np.asarray(x, float), np.asarray(y, float))


def fr(cs):
    return ref.Frame(cs.origin, cs.rot)


class Cfg:
    """everything but the pattern; values after defaults were filled in"""
    def __init__(self, **k):
        self.__dict__.update(dict(backDist=40.0, n=1.0, stop=None, stopcs=None, cs=None, dirn=None, source=None, wavelength=6e-7))
        self.__dict__.update(k)


def check(c, B, key, rv, pts, cf, flux=1.0, ordered=True):
    """pts (N,2) in the stop surface's frame"""
    pts = np.asarray(pts, float).reshape(-1, 2)
    N = len(pts)
    c.trans()
    c.state(key)
    c.trace()
    if not c.true(key + "#len", len(rv) == N, f"{len(rv)} rays instead of {N}"):
        return
    flux = np.broadcast_to(np.asarray(flux, float), (N,))
    st, sf, cs = cf.stop or B.Plane(), fr(cf.stopcs or B.CoordSys()), fr(cf.cs or B.CoordSys())
    c.true(key + "#frame", np.allclose(rv.coordSys.origin, cs.o, rtol=0, atol=1e-13) and np.allclose(rv.coordSys.rot, cs.R, rtol=0, atol=1e-13), "rays are expressed in another frame")
    loc = np.column_stack([pts, sag(B, st, pts[:, 0], pts[:, 1])])
    P = sf.o + loc @ sf.R.T
    r = cs.o + np.asarray(rv.r) @ cs.R.T
    v = np.asarray(rv.v) @ cs.R.T
    if not ordered:
        # match rays to expected stop points as sets: intersection of each ray's line with nothing but the expected points
        if cf.source is None:
            d = cs.R @ (cf.dirn / np.linalg.norm(cf.dirn))
            e = r - d * (r @ d)[:, None]
            q = P - d * (P @ d)[:, None]
        else:
            q = P - np.asarray(cf.source)
            q = q / np.linalg.norm(q, axis=1)[:, None]
            e = v * cf.n
        left = set(range(N))
        order = np.empty(N, int)
        D = np.linalg.norm(e[:, None, :] - q[None, :, :], axis=2) + 1e-3 * np.abs(np.asarray(rv.flux)[:, None] - flux[None, :])
        for i in range(N):
            j = min(left, key=lambda j: D[i, j])
            left.discard(j)
            order[i] = j
        P, flux, pts = P[order], flux[order], pts[order]
    if cf.source is None:
        d = cs.R @ (cf.dirn / np.linalg.norm(cf.dirn))
        c.close(key + "#v", v, np.broadcast_to(d / cf.n, v.shape), atol=1e-13, msg="direction or speed")
        w = r - P
        off = w - d * (w @ d)[:, None]
        c.close(key + "#stop", off, np.zeros_like(off), atol=2e-12 * (1 + abs(cf.backDist)), msg="a ray does not cross the stop surface at its point of the pattern", pts=pts)
        C = sf.o + sf.R @ np.array([0, 0, float(sag(B, st, 0.0, 0.0))])
        c.close(key + "#wavefront", (r - C) @ d, np.full(N, -cf.backDist), atol=2e-12 * (1 + abs(cf.backDist)), msg="a ray does not start on the plane perpendicular to the rays at the documented distance")
    else:
        s = np.asarray(cf.source, float)
        c.close(key + "#source", r, np.broadcast_to(s, r.shape), atol=1e-11, msg="a ray does not start at the source")
        w = P - s
        c.close(key + "#aim", v, w / np.linalg.norm(w, axis=1)[:, None] / cf.n, atol=1e-12, msg="a ray is not aimed at its point of the stop pattern, or has another speed")
    c.close(key + "#t", rv.t, np.zeros(N), atol=0, msg="rays do not share the wavefront time")
    c.close(key + "#wl", rv.wavelength, np.full(N, cf.wavelength), atol=0, msg="wavelength")
    c.close(key + "#flux", rv.flux, flux, atol=1e-13, rtol=1e-12, msg="flux")
    c.true(key + "#marks", not np.any(rv.vignetted) and not np.any(rv.failed), "a new ray is marked vignetted or failed")


def ax(n, l):
    """documented sample positions along one side: n even -> k/(n-2) for k=-n/2..n/2-1 (k=0 central); odd -> k/(n-1), symmetric"""
    if n == 1:
        return np.zeros(1)
    if n == 2:
        return np.array([-0.5, 0.0]) * l
    if n % 2 == 0:
        return np.arange(-n // 2, n // 2) / (n - 2) * l
    return np.arange(-(n // 2), n // 2 + 1) / (n - 1) * l


def gridpts(nx, ny, lx, ly):
    """x index fastest"""
    X, Y = np.meshgrid(ax(nx, 1.0), ax(ny, 1.0))
    return X.ravel()[:, None] * np.asarray(lx, float) + Y.ravel()[:, None] * np.asarray(ly, float)


def rot90(v):
    return np.array([-v[1], v[0]])


def vec(a, k):
    return np.array([a, 0.0]) if np.ndim(a) == 0 and k == 0 else np.array([0.0, a]) if np.ndim(a) == 0 else np.asarray(a, float)


# ------------------------------------------------------------------ configurations
def configs(B, quick):
    """name -> (kwargs, Cfg)"""
    tilt = B.CoordSys().shiftGlobal([0.3, -0.2, 1.5]).rotateLocal(B.RotX(0.2)).rotateLocal(B.RotY(-0.1))
    optcs = B.CoordSys().shiftGlobal([-1.0, 2.0, 0.5]).rotateLocal(B.RotZ(0.7)).rotateLocal(B.RotX(0.4))
    med = {"vac": (None, 1.0), "glass": (B.ConstMedium(1.4), 1.4), "air": (B.Air(), None), "table": (B.TableMedium([5e-7, 6e-7, 7e-7], [1.3, 1.35, 1.45]), 1.35)}
    med["air"] = (med["air"][0], med["air"][0].getN(6e-7))
    stops = {"default": (None, None, None), "plane": (B.Interface(B.Plane(), coordSys=tilt), None, tilt), "curved": (B.Interface(B.Quadric(9.0, -0.7), coordSys=tilt), B.Quadric(9.0, -0.7), tilt),
             "offset": (B.Interface(B.Zernike([0, 0.02, 0.01, -0.03, 0.02], R_outer=3.0), coordSys=tilt), B.Zernike([0, 0.02, 0.01, -0.03, 0.02], R_outer=3.0), tilt)}
    dirs = {f"th:{p}": (dict(theta_x=0.02, theta_y=-0.013, projection=p), direction((0.02, -0.013), p)) for p in PROJ}
    dirs["axis"] = (dict(theta_x=0.0, theta_y=0.0), np.array([0, 0, -1.0]))
    dirs["default-projection"] = (dict(theta_x=-0.2, theta_y=0.35), direction((-0.2, 0.35), "postel"))
    dirs["dc"] = (dict(dirCos=np.array([0.3, -0.1, -0.9])), np.array([0.3, -0.1, -0.9]))
    dirs["dclist"] = (dict(dirCos=[0.0, 2.0, -3.0]), np.array([0.0, 2.0, -3.0]))
    dirs["up"] = (dict(dirCos=(0.1, 0.2, 1.5)), np.array([0.1, 0.2, 1.5]))
    # exactly along the frame's axes: no choice of auxiliary axis may fail
    for k, w in {"+x": (1.0, 0, 0), "-x": (-2.0, 0, 0), "+y": (0, 1.0, 0), "-y": (0, -0.5, 0), "+z": (0, 0, 1.0), "nearly-x": (-1.0, 1e-9, 0)}.items():
        dirs[k] = (dict(dirCos=w), np.array(w, float))
    dirs["src"] = (dict(source=np.array([0.5, -1.0, 30.0])), None)
    dirs["srcnear"] = (dict(source=[2.0, 1.0, 4.0], dirCos=[0, 0, -1]), None)
    out = {}
    for (dn, (dk, dv)), (mn, (m, n)), (sn, (si, ss, scs)), bd, (cn, cs) in itertools.product(dirs.items(), med.items(), stops.items(), (None, 13.7, 0.0, -2.5), (("g", None), ("rot", optcs))):
        kw = dict(dk)
        if m is not None:
            kw["medium"] = m
        if si is not None:
            kw["stopSurface"] = si
        if bd is not None:
            kw["backDist"] = bd
        if cs is not None:
            kw["coordSys"] = cs
        out[f"{dn}/{mn}/{sn}/{bd}/{cn}"] = (kw, Cfg(backDist=40.0 if bd is None else bd, n=n, stop=ss, stopcs=scs, cs=cs, dirn=dv, source=dk.get("source")))
    return out


def all_configs(c, B, quick):
    x = np.array([0.0, 0.4, -1.1, 0.7, 2.0])
    y = np.array([0.0, -0.3, 0.2, 1.6, 0.0])
    x0, y0 = x.copy(), y.copy()
    for name, (kw, cf) in configs(B, quick).items():
        key = "cfg:" + name
        with c.case(key):
            check(c, B, key + "#stop", B.RayVector.fromStop(x, y, wavelength=6e-7, **kw), np.column_stack([x0, y0]), cf)
            check(c, B, key + "#grid", B.RayVector.asGrid(nx=4, ny=3, lx=2.0, ly=1.4, wavelength=6e-7, flux=2.5, **kw), gridpts(4, 3, (2, 0), (0, 1.4)), cf, 2.5)
            check(c, B, key + "#polar", B.RayVector.asPolar(nrad=3, naz=6, outer=1.5, inner=0.5, wavelength=6e-7, flux=0.5, **kw), polar(1.5, 0.5, 3, 6, 6), cf, 0.5, ordered=False)
            check(c, B, key + "#spokes", B.RayVector.asSpokes(rings=2, spokes=3, outer=1.2, inner=0.3, wavelength=6e-7, **kw), spokes([0.3, 1.2], np.arange(3) * 2 * np.pi / 3), cf, ordered=False)
            c.true(key + "#input", np.array_equal(x, x0) and np.array_equal(y, y0), "the caller's stop points were changed")
            c.outcome("finite source" if cf.source is not None else "collimated", 4)


def polar(outer, inner, nrad, naz, kfold):
    """rings evenly spaced from outer to inner, each with a multiple of kfold azimuths in proportion to its radius; a zero ring is one point"""
    p = []
    for rho in np.linspace(outer, inner, nrad):
        if rho == 0:
            p.append((0.0, 0.0))
            continue
        k = max(kfold, int((naz * rho / outer) // kfold) * kfold)
        a = 2 * np.pi * np.arange(k) / k
        p += list(zip(rho * np.cos(a), rho * np.sin(a)))
    return np.array(p)


def spokes(r, a):
    return np.array([(q * np.cos(t), q * np.sin(t)) for t in a for q in r])


# ------------------------------------------------------------------ patterns
def grids(c, B, quick):
    N = range(1, 8) if quick else range(1, 13)
    base = dict(wavelength=6e-7, theta_x=0.01, theta_y=0.02)
    cf = Cfg(dirn=direction((0.01, 0.02), "postel"))
    lens = [("s", 2.0, None), ("ss", 2.0, 1.2), ("v", np.array([1.5, 0.5]), None), ("vv", [1.5, 0.5], [-0.3, 2.0]), ("sv", 2.0, (0.4, 1.1)), ("vs", np.array([1.0, -0.7]), 1.5)]
    for nx, ny in itertools.product(N, list(N) + [None]):
        for ln, lx, ly in lens:
            key = f"grid:n{nx}x{ny}:l{ln}"
            with c.case(key):
                kw = dict(nx=nx, lx=lx)
                if ny is not None:
                    kw["ny"] = ny
                if ly is not None:
                    kw["ly"] = ly
                LX = vec(lx, 0)
                LY = vec(ly, 1) if ly is not None else (np.array([0, lx]) if np.ndim(lx) == 0 else rot90(LX))
                check(c, B, key, B.RayVector.asGrid(**kw, **base), gridpts(nx, ny or nx, LX, LY), cf)
        for ln, dx, dy in lens:
            key = f"grid:n{nx}x{ny}:d{ln}"
            with c.case(key):
                kw = dict(nx=nx, dx=dx)
                if ny is not None:
                    kw["ny"] = ny
                if dy is not None:
                    kw["dy"] = dy
                DX = vec(dx, 0)
                DY = vec(dy, 1) if dy is not None else (np.array([0, dx]) if np.ndim(dx) == 0 else rot90(DX))

                def span(n, d):
                    # neighbouring samples are exactly d apart
                    return d * (2 if n == 2 else n - 2 if n % 2 == 0 else n - 1)
                check(c, B, key, B.RayVector.asGrid(**kw, **base), gridpts(nx, ny or nx, span(nx, DX), span(ny or nx, DY)), cf)
        c.outcome("grid", 2 * len(lens))
    # spacing and length: the number of samples follows, always even
    for k in (2, 4, 6, 8, 10, 20):
        for dx in (0.1, 0.3, 0.7, 1 / 3):
            key = f"grid:ld:{k}:{dx:.3f}"
            with c.case(key):
                check(c, B, key, B.RayVector.asGrid(lx=k * dx, dx=dx, **base), gridpts(k + 2, k + 2, (k * dx, 0), (0, k * dx)), cf)
                check(c, B, key + "#v", B.RayVector.asGrid(lx=np.array([3.0, 4.0]) * k, dx=np.array([3.0, 4.0]), **base), gridpts(k + 2, k + 2, np.array([3.0, 4.0]) * k, np.array([-4.0, 3.0]) * k), cf)
                check(c, B, key + "#xy", B.RayVector.asGrid(lx=k * dx, dx=dx, ly=4 * dx, dy=dx * 2, **base), gridpts(k + 2, 4, (k * dx, 0), (0, 4 * dx)), cf)
    # over- and under-determined grids are refused
    for kw in (dict(nx=4), dict(dx=0.1), dict(lx=1.0), dict(nx=4, dx=0.1, lx=1.0), dict()):
        key = f"grid:refuse:{sorted(kw)}"
        with c.case(key):
            try:
                B.RayVector.asGrid(**kw, **base)
                c.fail(key, "an over- or under-determined grid is accepted")
            except (ValueError, TypeError):
                c.outcome("refused")
            c.state(key)
    for fn in ("asGrid", "asPolar", "asSpokes", "fromStop", "fromFieldAngles"):
        key = f"nowavelength:{fn}"
        with c.case(key):
            kw = dict(asGrid=dict(nx=2, lx=1.0), asPolar=dict(outer=1.0, nrad=2, naz=6), asSpokes=dict(outer=1.0, rings=2, spokes=3), fromStop=dict(x=0.0, y=0.0), fromFieldAngles={})[fn]
            try:
                getattr(B.RayVector, fn)(theta_x=0.0, theta_y=0.0, **kw)
                c.fail(key, "rays without a wavelength are generated")
            except ValueError:
                c.outcome("refused")
    # fans
    for nx, ny in itertools.product((1, 2, 3, 4, 7), repeat=2):
        if nx == 1 and ny == 1:
            continue
        key = f"fan:{nx}x{ny}"
        with c.case(key):
            p = [gridpts(nx, 1, (2.0, 0), (0, 1.2))] * (nx > 1) + [gridpts(1, ny, (2.0, 0), (0, 1.2))] * (ny > 1)
            check(c, B, key, B.RayVector.asFan(nx=nx, ny=ny, lx=2.0, ly=1.2, **base), np.concatenate(p), cf, ordered=False)


def rings(c, B, quick):
    base = dict(wavelength=6e-7, theta_x=0.01, theta_y=0.02)
    cf = Cfg(dirn=direction((0.01, 0.02), "postel"))
    for nrad, naz, kfold, inner, outer in itertools.product((1, 2, 3, 5) if quick else (1, 2, 3, 4, 5, 8), (1, 5, 6, 12, 17, 24), (1, 2, 3, 6), (None, 0.0, 0.5, 1.0), (1.0, 2.0)):
        if nrad == 1 and not inner or (inner or 0) >= outer:
            continue
        key = f"polar:{nrad}:{naz}:{kfold}:{inner}:{outer}"
        with c.case(key):
            kw = dict(kfold=kfold) if kfold != 6 else {}
            if inner is not None:
                kw["inner"] = inner
            check(c, B, key, B.RayVector.asPolar(outer=outer, nrad=nrad, naz=naz, **kw, **base), polar(outer, inner or 0.0, nrad, naz, kfold), cf, ordered=False)
            h = B.utils.hexapolar(outer=outer, inner=inner or 0.0, nrad=nrad, naz=naz, kfold=kfold)
            p = polar(outer, inner or 0.0, nrad, naz, kfold)
            if c.true(key + "#hexn", len(h[0]) == len(p), "hexapolar: number of points"):
                a, b = np.round(np.column_stack(h), 10) + 0.0, np.round(p, 10) + 0.0
                c.true(key + "#hex", sorted(map(tuple, a)) == sorted(map(tuple, b)) or np.allclose(np.array(sorted(map(tuple, a))), np.array(sorted(map(tuple, b))), atol=1e-9), "hexapolar: points")
    for R, Sp in itertools.product((1, 2, 3, 4), (1, 2, 3, 5, 8)):
        for inner in (None, 0.0, 0.4):
            key = f"spokes:{R}:{Sp}:{inner}"
            with c.case(key):
                kw = {} if inner is None else dict(inner=inner)
                i = inner or 0.0
                ang = np.arange(Sp) * 2 * np.pi / Sp
                rr = [i] if R == 1 else [i + (1.3 - i) * k / (R - 1) for k in range(R)]
                check(c, B, key, B.RayVector.asSpokes(outer=1.3, rings=R, spokes=Sp, flux=3.0, **kw, **base), spokes(rr, ang), cf, 3.0, ordered=False)
                arr = np.array([0.2, 0.9, 1.0, 1.25][:R])
                aa = np.array([0.1, 0.5, 2.0, 3.5, 5.0, 5.5, 6.0, 6.1][:Sp])
                check(c, B, key + "#arr", B.RayVector.asSpokes(outer=1.3, rings=arr, spokes=aa, **kw, **base), spokes(arr, aa), cf, ordered=False)
                check(c, B, key + "#mix", B.RayVector.asSpokes(outer=1.3, rings=R, spokes=aa, **kw, **base), spokes(rr, aa), cf, ordered=False)
                # Gaussian quadrature: radii at the Legendre nodes in r^2, weights normalised so that fluxes integrate over the annulus of unit outer radius
                from numpy.polynomial import legendre
                x, w = legendre.leggauss(R)
                eps = i / 1.3
                rg = 1.3 * np.sqrt(eps**2 + (x + 1) / 2 * (1 - eps**2))
                for lab, sp, an in (("", Sp, ang), ("#d", None, np.arange(2 * R + 1) * 2 * np.pi / (2 * R + 1)), ("#a", aa, aa)):
                    kk = dict(kw) if sp is None else dict(kw, spokes=sp)
                    check(c, B, key + "#gq" + lab, B.RayVector.asSpokes(outer=1.3, rings=R, spacing="GQ", **kk, **base), spokes(rg, an), cf,
                          np.tile(w / 2 * np.pi * (1 - eps**2) / len(an), len(an)), ordered=False)
    c.outcome("rings")


def quadrature(c, B, quick):
    """GQ spokes integrate every polynomial of the stop coordinates up to the documented order"""
    for R in range(1, 6 if quick else 9):
        for inner in (0.0, 0.3, 0.7):
            key = f"gq:{R}:{inner}"
            with c.case(key):
                rv = B.RayVector.asSpokes(outer=1.0, inner=inner, rings=R, spacing="GQ", wavelength=6e-7, theta_x=0, theta_y=0)
                x, y, f = np.asarray(rv.x), np.asarray(rv.y), np.asarray(rv.flux)
                for p, q in itertools.product(range(2 * R), repeat=2):
                    if p + q >= 2 * R:
                        continue
                    got = np.sum(f * x**p * y**q)
                    if p % 2 or q % 2:
                        want = 0.0
                    else:
                        from math import gamma, pi
                        ang = 2 * gamma((p + 1) / 2) * gamma((q + 1) / 2) / gamma((p + q) / 2 + 1)
                        want = ang * (1 - inner**(p + q + 2)) / (p + q + 2)
                    c.close(f"{key}:{p}:{q}", got, want, atol=1e-12, msg="Gaussian quadrature rays do not integrate a low-order polynomial exactly")
                    c.state(key, p, q)


def single(c, B, quick):
    """fromStop shapes and fromFieldAngles"""
    base = dict(wavelength=6e-7, theta_x=0.01, theta_y=0.02)
    cf = Cfg(dirn=direction((0.01, 0.02), "postel"))
    for lab, x, y, n in (("scalar", 0.3, -0.4, 1), ("int", 1, 2, 1), ("np", np.float64(0.3), np.float32(0.5), 1), ("list", [0.1, 0.2], [0.3, 0.4], 2), ("bc", 0.5, np.arange(4.0), 4), ("bc2", [1, 2, 3], 0, 3),
                         ("one", [0.7], [0.1], 1), ("strided", np.arange(10.0)[::3], np.arange(8.0)[1::2], 4), ("rev", np.arange(4.0)[::-1], np.zeros(4), 4), ("empty", [], [], 0)):
        key = f"fromStop:{lab}"
        with c.case(key):
            X, Y = np.broadcast_arrays(np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(y, float)))
            check(c, B, key, B.RayVector.fromStop(x, y, **base), np.column_stack([X, Y]), cf)
    tilt = B.CoordSys().shiftGlobal([0.3, -0.2, 1.5]).rotateLocal(B.RotX(0.2)).rotateLocal(B.RotY(-0.1))
    for proj, med, (sn, sf, scs), bd, (x, y) in itertools.product(PROJ, (1.0, 1.4), (("d", None, None), ("p", B.Plane(), tilt), ("q", B.Quadric(9.0, -0.7), tilt)), (None, 5.0), ((0, 0), (0.3, -0.8))):
        key = f"field:{proj}:{med}:{sn}:{bd}:{x}"
        with c.case(key):
            kw = dict(projection=proj, wavelength=6e-7, medium=B.ConstMedium(med), x=x, y=y)
            if sf is not None:
                kw["stopSurface"] = B.Interface(sf, coordSys=scs)
            if bd is not None:
                kw["backDist"] = bd
            tx, ty = np.array([0.0, 0.01, -0.3, 0.0, 0.2]), np.array([0.0, 0.02, 0.1, -0.2, 0.2])
            D = np.array([direction(t, proj) for t in zip(tx, ty)])
            for lab, a, b, d in (("arr", tx, ty, D), ("scalar", 0.01, 0.02, D[1:2]), ("axis", 0.0, 0.0, D[:1]), ("list", [0.01, -0.3], [0.02, 0.1], D[1:3]), ("none", tx[:0], ty[:0], D[:0])):
                if lab == "list":
                    a, b = np.array(a), np.array(b)
                rv = B.RayVector.fromFieldAngles(a, b, **kw)
                k = f"{key}:{lab}"
                if not c.true(k + "#len", len(rv) == len(d), "number of rays"):
                    continue
                dist = 40.0 if bd is None else bd
                cs = fr(scs) if scs is not None else ref.Frame()
                P = cs.o + cs.R @ np.array([x, y, float(sag(B, sf or B.Plane(), x, y))])
                f = fr(rv.coordSys)
                g, v = f.o + rv.r @ f.R.T, rv.v @ f.R.T
                dd = d @ cs.R.T
                c.close(k + "#v", v, dd / med, atol=1e-13, msg="direction or speed")
                c.close(k + "#r", g, P - dd * dist, atol=1e-11, msg="a ray does not start the documented distance before its stop point")
                c.close(k + "#t", rv.t, np.full(len(d), -dist * med), atol=1e-12, msg="time")
                c.close(k + "#wl", rv.wavelength, np.full(len(d), 6e-7), atol=0, msg="wavelength")
                c.close(k + "#flux", rv.flux, np.ones(len(d)), atol=0, msg="flux")
                c.trans()
                c.state(k)
                c.trace()
    c.outcome("field angles")


# ------------------------------------------------------------------ defaults
def defaults(c, B, quick):
    cs = B.CoordSys().shiftGlobal([0.3, -0.2, 1.5]).rotateLocal(B.RotX(0.2))
    stop = B.Interface(B.Quadric(30.0, -1.0), coordSys=cs.shiftLocal([0, 0, 0.2]))
    med = B.ConstMedium(1.2)
    o = B.CompoundOptic([B.Interface(B.Plane(), name="a", coordSys=cs)], name="T", coordSys=cs, inMedium=med, outMedium=med, backDist=7.0, stopSurface=stop, pupilSize=3.0, pupilObscuration=0.25)
    vals = dict(backDist=7.0, medium=med, stopSurface=stop, coordSys=cs)
    other = dict(backDist=9.0, medium=B.ConstMedium(1.5), stopSurface=B.Interface(B.Plane(), coordSys=cs.shiftLocal([0.1, 0, 0])), coordSys=cs.rotateLocal(B.RotZ(0.3)))
    base = dict(wavelength=6e-7, theta_x=0.01, theta_y=0.02)
    gens = {"grid": (B.RayVector.asGrid, dict(nx=5), dict(lx=3.0)), "griddx": (B.RayVector.asGrid, dict(dx=0.5), dict(lx=3.0)), "gridnd": (B.RayVector.asGrid, dict(nx=4, dx=0.2), {}),
            "polar": (B.RayVector.asPolar, dict(nrad=3, naz=12), dict(outer=1.5, inner=0.375)), "spokes": (B.RayVector.asSpokes, dict(rings=2, spokes=3), dict(outer=1.5)),
            "stop": (B.RayVector.fromStop, dict(x=0.3, y=[0.1, 0.2]), {}), "field": (B.RayVector.fromFieldAngles, {}, {}), "fan": (B.RayVector.asFan, dict(nx=3, ny=4), dict(lx=3.0))}
    for g, (fn, kw, size) in gens.items():
        common = dict(kw, **base)
        av = {k: v for k, v in dict(vals, **size).items() if not (g == "field" and k == "coordSys")}
        with c.case(f"defaults:{g}"):
            want = fn(**av, **common)
            for m in range(len(av) + 1):
                for sub in itertools.combinations(sorted(av), m):
                    key = f"defaults:{g}:{','.join(sub)}"
                    got = fn(optic=o, **{k: av[k] for k in sub}, **common)
                    c.close(key, alpha.snap(got), alpha.snap(want), atol=0, msg="values taken from the optic differ from the same values given explicitly")
                    c.true(key + "#cs", got.coordSys == want.coordSys, "frame taken from the optic differs")
                    c.trans()
                    c.trace()
                    c.state(key)
            ov = {k: v for k, v in dict(other, **{k: v * 0.8 for k, v in size.items()}).items() if not (g == "field" and k == "coordSys")}
            for m in range(1, len(ov) + 1):
                for sub in itertools.combinations(sorted(ov), m):
                    key = f"override:{g}:{','.join(sub)}"
                    got = fn(optic=o, **{k: ov[k] for k in sub}, **common)
                    w = fn(**{k: (ov if k in sub else av)[k] for k in av}, **common)
                    c.close(key, alpha.snap(got), alpha.snap(w), atol=0, msg="an explicit value does not override the optic's")
                    c.true(key + "#cs", got.coordSys == w.coordSys, "an explicit frame does not override the optic's")
                    c.trans()
                    c.trace()
                    c.state(key)
    # an optic without a stop surface or obscuration
    p = B.CompoundOptic([B.Interface(B.Plane(), name="a")], name="T", backDist=7.0, pupilSize=3.0)
    with c.case("defaults:nostop"):
        check(c, B, "defaults:nostop", B.RayVector.asGrid(optic=p, nx=4, **base), gridpts(4, 4, (3, 0), (0, 3)), Cfg(backDist=7.0, dirn=direction((0.01, 0.02), "postel")))
        q = B.CompoundOptic([B.Interface(B.Plane(), name="a")], name="T", backDist=7.0, pupilSize=3.0, stopSurface=B.Interface(B.Plane()))
        check(c, B, "defaults:noobsc", B.RayVector.asPolar(optic=q, nrad=3, naz=6, **base), polar(1.5, 0.0, 3, 6, 6), Cfg(backDist=7.0, dirn=direction((0.01, 0.02), "postel")), ordered=False)
    for f in ("LSST_r.yaml", "HSC.yaml", "DECam.yaml"):
        path = __import__("glob").glob(B.datadir + "/**/" + f, recursive=True)
        with c.case("defaults:" + f):
            o = B.Optic.fromYaml(path[0])
            ss = o.stopSurface
            cf = Cfg(backDist=o.backDist, stop=ss.surface, stopcs=ss.coordSys, cs=o.coordSys, dirn=direction((0.01, 0.02), "postel"), n=o.inMedium.getN(6e-7))
            L = o.pupilSize
            check(c, B, f"defaults:{f}:grid", B.RayVector.asGrid(optic=o, nx=8, **base), gridpts(8, 8, (L, 0), (0, L)), cf)
            check(c, B, f"defaults:{f}:polar", B.RayVector.asPolar(optic=o, nrad=4, naz=18, **base), polar(L / 2, L / 2 * getattr(o, "pupilObscuration", 0.0), 4, 18, 6), cf, ordered=False)


def randoms(c, B, quick):
    """seeded random patterns: the right number of rays, inside the documented region, reproducible; the rest as for a pattern"""
    base = dict(wavelength=6e-7, theta_x=0.01, theta_y=0.02)
    cf = Cfg(dirn=direction((0.01, 0.02), "postel"))
    d = cf.dirn
    for seed, n in itertools.product(range(4), (0, 1, 50, 1000)):
        for lab, f in (("grid", lambda r: B.RayVector.asGrid(nx=2, lx=np.array([1.5, 0.5]), ly=np.array([-0.3, 2.0]), nrandom=n, rng=r, **base)),
                       ("polar", lambda r: B.RayVector.asPolar(outer=1.5, inner=0.6, nrandom=n, rng=r, **base))):
            key = f"random:{lab}:{seed}:{n}"
            with c.case(key):
                a, b, e = f(seed), f(seed), f(np.random.default_rng(seed))
                c.close(key + "#same", alpha.snap(a), alpha.snap(b), atol=0, msg="the same seed gives other rays")
                c.close(key + "#gen", alpha.snap(a), alpha.snap(e), atol=0, msg="a seed and a generator with that seed give other rays")
                s = -a.z / d[2]
                p = np.column_stack([a.x + s * d[0], a.y + s * d[1]]) if n else np.zeros((0, 2))
                if lab == "grid":
                    uv = np.linalg.solve(np.array([[1.5, -0.3], [0.5, 2.0]]), p.T)
                    c.true(key + "#in", np.all(np.abs(uv) <= 0.5 + 1e-9), "a random ray lies outside the parallelogram")
                    if n == 1000:
                        c.true(key + "#fills", np.all(np.abs(uv.mean(axis=1)) < 0.06) and np.all(np.abs(uv.std(axis=1) - 12**-0.5) < 0.03), "random rays do not fill the parallelogram uniformly")
                else:
                    q = np.sum(p**2, axis=1)
                    c.true(key + "#in", np.all((q >= 0.36 - 1e-9) & (q <= 2.25 + 1e-9)), "a random ray lies outside the annulus")
                    if n == 1000:
                        u = (q - 0.36) / (2.25 - 0.36)
                        c.true(key + "#fills", abs(u.mean() - 0.5) < 0.06 and np.all(np.abs(p.mean(axis=0)) < 0.15), "random rays do not fill the annulus uniformly")
                check(c, B, key, a, p, cf)


def run(c, B):
    np.seterr(all='ignore')
    c.method = "exhaustive enumeration of generator configurations against first-principles geometry"
    all_configs(c, B, c.quick)
    grids(c, B, c.quick)
    rings(c, B, c.quick)
    quadrature(c, B, c.quick)
    single(c, B, c.quick)
    defaults(c, B, c.quick)
    randoms(c, B, c.quick)
    c.assume("surface heights of the stop are those judged by C06, frames those judged by C03")
    c.assume("directions exactly along +-x of the frame (no transverse basis there) and nrad=1 without a hole are outside the documented patterns")
    c.extra["bounds"] = "13 directions x 4 media x 4 stops x 4 distances x 2 frames x 4 generators; grids of 1..7 x 1..7 samples x 12 size specifications; 264+ polar, 60+ spoke patterns; every subset of defaults and overrides"
