"""C20 - image and wavefront analyses: the product of system x analysis x grid size x field x projection x reference x sampling options,
each result compared with a direct evaluation of its definition on traced rays (own sphere intersection, direct Fourier sums, direct
coherent sums, own Noll basis and fits); all small lattices."""
import itertools

import numpy as np

import ref
import systems as S

PROJ = ("postel", "zemax", "gnomonic", "stereographic", "lambert", "orthographic")


# ------------------------------------------------------------------ systems
def optics(B, quick):
    v = B.ConstMedium(1.0)
    g = B.SellmeierMedium(0.6961663, 0.4079426, 0.8974794, 0.0046791, 0.0135121, 97.9340025)
    st = B.Interface(B.Plane(), name="stop")

    def cass(det=None, **k):
        m1 = B.Mirror(B.Quadric(2.0, -1.0), name="M1", inMedium=v, obscuration=B.ObscNegation(B.ObscAnnulus(0.07, 0.2)))
        m2 = B.Mirror(B.Quadric(0.84, -3.24), name="M2", inMedium=v, coordSys=B.CoordSys().shiftGlobal([0, 0, 0.7]))
        d = B.Detector(B.Plane(), name="D", inMedium=v, coordSys=det or B.CoordSys().shiftGlobal([0, 0, -0.35]))
        return B.CompoundOptic([m1, m2, d], name="cass", **dict(dict(stopSurface=st, backDist=3.0, sphereRadius=1.0, pupilSize=0.4, pupilObscuration=0.35, inMedium=v), **k))
    out = {}
    out["para"] = B.CompoundOptic([B.Mirror(B.Paraboloid(3.0), name="M", inMedium=v, obscuration=B.ObscNegation(B.ObscCircle(0.15))),
                                   B.Detector(B.Plane(), name="D", inMedium=v, coordSys=B.CoordSys().shiftGlobal([0, 0, 1.5]))],
                                  name="para", stopSurface=st, backDist=10.0, sphereRadius=1.5, pupilSize=0.3, inMedium=v)
    out["cass"] = cass()
    # misaligned: tilted decentred secondary, detector rolled, tilted and defocused
    mis = cass(det=B.CoordSys().shiftGlobal([0.001, -0.002, -0.3502]).rotateLocal(B.RotZ(0.5)).rotateLocal(B.RotX(0.02)).rotateLocal(B.RotY(-0.01)))
    mis = mis.withLocallyRotatedOptic("cass.M2", B.RotX(0.0005)).withLocallyShiftedOptic("cass.M2", [2e-4, -3e-4, 1e-5])
    out["misaligned"] = mis
    # moved as a whole
    out["moved"] = mis.withGlobalShift([3.0, -2.0, 1.0]).withLocalRotation(B.RotX(0.4) @ B.RotZ(1.1))
    # a singlet behind its stop, image formed inside a glass block; vignetting off-centre
    l1 = B.RefractiveInterface(B.Sphere(-1.2), name="a", inMedium=v, outMedium=g, coordSys=B.CoordSys().shiftGlobal([0, 0, -0.05]), obscuration=B.ObscRectangle(0.05, 0.5, 0.08, 0.02, 0.3))
    l2 = B.RefractiveInterface(B.Quadric(1.4, -0.5), name="b", inMedium=g, outMedium=v, coordSys=B.CoordSys().shiftGlobal([0, 0, -0.07]))
    l3 = B.RefractiveInterface(B.Plane(), name="w", inMedium=v, outMedium=g, coordSys=B.CoordSys().shiftGlobal([0, 0, -1.2]))
    d = B.Detector(B.Plane(), name="D", inMedium=g, coordSys=B.CoordSys().shiftGlobal([0, 0, -1.52]))
    out["singlet"] = B.CompoundOptic([B.Lens([l1, l2], name="L"), l3, d], name="singlet", stopSurface=B.Interface(B.Plane(), name="stop", coordSys=B.CoordSys().shiftGlobal([0.01, 0, 0.02]).rotateLocal(B.RotZ(0.2))),
                                     backDist=1.0, sphereRadius=1.2, pupilSize=0.25, inMedium=v)
    for n in ("HSC", "LSST_r") if quick else ("HSC", "LSST_r", "DECam", "AuxTel", "SDSS", "DESI"):
        out[n] = B.Optic.fromYaml(n + ".yaml")
    return out


FIELD = {"para": 0.004, "cass": 0.003, "misaligned": 0.003, "moved": 0.003, "singlet": 0.02, "HSC": 0.01, "LSST_r": 0.02, "DECam": 0.012, "AuxTel": 0.0005, "SDSS": 0.015, "DESI": 0.02}
WL = 6.2e-7


def fields(name, n):
    f = FIELD[name]
    return [(0.0, 0.0), (f, -0.6 * f), (-0.3 * f, 0.0), (0.0, 0.8 * f), (-0.7 * f, -0.7 * f)][:n]


# ------------------------------------------------------------------ definitions
def ax(n):
    return np.arange(-n // 2, n // 2) / (n - 2) if n % 2 == 0 else np.arange(-(n // 2), n // 2 + 1) / (n - 1)


def chiefidx(n):
    return (n // 2) * n + n // 2


_T = {}


def traced(B, o, key, th, proj, nx=None, wl=WL, polar=None, spokes=None):
    """(rays before, rays after) in the pattern's order; cached"""
    k = (key, th, proj, nx, wl, polar, spokes)
    if k not in _T:
        if len(_T) > 400:
            _T.clear()
        kw = dict(optic=o, wavelength=wl, dirCos=B.utils.fieldToDirCos(*th, projection=proj))
        if nx:
            r = B.RayVector.asGrid(nx=nx, **kw)
        elif polar:
            r = B.RayVector.asPolar(nrad=polar[0], naz=polar[1], **kw)
        elif spokes:
            r = B.RayVector.asSpokes(inner=spokes[2], rings=spokes[0], spokes=spokes[1], spacing='GQ', **kw)
        else:
            r = B.RayVector.fromStop(0.0, 0.0, **kw)
        a = r.copy()
        o.trace(r)
        _T[k] = (a, r)
    return _T[k]


def stop_uv(B, o, rv):
    """where rays cross the stop surface, in its frame (Newton on the line)"""
    F = ref.Frame(rv.coordSys.origin, rv.coordSys.rot)
    G = ref.Frame(o.stopSurface.coordSys.origin, o.stopSurface.coordSys.rot)
    r = ((F.o + np.asarray(rv.r) @ F.R.T) - G.o) @ G.R
    v = (np.asarray(rv.v) @ F.R.T) @ G.R
    m = ref.Model(B, o.stopSurface.surface)
    s = -r[:, 2] / v[:, 2]
    for _ in range(20):
        p = r + v * s[:, None]
        gx, gy = m.grad(p[:, 0], p[:, 1])
        s = s - (p[:, 2] - m.sag(p[:, 0], p[:, 1])) / (v[:, 2] - gx * v[:, 0] - gy * v[:, 1])
    p = r + v * s[:, None]
    return p[:, 0], p[:, 1]


def refpoint(rays, reference, chief):
    w = ~np.asarray(rays.vignetted)
    return np.mean(np.asarray(rays.r)[w], axis=0) if reference == "mean" else chief


def at_sphere(r, v, t, p, R):
    """arrival time at the sphere about p of radius |R|, on the side of p towards sign(R) z"""
    q = r - p
    v2 = np.sum(v * v, axis=1)
    b = np.sum(q * v, axis=1) / v2
    with np.errstate(all='ignore'):
        h = np.sqrt(b * b - (np.sum(q * q, axis=1) - R * R) / v2)
    up = np.sign(v[:, 2]) * np.sign(R)
    return t - b + up * h


def opd(rays, p, R, reference, ci):
    t = at_sphere(np.asarray(rays.r), np.asarray(rays.v), np.asarray(rays.t), p, R)
    bad = np.asarray(rays.vignetted) | ~np.isfinite(t)
    t0 = np.mean(t[~bad]) if reference == "mean" else t[ci]
    return (t0 - t) / WL, bad


def prim(o, nx):
    return o.pupilSize / (nx - 2 if nx % 2 == 0 else nx - 1)


def jac(B, o, key, th, proj):
    """d(kx,ky)/d(ux,uy): plane fit over the default polar pattern; J[i] = dk/du_i"""
    a, r = traced(B, o, key, th, proj, polar=(6, 36))
    w = ~np.asarray(r.vignetted)
    v = np.asarray(r.v)[w]
    k = 2 * np.pi / WL * v / np.sum(v * v, axis=1)[:, None]
    u = np.asarray(a.r)[w]
    A = np.column_stack([np.ones(w.sum()), u[:, 0], u[:, 1]])
    return np.linalg.lstsq(A, k[:, :2], rcond=None)[0][1:]


def lattice(c, key, L, P, shape):
    """the lattice's own coordinates"""
    c.true(key + "#shape", L.array.shape == tuple(shape), f"array shape {L.array.shape}, not {tuple(shape)}")
    c.close(key + "#prim", L.primitiveVectors, P, atol=1e-6 * np.max(np.abs(P)), rtol=1e-6, msg="primitive vectors")
    i, j = np.meshgrid(np.arange(shape[0]) - shape[0] // 2, np.arange(shape[1]) - shape[1] // 2, indexing="ij")
    W = i[..., None] * P[0] + j[..., None] * P[1]
    c.close(key + "#coords", L.coords, W, atol=1e-6 * np.max(np.abs(P)), rtol=1e-6, msg="coordinates of the lattice points")


# ------------------------------------------------------------------ spot and wavefront
def spots(c, B, name, o, quick):
    sizes = (3, 4, 5, 6, 7, 8, 9, 12) if quick else tuple(range(3, 18)) + (31, 32)
    for fi, th in enumerate(fields(name, 3 if quick else 5)):
        for nx, proj, refr in itertools.product(sizes, PROJ if fi == 1 else PROJ[:1], ("chief", "mean")):
            if quick and proj != "postel" and nx not in (4, 5):
                continue
            base = f"{name}:{fi}:{nx}:{proj}:{refr}"
            a, r = traced(B, o, name, th, proj, nx=nx)
            w = ~np.asarray(r.vignetted)
            c.state(base)
            if not w.any():
                c.outcome("all-vignetted")
                continue
            p = refpoint(r, refr, np.asarray(r.r)[chiefidx(nx)])
            with c.case("spot:" + base):
                x, y = B.spot(o, *th, WL, nx=nx, projection=proj, reference=refr)
                c.close("spot:" + base + "#x", x, np.asarray(r.x)[w] - p[0], atol=1e-12, msg="spot x")
                c.close("spot:" + base + "#y", y, np.asarray(r.y)[w] - p[1], atol=1e-12, msg="spot y")
                c.trans()
            R0 = o.sphereRadius
            for R in (None, R0, 0.6 * R0, -R0) if proj == "postel" else (None,):
                key = f"wavefront:{base}:{'d' if R is None else R}"
                with c.case(key):
                    L = B.wavefront(o, *th, WL, nx=nx, projection=proj, reference=refr, **({} if R is None else dict(sphereRadius=R)))
                    want, bad = opd(r, p, R0 if R is None else R, refr, chiefidx(nx))
                    m = np.ma.getmaskarray(L.array)
                    c.true(key + "#mask", m.shape == (nx, nx) and np.array_equal(m.ravel(), bad), "the masked points are not those of the vignetted rays", got=m, want=bad.reshape(nx, nx))
                    W = want.reshape(nx, nx)
                    c.close(key + "#opd", np.where(bad.reshape(nx, nx), 0, L.array.filled(0)), np.where(bad.reshape(nx, nx), 0, W), atol=3e-6, msg="path difference at the reference sphere, in waves")
                    lattice(c, key, L, prim(o, nx) * np.eye(2), (nx, nx))
                    # the label of array[iy, ix] is the pupil position of its ray
                    u, v = stop_uv(B, o, a)
                    X = L.coords.transpose(1, 0, 2)
                    c.close(key + "#label", X, np.stack([u, v], axis=-1).reshape(nx, nx, 2), atol=1e-9, msg="the coordinates do not label the pupil positions of the rays")
                    c.trans()
                    c.trace()
    c.outcome("spots:" + name)


# ------------------------------------------------------------------ FFT PSF
def ffts(c, B, name, o, quick):
    for fi, th in enumerate(fields(name, 3)):
        for nx, pad, proj, refr in itertools.product((3, 4, 5, 6, 7, 8, 9) if quick else range(3, 15), (1, 2, 3), PROJ if fi == 1 else PROJ[:1], ("chief", "mean")):
            if proj != "postel" and (nx not in (4, 5) or pad != 2):
                continue
            if quick and refr == "mean" and nx not in (4, 5):
                continue
            key = f"fft:{name}:{fi}:{nx}:{pad}:{proj}:{refr}"
            a, r = traced(B, o, name, th, proj, nx=nx)
            if not (~np.asarray(r.vignetted)).sum() >= 3 or (~np.asarray(traced(B, o, name, th, proj, polar=(6, 36))[1].vignetted)).sum() < 4:
                c.outcome("all-vignetted")
                continue
            with c.case(key):
                R = 0.8 * o.sphereRadius if nx == 5 else None
                L = B.fftPSF(o, *th, WL, nx=nx, pad_factor=pad, projection=proj, reference=refr, **({} if R is None else dict(sphereRadius=R)))
                p = refpoint(r, refr, np.asarray(r.r)[chiefidx(nx)])
                W, bad = opd(r, p, R or o.sphereRadius, refr, chiefidx(nx))
                E = np.where(bad, 0, np.exp(2j * np.pi * np.where(bad, 0, W))).reshape(nx, nx)
                N = nx * pad
                n, f = np.arange(nx), np.arange(N) - N // 2
                K = np.exp(-2j * np.pi * np.outer(f, n) / N)
                psf = np.abs(K @ E @ K.T)**2
                c.close(key + "#psf", L.array / psf.max(), psf / psf.max(), atol=3e-5, msg="diffraction image is not the squared transform of the pupil")
                pk = jac(B, o, name, th, proj) @ (prim(o, nx) * np.eye(2))
                P = np.linalg.inv(pk).T * 2 * np.pi / N
                lattice(c, key, L, P, (N, N))
                c.trans()
                c.trace()
                c.state(key)
    c.outcome("fft:" + name)


# ------------------------------------------------------------------ Huygens PSF
def direct(rays, pts):
    """|coherent sum|^2 of unvignetted rays at pts"""
    w = ~np.asarray(rays.vignetted) & ~np.asarray(rays.failed)
    r, v, t, f = np.asarray(rays.r)[w], np.asarray(rays.v)[w], np.asarray(rays.t)[w], np.asarray(rays.flux)[w]
    k = v / np.sum(v * v, axis=1)[:, None]
    T = np.mean(t)
    d = np.sum(k * -r, axis=1) + (t - T)                     # metres of path; large terms cancel before the phase is formed
    ph = 2 * np.pi / WL * (pts @ k.T + d)
    return np.abs(np.sum(np.exp(1j * ph) * f, axis=-1))**2


def huygens(c, B, name, o, quick):
    s = 2e-6
    opts = {"default": {}, "out3": dict(nxOut=3), "out4": dict(nxOut=4), "scalar": dict(dx=s), "scalar2": dict(dx=s, dy=1.5 * s, nxOut=5), "square": dict(dx=s, dy=s, nxOut=2), "vec": dict(dx=[s, 0.3 * s], dy=[-0.4 * s, 1.2 * s], nxOut=4),
            "vec5": dict(dx=np.array([0, s]), dy=np.array([1.3 * s, 0]), nxOut=5), "one": dict(dx=s, nxOut=1), "int": dict(dx=1, dy=2, nxOut=2)}
    for fi, th in enumerate(fields(name, 2 if quick else 4)):
        for nx, (on, kw), proj, refr in itertools.product((3, 4, 5, 6, 8) if quick else range(3, 11), opts.items(), PROJ if fi == 1 else PROJ[:1], ("chief", "mean")):
            if proj != "postel" and (nx != 4 or on not in ("default", "scalar2")):
                continue
            if quick and on == "default" and nx > 5:
                continue
            key = f"huygens:{name}:{fi}:{nx}:{on}:{proj}:{refr}"
            a, r = traced(B, o, name, th, proj, nx=nx)
            if not (~np.asarray(r.vignetted)).any() or (~np.asarray(traced(B, o, name, th, proj, polar=(6, 36))[1].vignetted)).sum() < 4:
                continue
            with c.case(key):
                L = B.huygensPSF(o, *th, WL, nx=nx, projection=proj, reference=refr, **kw)
                N = kw.get("nxOut", nx)
                if "dx" in kw:
                    dx = kw["dx"]
                    P = np.array([[dx, 0.0], [0.0, kw.get("dy", dx)]]) if np.ndim(dx) == 0 else np.array([dx, kw["dy"]], float)
                else:
                    N *= 2
                    pk = jac(B, o, name, th, proj) @ (prim(o, nx) * np.eye(2))
                    P = np.linalg.inv(pk).T * 2 * np.pi / (2 * nx)
                lattice(c, key, L, P, (N, N))
                p = refpoint(r, refr, np.asarray(r.r)[chiefidx(nx)])
                X = L.coords.transpose(1, 0, 2)
                pts = np.concatenate([X + p[:2], np.zeros((N, N, 1))], axis=-1)
                W = direct(r, pts)
                if on != "int":
                    nrm = np.sum(np.asarray(r.flux)[~np.asarray(r.vignetted)])**2
                    c.close(key + "#psf", L.array / nrm, W / nrm, atol=1e-5, msg="image is not the coherent sum of the rays at the labelled positions")
                c.trans(L.array.size)
                c.trace()
                c.state(key)
    c.outcome("huygens:" + name)


def orientation(c, B, name, o, quick):
    """the two diffraction images describe one image: same labels, same orientation"""
    th = fields(name, 2)[1]
    for nx in (32, 33) if quick else (32, 33, 48, 49):
        key = f"orientation:{name}:{nx}"
        with c.case(key):
            f = B.fftPSF(o, *th, WL, nx=nx)
            h = B.huygensPSF(o, *th, WL, nx=nx)
            A, Hh = f.array / f.array.sum(), h.array / h.array.sum()
            cor = np.corrcoef(A.ravel(), Hh.ravel())[0, 1]
            c.true(key + "#same", cor > 0.98, f"Fourier and Huygens images differ (correlation {cor:.4f})")
            c.sample({key: float(cor)})
            c.trans(h.array.size)
            c.state(key)


# ------------------------------------------------------------------ Zernike analyses
def basis(jmax, u, v, o, eps):
    return np.array([np.zeros_like(u)] + [ref.zernike(j, u, v, o.pupilSize / 2, o.pupilSize / 2 * eps) for j in range(1, jmax + 1)])


def dbasis(jmax, u, v, o, eps):
    h = 1e-3 * o.pupilSize
    w = [(1, 4 / 5), (2, -1 / 5), (3, 4 / 105), (4, -1 / 280)]
    gx = sum(a * (basis(jmax, u + i * h, v, o, eps) - basis(jmax, u - i * h, v, o, eps)) for i, a in w) / h
    gy = sum(a * (basis(jmax, u, v + i * h, o, eps) - basis(jmax, u, v - i * h, o, eps)) for i, a in w) / h
    return gx, gy


def fit(A, b, rank):
    s, *_ = np.linalg.svd(A, full_matrices=False)[1:2]
    return np.linalg.lstsq(A, b, rcond=None)[0], bool(np.sum(s > s[0] * 1e-9) >= rank)


def zernikes(c, B, name, o, quick):
    for fi, th in enumerate(fields(name, 2 if quick else 4)):
        for proj, refr, eps, jmax in itertools.product(PROJ if fi == 1 else PROJ[:1], ("chief", "mean"), (0.0, 0.35), (1, 4, 11) if quick else (1, 2, 4, 11, 15, 22)):
            if proj != "postel" and (jmax != 4 or eps):
                continue
            base = f"{name}:{fi}:{proj}:{refr}:{eps}:{jmax}"
            kw = dict(projection=proj, reference=refr, eps=eps, jmax=jmax)
            R = None if jmax != 4 else 0.7 * o.sphereRadius
            RK = {} if R is None else dict(sphereRadius=R)
            R = R or o.sphereRadius
            # grid fit
            for nx in (11, 12) if quick else (11, 12, 24):
                key = f"zernike:{base}:{nx}"
                with c.case(key):
                    a, r = traced(B, o, name, th, proj, nx=nx)
                    p = refpoint(r, refr, np.asarray(r.r)[chiefidx(nx)])
                    W, bad = opd(r, p, R, refr, chiefidx(nx))
                    u, v = stop_uv(B, o, a)
                    A = basis(jmax, u[~bad], v[~bad], o, eps)[1:].T
                    want, ok = fit(A, W[~bad], jmax)
                    if ok:
                        z = B.zernike(o, *th, WL, nx=nx, **kw, **RK)
                        c.close(key, z, np.r_[0, want], atol=2e-5 * (1 + np.linalg.cond(A) / 30), rtol=1e-6, msg="not the least-squares fit of the wavefront over the pupil, in waves")
                    c.trans()
                    c.trace()
            # Gaussian quadrature
            for rings, spokes in ((3, None), (4, 6), (5, 11)) if quick else ((2, None), (3, None), (4, 6), (5, 11), (6, 20), (8, None)):
                key = f"zernikeGQ:{base}:{rings}:{spokes}"
                with c.case(key):
                    ns = spokes or 2 * rings + 1
                    a, r = traced(B, o, name, th, proj, spokes=(rings, ns, eps * o.pupilSize / 2))
                    if np.asarray(r.failed).any():
                        try:
                            B.zernikeGQ(o, *th, WL, rings=rings, spokes=spokes, **kw, **RK)
                            c.fail(key + "#refuse", "a decomposition is reported although a ray of the quadrature was lost")
                        except ValueError:
                            c.outcome("refused")
                        continue
                    if refr == "mean" and np.asarray(r.vignetted).all():
                        continue
                    ca, cr = traced(B, o, name, th, proj)
                    p = refpoint(r, refr, np.asarray(cr.r)[0])
                    t = at_sphere(np.asarray(r.r), np.asarray(r.v), np.asarray(r.t), p, R)
                    w = ~np.asarray(r.vignetted)
                    t0 = np.mean(t[w]) if refr == "mean" else at_sphere(np.asarray(cr.r), np.asarray(cr.v), np.asarray(cr.t), p, R)[0]
                    u, v = stop_uv(B, o, a)
                    # weights of the quadrature: Gauss in the square of the radius, equal in angle
                    gl, gw = np.polynomial.legendre.leggauss(rings)
                    rr = np.sqrt((1 + gl) / 2 * (1 - eps**2) + eps**2) * o.pupilSize / 2
                    wt = gw[np.argmin(np.abs(np.hypot(u, v)[:, None] - rr[None]), axis=1)] / 2 / ns
                    c.close(key + "#nodes", np.sort(np.hypot(u, v)), np.sort(np.repeat(rr, ns)), atol=1e-9, msg="quadrature radii")
                    want = basis(jmax, u, v, o, eps) @ (wt * (t0 - t) / WL)
                    z = B.zernikeGQ(o, *th, WL, rings=rings, spokes=spokes, **kw, **RK)
                    c.close(key, np.asarray(z)[1:], want[1:], atol=2e-5, rtol=1e-6, msg="not the projection of the wavefront onto the Zernike polynomials, in waves")
                    c.true(key + "#len", len(z) == jmax + 1, "number of coefficients")
                    c.trans()
                    c.trace()
            # transverse aberrations
            for nrad, naz in ((5, 24),) if quick else ((4, 18), (6, 36), (8, 40)):
                a, r = traced(B, o, name, th, proj, polar=(nrad, naz))
                ca, cr = traced(B, o, name, th, proj)
                w = ~np.asarray(r.vignetted)
                if not w.any():
                    continue
                u, v = stop_uv(B, o, a)
                p = refpoint(r, refr, np.asarray(cr.r)[0])
                x, y = np.asarray(r.x) - p[0], np.asarray(r.y) - p[1]
                for iv in (False, True):
                    if iv and np.asarray(r.failed).any():
                        continue
                    key = f"zernikeXY:{base}:{nrad}:{naz}:{int(iv)}"
                    with c.case(key):
                        m = np.ones_like(w) if iv else w
                        A = basis(jmax, u[m], v[m], o, eps)[1:].T
                        wx, ok = fit(A, x[m], jmax)
                        wy, _ = fit(A, y[m], jmax)
                        if ok:
                            zx, zy = B.analysis.zernikeXYAberrations(o, *th, WL, nrad=nrad, naz=naz, include_vignetted=iv, **kw)
                            tol = 1e-11 * (1 + np.linalg.cond(A))
                            c.close(key + "#x", zx, np.r_[0, wx], atol=tol, rtol=1e-7, msg="x aberration coefficients")
                            c.close(key + "#y", zy, np.r_[0, wy], atol=tol, rtol=1e-7, msg="y aberration coefficients")
                        c.trans()
                        c.trace()
                if jmax >= 4:
                    key = f"zernikeTA:{base}:{nrad}:{naz}"
                    with c.case(key):
                        gx, gy = dbasis(jmax, u[w], v[w], o, eps)
                        A = np.hstack([gx, gy])[2:].T
                        cf, ok = fit(A, np.r_[x[w], y[w]], jmax - 1)
                        if ok:
                            fl = 7.7 if jmax == 4 else abs(B.analysis.focalLength(o, *th, WL, projection=proj)) if jmax == 11 else None
                            z = B.analysis.zernikeTA(o, *th, WL, nrad=nrad, naz=naz, focal_length=fl if jmax == 4 else None, **kw)
                            if fl is None:
                                fl = abs(B.analysis.focalLength(o, *th, WL, projection=proj))
                            c.close(key, z, np.r_[0, 0, -cf / fl / WL], atol=1e-5, rtol=1e-5, msg="not the least-squares wavefront whose gradient gives the transverse aberrations")
                        c.trans()
                        c.trace()
            c.state(base)
    c.outcome("zernikes:" + name)


def doubles(c, B, name, o, quick):
    f = FIELD[name]
    for rings, spokes, kmax, jmax, eps in ((2, None, 3, 4, 0.0), (3, 4, 6, 5, 0.35), (2, 6, 4, 11, 0.0)):
        key = f"double:{name}:{rings}:{spokes}:{kmax}:{jmax}:{eps}"
        with c.case(key):
            ns = spokes or 2 * rings + 1
            gl, gw = np.polynomial.legendre.leggauss(rings)
            want = np.zeros((kmax + 1, jmax + 1))
            try:
                for g, wq in zip(gl, gw):
                    for k in range(ns):
                        r, a = np.sqrt((1 + g) / 2) * f, 2 * np.pi * k / ns
                        x, y = r * np.cos(a), r * np.sin(a)
                        z = B.zernikeGQ(o, x, y, WL, rings=rings, spokes=ns, jmax=jmax, eps=eps, reference="mean")
                        for q in range(1, kmax + 1):
                            want[q] += wq / 2 / ns * ref.zernike(q, x, y, f) * z
            except ValueError:
                c.outcome("refused")
                continue
            d = B.doubleZernike(o, f, WL, rings=rings, spokes=spokes, kmax=kmax, jmax=jmax, eps=eps, reference="mean")
            c.true(key + "#shape", d.shape == want.shape, "shape of the coefficients")
            c.close(key, d[1:, 1:], want[1:, 1:], atol=1e-6, rtol=1e-8, msg="not the field projection of the pupil coefficients")
            c.trans(rings * ns)
            c.trace()
            c.state(key)
    c.outcome("double:" + name)


def screens(c, B, quick):
    """a known path difference over the pupil comes back with the documented sign, index and unit"""
    o = optics(B, True)["para"]
    v = B.ConstMedium(1.0)
    for j in range(4, 12 if quick else 23):
        for amp in (1e-8, -2e-8):
            key = f"screen:{j}:{amp}"
            with c.case(key):
                s = B.OPDScreen(B.Plane(), B.Zernike([0] * j + [amp], R_outer=o.pupilSize / 2), name="scr", inMedium=v, coordSys=B.CoordSys().shiftGlobal([0, 0, 0.0]))
                # the screen sits at the pupil plane, met before the mirror
                w = o.withInsertedOptic("M", s)
                for nm, f in (("zernike", lambda q: B.zernike(q, 0.0, 0.0, WL, nx=24 if quick else 64, jmax=11 if j < 12 else 22)), ("zernikeGQ", lambda q: B.zernikeGQ(q, 0.0, 0.0, WL, jmax=11 if j < 12 else 22, rings=8))):
                    d = (f(w) - f(o))[1:]
                    e = np.zeros_like(d)
                    e[j - 1] = -amp / WL
                    d[:3] = 0            # piston, and tilt about the (moved) chief ray
                    c.close(f"{key}#{nm}", d, e, atol=3e-4 + 0.02 * abs(amp / WL), msg="a known aberration is not recovered")
                    c.trans(2)
                c.state(key)
    c.outcome("screens")


# ------------------------------------------------------------------ lattices, unchanged optics
def lattices(c, B, quick):
    m = 6 if quick else 9
    prims = {1: [[[1.0]], [[-0.5]]], 2: [[[1.0, 0], [0, 1.0]], [[0.5, 0.25], [-0.125, 2.0]], [[0, 1.0], [3.0, 0]]], 3: [np.eye(3).tolist(), [[1, 0.5, 0], [0, 2, 0.25], [-1, 0, 3]]]}
    for d in (1, 2, 3):
        for shape in itertools.product(range(1, m if d < 3 else 5), repeat=d):
            for k, P in enumerate(prims[d]):
                key = f"lattice:{'x'.join(map(str, shape))}:{k}"
                with c.case(key):
                    A = np.arange(np.prod(shape), dtype=float).reshape(shape)
                    L = B.Lattice(A, P)
                    want = np.zeros(shape + (d,))
                    for idx in np.ndindex(*shape):
                        want[idx] = sum((idx[q] - shape[q] // 2) * np.asarray(P[q], float) for q in range(d))
                    c.close(key + "#coords", L.coords, want, atol=1e-15, msg="coordinates of the lattice points")
                    c.true(key + "#array", np.array_equal(L.array, A), "values")
                    L2 = B.Lattice(A.copy(), np.array(P, float))
                    c.true(key + "#eq", L == L2 and hash(L) == hash(L2), "equal lattices differ")
                    B2 = A.copy()
                    B2.flat[-1] += 1
                    c.true(key + "#ne", L != B.Lattice(B2, P) and L != B.Lattice(A, -np.asarray(P, float)), "different lattices compare equal")
                    c.trans(4)
                    c.state(key)
            for e in (d - 1, d + 1):
                if e > 0:
                    try:
                        B.Lattice(np.zeros(shape), np.eye(e))
                        c.fail(f"lattice:bad:{shape}:{e}", "a lattice with the wrong number of vectors is accepted")
                    except ValueError:
                        c.outcome("refused")
    c.outcome("lattices")


def flat(r):
    return [r.array, r.primitiveVectors] if hasattr(r, "primitiveVectors") else r


def defaults(c, B, name, o):
    """leaving an option out means its documented default"""
    th = fields(name, 2)[1]
    A = B.analysis
    com = dict(projection="postel", reference="chief")
    sr = dict(sphereRadius=o.sphereRadius)
    for nm, f, kw in (("spot", B.spot, dict(com, nx=32)), ("wavefront", B.wavefront, dict(com, nx=32, **sr)), ("fftPSF", B.fftPSF, dict(com, nx=32, pad_factor=2, **sr)),
                      ("huygensPSF", lambda *a, **k: B.huygensPSF(*a, **dict(dict(nx=4), **k)), dict(com, nxOut=4)), ("zernike", B.zernike, dict(com, nx=32, jmax=22, eps=0.0, **sr)),
                      ("zernikeGQ", B.zernikeGQ, dict(com, rings=6, spokes=13, jmax=22, eps=0.0, **sr)), ("zernikeTA", A.zernikeTA, dict(com, nrad=6, naz=36, jmax=22, eps=0.0)),
                      ("zernikeXY", A.zernikeXYAberrations, dict(com, nrad=6, naz=36, jmax=22, eps=0.0, include_vignetted=False))):
        key = f"defaults:{name}:{nm}"
        with c.case(key):
            outs = []
            for k in ({}, kw):
                try:
                    outs.append(flat(f(o, *th, WL, **k)))
                except (ValueError, RuntimeError) as e:
                    outs.append(type(e).__name__)
            a, b = outs
            eq = a == b if isinstance(a, str) else all(np.allclose(np.ma.filled(np.ma.asarray(p), 0), np.ma.filled(np.ma.asarray(q), 0), rtol=1e-9, atol=1e-12, equal_nan=True) for p, q in zip(a, b))
            c.true(key, eq, "leaving the options out is not the same as giving their documented defaults")
            c.trans(2)
            c.state(key)


def unchanged(c, B, name, o):
    th = fields(name, 2)[1]
    z = dict(jmax=4)
    for nm, f in (("spot", lambda: B.spot(o, *th, WL, nx=6)), ("wavefront", lambda: B.wavefront(o, *th, WL, nx=6)), ("fftPSF", lambda: B.fftPSF(o, *th, WL, nx=6)), ("huygensPSF", lambda: B.huygensPSF(o, *th, WL, nx=6, nxOut=2)),
                  ("zernike", lambda: B.zernike(o, *th, WL, nx=12, **z)), ("zernikeGQ", lambda: B.zernikeGQ(o, *th, WL, **z)), ("zernikeTA", lambda: B.analysis.zernikeTA(o, *th, WL, **z)),
                  ("zernikeXY", lambda: B.analysis.zernikeXYAberrations(o, *th, WL, **z)), ("double", lambda: B.doubleZernike(o, 1e-4, WL, rings=2, kmax=3, **z))):
        key = f"unchanged:{name}:{nm}"
        with c.case(key):
            before = S.snapshot(o)
            outs = []
            for _ in (0, 1):
                try:
                    outs.append(f())
                except (ValueError, RuntimeError) as e:
                    outs.append(str(e))
            c.true(key, S.snapshot(o) == before, "the analysis changed the optic")
            a, b = map(flat, outs)
            eq = a == b if isinstance(a, str) else all(np.allclose(np.ma.filled(np.ma.asarray(p), 0), np.ma.filled(np.ma.asarray(q), 0), rtol=1e-9, atol=1e-12, equal_nan=True) for p, q in zip(a, b))
            c.true(key + "#again", eq, "the same analysis gives another result the second time")
            c.trans(2)


def run(c, B):
    np.seterr(all='ignore')
    c.method = "exhaustive enumeration of system x analysis x option products, each element compared with a direct evaluation of the definition"
    q = c.quick
    lattices(c, B, q)
    for name, o in optics(B, q).items():
        _T.clear()
        spots(c, B, name, o, q)
        ffts(c, B, name, o, q)
        huygens(c, B, name, o, q)
        if name in ("para", "cass", "misaligned", "moved"):
            orientation(c, B, name, o, q)
        zernikes(c, B, name, o, q)
        doubles(c, B, name, o, q)
        unchanged(c, B, name, o)
        defaults(c, B, name, o)
    screens(c, B, q)
    c.assume("planar image surfaces; a chief ray that is not lost; grids with nx >= 3; generated rays and tracing as judged by C17 and C14")
    c.assume("transverse-aberration fits only for image frames whose parity agrees with the pupil's (the default focal length is a square root of a determinant)")
    c.extra["bounds"] = "6 systems (11 thorough) x 3-5 fields x 6 projections x nx 3..12 x chief/mean x 3-4 sphere radii; pad 1..3; 10 output samplings; jmax 1..11 (22), 2 annuli, 3 quadratures; all lattices up to 5x5, 4x4x4"
