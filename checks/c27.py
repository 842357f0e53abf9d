"""C27 - the symmetries of geometry: every element, system, beam and analysis under every element of a finite set of symmetries
(the eight symmetries of the square acting on x-y, powers of two of one common length scale, rigid motions of everything) and their
products; oracle = the untransformed run, transformed by the definition of the symmetry."""
import contextlib
import io
import itertools
import warnings

import numpy as np

import alpha
import systems as S


class G:
    """x-y symmetry A (signed permutation), scale s, rigid motion g of the surroundings"""
    def __init__(self, B, A=np.eye(2), s=1.0, g=None, name=""):
        self.B, self.A, self.s, self.name = B, np.asarray(A, float), s, name
        self.M = np.eye(3)
        self.M[:2, :2] = self.A
        self.R, self.t = (np.eye(3), np.zeros(3)) if g is None else g
        self.eps = round(np.linalg.det(self.A))
        self.phi = np.arctan2(self.A[1, 0], self.A[0, 0])                 # where the x axis goes

    # --- numbers
    def L(self, v):
        return v * self.s if not isinstance(v, (list, tuple)) else [q * self.s for q in v]

    def xy(self, x, y):
        q = self.A @ np.stack([np.ravel(x), np.ravel(y)]) * self.s
        return q[0].reshape(np.shape(x)), q[1].reshape(np.shape(y))

    def angle(self, th):
        return self.eps * th + self.phi

    def field(self, a, b):
        q = self.A @ [a, b]
        return q[0], q[1]

    def vec(self, v):
        return self.M @ np.asarray(v, float)

    def vecs(self, v):
        return (self.M @ np.asarray(v, float).T).T

    # --- frames
    def place(self, origin, rot):
        """frame of the surroundings -> transformed frame"""
        o = self.M @ np.asarray(origin, float) * self.s
        r = self.M @ np.asarray(rot, float) @ self.M.T
        return self.B.CoordSys(self.R @ o + self.t * self.s, self.R @ r)

    def frame(self, x=0.0, y=0.0, z=0.0, rx=0.0, ry=0.0, rz=0.0):
        B = self.B
        return self.place([x, y, z], B.RotX(rx) @ B.RotY(ry) @ B.RotZ(rz))

    # --- surfaces (in their own frame: A and s act, g does not)
    def noll(self, coef):
        """Zernike coefficients of f o A^-1"""
        import galsim
        out = np.zeros(len(coef))
        full = np.concatenate([coef, np.zeros(2)])
        res = np.zeros(len(full))
        for j in range(1, len(coef)):
            n, m = galsim.zernike.noll_to_zern(j)
            if m == 0:
                res[j] += full[j]
                continue
            k = next(q for q in (j - 1, j + 1) if galsim.zernike.noll_to_zern(q) == (n, -m))
            c, s = np.cos(abs(m) * self.phi), np.sin(abs(m) * self.phi)
            c, s = round(c), round(s)
            if m > 0:                                                     # cosine term
                res[j] += full[j] * c
                res[k] += full[j] * s
            else:
                res[j] += self.eps * full[j] * c
                res[k] -= self.eps * full[j] * s
        return res

    def tilted(self, a, b):
        q = self.A @ [a, b]
        return self.B.Tilted(q[0], q[1])

    def quadric(self, R, k):
        return self.B.Quadric(R * self.s, k)

    def asphere(self, R, k, c):
        return self.B.Asphere(R * self.s, k, [v * self.s**(1 - 2 * (i + 2)) for i, v in enumerate(c)])

    def zernike(self, coef, R_outer, R_inner=0.0, x=0.0, y=0.0):
        x, y = self.xy(x, y)
        return self.B.Zernike(self.noll(np.asarray(coef, float)) * self.s, R_outer=R_outer * self.s, R_inner=R_inner * self.s, x_origin=float(x), y_origin=float(y))

    def bicubic(self, xs, ys, f):
        """f(x, y) -> z, fx, fy, fxy of the untransformed surface"""
        A = self.A
        if A[0, 0]:
            nx, ny = np.sort(A[0, 0] * xs), np.sort(A[1, 1] * ys)
        else:
            nx, ny = np.sort(A[0, 1] * ys), np.sort(A[1, 0] * xs)
        X, Y = np.meshgrid(nx, ny)
        q = A.T @ np.stack([X.ravel(), Y.ravel()])
        z, fx, fy, fxy = [v.reshape(X.shape) for v in f(q[0], q[1])]
        gx, gy = A[0, 0] * fx + A[0, 1] * fy, A[1, 0] * fx + A[1, 1] * fy
        gxy = (A[0, 0] * A[1, 1] + A[0, 1] * A[1, 0]) * fxy
        s = self.s
        return self.B.Bicubic(nx * s, ny * s, z * s, dzdxs=gx, dzdys=gy, d2zdxdys=gxy / s)

    # --- obscurations
    def circle(self, r, x=0.0, y=0.0):
        x, y = self.xy(x, y)
        return self.B.ObscCircle(r * self.s, float(x), float(y))

    def annulus(self, a, b, x=0.0, y=0.0):
        x, y = self.xy(x, y)
        return self.B.ObscAnnulus(a * self.s, b * self.s, float(x), float(y))

    def rect(self, w, h, x=0.0, y=0.0, th=0.0):
        x, y = self.xy(x, y)
        return self.B.ObscRectangle(w * self.s, h * self.s, float(x), float(y), self.angle(th))

    def ray(self, w, th, x=0.0, y=0.0):
        x, y = self.xy(x, y)
        return self.B.ObscRay(w * self.s, self.angle(th), float(x), float(y))

    def poly(self, xs, ys):
        x, y = self.xy(np.asarray(xs, float), np.asarray(ys, float))
        return self.B.ObscPolygon(x, y)

    # --- media
    def sellmeier(self, c):
        return self.B.SellmeierMedium(list(c[:3]) + [v * self.s**2 for v in c[3:]])

    def sumita(self, c):
        return self.B.SumitaMedium([v * self.s**p for v, p in zip(c, (0, -2, 2, 4, 6, 8))])

    def table(self, w, n):
        return self.B.TableMedium(np.asarray(w) * self.s, n)

    # --- rays
    def rays(self, q, cs=None):
        """q: dict of arrays in frame cs (untransformed, arguments of place)"""
        x, y = self.xy(q["x"], q["y"])
        vx, vy = self.A @ np.stack([q["vx"], q["vy"]])
        return self.B.RayVector(x, y, q["z"] * self.s, vx, vy, q["vz"], t=q["t"] * self.s, wavelength=q["wavelength"] * self.s, flux=q["flux"], vignetted=q["vignetted"], failed=q["failed"], coordSys=cs or self.frame())

    def back(self, rv):
        """fields of rv carried back (n, 11), in the frame of rv"""
        a = alpha.snap(rv).astype(float)
        f = {k: i for i, k in enumerate(alpha.FIELDS + alpha.FLAGS)}
        out = a.copy()
        r, v = self.M.T @ np.stack([a[:, f[k]] for k in "xyz"]), self.M.T @ np.stack([a[:, f[k]] for k in ("vx", "vy", "vz")])
        for i, k in enumerate("xyz"):
            out[:, f[k]] = r[i] / self.s
        for i, k in enumerate(("vx", "vy", "vz")):
            out[:, f[k]] = v[i]
        for k in ("t", "wavelength"):
            out[:, f[k]] /= self.s
        return out

    def back_frame(self, cs):
        o = self.M.T @ (self.R.T @ (np.asarray(cs.origin) - self.t * self.s)) / self.s
        return np.concatenate([o, (self.M.T @ self.R.T @ cs.rot @ self.M).ravel()])


SELL = (0.6961663, 0.4079426, 0.8974794, 0.0046791, 0.0135121, 97.9340025)
SUMI = (2.2377, -0.0098, 0.0126, 0.0004, -1e-5, 1e-6)


def bump(x, y):
    return 0.02 * x**3 - 0.01 * x * y**2 + 0.03 * y**2, 0.06 * x**2 - 0.01 * y**2, -0.02 * x * y + 0.06 * y, -0.02 * y


XS, YS = np.linspace(-1.6, 1.4, 7), np.linspace(-1.2, 1.8, 6)


def surfaces(T):
    B = T.B
    S_ = {"plane": B.Plane(), "tilted": T.tilted(0.1, -0.25), "sphere": B.Sphere(7.0 * T.s), "sphere-": B.Sphere(-5.0 * T.s), "para": B.Paraboloid(-9.0 * T.s), "quad": T.quadric(6.0, 0.4), "hyper": T.quadric(5.0, -2.3),
          "asphere": T.asphere(9.0, -0.5, [1e-3, -2e-4, 1e-5]), "zernike": T.zernike([0, 0.01, 0.02, -0.03, 0.02, 0.015, -0.01, 0.02, 0.01, -0.015, 0.005, 0.004, -0.006, 0.007, 0.003, -0.002], 1.5, 0.4, 0.1, -0.05),
          "bicubic": T.bicubic(XS, YS, bump)}
    S_["sum"] = B.Sum([S_["quad"], S_["zernike"], S_["tilted"]])
    S_["sumb"] = B.Sum([S_["sphere"], S_["bicubic"]])
    return S_


def obscurations(T):
    B = T.B
    O = {"circle": T.circle(0.8, 0.2, -0.1), "annulus": T.annulus(0.4, 1.1, -0.1, 0.3), "rect": T.rect(0.7, 1.4, 0.2, 0.1, 0.3), "ray": T.ray(0.35, 0.6, 0.1, -0.2), "ray2": T.ray(0.35, 2.9, -0.1, 0.2), "poly": T.poly([-0.9, 0.8, 1.0, 0.1, -0.6], [-0.7, -0.9, 0.6, 0.2, 1.0])}
    O["neg"] = B.ObscNegation(O["rect"])
    O["union"] = B.ObscUnion([O["ray"], O["circle"], O["poly"]])
    O["inter"] = B.ObscIntersection([O["neg"], O["annulus"]])
    return O


def media(T):
    B = T.B
    return {"const": B.ConstMedium(1.5), "sellmeier": T.sellmeier(SELL), "sumita": T.sumita(SUMI), "table": T.table([3e-7, 4.1e-7, 6e-7, 9e-7, 1.2e-6], [1.55, 1.53, 1.515, 1.505, 1.5])}


def optics(T):
    """systems placed anywhere, with every kind of part"""
    B = T.B
    v, F = B.ConstMedium(1.0), T.frame
    m = media(T)
    O = obscurations(T)
    out = {}
    st = lambda **k: B.Interface(B.Plane(), name="stop", coordSys=F(**k))
    kw = dict(backDist=1.5 * T.s, sphereRadius=2.0 * T.s, inMedium=v, coordSys=F())
    # a lens with dispersion, decentred and tilted parts and vignetting
    l1 = B.RefractiveInterface(T.quadric(-2.0, -0.4), name="a", inMedium=v, outMedium=m["sellmeier"], coordSys=F(0.002, -0.001, -0.3, 0.01, -0.005), obscuration=B.ObscNegation(T.circle(0.13, 0.01, 0.0)))
    l2 = B.RefractiveInterface(T.asphere(3.0, 0.1, [1e-2, 1e-1]), name="b", inMedium=m["sellmeier"], outMedium=m["table"], coordSys=F(-0.001, 0.003, -0.34, 0.0, 0.004), obscuration=T.rect(0.02, 0.5, 0.04, 0.01, 0.3))
    l3 = B.RefractiveInterface(B.Sphere(6.0 * T.s), name="c", inMedium=m["table"], outMedium=v, coordSys=F(0.0, 0.0, -0.38, 0.003))
    d = B.Detector(B.Plane(), name="D", inMedium=v, coordSys=F(0.01, -0.02, -2.6, 0.02, -0.03, 0.4))
    out["lens"] = B.CompoundOptic([B.Lens([l1, l2], name="L", inMedium=v, outMedium=m["table"], coordSys=F(0.001, 0.0, -0.32, 0.002)), l3, d], name="lens", stopSurface=st(x=0.003, z=0.05, rx=0.01), pupilSize=0.2 * T.s, **kw)
    # two mirrors, a screen and baffles
    m1 = B.Mirror(T.quadric(2.0, -1.0), name="M1", inMedium=v, coordSys=F(), obscuration=B.ObscNegation(T.annulus(0.07, 0.2)))
    bf = B.Baffle(B.Plane(), name="B", inMedium=v, coordSys=F(z=0.71, rz=0.3), obscuration=B.ObscUnion([T.ray(0.004, 0.6, 0.0, 0.0), T.poly([0.05, 0.09, 0.07], [0.04, 0.05, 0.09])]))
    m2 = B.Mirror(T.quadric(0.84, -3.24), name="M2", inMedium=v, coordSys=F(1e-4, -2e-4, 0.7, 0.001, 0.0005))
    sc = B.OPDScreen(B.Plane(), T.zernike([0, 0, 0, 0, 1e-6, 2e-6, -1e-6, 1e-6, 5e-7, 3e-7, -4e-7], 0.1), name="S", inMedium=v, coordSys=F(z=0.1, rx=0.05))
    d = B.Detector(B.Plane(), name="D", inMedium=v, coordSys=F(0.0, 0.001, -0.352, 0.01, -0.02, 1.1))
    out["cass"] = B.CompoundOptic([bf, m1, B.CompoundOptic([m2, sc], name="Q", coordSys=F(z=0.7)), d], name="cass", stopSurface=st(), pupilSize=0.38 * T.s, pupilObscuration=0.4, **kw)
    # free-form mirrors
    f1 = B.Mirror(B.Sum([T.quadric(8.0, -1.0), T.zernike([0, 0, 0, 0, 1e-4, 2e-4, -1e-4, 1e-4, 5e-5, -3e-5], 1.0, 0.2, 0.05, -0.1)]), name="F", inMedium=v, coordSys=F(rx=0.05, ry=0.02), obscuration=O["ray"])
    f2 = B.Mirror(T.bicubic(XS, YS, bump), name="G", inMedium=v, coordSys=F(0.2, 0.4, 3.5, 0.03, 0.01, 0.5))
    d = B.Detector(T.tilted(0.01, -0.03), name="D", inMedium=v, coordSys=F(0.1, 0.3, -1.5, 0.0, 0.0, 0.2))
    out["free"] = B.CompoundOptic([f1, f2, d], name="free", stopSurface=st(ry=0.02), pupilSize=0.8 * T.s, **{**kw, "backDist": 6.0 * T.s})
    return out


def coated(T):
    """for ghost tracing"""
    B = T.B
    v, F, m = B.ConstMedium(1.0), T.frame, media(T)
    a = B.RefractiveInterface(B.Sphere(8.0 * T.s), name="e", inMedium=v, outMedium=m["sumita"], coordSys=F(), obscuration=T.rect(0.1, 3.0, 0.2, 0.0, 0.4))
    b = B.RefractiveInterface(T.quadric(-9.0, 0.3), name="f", inMedium=m["sumita"], outMedium=v, coordSys=F(0.01, 0.02, -0.3, 0.01), obscuration=B.ObscNegation(T.circle(0.9, 0.1)))
    mi = B.Mirror(B.Paraboloid(-9.0 * T.s), name="m", inMedium=v, coordSys=F(0.0, 0.0, -1.5, 0.0, 0.02))
    a.forwardCoating, a.reverseCoating, b.forwardCoating, b.reverseCoating = [B.SimpleCoating(*q) for q in ((0.1, 0.85), (0.15, 0.8), (0.2, 0.75), (0.05, 0.9))]
    return B.CompoundOptic([B.Lens([a, b], name="E", coordSys=F()), mi], name="ghost", coordSys=F())


def bundle(n=23, r=1.0):
    i = np.arange(n)
    a, p = 2.4 * i, r * (0.03 + 0.97 * ((i * 0.618034) % 1))
    vx, vy = 0.05 * np.cos(i), 0.04 * np.sin(2 * i)
    return dict(x=p * np.cos(a), y=p * np.sin(a), z=1.0 + 0 * p, vx=vx, vy=vy, vz=-np.sqrt(1 - vx**2 - vy**2), t=0.1 * i, wavelength=(400 + 40 * (i % 11)) * 1e-9, flux=1.0 + 0.25 * (i % 3), vignetted=(i % 7 == 2) | (i % 9 == 8), failed=i % 9 == 8)


# ---------------------------------------------------------------- the group
def symmetries(B, quick):
    D4 = {}
    for a, b in itertools.product((1, -1), repeat=2):
        D4[f"x{'+-'[a < 0]}y{'+-'[b < 0]}"] = np.diag([a, b])
        D4[f"swap{'+-'[a < 0]}{'+-'[b < 0]}"] = np.array([[0, a], [b, 0]])
    scales = (1.0, 2.0**-7, 0.5, 3.0) if quick else (1.0, 2.0**-12, 2.0**-7, 0.3, 0.5, 2.0, 3.0, 4.0)
    rot = lambda a, b, c: B.RotZ(a) @ B.RotY(b) @ B.RotX(c)
    rigid = {"": None, "shift": (np.eye(3), np.array([3.0, -2.0, 1.5])), "quarter": (rot(np.pi / 2, 0, np.pi / 2), np.array([0.0, 1.0, 0.0])), "general": (rot(0.4, -1.1, 2.3), np.array([-1.0, 0.5, 2.0]))}
    if not quick:
        rigid.update(flip=(rot(0, np.pi, 0), np.array([0.0, 0.0, 4.0])), small=(rot(1e-4, -2e-5, 3e-5), np.array([1e-3, 0, -1e-3])), far=(rot(2.0, 0.3, -0.7), np.array([30.0, -20.0, 10.0])))
    for (n, A), s, (gn, g) in itertools.product(D4.items(), scales, rigid.items()):
        off = (n != "x+y+") + (s != 1.0) + bool(gn)
        if quick and off > 2 and not (n == "swap+-" and s == 3.0):
            continue
        yield G(B, A, s, g, f"{n}/{s:g}/{gn or 'here'}")


def run(c, B):
    with contextlib.redirect_stdout(io.StringIO()) as noise, np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        explore(c, B)
    del noise


def explore(c, B):
    c.method = "explicit enumeration of a finite symmetry group on the real library; oracle = the untransformed run carried over by definition"
    B.global_vars._batoid_max_threads = 1
    I = G(B)
    base = measure(B, I)
    for T in symmetries(B, c.quick):
        with c.case(T.name):
            c.beat(T.name)
            got = measure(B, T)
            for k, w in base.items():
                if k not in got and not T.A[0, 0] and k.startswith(SIXFOLD):
                    continue
                if k not in got:
                    c.fail(f"{T.name}:{k}#absent", "no result")
                    continue
                g, key = got[k], f"{T.name}:{k}"
                if g.dtype.kind in "bi":
                    c.true(key, g.shape == w.shape and np.array_equal(g, w), "decided differently under a symmetry", got=g, want=w)
                elif g.shape != w.shape:
                    c.fail(key, "shape differs under a symmetry", got=g.shape, want=w.shape)
                else:
                    c.close(key, g, w, *tolerance(k, T), msg="differs from the symmetric image of the untransformed result")
                c.trans()
            c.true(T.name + ":extra", set(got) <= set(base), "other results under a symmetry", more=sorted(set(got) - set(base))[:5])
            c.states.add(T.name)
            c.trace()
            c.outcome("symmetries")
    c.extra["quantities"] = len(base)


def tolerance(k, T):
    far = 1 + np.abs(T.t).max()
    for p, t in TOL:
        if k.startswith(p):
            return t[0] * far, t[1] * far
    return 1e-11 * far, 1e-11 * far


# what is measured in waves inherits the rounding of path lengths over the wavelength
TOL = [(p, (1e-6, 1e-9)) for p in ("wavefront", "zernike", "huygens", "fftPSF", "phase", "amplitude")]
TOL += [("pupil", (1e-9, 1e-9))]
# forward differences of a finite step; asked about six-fold bundles
TOL += [(p, (1e-3, 1e-3)) for p in ("drdth", "dthdr", "focal")]
SIXFOLD = ("dkdu", "zernikeTA")


def put(T, out, key, rv):
    a = T.back(rv)
    n = len(alpha.FIELDS)
    bad = a[:, -1] == 1
    f = a[:, :n].copy()
    f[bad] = 0.0
    out[key + ":fields"] = f
    out[key + ":flags"] = a[:, n:].astype(bool)
    out[key + ":frame"] = T.back_frame(rv.coordSys)


def measure(B, T):
    """name -> array of everything, carried back to the untransformed world"""
    out = {}
    q0 = bundle()
    # --- elements
    x, y = q0["x"], q0["y"]
    X, Y = T.xy(x, y)
    Sf = surfaces(T)
    for n, s in Sf.items():
        out[f"sag:{n}"] = s.sag(X, Y) / T.s
        out[f"normal:{n}"] = (T.M.T @ s.normal(X, Y).T).T
        fr = T.frame(0.05, -0.02, 0.03, 0.02, -0.01, 0.3)
        m = media(T)
        for op, f in dict(intersect=lambda r: s.intersect(r, coordSys=fr), reflect=lambda r: s.reflect(r, coordSys=fr), refract=lambda r: s.refract(r, B.ConstMedium(1.0), m["sellmeier"], coordSys=fr),
                          rsplit=lambda r: s.rSplit(r, B.ConstMedium(1.0), m["table"], B.SimpleCoating(0.3, 0.6), coordSys=fr), screen=lambda r: B.Plane().refractScreen(r, s, coordSys=fr)).items():
            if op == "screen" and n in ("sphere", "sphere-", "para", "quad", "hyper", "asphere", "sumb", "sum", "tilted", "bicubic"):
                continue
            r = f(T.rays(q0))
            for i, v in enumerate(r if isinstance(r, tuple) else (r,)):
                put(T, out, f"{op}{i}:{n}", v)
    for n, o in obscurations(T).items():
        gx, gy = np.meshgrid(np.linspace(-1.31, 1.27, 12), np.linspace(-1.17, 1.33, 11))
        out[f"contains:{n}"] = np.asarray(o.contains(*T.xy(gx.ravel(), gy.ravel())))
        put(T, out, f"obscure:{n}", o.obscure(T.rays(q0)))
    for n, m in media(T).items():
        out[f"index:{n}"] = np.asarray(m.getN(np.linspace(3.1e-7, 1.1e-6, 9) * T.s))
    # --- rays
    r = T.rays(q0)
    out["position"] = (T.M.T @ r.positionAtTime(0.7 * T.s).T).T / T.s
    p = T.vec([0.1, 0.2, -0.3]) * T.s
    out["phase"] = r.phase(p, 0.4 * T.s)
    out["amplitude"] = r.amplitude(p, 0.4 * T.s)
    out["k"] = (T.M.T @ np.asarray(r.k).T).T * T.s
    out["omega"] = np.asarray(r.omega) * T.s
    put(T, out, "propagate", r.copy().propagate(2.0 * T.s))
    put(T, out, "toframe", r.copy().toCoordSys(T.frame(0.3, -0.1, 0.2, 1.0, -0.5, 2.0)))
    # --- systems
    for n, o in optics(T).items():
        size = o.pupilSize / T.s
        q = bundle(23, 0.55 * size)
        q["z"] = q["z"] + 0.2
        q["vx"], q["vy"] = q["vx"] * 0.05, q["vy"] * 0.05
        q["vz"] = -np.sqrt(1 - q["vx"]**2 - q["vy"]**2)
        put(T, out, f"trace:{n}", o.trace(T.rays(q)))
        for k, h in o.traceFull(T.rays(q)).items():
            put(T, out, f"full:{n}:{k}", h["out"])
        b = o.trace(T.rays(q))
        b = B.RayVector(b.x, b.y, b.z, -b.vx, -b.vy, -b.vz, t=b.t, wavelength=b.wavelength, flux=b.flux, vignetted=b.vignetted, failed=b.failed, coordSys=b.coordSys)
        put(T, out, f"reverse:{n}", o.trace(b, reverse=True))
        th = T.field(0.003, -0.0015)
        wl = 6.2e-7 * T.s
        u, v = 0.4 * size * np.cos(np.arange(9)), 0.4 * size * np.sin(1.7 * np.arange(9))
        U, V = T.xy(u, v)
        for p in ("postel", "gnomonic", "stereographic", "lambert", "orthographic"):
            put(T, out, f"stop:{n}:{p}", B.RayVector.fromStop(U, V, optic=o, wavelength=wl, theta_x=th[0], theta_y=th[1], projection=p))
        put(T, out, f"fromangles:{n}", B.RayVector.fromFieldAngles(*T.xyfield(np.linspace(-3e-3, 2e-3, 5), np.linspace(1e-3, -1e-3, 5)), optic=o, wavelength=wl, x=float(U[1]), y=float(V[1])))
        put(T, out, f"stopsrc:{n}", B.RayVector.fromStop(U, V, optic=o, wavelength=wl, source=T.R @ (T.vec([0.4, -0.3, 30.0]) * T.s) + T.t * T.s))
        put(T, out, f"stopdir:{n}", B.RayVector.fromStop(U, V, optic=o, wavelength=wl, dirCos=T.vec([0.002, 0.001, -1.0])))
        for nm, f in dict(grid=lambda **k: B.RayVector.asGrid(optic=o, nx=7, **k), polar=lambda **k: B.RayVector.asPolar(optic=o, nrad=4, naz=26, kfold=4, **k), spokes=lambda **k: B.RayVector.asSpokes(optic=o, rings=4, spokes=8, **k)).items():
            rv = f(wavelength=wl, theta_x=th[0], theta_y=th[1])
            tr = o.trace(rv.copy())
            a = np.concatenate([T.back(rv), T.back(tr)], axis=1)
            ordered = np.argsort(np.round(a[:, 0] * 1e6) + 1e-3 * np.round(a[:, 1] * 1e6) / 1e3, kind="stable")
            a = a[np.lexsort((np.round(a[:, 1], 7), np.round(a[:, 0], 7)))]
            a[:, 14:][a[:, 21] == 1] *= 0
            out[f"beam-{nm}:{n}"] = a
        analyses(B, T, out, n, o, th, wl)
    perturbations(B, T, out)
    g = coated(T)
    q = bundle(17, 0.7)
    for rev in (False, True):
        w = T.rays(q) if not rev else T.rays({**q, "z": q["z"] - 4.0, "vz": -q["vz"]})
        f, r = g.traceSplit(w, minFlux=2e-2, reverse=rev)
        for side, rs in (("f", f), ("r", r)):
            out[f"ghosts{int(rev)}{side}"] = np.array([len(rs)])
            for i, v in enumerate(rs):
                put(T, out, f"ghost{int(rev)}{side}{i}", v)
    return out


def perturbations(B, T, out):
    """the same error of alignment or figure, described in the transformed world"""
    M, R = T.M, T.R
    loc = lambda v: M @ np.asarray(v, float) * T.s                        # a displacement in a local frame
    glob = lambda v: R @ loc(v)
    point = lambda v: R @ loc(v) + T.t * T.s                              # a global point
    q = B.RotZ(0.02) @ B.RotX(0.003) @ B.RotY(-0.002)
    lrot, grot = M @ q @ M.T, R @ M @ q @ M.T @ R.T
    away = T.frame(0.3, -0.2, 0.5, 0.4, 0.1, -0.7)
    O = optics(T)
    names = dict(lens=("L", "L.a", "b", "c"), cass=("Q", "M1", "M2", "Q.S"), free=("F", "G"))
    for n, o in O.items():
        whole = lambda: T.rays({**{k: v for k, v in bundle(9, 0.4 * o.pupilSize / T.s).items()}, "vx": np.zeros(9) + 1e-3, "vy": np.zeros(9), "vz": -np.sqrt(1 - 1e-6) + np.zeros(9)})
        W = {"gshift": o.withGlobalShift(glob([1e-3, 2e-3, -1e-3])), "lshift": o.withLocalShift(loc([1e-3, 2e-3, -1e-3])) if hasattr(o, "withLocalShift") else o, "grot": o.withGlobalRotation(grot, point([0.1, 0.2, 0.3]), B.CoordSys()), "lrot": o.withLocalRotation(lrot, loc([0.1, 0.2, 0.3]), away)}
        for k in names[n]:
            W["gs:" + k] = o.withGloballyShiftedOptic(k, glob([1e-3, -5e-4, 2e-3]))
            W["ls:" + k] = o.withLocallyShiftedOptic(k, loc([1e-3, -5e-4, 2e-3]))
            W["lr:" + k] = o.withLocallyRotatedOptic(k, lrot)
            W["lrc:" + k] = o.withLocallyRotatedOptic(k, lrot, loc([0.02, -0.01, 0.05]), away)
            if isinstance(o[k], B.optic.Interface):
                W["ps:" + k] = o.withPerturbedSurface(k, T.zernike([0, 0, 1e-5, 2e-5, 1e-5, -1e-5, 2e-5, 1e-5, -3e-5], o.pupilSize / T.s))
        for k, w in W.items():
            put(T, out, f"moved:{n}:{k}", w.trace(whole()))
            for m, it in sorted(w.itemDict.items()):
                out[f"placed:{n}:{k}:{m}"] = T.back_frame(it.coordSys)


def analyses(B, T, out, n, o, th, wl):
    s, A = T.s, T.A
    kw = dict(theta_x=th[0], theta_y=th[1], wavelength=wl)
    for ref in ("chief", "mean"):
        sp = np.stack(B.spot(o, nx=9, reference=ref, **kw))
        sp = (A.T @ sp.reshape(2, -1)) / s
        out[f"spot-{ref}:{n}"] = sp[:, np.lexsort((np.round(sp[1], 8), np.round(sp[0], 8)))]
        wf = B.wavefront(o, nx=9, reference=ref, **kw)
        a = image(T, np.ma.filled(wf.array, 77.0))
        out[f"wavefront-{ref}:{n}"] = a
        out[f"wavefront-mask-{ref}:{n}"] = image(T, np.ma.getmaskarray(wf.array))
        out[f"wavefront-coords:{n}"] = np.abs(wf.primitiveVectors).max() / s
    for fn in ("drdth", "dthdr"):
        J = getattr(B, fn)(o, nrad=4, naz=26, **kw)
        out[f"{fn}:{n}"] = A.T @ J @ A * (1 / s if fn == "drdth" else s)
    out[f"dkdu:{n}"] = A.T @ B.analysis.dkdu(o, nrad=4, naz=26, **kw) @ A * s**2
    z = B.zernikeGQ(o, rings=5, spokes=16, jmax=11, **kw)
    out[f"zernikeGQ:{n}"] = G(B, A.T).noll(z)[1:12]
    z = B.zernike(o, nx=17, jmax=11, **kw)
    out[f"zernike:{n}"] = G(B, A.T).noll(z)[1:12]
    if not A[0, 0]:
        del out[f"dkdu:{n}"]                                              # six-fold rays are no image of themselves under a quarter turn
    z = B.zernikeTA(o, nrad=5, naz=50, jmax=11, focal_length=1.5 * s, **kw)
    if A[0, 0]:
        out[f"zernikeTA:{n}"] = G(B, A.T).noll(z)[1:12]
    out[f"focal:{n}"] = np.asarray(B.analysis.focalLength(o, **kw)) / s
    out[f"pupil:{n}"] = T.M.T @ (T.R.T @ (np.asarray(B.exitPupilPos(o, wl, smallAngle=1e-3)) - T.t * s)) / s
    d = 2e-6 * s
    ps = B.huygensPSF(o, nx=9, dx=d, dy=d, nxOut=5, **kw)
    out[f"huygens:{n}"] = image(T, ps.array / ps.array.max())
    out[f"fftPSF:{n}"] = image(T, (lambda a: a / a.max())(B.fftPSF(o, nx=9, pad_factor=1, **kw).array))


def image(T, a):
    """square array indexed [y, x] on a centred grid of odd size, carried back"""
    n = len(a)
    i = np.arange(n) - (n - 1) // 2
    X, Y = np.meshgrid(i, i)
    q = np.round(T.A @ np.stack([X.ravel(), Y.ravel()])).astype(int) + (n - 1) // 2
    return a[q[1], q[0]].reshape(n, n)


def xyfield(self, a, b):
    q = self.A @ np.stack([a, b])
    return q[0], q[1]


G.xyfield = xyfield
