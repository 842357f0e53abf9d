"""C04 - free flight, phase, amplitude: breadth-first exploration of all move/observe/re-frame/flag histories on real
RayVectors, in lock-step with a closed-form model in extended precision."""
import itertools

import numpy as np

import alpha

L = np.longdouble
TWOPI = 2 * L("3.14159265358979323846264338327950288")
FLD = alpha.FIELDS + alpha.FLAGS


class M:
    """reference ray batch: plain arrays"""
    def __init__(self, d):
        self.d = {k: np.array(v) for k, v in d.items()}

    @classmethod
    def of(cls, rv):
        return cls({k: getattr(rv, k) for k in FLD})

    def copy(self):
        return M(self.d)

    def r(self):
        return np.stack([self.d["x"], self.d["y"], self.d["z"]], -1).astype(L)

    def v(self):
        return np.stack([self.d["vx"], self.d["vy"], self.d["vz"]], -1).astype(L)

    def pos(self, t):
        return self.r() + self.v() * (L(t) - self.d["t"].astype(L))[:, None]

    def propagate(self, t):
        p = self.pos(t).astype(float)
        self.d["x"], self.d["y"], self.d["z"] = p.T.copy()
        self.d["t"] = np.full(len(p), float(t))

    def phase(self, r, t):
        v = self.v()
        s = np.sum((np.asarray(r, L) - self.r()) * v, -1) / np.sum(v * v, -1) - (L(t) - self.d["t"].astype(L))
        return s * TWOPI / self.d["wavelength"].astype(L)

    def tol(self, r, t):
        """rounding allowance of the phase"""
        v = self.v()
        mag = np.abs(np.asarray(r, L) - self.r()).sum(-1) / np.sqrt(np.sum(v * v, -1)) + np.abs(self.d["t"]) + abs(t) + 1
        return np.asarray(32 * np.finfo(float).eps * mag * TWOPI / self.d["wavelength"], float)


def batch(B, n, wl):
    rv = alpha.mixed_rays(B, n)
    sp = 1 / np.array([1.0, 1.33, 0.9, 1.5, 1.0003, 0.25])[np.arange(n) % 6]
    return B.RayVector(rv.x, rv.y, rv.z, rv.vx * sp, rv.vy * sp, rv.vz * sp, rv.t, wl * (1 + 0.1 * (np.arange(n) % 5)),
                       1.0 + 0.5 * (np.arange(n) % 3), np.arange(n) % 4 == 1, np.arange(n) % 5 == 3)


def compare(c, key, rv, m):
    scale = 1 + np.abs(m.r()).max(initial=0)
    for k in FLD:
        if k in ("x", "y", "z"):
            c.close(f"{key}#{k}", getattr(rv, k), m.d[k], atol=float(1e-13 * scale), rtol=1e-12, msg=f"{k} after the move")
        else:
            c.true(f"{key}#{k}", np.array_equal(getattr(rv, k), m.d[k], equal_nan=True), f"{k} is not what it was set to", got=getattr(rv, k), want=m.d[k])


def observe(c, key, rv, m, times, points):
    for t in times:
        p = rv.positionAtTime(t)
        want = np.asarray(m.pos(t), float)
        c.close(f"{key}#at{t:g}", p, want, atol=1e-12 * (1 + abs(t)), rtol=1e-12, msg=f"positionAtTime({t})")
        c.trans()
        for r in points:
            ph = rv.phase(r, t)
            want = m.phase(r, t)
            tol = m.tol(r, t)
            kk = f"{key}#phase{tuple(map(float, r))}@{t:g}"
            c.true(kk, ph.shape == want.shape and np.all((np.abs(ph - want) <= tol) | ~(np.abs(want) >= 0)), "phase differs from k.(r-r0)-omega(t-t0)", got=ph, want=want.astype(float), tol=tol)
            am = rv.amplitude(r, t)
            c.true(kk + "#amp", am.shape == want.shape and am.dtype == complex
                   and np.all(np.abs(am - (np.cos(want) + 1j * np.sin(want)).astype(complex)) <= tol + 1e-12),
                   "amplitude is not the unit phasor of the phase", got=am.real, want=np.cos(want).astype(float))
            for ign in (True, False, None):
                s = rv.sumAmplitude(r, t) if ign is None else rv.sumAmplitude(r, t, ign)
                ok = ~m.d["failed"] & (~m.d["vignetted"] | (ign is False))
                W = np.sum(((np.cos(want) + 1j * np.sin(want)) * m.d["flux"])[ok])
                c.true(kk + f"#sum{ign}", abs(complex(s) - complex(W)) <= float(np.sum((tol * np.abs(m.d["flux"]))[ok])) + 1e-11 * (1 + np.sum(np.abs(m.d["flux"]))),
                       "summed amplitude is not the flux-weighted sum over the admissible rays", got=repr(s), want=repr(complex(W)))
                c.trans()
            c.trans(2)
    c.true(key + "#pure", np.array_equal(alpha.snap(rv), np.stack([m.d[k].astype(float) for k in FLD], 1) if len(rv) else alpha.snap(rv), equal_nan=True)
           or np.allclose(alpha.snap(rv), np.stack([m.d[k].astype(float) for k in FLD], 1), rtol=1e-11, atol=1e-11, equal_nan=True),
           "observing changed the rays")


def derived(c, key, rv, m):
    """k, omega, r, v"""
    if not len(rv):
        c.true(key + "#empty", rv.r.shape == (0, 3) and rv.v.shape == (0, 3), "shapes of an empty batch")
        return
    k = m.v() / np.sum(m.v()**2, -1)[:, None] * (TWOPI / m.d["wavelength"].astype(L))[:, None]
    c.close(key + "#k", rv.k, k.astype(float), rtol=1e-12, atol=1e-9, msg="wavevector")
    for i, q in enumerate(("kx", "ky", "kz")):
        c.close(f"{key}#{q}", getattr(rv, q), k[:, i].astype(float), rtol=1e-12, atol=1e-9, msg=q)
    c.close(key + "#omega", rv.omega, (TWOPI / m.d["wavelength"]).astype(float), rtol=1e-12, msg="omega")
    c.close(key + "#r", rv.r, m.r().astype(float), atol=1e-12, rtol=1e-12, msg="r")
    c.close(key + "#v", rv.v, m.v().astype(float), atol=0, rtol=0, msg="v")
    c.trans(6)


def relations(c, key, rv, m):
    """physical laws of the phase, independent of the closed form"""
    ok = ~(m.d["failed"])
    n = len(rv)
    v = m.v()
    sp = np.sqrt(np.sum(v * v, -1))
    t0 = m.d["t"]
    for i in range(n):
        one = rv[i]
        r0 = np.array([one.x[0], one.y[0], one.z[0]])
        d = np.asarray(v[i] / sp[i], float)
        lam = float(m.d["wavelength"][i])
        tol = float(m.tol(r0, t0[i])[i]) * 4
        base = float(one.phase(r0, t0[i])[0])
        c.true(f"{key}#zero{i}", abs(base) <= tol, "phase at the ray's own position and time is not zero", got=base)
        for dt in (-0.7, 0.3, 5.0):
            p = one.positionAtTime(t0[i] + dt)[0]
            c.true(f"{key}#along{i}", abs(float(one.phase(p, t0[i] + dt)[0])) <= tol * 8 + 1e-9, "phase is not constant along the ray")
            c.trans(2)
        lm = lam * float(sp[i])                                   # wavelength in the medium
        got = float(one.phase(r0 + d * lm * 3, t0[i])[0])
        c.true(f"{key}#wl{i}", abs(got - float(3 * TWOPI)) <= tol + 1e-6, "phase does not advance one cycle per wavelength in the medium", got=got)
        got = float(one.phase(r0, t0[i] + 3 * lam)[0])
        c.true(f"{key}#per{i}", abs(got + float(3 * TWOPI)) <= tol + 1e-6, "phase does not recede one cycle per period", got=got)
        perp = np.cross(d, [0.3, 0.5, 0.9])
        got = float(one.phase(r0 + perp * 1e-6, t0[i])[0])
        c.true(f"{key}#perp{i}", abs(got) <= tol + 1e-6, "phase is not constant across the wavefront", got=got)
        c.trans(4)


def run(c, B):
    np.seterr(all='ignore')
    c.method = "BFS over move / re-frame / mark / copy histories with observation of every reached state, closed-form model in extended precision"
    shift = B.CoordSys().shiftGlobal([0.5, -1.0, 2.0])

    def op_prop(t):
        def f(rv, m):
            out = rv.propagate(t)
            m.propagate(t)
            return rv, out is rv
        return f

    def op_frame(rv, m):
        rv.toCoordSys(shift if rv.coordSys == B.CoordSys() else B.CoordSys())
        o = np.array(rv.coordSys.origin) - (0 if rv.coordSys == shift else shift.origin)
        for i, k in enumerate("xyz"):
            m.d[k] = m.d[k] - o[i]
        return rv, True

    def op_copy(rv, m):
        return rv.copy(), True

    def op_mark(rv, m):
        rv.vignetted[::2] = True
        rv.failed[1:2] = True
        m.d["vignetted"][::2] = True
        m.d["failed"][1:2] = True
        return rv, True

    def op_flux(rv, m):
        rv.flux[:] *= 0.5
        m.d["flux"] *= 0.5
        return rv, True

    def op_slice(rv, m):
        for k in FLD:
            m.d[k] = m.d[k][::-1].copy()
        return rv[::-1], True
    ops = {"p-3": op_prop(-3.0), "p0": op_prop(0.0), "p7.25": op_prop(7.25), "p12": op_prop(12), "p1e4": op_prop(1e4),
           "frame": op_frame, "copy": op_copy, "mark": op_mark, "flux": op_flux, "rev": op_slice}
    times = (0.0, -2.5, 4.0)
    points = (np.array([0.0, 0, 0]), [0.1, -0.2, 1.0], (3.0, 0.5, -8.0))
    depth = 3 if c.quick else 4
    for n, wl in ((7, 5e-7), (7, 0.02), (1, 1e-6), (0, 5e-7)) + (() if c.quick else ((33, 0.3), (2, 1e-5))):
        level = [(f"n{n}@{wl:g}", batch(B, n, wl) if n else alpha.mixed_rays(B, 0))]
        level = [(k, rv, M.of(rv)) for k, rv in level]
        for d in range(depth + 1):
            nxt = []
            for key, rv, m in level:
                with c.case(key):
                    compare(c, key, rv, m)
                    # the observation starts from the stored numbers so that rounding of long moves is not re-amplified
                    cur = M.of(rv)
                    if d <= depth - 1 or n <= 1:
                        observe(c, key, rv, cur, times if d <= 1 else times[:2], points if d <= 1 else points[1:2])
                        derived(c, key, rv, cur)
                        if d <= 1 and n:
                            relations(c, key, rv, cur)
                    c.state(key.split(".")[0], alpha.snap(rv))
                    if d == depth:
                        c.trace()
                        continue
                    for on, op in ops.items():
                        a, mm = rv.copy(), m.copy()
                        a, ok = op(a, mm)
                        c.true(f"{key}.{on}#ret", ok, "propagate does not return the batch itself")
                        c.trans()
                        nxt.append((f"{key}.{on}", a, mm))
                    c.true(key + "#src", np.array_equal(alpha.snap(rv), np.stack([cur.d[k].astype(float) for k in FLD], 1) if n else alpha.snap(rv), equal_nan=True), "an operation on a copy changed its source")
            level = nxt
    # flag alphabet for the sum: all assignments of (vignetted, failed, flux) to 3 rays
    base = batch(B, 3, 0.05)
    for fl in itertools.product(itertools.product((False, True), (False, True), (0.0, 2.0)), repeat=3):
        key = "sum:" + "".join("".join(str(int(q)) for q in f) for f in fl)
        with c.case(key):
            rv = B.RayVector(base.x, base.y, base.z, base.vx, base.vy, base.vz, base.t, base.wavelength,
                             [f[2] for f in fl], [f[0] for f in fl], [f[1] for f in fl])
            observe(c, key, rv, M.of(rv), (1.0,), ([0.2, 0.1, 0.0],))
            c.state("s", alpha.snap(rv))
            c.trace()
    # a failed ray that carries nan never contaminates the sum
    with c.case("sum:nan-failed"):
        rv = B.RayVector([np.nan, 0.1], [0, 0], [0, 0], [np.nan, 0], [0, 0.], [1., 1.], 0.0, 0.05, 1.0, [False, False], [True, False])
        for ign in (True, False):
            s = rv.sumAmplitude([0, 0, 0.01], 0.0, ign)
            w = rv[1:].sumAmplitude([0, 0, 0.01], 0.0, ign)
            c.true(f"sum:nan-failed{ign}", abs(s - w) < 1e-13, "a failed ray entered the sum", got=repr(s))
    c.extra["bounds"] = f"all histories of length <= {depth} over {len(ops)} operations; 3 probe times x 3 probe points; all 512 flag/flux assignments to 3 rays"
