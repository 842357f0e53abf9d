"""C05 - intersection: exhaustive product  surface kind x line x start offset along the line x speed x flags x frame.

Oracle: for planes and conics an independent root/sheet decision in extended precision says whether an intersection
exists; for the iterative kinds rays near the axis must succeed and every other good ray must be on the surface.
"""
import itertools

import numpy as np

import alpha
import ref

L = np.longdouble


def conic(s, B):
    """(R, k) of analytic conic surfaces; None otherwise"""
    n = type(s).__name__
    if n == "Sphere":
        return s.R, 0.0
    if n == "Paraboloid":
        return s.R, -1.0
    if n == "Quadric":
        return s.R, s.conic
    return None


def exists(s, B, p, v, rounded=False):
    """+1 an intersection exists, 0 none exists, -1 too close to call (tangent / at the sheet's rim;
    with rounded: also lines whose equation degenerates exactly, which a change of frame turns into a root at infinity)"""
    n = type(s).__name__
    p, v = p.astype(L), v.astype(L)
    if n in ("Plane", "Tilted"):
        tx, ty = (0, 0) if n == "Plane" else (L(s.tanx), L(s.tany))
        f0 = p[:, 2] - tx * p[:, 0] - ty * p[:, 1]
        f1 = v[:, 2] - tx * v[:, 0] - ty * v[:, 1]
        out = np.ones(len(p), int)
        out[np.abs(f1) < 1e-9] = -1
        out[f1 == 0] = np.where(f0[f1 == 0] == 0, -1, 0)
        return out
    R, k = conic(s, B)
    R, k = L(R), L(k)
    # r^2 - 2Rz + (1+k) z^2 = 0 and 1-(1+k)z/R >= 0
    K = 1 + k
    a = v[:, 0]**2 + v[:, 1]**2 + K * v[:, 2]**2
    b = p[:, 0] * v[:, 0] + p[:, 1] * v[:, 1] + K * p[:, 2] * v[:, 2] - R * v[:, 2]
    c = p[:, 0]**2 + p[:, 1]**2 + K * p[:, 2]**2 - 2 * R * p[:, 2]
    out = np.zeros(len(p), int)
    lin = np.abs(a) < 1e-14
    d = b * b - a * c
    scale = b * b + np.abs(a * c) + 1e-300
    near = np.abs(d) < 1e-9 * scale
    with np.errstate(all='ignore'):
        sq = np.sqrt(np.maximum(d, 0))
        r1, r2 = (-b + sq) / a, (-b - sq) / a
        rl = -c / (2 * b)
    for t, use in ((r1, ~lin & (d >= 0)), (r2, ~lin & (d >= 0)), (rl, lin & (b != 0))):
        z = p[:, 2] + t * v[:, 2]
        g = 1 - K * z / R
        yes = use & (g > 1e-9)
        maybe = use & (np.abs(g) <= 1e-9)
        out = np.where(yes, 1, np.where(maybe & (out == 0), -1, out))
    out = np.where(near & ~lin, -1, out)
    if rounded:
        out = np.where((np.abs(a) < 1e-9) & (K < 0), -1, out)
    out = np.where((np.abs(a) < 1e-9) & ~((a == 0) | (np.abs(a) < 1e-17)), -1, out)
    return out


def lines(quick):
    """points and unit directions"""
    pts = [(0, 0, 0), (0, 0, 0.5), (1, 0, 0), (-1.5, 0, 0), (0, 2, 0), (0, -0.5, 0.2), (1.25, -0.75, 0),
           (-2, -1.5, -0.3), (3, 4, 0), (6, -8, 0), (0, 10, 3), (7, 7, 10), (12, 5, 0), (2.5, 0, 10), (40, 0, 1)]
    g = np.linspace(-3, 3, 13 if quick else 33)
    pts += [(a, b, c) for a in g for b in g for c in (0.0, 0.55)]
    dirs = [(0, 0, -1), (0, 0, 1)]
    s = [0.0, 0.02, -0.1, 0.3, -0.7]
    for sx, sy in itertools.product(s, s):
        if sx or sy:
            for q in (-1, 1):
                dirs.append((sx, sy, q))
    for a in (0.0, 0.25, 0.5, 0.75):
        c, q = np.cos(np.pi * 2 * a), np.sin(np.pi * 2 * a)
        dirs += [(np.round(c), np.round(q), 0.0), (c * 5, q * 5, -1), (c * 5, q * 5, 1), (c, q, 1e-3), (c, q, -2e-4), (c, q, 3e-6)]
    for e in (1e-3, -2e-4, 3e-6):                              # grazing the tilted plane of the alphabet
        dirs += [(1, 0, 0.1 + e), (0, -1, 0.05 - e)]
    # directions for which the quadratic coefficient vanishes for the hyperbolic alphabet members
    for K in (-1.3, -0.5):
        dirs += [(np.sqrt(-K), 0, 1.0), (0, np.sqrt(-K), -1.0)]
    P = np.array([p for p in pts for _ in dirs], float)
    D = np.array([d for _ in pts for d in dirs], float)
    return P, ref.unit(D)


def surfs(B, quick):
    S = alpha.surfaces(B)
    out = {k: v[0] for k, v in S.items()}
    out["tilted-0"] = B.Tilted(0.0, 0.0)
    out["sphere-flat"] = B.Sphere(1e4)
    out["para-steep"] = B.Paraboloid(0.5)
    out["quad-sphere"] = B.Quadric(10.0, 0.0)
    out["quad-hyper-steep"] = B.Quadric(2.0, -5.0)
    out["quad-oblate-small"] = B.Quadric(4.0, 2.0)
    out["quad-almost-para"] = B.Quadric(10.0, -1.0 + 1e-3)
    out["asphere-conic"] = B.Asphere(10.0, -1.0, [1e-5])
    out["sum-planes"] = B.Sum([B.Tilted(0.02, 0.01), B.Plane()])
    out["bicubic-zero"] = B.Bicubic([-3, -1, 1, 3], [-3, -1, 1, 3], 0.01 * np.add.outer(np.arange(4)**2, np.arange(4)),
                                    nanpolicy="zero")
    return out


def run(c, B):
    np.seterr(all='ignore')
    c.method = "product enumeration of surface x line x start x speed x flags x frame on the native kernels, root-existence oracle"
    P, D = lines(c.quick)
    N = len(P)
    offs = np.array([-40.0, -3.0, -0.25, 0.0, 0.5, 6.0, 25.0])
    speeds = (1.0, 1 / 1.5)
    F = alpha.frames(B)
    RF = {"id": ref.Frame()}
    cs0 = B.CoordSys()
    for name, s in surfs(B, c.quick).items():
        if not c.want(name):
            continue
        with c.case(name):
            closed = type(s).__name__ in ("Plane", "Tilted", "Sphere", "Paraboloid", "Quadric")
            base = None
            for sp, t0 in zip(speeds, (0.0, 3.25)):
                ress = []
                for io, o in enumerate(offs):
                    p0 = P + o * D
                    v = D * sp
                    wl = np.full(N, 500e-9)
                    rv = B.RayVector(p0[:, 0], p0[:, 1], p0[:, 2], v[:, 0], v[:, 1], v[:, 2], t0, wl, 2.0,
                                     np.arange(N) % 3 == 0, np.zeros(N, bool))
                    vin = np.arange(N) % 3 == 0
                    out = s.intersect(rv)
                    c.trans(N)
                    c.state_rows((name, sp), np.hstack([p0, v]))
                    key = f"{name}/sp{sp:.2f}/o{o}"
                    c.true(key + "#inplace", out is rv and rv.coordSys == cs0, "intersect must return its argument in the same frame")
                    ok = ~rv.failed
                    r, vv, t = rv.r.copy(), rv.v.copy(), rv.t.copy()
                    c.outcome("hit", ok.sum())
                    c.outcome("miss", (~ok).sum())
                    c.true(key + "#failvig", np.all(rv.vignetted[~ok]), "a ray failed by intersect is not vignetted")
                    c.close(key + "#vig", rv.vignetted[ok], vin[ok], msg="vignetting of rays that hit")
                    c.close(key + "#v", vv[ok], v[ok], 1e-15, msg="velocity")
                    c.close(key + "#wl", rv.wavelength, wl, msg="wavelength")
                    c.close(key + "#flux", rv.flux, np.full(N, 2.0), msg="flux")
                    scale = 1 + np.max(np.abs(np.where(np.isfinite(r), r, 0)), axis=1) + np.abs(o)
                    c.close(key + "#line", (r - (p0 + v * (t - t0)[:, None]))[ok] / scale[ok, None],
                            np.zeros((ok.sum(), 3)), 1e-9, msg="new position is not on the ray's line at the reported time")
                    if np.any(ok):
                        z = s.sag(r[ok, 0], r[ok, 1])
                        g = ref.Model(B, s).grad(r[ok, 0], r[ok, 1])
                        with np.errstate(all='ignore'):
                            slope = 1 + np.hypot(*g)
                            # distance from the surface, to first order (steep spots amplify rounding in z)
                            res = (z - r[ok, 2]) / slope / scale[ok]
                        rim = ~np.isfinite(slope) | ~np.isfinite(z)
                        if closed and name != "bicubic":
                            rim = rim | (slope > 1e4)      # the equator of a sphere: sag is not differentiable
                        else:
                            rim = np.zeros_like(rim)
                        c.close(key + "#on", res[~rim], np.zeros((~rim).sum()), 1e-9, msg="good ray is not on the surface")
                        c.true(key + "#finite", np.all(np.isfinite(r[ok])) and np.all(np.isfinite(t[ok])), "good ray with undefined position")
                    if closed:
                        e = exists(s, B, P, D)
                        c.close(key + "#exists", ok[e >= 0], e[e >= 0] == 1, msg="intersection reported vs existing")
                        c.outcome("undecidable", (e < 0).sum())
                    else:
                        e = np.where((np.hypot(P[:, 0], P[:, 1]) < 2.6) & (np.abs(D[:, 2]) > 0.97) & (np.abs(P[:, 2]) < 0.6), 1, -1)
                        if name == "bicubic-zero":
                            e = np.where(np.hypot(P[:, 0], P[:, 1]) < 2.2, e, -1)
                        c.true(key + "#near", np.all(ok[e == 1]), "a ray near the surface's axis was not intersected",
                               rays=np.hstack([p0, v])[(e == 1) & ~ok])
                    ress.append((ok, r, t - t0 + o / sp))
                    if sp == 1.0 and o == 0.0:
                        base = (ok, r)
                # the same line from every start: same outcome
                sel = (e == 1) if closed or name == "bicubic-zero" else (e == 1) | (np.abs(D[:, 2]) > 0.8)
                for io, (ok, r, td) in enumerate(ress):
                    k2 = f"{name}/sp{sp:.2f}/start{offs[io]}"
                    ok0, r0, td0 = ress[3]
                    both = ok & ok0 & sel
                    far = 1 + np.max(np.abs(r0), axis=1)
                    c.close(k2 + "#same", ((r - r0) / far[:, None])[both], np.zeros((both.sum(), 3)), 2e-7,
                            msg="where the ray lands depends on where along its line it started")
                    c.trace(int(both.sum()))
                # different speed: same point
                if sp != 1.0 and base is not None:
                    ok, r, td = ress[3]
                    both = ok & base[0] & sel
                    c.close(f"{name}#speed", ((r - base[1]) / (1 + np.abs(base[1])))[both], np.zeros((both.sum(), 3)), 2e-7,
                            msg="where the ray lands depends on its speed")
            # a ray that is already on the surface stays where it is
            ok, r = base
            pick = ok & (np.abs(D[:, 2]) > 0.8) & (np.hypot(r[:, 0], r[:, 1]) < 3)
            if closed:
                g = ref.Model(B, s).grad(r[:, 0], r[:, 1])
                pick &= np.hypot(*g) < 3
            rv = B.RayVector(*r[pick].T, *D[pick].T)
            s.intersect(rv)
            c.trans(int(pick.sum()))
            c.true(f"{name}#again", not np.any(rv.failed), "a ray on the surface was failed")
            c.close(f"{name}#again", rv.r, r[pick], 1e-8, msg="a ray on the surface was moved off its intersection point")
            # frames: rays expressed in A, surface in B
            for an, bn in itertools.product(F, F):
                A, C = F[an], F[bn]
                sub = np.arange(0, N, 5) if c.quick else np.arange(N)
                p0, v = P[sub] + 6.0 * D[sub], D[sub]
                # express the lines, given in surface frame C, in frame A (reference algebra)
                pg = C.origin + p0 @ C.rot.T
                vg = v @ C.rot.T
                pa = (pg - A.origin) @ A.rot
                va = vg @ A.rot
                rv = B.RayVector(*pa.T, *va.T, coordSys=A)
                s.intersect(rv, coordSys=C)
                c.trans(len(sub))
                k3 = f"{name}/frame-{an}-{bn}"
                c.true(k3 + "#cs", rv.coordSys == C, "rays are not left in the surface's frame")
                good = (~rv.failed) & ress[0][0][sub] & base[0][sub] & (sel[sub] if closed else (e[sub] == 1))
                if closed:
                    # a change of frame rounds: lines exactly along the surface's plane, and roots that tie, are not decidable after it
                    steady = np.abs(D[sub, 2]) > 1e-5
                    if name.startswith("tilted"):
                        steady &= np.abs(D[sub, 2] - D[sub, 0] * s.tanx - D[sub, 1] * s.tany) > 1e-5
                    good &= steady
                    er = exists(s, B, P[sub], D[sub], rounded=True)
                    dec = (er >= 0) & steady
                    c.close(k3 + "#exists", (~rv.failed)[dec], er[dec] == 1, msg="intersection reported vs existing")
                far = 1 + np.max(np.abs(base[1][sub]), axis=1)
                c.close(k3 + "#pos", ((rv.r - base[1][sub]) / far[:, None])[good], np.zeros((good.sum(), 3)), 2e-7, msg="position in the surface's frame")
                c.close(k3 + "#vel", rv.v[good], v[good], 1e-12, msg="velocity in the surface's frame")
    c.sample({"surfaces": list(surfs(B, c.quick)), "lines": N, "starts": offs})
    c.sample({"points": P[::len(P) // 5], "directions": D[:9]})
