"""C18 - field-angle projections: every projection on a polar/axis-crossing grid of its domain, all argument shapes with special and
ordinary elements mixed in every position, against the defining geometry; helper rotations and normalisation."""
import itertools
import math

import numpy as np

PROJ = ("postel", "zemax", "gnomonic", "stereographic", "lambert", "orthographic")
NAME = dict(postel="Postel", zemax="Zemax", gnomonic="Gnomonic", stereographic="Stereographic", lambert="Lambert", orthographic="Orthographic")


def radii(proj, quick):
    small = [1e-150 if proj not in () else 0, 1e-30, 1e-15, 1e-9, 1e-8, 1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.3, 0.5, 0.8, 0.99]
    more = {"postel": [1.2, 1.5, math.pi / 2, 2.0, 3.0], "zemax": [1.0], "gnomonic": [1.0, 1.7, 3.0, 30.0], "stereographic": [1.5, 2.0, 3.0, 10.0], "lambert": [1.2, 1.4, 1.7, 1.9], "orthographic": [0.999, 1.0]}[proj]
    return small[1:] + more


def points(proj, quick):
    n = 24 if quick else 96
    out = [(0.0, 0.0), (-0.0, 0.0), (0.0, -0.0)]
    for r in radii(proj, quick):
        out += [(r, 0.0), (-r, 0.0), (0.0, r), (0.0, -r)]
        for k in range(n):
            a = 2 * math.pi * (k + 0.37) / n
            out.append((r * math.cos(a), r * math.sin(a)))
    if proj == "zemax":
        out += [(s * a, t * b) for a in (0.2, 1.3, 1.5) for b in (0.0, 0.4, 1.4) for s in (1, -1) for t in (1, -1)]
    if proj == "orthographic":
        out = [p for p in out if p[0]**2 + p[1]**2 <= 1]
    return np.array(out)


def geometry(proj, u, v):
    """(alpha, beta, gamma) in extended precision from the projection's definition"""
    L = np.longdouble
    u, v = np.asarray(u, L), np.asarray(v, L)
    if proj in ("zemax", "gnomonic"):
        x, y = (u, v) if proj == "gnomonic" else (np.tan(u), np.tan(v))
        n = np.sqrt(1 + x * x + y * y)
        return x / n, y / n, -1 / n
    r = np.hypot(u, v)
    s = np.where(r == 0, L(1), r)
    if proj == "postel":
        f, g = np.sin(r), np.cos(r)
    elif proj == "stereographic":
        f, g = r / (1 + r * r / 4), (1 - r * r / 4) / (1 + r * r / 4)
    elif proj == "lambert":
        f, g = r * np.sqrt(1 - r * r / 4), 1 - r * r / 2
    else:
        f, g = r, np.sqrt(np.maximum(0, (1 - r) * (1 + r)))
    return u / s * f, v / s * f, -g


def inverse(proj, a, b, g):
    L = np.longdouble
    a, b, g = (np.asarray(q, L) for q in (a, b, g))
    if proj == "gnomonic":
        return -a / g, -b / g
    if proj == "zemax":
        return np.arctan(-a / g), np.arctan(-b / g)
    s = np.hypot(a, b)
    th = np.arctan2(s, -g)
    r = {"postel": th, "stereographic": 2 * np.tan(th / 2), "lambert": 2 * np.sin(th / 2), "orthographic": s}[proj]
    k = np.where(s == 0, L(1), r / np.where(s == 0, L(1), s))
    return a * k, b * k


def relclose(c, key, got, want, tol, msg, scale=None):
    """componentwise, relative to the length of the wanted vector (or to scale)"""
    g, w = np.array(got, float), np.array(want, np.longdouble).astype(float)
    if not c.true(key + "#shape", g.shape == w.shape, msg + ": shape", got=g.shape, want=w.shape):
        return
    n = np.sqrt(np.sum(w * w, axis=0)) if scale is None else scale
    bad = ~(np.abs(g - w) <= tol * n)
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0])
        c.fail(key, f"{msg}: {int(bad.sum())} of {bad.size}; first at {i}: {g[i]!r} instead of {w[i]!r}", got=g[:, i[1:]] if g.ndim > 1 else g)


def forward_backward(c, B, quick):
    U = B.utils
    for proj in PROJ:
        P = points(proj, quick)
        u, v = np.ascontiguousarray(P[:, 0]), np.ascontiguousarray(P[:, 1])
        to, fro = getattr(U, proj + "ToDirCos"), getattr(U, "dirCosTo" + NAME[proj])
        key = f"proj:{proj}"
        with c.case(key):
            want = geometry(proj, u, v)
            D = to(u, v)
            c.trans(len(u))
            # the transverse part relatively accurate, the axial part absolutely
            relclose(c, key + "#transverse", D[:2], want[:2], 1e-13, "direction cosines differ from the definition of the projection")
            near = proj == "orthographic"
            c.close(key + "#axial", D[2], np.asarray(want[2], float), atol=1e-7 if near else 1e-14, msg="axial direction cosine differs from the definition of the projection")
            inner = np.hypot(u, v) < 0.9
            c.close(key + "#axial-inner", D[2][inner], np.asarray(want[2], float)[inner], atol=5e-15, msg="axial direction cosine differs from the definition of the projection")
            c.true(key + "#unit", np.all(np.abs(D[0]**2 + D[1]**2 + D[2]**2 - 1) < 1e-13 if not near else True), "not a unit vector")
            dom = {"postel": np.hypot(u, v) < 1.57, "lambert": np.hypot(u, v) < 1.41, "stereographic": np.hypot(u, v) < 1.99, "orthographic": np.hypot(u, v) < 0.9999}.get(proj, u == u)
            c.true(key + "#down", np.all(D[2][dom] < 0), "does not travel toward -z")
            # there and back
            u2, v2 = fro(*(np.asarray(q, float) for q in want))
            r = np.hypot(u, v)
            cond = {"zemax": 1 / np.minimum(np.cos(u), np.cos(v))**2, "gnomonic": 1 + r * r, "lambert": 1 / np.maximum(1e-3, 1 - r * r / 4), "stereographic": 1 + r * r, "postel": 1 + 1 / np.maximum(1e-3, np.abs(np.sin(r) / np.maximum(r, 1e-300)))}.get(proj, 1 + 0 * r)
            relclose(c, key + "#inverse", (u2, v2), (u, v), 2e-15 * 10, "the partner projection does not return the field angle", scale=r * cond + 1e-300)
            u3, v3 = fro(*D)
            relclose(c, key + "#roundtrip", (u3, v3), (u, v), 1e-13, "field angle -> direction -> field angle is not the identity", scale=r * cond * cond + 1e-300)
            z = (u == 0) & (v == 0)
            c.true(key + "#axis", np.all(D[0][z] == 0) and np.all(D[1][z] == 0) and np.all(D[2][z] == -1) and np.all(u3[z] == 0) and np.all(v3[z] == 0), "the axis does not map to (0,0,-1) and back")
            # first order at the axis
            sm = (r > 0) & (r < 1e-8)
            relclose(c, key + "#first", (D[0][sm], D[1][sm]), (u[sm], v[sm]), 1e-14, "does not agree with the other projections to first order at the axis")
            # generic entry points
            for nm, f, a, w in (("fieldToDirCos", U.fieldToDirCos, (u, v), D), ("dirCosToField", U.dirCosToField, D, (u3, v3))):
                g = f(*[np.array(q) for q in a], projection=proj)
                c.true(key + "#" + nm, all(np.array_equal(p, q) for p, q in zip(g, w)), nm + " differs from the projection it names")
                if proj == "postel":
                    g = f(*[np.array(q) for q in a])
                    c.true(key + "#default" + nm, all(np.array_equal(p, q) for p, q in zip(g, w)), nm + ": the default projection is not postel")
            c.state_rows(proj, P)
            c.trace(len(u))
            c.outcome(proj, len(u))
            # scalar by scalar
            sc = [tuple(map(float, to(float(a), float(b)))) for a, b in P]
            c.close(key + "#scalar", np.array(sc).T, np.array(D), atol=1e-15, rtol=1e-14, msg="scalars and arrays give different directions")
            sc = [tuple(map(float, fro(float(a), float(b), float(g)))) for a, b, g in np.array(D).T]
            c.close(key + "#scalarback", np.array(sc).T, np.array([u3, v3]), atol=1e-300, rtol=1e-13, msg="scalars and arrays give different field angles")
            c.trans(2 * len(P))
    # unknown projections are refused
    for nm, a in (("fieldToDirCos", (0.1, 0.2)), ("dirCosToField", (0.0, 0.6, -0.8))):
        with c.case("bad:" + nm):
            try:
                getattr(B.utils, nm)(*a, projection="nosuch")
                c.fail("bad:" + nm, "an unknown projection is accepted")
            except ValueError:
                c.outcome("refused")


def directions(c, B, quick):
    """direction -> field angle -> direction on the lower hemisphere"""
    out = [(0.0, 0.0, -1.0)]
    for th in (1e-150, 1e-20, 1e-9, 1e-5, 1e-3, 0.02, 0.1, 0.4, 0.9, 1.3, 1.5):
        for k in range(16 if quick else 64):
            ph = 2 * math.pi * k / (16 if quick else 64)
            cx, sx = (round(math.cos(ph)), round(math.sin(ph))) if k % (4 if quick else 16) == 0 else (math.cos(ph), math.sin(ph))
            out.append((math.sin(th) * cx, math.sin(th) * sx, -math.cos(th)))
    d = np.array(out)
    for proj in PROJ:
        key = f"dir:{proj}"
        with c.case(key):
            uv = getattr(B.utils, "dirCosTo" + NAME[proj])(*d.T.copy())
            want = inverse(proj, *d.T)
            c.trans(len(d))
            relclose(c, key + "#def", uv, want, 1e-12, "field angle differs from the definition of the projection", scale=np.hypot(*np.asarray(want, float)) + 1e-300)
            back = getattr(B.utils, proj + "ToDirCos")(*uv)
            relclose(c, key + "#back", back[:2], d.T[:2], 1e-12, "direction -> field angle -> direction is not the identity")
            c.close(key + "#backz", back[2], d[:, 2], atol=1e-12, msg="direction -> field angle -> direction is not the identity")
            c.state_rows(key, d)
            c.trace(len(d))


def shapes(c, B, quick):
    """axis and ordinary elements in every position of arrays of several shapes; broadcasting; the caller's arrays are left alone"""
    sp = [(0.0, 0.0), (0.1, 0.0), (0.0, -0.2), (0.3, 0.4)]
    for proj in PROJ:
        to, fro = getattr(B.utils, proj + "ToDirCos"), getattr(B.utils, "dirCosTo" + NAME[proj])
        ref = {p: tuple(map(float, to(*p))) for p in sp}
        back = {p: tuple(map(float, fro(*ref[p]))) for p in sp}
        for n in (1, 2, 3):
            for combo in itertools.product(sp, repeat=n):
                key = f"shape:{proj}:{n}:{'|'.join(str(sp.index(p)) for p in combo)}"
                with c.case(key):
                    for shp in ([(n,), (n, 1), (1, n)] + ([()] if n == 1 else [])):
                        u, v = np.array([p[0] for p in combo]).reshape(shp), np.array([p[1] for p in combo]).reshape(shp)
                        u0, v0 = u.copy(), v.copy()
                        got = to(u, v)
                        for i in range(3):
                            c.close(f"{key}#{shp}{i}", np.asarray(got[i]), np.array([ref[p][i] for p in combo]).reshape(shp), atol=1e-15, msg="array result differs from the scalar ones")
                        dd = [np.array([ref[p][i] for p in combo]).reshape(shp) for i in range(3)]
                        d0 = [q.copy() for q in dd]
                        g2 = fro(*dd)
                        for i in range(2):
                            c.close(f"{key}#{shp}b{i}", np.asarray(g2[i]), np.array([back[p][i] for p in combo]).reshape(shp), atol=1e-15, msg="array result differs from the scalar ones")
                        c.true(f"{key}#{shp}in", np.array_equal(u, u0) and np.array_equal(v, v0) and all(np.array_equal(a, b) for a, b in zip(dd, d0)), "the caller's arrays were changed")
                        c.trans(2)
                    c.state(key)
                    c.trace()
        with c.case(f"shape:{proj}:empty"):
            got = to(np.zeros(0), np.zeros(0))
            c.true(f"shape:{proj}:empty", all(np.shape(g) == (0,) for g in got), "empty arrays")
            got = fro(np.zeros(0), np.zeros(0), np.zeros(0))
            c.true(f"shape:{proj}:emptyb", all(np.shape(g) == (0,) for g in got), "empty arrays")
        for a, b in ((0.0, np.array([0.0, 0.1, -0.3])), (np.array([0.0, 0.1, -0.3]), 0.0), (np.array([[0.0], [0.2]]), np.array([0.0, 0.1, -0.3])), (0, 0), (np.float64(0.25), 0.5), (np.array([0, 0]), np.array([0, 0]))):
            key = f"bcast:{proj}:{np.shape(a)}:{np.shape(b)}:{type(a).__name__}"
            with c.case(key):
                got = np.broadcast_arrays(*to(a, b))
                A, Bb = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
                w = geometry(proj, A, Bb)
                for i in range(3):
                    c.close(f"{key}#{i}", np.asarray(got[i], float), np.asarray(w[i], float), atol=1e-14, msg="mixed scalar and array arguments")
                c.trans()
                c.state(key)
    c.outcome("shapes")


def helpers(c, B, quick):
    N = 48 if quick else 360
    for ax, (f, e) in {"x": (B.RotX, [1, 0, 0]), "y": (B.RotY, [0, 1, 0]), "z": (B.RotZ, [0, 0, 1])}.items():
        for k in [-1, 0, 1] + list(range(-N, N + 1, 3)):
            th = k * 2 * math.pi / N if abs(k) > 1 else k * 1e-9
            key = f"rot:{ax}:{th:.6g}"
            with c.case(key):
                M = np.asarray(f(th))
                e_ = np.array(e, float)
                K = np.array([[0, -e_[2], e_[1]], [e_[2], 0, -e_[0]], [-e_[1], e_[0], 0]])
                W = np.eye(3) + math.sin(th) * K + (1 - math.cos(th)) * K @ K
                c.close(key, M, W, atol=3e-16 * 4, msg="rotation matrix")
                c.close(key + "#inv", np.asarray(f(-th)) @ M, np.eye(3), atol=1e-15, msg="opposite angles do not invert each other")
                c.close(key + "#comp", np.asarray(f(0.3)) @ M, np.asarray(f(th + 0.3)), atol=1e-15 * 4, msg="angles do not add")
                c.state(key)
                c.trans(3)
    vals = (0.0, 1.0, -2.0, 1e-8, 3e7)
    for n in (1, 2, 3):
        for t in itertools.product(vals, repeat=n):
            if not any(t):
                continue
            key = f"normalized:{t}"
            with c.case(key):
                w = np.array(t) / math.sqrt(math.fsum(x * x for x in t))
                for lab, a in (("t", t), ("l", list(t)), ("a", np.array(t))):
                    c.close(key + lab, B.utils.normalized(a), w, atol=1e-15, rtol=1e-14, msg="normalized")
                c.state(key)
                c.trans(3)
    with c.case("normalized:scalar"):
        c.close("normalized:scalar", B.utils.normalized(-3), np.array([-1.0]), atol=1e-15, msg="normalized")
    c.outcome("helpers")


def run(c, B):
    np.seterr(all='ignore')
    c.method = "exhaustive grid over each projection's domain, array shapes and argument kinds, against the defining geometry in extended precision"
    forward_backward(c, B, c.quick)
    directions(c, B, c.quick)
    shapes(c, B, c.quick)
    helpers(c, B, c.quick)
    c.assume("angles below 1e-150 (whose squares underflow) are left out")
    c.extra["bounds"] = "19-24 radii x 28 azimuths per projection incl. both axes and all quadrants; all 1-3 element arrays over 4 special points x 3-4 shapes; rotations every few degrees"
