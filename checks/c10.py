"""C10 - obscurations: exhaustive lattices of shape parameters x points, all small polygons, all boolean nestings up to a
size, and obscuring of ray batches, against exact set membership (rationals / integers)."""
import itertools
from fractions import Fraction as F

import numpy as np

import alpha


def membership(kind, p, X, Y):
    """exact membership of dyadic points, theta a multiple of pi/2 or given by an exact (cos, sin) pair is handled by caller"""
    out = []
    for x, y in zip(X, Y):
        x, y = F(float(x)), F(float(y))
        if kind == "circle":
            r, x0, y0 = map(F, p)
            out.append(r > 0 and (x - x0)**2 + (y - y0)**2 < r * r)
        elif kind == "annulus":
            a, b, x0, y0 = map(F, p)
            h = (x - x0)**2 + (y - y0)**2
            out.append(b > 0 and (a <= 0 or h >= a * a) and h < b * b)
        elif kind == "rect":
            w, h, x0, y0 = map(F, p)
            out.append(abs(x - x0) < w / 2 and abs(y - y0) < h / 2)
        elif kind == "ray":
            w, x0, y0 = map(F, p)
            out.append(x - x0 > 0 and abs(y - y0) < w / 2)
    return np.array(out, bool)


def forms(c, key, o, X, Y, want, skip=None):
    """every way of asking must give the same answer"""
    got = np.asarray(o.contains(X, Y))
    sel = np.ones(len(X), bool) if skip is None else ~skip
    c.true(key, got.shape == X.shape and got.dtype == bool and np.array_equal(got[sel], want[sel]),
           "contains disagrees with the documented shape",
           points=[(float(a), float(b), bool(w)) for a, b, w in zip(X[sel], Y[sel], want[sel]) if got.shape == X.shape and bool(o.contains(a, b)) != w][:5])
    c.trans()
    g2 = np.asarray(o.contains(X.reshape(-1, 1), Y.reshape(-1, 1)))
    c.true(key + "#2d", g2.shape == (len(X), 1) and np.array_equal(g2[:, 0], got), "2-d query differs from 1-d query")
    for i in range(0, len(X), max(1, len(X) // 7)):
        s = o.contains(float(X[i]), float(Y[i]))
        c.true(key + "#scalar", np.ndim(s) == 0 and bool(s) == bool(got[i]), "scalar query differs from array query")
        c.trans()
    c.trans()
    return got


def lattice(step, lim):
    g = np.arange(-lim, lim + step / 2, step)
    X, Y = np.meshgrid(g, g)
    return X.ravel(), Y.ravel()


def shapes(c, B):
    X, Y = lattice(0.25, 2.5)
    # exact Pythagorean boundary points
    P = np.array([(0.75, 1.0), (-0.75, 1.0), (1.5, -2.0), (0.3125, 0.75), (1.25, 0), (0, -1.25), (2.5, 0)])
    X, Y = np.concatenate([X, P[:, 0]]), np.concatenate([Y, P[:, 1]])
    off = [(0, 0), (0.25, -0.5), (-1.0, 0.75)]
    for r in (0.25, 0.5, 1.0, 1.25, 2.5, 0.8125, 0.0):
        for x0, y0 in off:
            key = f"circle:{r}:{x0}:{y0}"
            with c.case(key):
                for o in (B.ObscCircle(r, x0, y0), B.ObscCircle(r, x=x0, y=y0)) + ((B.ObscCircle(r),) if x0 == y0 == 0 else ()):
                    got = forms(c, key, o, X, Y, membership("circle", (r, x0, y0), X, Y))
                c.state_rows(key, np.stack([X, Y, got], 1))
                c.trace()
    for a, b in ((0.0, 0.5), (0.5, 1.0), (1.25, 2.5), (0.75, 0.8125), (1.0, 1.0), (1.5, 1.0), (0.25, 2.0)):
        for x0, y0 in off:
            key = f"annulus:{a}:{b}:{x0}:{y0}"
            with c.case(key):
                for o in (B.ObscAnnulus(a, b, x0, y0), B.ObscAnnulus(inner=a, outer=b, x=x0, y=y0)):
                    got = forms(c, key, o, X, Y, membership("annulus", (a, b, x0, y0), X, Y))
                if a < b:           # documented example: disc + annulus = larger disc, exactly
                    u = B.ObscUnion(B.ObscCircle(a, x0, y0), o)
                    forms(c, key + "#docs", u, X, Y, np.asarray(B.ObscCircle(b, x0, y0).contains(X, Y)))
                c.state_rows(key, np.stack([X, Y, got], 1))
                c.trace()
    for (w, h), (x0, y0) in itertools.product(((1, 0.5), (2.0, 3.0), (0.5, 4.0), (1.5, 1.5)), off):
        key = f"rect:{w}:{h}:{x0}:{y0}"
        with c.case(key):
            got = forms(c, key, B.ObscRectangle(w, h, x0, y0), X, Y, membership("rect", (w, h, x0, y0), X, Y))
            c.state_rows(key, np.stack([X, Y, got], 1))
            c.trace()
        rotations(c, B, key, lambda th: B.ObscRectangle(w, h, x0, y0, th), ("rect", w, h, x0, y0), X, Y)
    for w, (x0, y0) in itertools.product((0.25, 0.5, 1.0, 3.0), off):
        key = f"ray:{w}:{x0}:{y0}"
        with c.case(key):
            got = forms(c, key, B.ObscRay(w, 0.0, x0, y0), X, Y, membership("ray", (w, x0, y0), X, Y))
            c.state_rows(key, np.stack([X, Y, got], 1))
            c.trace()
        rotations(c, B, key, lambda th: B.ObscRay(w, th, x0, y0), ("ray", w, None, x0, y0), X, Y)


def rotations(c, B, key, make, spec, X, Y):
    kind, w, h, x0, y0 = spec
    for i in range(-8, 25 if c.quick else 97):
        th = i * np.pi / 12 + (0.0 if i % 2 else 0.01)
        kk = f"{key}:th{i}"
        with c.case(kk):
            e = np.exp(1j * th)
            q = ((X - x0) + 1j * (Y - y0)) * np.conj(e)         # rotate the point clockwise = shape counter-clockwise
            if kind == "rect":
                a, b = np.abs(q.real) - w / 2, np.abs(q.imag) - h / 2
                want = (a < 0) & (b < 0)
                edge = (np.abs(a) < 1e-9) | (np.abs(b) < 1e-9)
            else:
                a, b = -q.real, np.abs(q.imag) - w / 2
                want = (a < 0) & (b < 0)
                edge = (np.abs(a) < 1e-9) | (np.abs(b) < 1e-9)
            got = forms(c, kk, make(th), X, Y, want, edge)
            c.state_rows(kk, np.stack([X, Y, got], 1))


def poly_ref(V, PX, PY):
    """V (m,k,2) integer polygons, points integer; even-odd membership and boundary mask (exact)"""
    m, k, _ = V.shape
    ins = np.zeros((m, len(PX)), bool)
    bnd = np.zeros((m, len(PX)), bool)
    for e in range(k):
        x1, y1 = V[:, e, 0][:, None], V[:, e, 1][:, None]
        x2, y2 = V[:, (e + 1) % k, 0][:, None], V[:, (e + 1) % k, 1][:, None]
        cr = (PY - y1) * (x2 - x1) - (PX - x1) * (y2 - y1)      # sign: intercept - px times sign(dy)
        span = (y1 < PY) != (y2 < PY)
        ins ^= span & (np.where(y2 > y1, cr, -cr) > 0)
        bnd |= (cr == 0) & (np.minimum(x1, x2) <= PX) & (PX <= np.maximum(x1, x2)) & (np.minimum(y1, y2) <= PY) & (PY <= np.maximum(y1, y2))
    return ins, bnd


def polygons(c, B):
    sets = [(3, 4), (4, 3), (4, 4)] if c.quick else [(3, 5), (4, 4), (5, 3), (6, 3)]
    for k, n in sets:
        vert = np.array(list(itertools.product(range(n), range(n)))) * 2
        gx = np.arange(-1, 2 * n, 1)
        gy = np.arange(-2, 2 * n, 1)
        PX, PY = (a.ravel() for a in np.meshgrid(gx, gy))
        fx, fy = PX / 2.0, PY / 2.0
        gxf, gyf = gx / 2.0, gy / 2.0
        idx = itertools.product(range(len(vert)), repeat=k)
        total = 0
        while True:
            blk = list(itertools.islice(idx, 4000))
            if not blk:
                break
            if k == 4 and n == 4 and c.quick:
                # rotations of the start vertex are covered by n = 3: keep one representative of each cycle
                blk = [b for b in blk if b[0] == min(b)]
            if not blk:
                continue
            V = vert[np.array(blk)]
            ins, bnd = poly_ref(V, PX, PY)
            c.beat(f"polygon:{k}:{n}:{blk[0]}")
            for j, b in enumerate(blk):
                o = B.ObscPolygon(V[j, :, 0] / 2.0, V[j, :, 1] / 2.0)
                got = o.contains(fx, fy)
                grid = o.containsGrid(gxf, gyf)
                ok = np.array_equal(got[~bnd[j]], ins[j][~bnd[j]])
                if not ok:
                    i = np.flatnonzero((got != ins[j]) & ~bnd[j])[0]
                    c.fail(f"polygon:{k}:{n}:{b}", "polygon membership differs from the even-odd rule", xs=V[j, :, 0] / 2, ys=V[j, :, 1] / 2,
                           point=(fx[i], fy[i]), got=bool(got[i]), want=bool(ins[j][i]))
                if grid.shape != (len(gy), len(gx)) or not np.array_equal(grid.ravel(), got):
                    c.fail(f"polygongrid:{k}:{n}:{b}", "containsGrid differs from contains", xs=V[j, :, 0] / 2, ys=V[j, :, 1] / 2)
                total += 1
            c.trans(2 * len(blk))
            c.states.update((k, n) + b for b in blk)
        c.trace(total)
        c.outcome(f"polygons{k}on{n}x{n}", total)
    # general (non-lattice) polygons and construction forms, concave and self-crossing
    th = np.arange(11) * 2 * np.pi / 11
    rr = 1 + 0.5 * (-1.0)**np.arange(11)
    shapes_ = {"star": (rr * np.cos(th + 0.1), rr * np.sin(th + 0.1)), "cross": ([0, 2, 0.1, 2.2], [0, 2.1, 2, -0.1]),
               "comb": ([0, 4, 4, 3.1, 3, 2.1, 2, 1.1, 1, 0.2], [0, 0.1, 3, 3.2, 1, 0.9, 3, 3.1, 1.2, 3])}
    X, Y = lattice(0.1, 4.0)
    for nm, (xs, ys) in shapes_.items():
        with c.case("poly:" + nm):
            xs, ys = np.array(xs, float), np.array(ys, float)
            z = (xs[:, None] - X) + 1j * (ys[:, None] - Y)
            wn = np.rint(np.sum(np.angle(np.roll(z, -1, 0) / z), 0) / (2 * np.pi)).astype(int)
            d = np.roll(z, -1, 0) - z
            t = np.clip(-np.real(z * np.conj(d)) / np.abs(d)**2, 0, 1)
            dist = np.min(np.abs(z + t * d), 0)
            edge = dist < 1e-7
            for mk in (lambda: B.ObscPolygon(xs, ys), lambda: B.ObscPolygon(list(xs), tuple(ys)), lambda: B.ObscPolygon(xs[::-1], ys[::-1]),
                       lambda: B.ObscPolygon(np.roll(xs, 3), np.roll(ys, 3)), lambda: B.ObscPolygon(np.repeat(xs, 2)[::2], np.repeat(ys, 2)[::2])):
                o = mk()
                forms(c, "poly:" + nm, o, X, Y, wn % 2 == 1, edge)
                g = np.arange(-4, 4.05, 0.1)
                c.true(f"poly:{nm}#grid", np.array_equal(o.containsGrid(g, g[5:]), np.asarray(o.contains(*np.meshgrid(g, g[5:])))), "containsGrid differs from contains")
            c.trace()
        # unsorted / repeated / single / empty grids
        with c.case("polygrid:" + nm):
            o = B.ObscPolygon(xs, ys)
            for gx, gy in (([0.3, -0.5, 2.0, 0.3], [1.0]), ([1.0], [0.2, 0.1, 3.0]), ([], [1.0]), ([1.0], []), (np.arange(3), np.arange(4)),
                           (np.linspace(-5, 5, 21)[::-2], np.linspace(-5, 5, 9)[::-1])):
                g = np.asarray(o.containsGrid(gx, gy))
                XX, YY = np.meshgrid(np.asarray(gx, float), np.asarray(gy, float))
                w = np.asarray(o.contains(XX, YY)) if XX.size else np.zeros(XX.shape, bool)
                c.true("polygrid:" + nm, g.shape == XX.shape and g.dtype == bool and np.array_equal(g, w), "containsGrid differs from contains", gx=list(gx), gy=list(gy))
                c.trans(2)


def nestings(c, B):
    X, Y = lattice(0.25, 2.0)
    X, Y = X + 0.03, Y - 0.02
    leaves = [("c", B.ObscCircle(1.0, 0.1, -0.2)), ("a", B.ObscAnnulus(0.5, 1.4)), ("r", B.ObscRectangle(1.2, 2.7, 0.1, 0.2, 0.3)),
              ("y", B.ObscRay(0.6, 0.4, 0.0, 0.1)), ("p", B.ObscPolygon([-1.0, 1.0, 0.7, -0.4], [-0.8, -0.5, 1.1, 0.9]))]
    L0 = [(n, o, np.asarray(o.contains(X, Y))) for n, o in leaves]

    def level(items, others, triples):
        out = [(f"!{n}", B.ObscNegation(o), ~m) for n, o, m in items]
        for (n1, o1, m1), (n2, o2, m2) in itertools.product(items, others):
            out.append((f"({n1}|{n2})", B.ObscUnion(o1, o2), m1 | m2))
            out.append((f"({n1}&{n2})", B.ObscIntersection(o1, o2), m1 & m2))
        if triples:
            for q in itertools.product(items, repeat=3):
                n = [v[0] for v in q]
                o = [v[1] for v in q]
                m = [v[2] for v in q]
                out.append(("|".join(n), B.ObscUnion(o), m[0] | m[1] | m[2]))
                out.append(("&".join(n), B.ObscIntersection(tuple(o)), m[0] & m[1] & m[2]))
            for n, o, m in items:
                out += [(f"|1{n}", B.ObscUnion(o), m), (f"&1{n}", B.ObscIntersection(o), m), (f"|L{n}", B.ObscUnion([o]), m), (f"&L{n}", B.ObscIntersection([o]), m)]
        return out
    L1 = level(L0, L0, True)
    seen = {}
    for n, o, m in L1:                      # one representative per truth table and operator for the next level
        seen.setdefault((m.tobytes(), type(o).__name__), (n, o, m))
    R1 = list(seen.values())
    c.extra["distinct_tables_level1"] = len(R1)
    L2 = level(R1, L0 + (R1 if not c.quick else R1[::3]), False)
    base = B.RayVector(X, Y, np.linspace(-1, 1, len(X)), 0.1, 0.0, -1.0, t=0.5, wavelength=5e-7, flux=np.arange(len(X)) + 1.0,
                       vignetted=np.arange(len(X)) % 6 == 0, failed=np.arange(len(X)) % 12 == 0)
    s0 = alpha.snap(base)
    vi = (alpha.FIELDS + alpha.FLAGS).index("vignetted")
    for j, (n, o, m) in enumerate(L0 + L1 + L2):
        key = "nest:" + n
        with c.case(key):
            c.true(key, np.array_equal(np.asarray(o.contains(X, Y)), m), "set operation differs from the boolean combination of its parts")
            c.trans()
            c.states.add(("n", m.tobytes()))
            if j % (7 if c.quick else 1) == 0 or j < len(L0) + 60:
                rv = base.copy()
                ret = o.obscure(rv) if j % 2 else B.obscure(o, rv)
                s = alpha.snap(rv)
                w = s0.copy()
                ok = ~np.array(base.failed)
                w[:, vi] = np.where(m, 1.0, w[:, vi])
                c.true(key + "#ret", ret is rv, "obscure does not return the batch itself")
                c.true(key + "#obscure", np.array_equal(s[ok], w[ok]), "obscuring marks other rays than those inside, clears marks or changes something else")
                rest = [i for i in range(s.shape[1]) if i != vi]
                c.true(key + "#rest", np.array_equal(s[:, rest], s0[:, rest]), "obscuring changed something besides the vignetted mark")
                c.trans()
                c.outcome("obscured")
            c.trace()


def run(c, B):
    c.method = "exhaustive parameter/point lattices, all polygons on small vertex lattices, all boolean nestings of 5 shapes to depth 2, exact arithmetic oracle"
    shapes(c, B)
    nestings(c, B)
    polygons(c, B)
    c.assume("points exactly on a polygon edge or on a rotated shape's edge are only required to be answered alike by contains and containsGrid")
    c.extra["bounds"] = "circle/annulus/rectangle/ray parameters from dyadic alphabets incl. exact boundary points; rotations in steps of 15 degrees; polygons of 3-4 (6) vertices on 3x3..4x4 (5x5) lattices"
