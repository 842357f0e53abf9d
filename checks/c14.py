"""C14 - tracing a system is tracing its surfaces in order: all nestings x skip patterns x element kinds x directions, all
physical paths up to a length, full histories, and there-and-back, against a reference interpreter of single-surface steps."""
import glob
import itertools
import os

import numpy as np

import alpha
import systems as S

TOL = dict(atol=1e-11, rtol=1e-11)


def cmp_rays(c, key, got, want, msg, ok=None):
    g, w = alpha.snap(got), alpha.snap(want)
    c.true(key + "#flags", g.shape == w.shape and np.array_equal(g[:, 9:], w[:, 9:]), msg + ": marks differ", got=g[:, 9:], want=w[:, 9:])
    c.close(key, g[:, :9], w[:, :9], msg=msg, **TOL)
    c.true(key + "#frame", np.allclose(got.coordSys.origin, want.coordSys.origin, rtol=0, atol=1e-12) and np.allclose(got.coordSys.rot, want.coordSys.rot, rtol=0, atol=1e-12), msg + ": frame differs")


def one(c, B, key, o, rv, rev, full=True, top_skip=False):
    """trace, traceFull of o against the flattened sequence of its visible leaves"""
    vis = S.leaves(o)
    h = S.history(B, vis, rv, rev)
    want = h[-1][1] if h else rv
    s0 = S.snapshot(o)
    r0 = alpha.snap(rv)
    a = rv.copy()
    out = o.trace(a, reverse=rev) if rev else o.trace(a)
    c.true(key + "#ret", out is a, "trace does not return the batch it traces in place")
    cmp_rays(c, key, a, want, "trace differs from interacting with each visible surface in order")
    c.trans()
    if full:
        b = rv.copy()
        tf = o.traceFull(b, reverse=rev) if rev else o.traceFull(b)
        cmp_rays(c, key + "#input", b, rv, "traceFull modifies its input")
        c.true(key + "#names", list(tf.keys()) == [n for n, _ in h] and [v["name"] for v in tf.values()] == [n for n, _ in h], "traceFull lists other surfaces than those traced", got=list(tf.keys()), want=[n for n, _ in h])
        prev = rv
        for (n, w), v in zip(h, tf.values()):
            cmp_rays(c, f"{key}#in:{n}", v["in"], prev, f"rays reported entering {n}")
            cmp_rays(c, f"{key}#out:{n}", v["out"], w, f"rays reported leaving {n}")
            prev = w
        c.trans()
    c.true(key + "#optic", S.snapshot(o) == s0, "tracing modified the optic")
    c.true(key + "#rv", np.array_equal(alpha.snap(rv), r0, equal_nan=True), "tracing a copy modified its source")
    c.state(key)
    c.trace()
    c.outcome("some good" if np.any(~np.asarray(want.vignetted)) else "all lost")


def trees(c, B, quick):
    rv0 = S.rays(B, 9 if quick else 17)
    # every kind in every position, flat
    for n in (1, 2, 3):
        for kinds in itertools.product("RMBIDO", repeat=n):
            for rev in (False, True):
                key = f"flat:{''.join(kinds)}:{int(rev)}"
                with c.case(key):
                    lv = S.chain(B, kinds)
                    one(c, B, key, B.CompoundOptic(lv, name="T"), S.rays(B, 9), rev, full=n < 3 or not quick)
                    if n == 1:
                        one(c, B, key + "#alone", lv[0], S.rays(B, 9), rev)
    # every nesting and every skip pattern
    for kinds, names in (("RRB", None), ("RMR", ["a", "b", "c"]), ("RRRR", None)) + (() if quick else (("RRMD", None), ("ORRB", None), ("RRRRB", None))):
        n = len(kinds)
        for shape in S.shapes(n):
            for cls in ("Compound", "Lens"):
                if cls == "Lens" and n == 4 and quick:
                    continue
                lv = S.chain(B, kinds, names=names)
                o = S.build(B, shape, lv, cls=cls)
                nd = S.nodes(o)
                pats = list(itertools.product((False, True), repeat=len(nd)))
                if n >= 4:
                    pats = [p for p in pats if sum(p) <= (2 if quick else 3)]
                for p in pats:
                    for it, sk in zip(nd, p):
                        it.skip = sk
                    for rev in (False, True):
                        key = f"tree:{kinds}:{shape}:{cls}:{''.join('-x'[q] for q in p)}:{int(rev)}"
                        with c.case(key):
                            one(c, B, key, o, rv0, rev, full=(sum(p) <= 1))
    # a skipped optic given at construction time behaves the same as one marked later
    for i in range(3):
        with c.case(f"skipctor:{i}"):
            lv = S.chain(B, "RRR")
            lv[i] = type(lv[i])(lv[i].surface, **{k: getattr(lv[i], k) for k in ("name", "coordSys", "inMedium", "outMedium", "obscuration")}, skip=True)
            one(c, B, f"skipctor:{i}", B.CompoundOptic(lv, name="T"), rv0, False)


def physical_paths(n, maxlen):
    """walks 0.. over surfaces 0..n-1: at each surface go on or turn back; all lengths >= 2; stop inside or after leaving"""
    out = []

    def rec(path, d):
        if len(path) >= 2:
            out.append(tuple(path))
        if len(path) == maxlen:
            return
        for nd in (d, -d):
            k = path[-1] + nd
            if 0 <= k < n:
                rec(path + [k], nd)
    rec([0], 1)
    return sorted(set(out))


def paths(c, B, quick):
    for kinds in ("RRR", "RBR", "RRMR") + (() if quick else ("RRRR", "RRRRB")):
        n = len(kinds)
        shapes = [tuple(range(n)), ((0, 1),) + tuple(range(2, n))]
        P = physical_paths(n, 6 if quick else 8)
        # also monotone sub-selections: a surface left out of the path is not visited
        P += [s for k in range(2, n + 1) for s in itertools.combinations(range(n), k) if s not in P]
        for shape in shapes:
            lv = S.chain(B, kinds)
            o = S.build(B, shape, lv)
            rv = S.rays(B, 7)
            full = {i.name: i for i in lv}
            for skip in (None, 1):
                for it in lv:
                    it.skip = False
                if skip is not None:
                    lv[skip].skip = True
                for p in P:
                    if skip is not None and len(p) > 4:
                        continue
                    first = []
                    for q in p:
                        if q not in first:
                            first.append(q)
                    if first != sorted(first):
                        continue
                    key = f"path:{kinds}:{shape}:{skip}:{p}"
                    with c.case(key):
                        d = 1
                        cur = rv
                        hist = []
                        for i, q in enumerate(p):
                            nd = d if i == len(p) - 1 else (1 if p[i + 1] > q else -1)
                            nxt = S.step(B, lv[q], cur, reverse=d < 0, reflect=nd != d)
                            hist.append((lv[q].name, cur, nxt))
                            cur, d = nxt, nd
                        names = [lv[q].name for q in p]
                        s0 = S.snapshot(o)
                        a = rv.copy()
                        out = o.trace(a, path=names)
                        c.true(key + "#ret", out is a, "trace does not return the batch")
                        cmp_rays(c, key, a, cur, "tracing along a path differs from visiting its surfaces in order")
                        tf = o.traceFull(rv, path=names)
                        c.true(key + "#n", len(tf) == len(p) and [v["name"] for v in tf.values()] == names, "full history along a path lists other surfaces")
                        c.true(key + "#keys", list(tf.keys()) == [f"{q}_{names[:i].count(q)}" for i, q in enumerate(names)], "full history keys do not count visits", got=list(tf.keys()))
                        for i, ((nm, a0, a1), v) in enumerate(zip(hist, tf.values())):
                            cmp_rays(c, f"{key}#in{i}", v["in"], a0, "full history along a path (in)")
                            cmp_rays(c, f"{key}#out{i}", v["out"], a1, "full history along a path (out)")
                        c.true(key + "#optic", S.snapshot(o) == s0, "tracing modified the optic")
                        c.trans(2)
                        c.state(key)
                        c.trace()
                        c.outcome("path")
            if shape != shapes[0]:
                continue
            # qualified and partial names select the same surfaces
            with c.case(f"pathnames:{kinds}"):
                for it in lv:
                    it.skip = False
                a, b = rv.copy(), rv.copy()
                o.trace(a, path=[it.name for it in lv])
                o.trace(b, path=[f"{o.name}.{it.name}" for it in lv])
                cmp_rays(c, f"pathnames:{kinds}", a, b, "qualified names in a path")


def back(c, B, key, o, rv):
    """reverse the outgoing rays and trace backwards"""
    vis = S.leaves(o)
    a = rv.copy()
    o.trace(a)
    good = ~np.asarray(a.vignetted) & ~np.asarray(a.failed)
    if not np.any(good):
        c.outcome("none came through")
        return
    r = B.RayVector(a.x, a.y, a.z, -a.vx, -a.vy, -a.vz, -a.t, a.wavelength, a.flux, a.vignetted, a.failed, a.coordSys)
    o.trace(r, reverse=True)
    r.toCoordSys(rv.coordSys)
    # same line, opposite direction, same clock
    g = good & ~np.asarray(r.failed)
    c.true(key + "#lost", np.array_equal(g, good), "a ray that came through cannot be traced back")
    v = rv.v[g]
    c.close(key + "#v", r.v[g], -v, atol=1e-8, rtol=1e-8, msg="rays traced back do not leave along the direction they came from")
    dt = -rv.t[g] - r.t[g]
    p = r.r[g] + r.v[g] * dt[:, None]
    c.close(key + "#r", p, rv.r[g], atol=1e-7, rtol=1e-8, msg="rays traced back do not return to where they came from")
    c.trans(2)
    c.state(key)
    c.trace()
    c.outcome("there and back")


def roundtrips(c, B, quick):
    for n in (1, 2, 3):
        for kinds in itertools.product("RMBO" if n < 3 else "RMB", repeat=n):
            key = f"back:{''.join(kinds)}"
            with c.case(key):
                # physically arranged: each mirror turns the ray, so later elements sit on the other side
                lv = physical_chain(B, kinds)
                rv = S.rays(B, 9)
                rv = rv[np.abs(np.asarray(rv.x)) < 5]        # rays that can come through
                back(c, B, key, B.CompoundOptic(lv, name="T"), rv)


def physical_chain(B, kinds):
    med = [B.ConstMedium(1.0), B.ConstMedium(1.45)]
    z, d, g = 0.0, -1, 0
    out = []
    for i, k in enumerate(kinds):
        m1 = med[g]
        if k == "R":
            g ^= 1
        it = S.leaf(B, k, f"s{i}", i, m1, med[g], obsc=False)
        it = it.withGlobalShift(np.array([0, 0, z]) - np.array(it.coordSys.origin) + [0.02 * i, -0.03 * i, 0])
        out.append(it)
        if k == "M":
            d = -d
        z += 0.6 * d
    return out


def telescopes(c, B, quick):
    for f in sorted(glob.glob(os.path.join(B.datadir, "**", "*.yaml"), recursive=True)):
        name = os.path.basename(f)
        import yaml
        if "opticalSystem" not in (yaml.safe_load(open(f)) or {}):
            continue
        with c.case("tel:" + name):
            o = B.Optic.fromYaml(f)
            if not hasattr(o, "backDist"):
                continue
            th = {"LSST": 0.02, "HSC": 0.01, "DECam": 0.01}
            scale = next((v for k, v in th.items() if k in name), 0.002)
            for tx, ty in ((0, 0), (scale * 0.6, -scale * 0.3)):
                rv = B.RayVector.asPolar(optic=o, wavelength=6.2e-7, theta_x=tx, theta_y=ty, inner=0.1 * o.pupilSize, outer=0.49 * o.pupilSize, nrad=3, naz=12)
                key = f"tel:{name}:{tx}:{ty}"
                one(c, B, key, o, rv, False)
                if not any(isinstance(l, B.OPDScreen) for l in S.leaves(o)):
                    back(c, B, key + "#back", o, rv)
                one(c, B, key + "#rev", o, o.trace(rv.copy()), True, full=False)
                if len({l.name for l in S.leaves(o)}) == len(S.leaves(o)):
                    p = [l.name for l in S.leaves(o)]
                    a, b = o.trace(rv.copy()), o.trace(rv.copy(), path=p)
                    cmp_rays(c, key + "#path", b, a, "the nominal path differs from the plain trace")


def run(c, B):
    np.seterr(all='ignore')
    c.method = "enumeration of all optic trees/skip patterns/kinds/directions and all physical paths up to a length, real trace/traceFull against composition of single-surface public operations"
    trees(c, B, c.quick)
    paths(c, B, c.quick)
    roundtrips(c, B, c.quick)
    telescopes(c, B, c.quick)
    c.assume("the single-surface operations composed by the reference are those judged by C05-C10")
    c.assume("paths are those whose surfaces first appear in nominal order; a one-element path is not judged")
    c.extra["bounds"] = "all chains of <= 3 elements over 6 kinds; all nestings of 3-4 elements with all skip patterns (<= 2 skips for 4); all physical paths of length <= 6; all shipped telescopes, 2 fields"
