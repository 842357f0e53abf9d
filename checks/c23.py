"""C23 - drawn geometry is the traced geometry: every surface kind x aperture x frame for outlines, meshes and slices; every
small tree x class filter; every traced history x (start, end) pair x frame for ray tracks.  Drawing goes to a recording axis."""
import contextlib
import io
import itertools

import numpy as np

import alpha
import ref
import systems as S


class Rec:
    """stands in for a matplotlib / plotly axis and keeps what it is asked to draw"""
    def __init__(self):
        self.lines, self.fills, self.texts, self.kw = [], [], [], []

    def plot(self, *a, **kw):
        dim = 3 if len(a) % 3 == 0 and len(a) == 3 else 2
        for i in range(0, len(a), dim):
            self.lines.append(np.array([np.array(q, float) for q in a[i:i + dim]]))
            self.kw.append(kw)

    def add_scatter3d(self, x, y, z, **kw):
        self.lines.append(np.array([x, y, z], float))
        self.kw.append(kw)

    def fill(self, x, z, **kw):
        self.fills.append(np.array([x, z], float))
        self.kw.append(kw)

    def text(self, *a, **kw):
        self.texts.append((a, kw))


def apertures(B):
    """name -> (obscuration, outer, inner)"""
    return {
        "none": (None, None, None),
        "circle": (B.ObscCircle(1.3), 1.3, 0.0),
        "clear": (B.ObscNegation(B.ObscCircle(2.1)), 2.1, 0.0),
        "clear-ann": (B.ObscNegation(B.ObscAnnulus(0.6, 2.0)), 2.0, 0.6),
        "ann": (B.ObscAnnulus(1e-3, 1.7), 1.7, 1e-3),
        "ann0": (B.ObscAnnulus(0.0, 1.5), 1.5, 0.0),
        "rect": (B.ObscRectangle(1.0, 2.0), None, None),
        "neg-rect": (B.ObscNegation(B.ObscRectangle(1.0, 2.0)), None, None),
    }


def frames(B):
    F = [("id", [0, 0, 0], np.eye(3)), ("shift", [0.3, -0.2, 1.0], np.eye(3)), ("roty", [1.0, 0.0, -2.0], ref.rot((0, 1, 0), 0.4)),
         ("mix", [1.0, 0.5, -0.7], ref.rot((0, 0, 1), 0.9) @ ref.rot((0, 1, 0), -0.3)), ("flip", [0, 0, 2.0], ref.rot((1, 0, 0), np.pi))]
    return {n: (B.CoordSys(np.array(o, float), R), ref.Frame(o, R)) for n, o, R in F}


def split(xyz):
    """polylines separated by nan columns"""
    xyz = np.asarray(xyz, float)
    bad = np.isnan(xyz).any(0)
    out, cur = [], []
    for i in range(xyz.shape[1]):
        if bad[i]:
            if cur:
                out.append(xyz[:, cur])
            cur = []
        else:
            cur.append(i)
    if cur:
        out.append(xyz[:, cur])
    return out


def classify(p, outer, inner):
    """name of the outline a polyline in local coordinates traces, or a reason why it is none"""
    x, y = p[0], p[1]
    r = np.hypot(x, y)
    tol = 1e-9 * (1 + outer)
    for n, R in (("outer", outer), ("inner", inner)):
        if R > 0 and np.all(np.abs(r - R) < tol):
            a = np.unwrap(np.arctan2(y, x))
            if np.ptp(a) >= 2 * np.pi - 1e-6 and np.max(np.abs(np.diff(a))) < 0.35:
                return n
            return "open " + n
    for n, u, v in (("x", x, y), ("y", y, x)):
        if np.all(np.abs(v) < tol):
            for s in (1, -1):
                w = s * u
                if abs(w.min() - inner) < tol and abs(w.max() - outer) < tol:
                    d = np.diff(w)
                    if np.all(d > 0) or np.all(d < 0):
                        return ("+" if s > 0 else "-") + n
                    return "non-monotone " + n
    return f"no outline: r in [{r.min()}, {r.max()}]"


def outline(c, B, key, it, fr, model, lines, outer, inner):
    want = {"outer", "+x", "-x", "+y", "-y"} | ({"inner"} if inner > 0 else set())
    got = []
    for ln in lines:
        p = fr.R.T @ (ln - fr.o[:, None])
        z = model.sag(p[0], p[1])
        c.close(key + "#on", p[2], z, atol=1e-9, msg="a drawn point is not on the surface")
        got.append(classify(p, outer, inner))
        c.trans()
    c.true(key + "#pieces", sorted(got) == sorted(want), "drawn outlines", got=got, want=sorted(want))


def interfaces(c, B, quick):
    Ss = alpha.surfaces(B)
    Fs = frames(B)
    for (sn, (s, rad)), (an, (ob, outer, inner)), (fn, (cs, fr)) in itertools.product(Ss.items(), apertures(B).items(), Fs.items()):
        model = ref.Model(B, s)
        kinds = (B.Mirror, B.Detector, B.Baffle) if sn in ("plane", "para+") else (B.Mirror,)
        for K in kinds:
            key = f"interface:{sn}:{an}:{fn}:{K.__name__}"
            with c.case(key):
                it = K(s, obscuration=ob, name="s", coordSys=cs)
                s0 = S.snapshot(it)
                mesh = it.get3dmesh()
                for pl in (False, True):
                    ax = Rec()
                    it.draw3d(ax, plotly=pl, c="k")
                    if outer is None:
                        c.true(f"{key}#none{pl}", not ax.lines, "a part without known radius was drawn")
                    else:
                        outline(c, B, f"{key}#draw{int(pl)}", it, fr, model, ax.lines, outer, inner)
                        c.true(f"{key}#kw{pl}", all(k == {"c": "k"} for k in ax.kw), "drawing options are not passed on", got=ax.kw[:2])
                if outer is not None:
                    outline(c, B, f"{key}#mesh", it, fr, model, split(mesh), outer, inner)
                # slices: frames that keep the (x,z) plane
                for ns in (0, 2, 3, 8):
                    sl = it.getXZSlice(ns) if ns else it.getXZSlice()
                    c.trans()
                    k2 = f"{key}#slice{ns}"
                    if outer is None:
                        c.true(k2, len(sl) == 0, "slice of a part without known radius")
                        continue
                    c.true(k2 + "n", len(sl) == (1 if inner == 0 else 2), "number of half slices", got=len(sl))
                    n = ns or (2 if sn == "plane" else None)
                    for i, q in enumerate(sl):
                        q = np.asarray(q)
                        if n is not None:
                            c.true(f"{k2}len{i}", q.shape == (2, 2 * n - 1 if inner == 0 else n), "points per half slice", got=q.shape)
                        else:
                            c.true(f"{k2}len{i}", q.shape[0] == 2 and q.shape[1] >= 10, "points per half slice", got=q.shape)
                        if fn in ("id", "shift", "roty"):
                            g = np.stack([q[0], np.full(q.shape[1], fr.o[1]), q[1]])
                            p = fr.R.T @ (g - fr.o[:, None])
                            c.close(f"{k2}on{i}", p[2], model.sag(p[0], 0 * p[0]), atol=1e-9, msg="a slice point is not on the surface")
                            lo, hi = (-outer, outer) if inner == 0 else ((-outer, -inner) if i == 0 else (inner, outer))
                            c.true(f"{k2}range{i}", abs(p[0][0] - lo) < 1e-9 and abs(p[0][-1] - hi) < 1e-9 and np.all(np.diff(p[0]) > 0),
                                   "the slice does not run across the part from -x to +x", got=p[0])
                ax = Rec()
                it.draw2d(ax, c="b")
                want = it.getXZSlice()
                c.true(f"{key}#draw2d", len(ax.lines) == len(want) and all(np.array_equal(a, w) for a, w in zip(ax.lines, want)), "draw2d draws something else than the slice")
                c.true(f"{key}#pure", S.snapshot(it) == s0, "drawing modified the optic")
                c.state(key)
                c.trace()


def trees(c, B, quick):
    types = {"none": None, "Mirror": B.Mirror, "Lens": B.Lens, "Refr": B.RefractiveInterface, "Det": B.Detector, "Iface": B.Interface,
             "tuple": (B.Mirror, B.Detector), "list": [B.Mirror, B.Detector], "lens+": [B.Lens, B.Mirror]}
    F = frames(B)
    for kinds, shape in itertools.product(("RRMD", "RRRR", "MRRD", "RRBI"), S.shapes(4)):
        for cls in ("Compound", "Lens"):
            for blank in [(), (0,), (3,), (0, 1), (0, 1, 2, 3)]:
                lv = S.chain(B, kinds, obsc=False, tilt=False)
                for i, it in enumerate(lv):
                    ob = None if i in blank else B.ObscNegation(B.ObscAnnulus(0.2, 1.0 + 0.1 * i) if i == 1 else B.ObscCircle(1.0 + 0.1 * i))
                    lv[i] = type(it)(it.surface, name=it.name, coordSys=it.coordSys, inMedium=it.inMedium, outMedium=it.outMedium, obscuration=ob)
                o = S.build(B, shape, lv, cls=cls)
                s0 = S.snapshot(o)
                key = f"tree:{kinds}:{shape}:{cls}:{blank}"
                with c.case(key):
                    m = o.get3dmesh()
                    want = [it.get3dmesh() for it in S.leaves(o)]
                    want = [w for w in want if w is not None]
                    W = np.hstack([np.array(w) for w in want]) if want else np.zeros((3, 0))
                    c.true(key + "#mesh", m is None and not want or m is not None and np.array_equal(np.array(m), W, equal_nan=True), "the mesh of a compound is not the meshes of its parts in order")
                    ax, bx = Rec(), Rec()
                    o.draw3d(ax)
                    for it in S.leaves(o):
                        it.draw3d(bx)
                    c.true(key + "#draw3d", same(ax.lines, bx.lines), "draw3d of a compound does not draw its parts")
                    odd = any(isinstance(q, B.Lens) and not all(isinstance(it, B.Interface) for it in q.items) for q in [o] + S.nodes(o))
                    for tn, T in types.items():
                        if odd and tn in ("Lens", "lens+"):
                            continue                                   # a lens is two interfaces
                        ax = Rec()
                        if T is None:
                            o.draw2d(ax)
                        else:
                            o.draw2d(ax, only=T)
                        sel = T if T is None else (tuple(T) if isinstance(T, (list, tuple)) else (T,))
                        bx = Rec()
                        fills = expect2d(B, o, sel, bx)
                        c.true(f"{key}#only-{tn}", same(ax.lines, bx.lines), "draw2d does not draw exactly the parts of the requested types", got=len(ax.lines), want=len(bx.lines))
                        c.true(f"{key}#fill-{tn}", len(ax.fills) == len(fills) and all(poly(a, b) for a, b in zip(ax.fills, fills)), "lens cross-section", got=len(ax.fills), want=len(fills))
                        c.trans()
                    c.true(key + "#pure", S.snapshot(o) == s0, "drawing modified the optic")
                    c.state(key)
                    c.trace()


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


def poly(a, b):
    """same closed cross-section: same set of corners, same area"""
    def area(q):
        return abs(np.sum(q[0] * np.roll(q[1], -1) - q[1] * np.roll(q[0], -1)) / 2)
    A = {tuple(np.round(v, 12)) for v in a.T}
    Bq = {tuple(np.round(v, 12)) for v in b.T}
    return A == Bq and abs(area(a) - area(b)) < 1e-12


def expect2d(B, o, sel, ax):
    fills = []
    if isinstance(o, B.Lens) and sel is not None and B.Lens in sel:
        s1, s2 = (it.getXZSlice() if isinstance(it, B.Interface) else None for it in o.items)
        for p, q in zip(s1, s2):
            fills.append(np.hstack([p, q[:, ::-1]]))
        return fills
    for it in o.items:
        if hasattr(it, "items"):
            fills += expect2d(B, it, sel, ax)
        elif sel is None or isinstance(it, sel):
            it.draw2d(ax)
    return fills


def gpos(rv):
    return np.asarray(rv.coordSys.origin)[:, None] + np.asarray(rv.coordSys.rot) @ np.stack([rv.x, rv.y, rv.z])


def tracks(c, B, quick):
    F = frames(B)
    for kinds in ("R", "RM", "RRD", "RMR", "BRRD", "MBM") + (() if quick else ("RRRR", "OIRR", "RMRD", "BRMRD")):
        lv = S.chain(B, kinds)
        o = B.CompoundOptic(lv, name="T")
        n = len(kinds)
        modes = [("fwd", {}), ("rev", dict(reverse=True))]
        if kinds in ("RMR", "RM"):
            modes.append(("path", dict(path=["s0", "s1", "s0"])))
        for (mn, kw), nr, (an, (acs, afr)) in itertools.product(modes, (0, 1, 9, 16), F.items()):
            rv = S.rays(B, nr).toCoordSys(acs)
            key = f"tracks:{kinds}:{mn}:{nr}:{an}"
            with c.case(key):
                tf = o.traceFull(rv, **kw)
                names = list(tf)
                snaps = {k: (alpha.snap(v["in"]), alpha.snap(v["out"])) for k, v in tf.items()}
                for (i, a), (j, b) in itertools.product(list(enumerate(names)) + [(0, None)], list(enumerate(names)) + [(len(names) - 1, None)]):
                    k2 = f"{key}#{a}-{b}"
                    if i > j:
                        try:
                            B.optic.getGlobalRays(tf, a, b)
                            c.fail(k2, "a track that ends before it starts was accepted")
                        except ValueError:
                            pass
                        c.trans()
                        continue
                    for gn, (gcs, gfr) in F.items():
                        xyz, ln = B.optic.getGlobalRays(tf, a, b, gcs) if gn != "id" else B.optic.getGlobalRays(tf, a, b)
                        c.trans()
                        V = [tf[names[i]]["in"]] + [tf[q]["out"] for q in names[i:j + 1]]
                        W = np.stack([gfr.R.T @ (gpos(q) - gfr.o[:, None]) for q in V], -1) if nr else np.zeros((3, 0, len(V)))
                        W = np.moveaxis(W, 1, 0)
                        L = 1 + np.sum([~q.vignetted for q in V[1:]], axis=0)
                        c.true(f"{k2}:{gn}#shape", xyz.shape == W.shape and np.shape(ln) == (nr,), "shape of the tracks", got=xyz.shape, want=W.shape)
                        if xyz.shape == W.shape:
                            c.close(f"{k2}:{gn}", xyz, W, atol=1e-9, rtol=1e-10, msg="a track vertex is not where the ray was traced to, in the requested frame")
                            c.close(f"{k2}:{gn}#len", ln, L, msg="number of visible vertices")
                        if nr in (1, 9) and an in ("id", "mix"):
                            kws = {} if gn == "id" else dict(globalSys=gcs)
                            for plotly in (False, True):
                                ax = Rec()
                                B.optic.drawTrace3d(ax, tf, a, b, plotly=plotly, c="r", **kws)
                                want = [W[q][:, :L[q]] for q in range(nr)]
                                c.true(f"{k2}:{gn}#3d{plotly}", len(ax.lines) == nr and all(p.shape == q.shape and np.allclose(p, q, atol=1e-9, equal_nan=True) for p, q in zip(ax.lines, want))
                                       and all(q == {"c": "r"} for q in ax.kw), "drawTrace3d does not draw the visible vertices")
                            ax = Rec2()
                            B.optic.drawTrace2d(ax, tf, a, b, c="r", **kws)
                            c.true(f"{k2}:{gn}#2d", len(ax.lines) == nr and all(p.shape == q[::2].shape and np.allclose(p, q[::2], atol=1e-9, equal_nan=True) for p, q in zip(ax.lines, want)),
                                   "drawTrace2d does not draw the visible vertices in the (x,z) plane")
                            c.trans(3)
                for bad in ((None, "nosuch"), ("nosuch", None)):
                    try:
                        B.optic.getGlobalRays(tf, *bad)
                        c.fail(f"{key}#{bad}", "an unknown surface name was accepted")
                    except ValueError:
                        pass
                c.true(key + "#pure", all(np.array_equal(p, alpha.snap(v[w]), equal_nan=True) for k, v in tf.items() for p, w in zip(snaps[k], ("in", "out"))),
                       "drawing rays changed the traced history")
                c.state(key)
                c.trace()


class Rec2(Rec):
    def plot(self, *a, **kw):
        for i in range(0, len(a), 2):
            self.lines.append(np.array([np.array(q, float) for q in a[i:i + 2]]))
            self.kw.append(kw)


def shipped(c, B):
    """every point of the mesh of every shipped telescope is on some part's surface, inside that part's radii"""
    import glob
    import os
    for f in sorted(glob.glob(os.path.join(B.datadir, "*", "*.yaml"))):
        try:
            o = B.Optic.fromYaml(f)
        except Exception:
            continue                                                   # loading is C19's business
        if not hasattr(o, "items"):
            continue
        key = f"shipped:{os.path.basename(f)}"
        with c.case(key):
            m = o.get3dmesh()
            m = np.zeros((3, 0)) if m is None else np.array(m)
            i = 0
            for it in S.leaves(o, skip=False):
                w = it.get3dmesh()
                if w is None:
                    continue
                w = np.array(w)
                c.true(f"{key}#{it.name}", np.array_equal(m[:, i:i + w.shape[1]], w, equal_nan=True), "the mesh of a telescope is not its parts' meshes in order")
                i += w.shape[1]
                fr = ref.Frame(it.coordSys.origin, it.coordSys.rot)
                outline(c, B, f"{key}#{it.name}", it, fr, ref.Model(B, it.surface), split(w), it.outRadius, it.inRadius)
            c.true(f"{key}#len", m.shape == (3, i), "extra mesh points")
            c.state(key)
            c.trace()


def run(c, B):
    np.seterr(all='ignore')
    c.method = "product enumeration of parts x apertures x frames, trees x class filters and traced histories x (start, end) x frames, drawn on a recording axis and compared with surface and ray models"
    with contextlib.redirect_stdout(io.StringIO()):                 # getXZSlice prints a warning for rotated parts
        interfaces(c, B, c.quick)
        trees(c, B, c.quick)
        tracks(c, B, c.quick)
        shipped(c, B)
    c.extra["bounds"] = "18 surfaces x 8 apertures x 5 frames; all nestings of 4 parts x 5 undrawable patterns x 9 class filters; histories of <= 3 (5) surfaces x all (start, end) x 5 frames"
