"""C15 - derivations: every sequence of derivations up to a depth, from trees of named parts, against a reference tree of
frames/surfaces/attributes moved by first-principles rigid motions; lookup by every full, partial, ambiguous and unknown name."""
import itertools
import re

import numpy as np

import alpha
import ref
import systems as S

Fr = ref.Frame
SKIP = object()
TOL = 1e-11


class N:
    """reference node: class, frame, constructor arguments (everything but items/frame), children, stop surface"""
    __slots__ = ("cls", "fr", "kw", "surface", "items", "stop")

    def __init__(self, cls, fr, kw, surface=None, items=None, stop=None):
        self.cls, self.fr, self.kw, self.surface, self.items, self.stop = cls, fr, kw, surface, items, stop

    @property
    def name(self):
        return self.kw["name"]

    def with_(self, **ch):
        a = {k: getattr(self, k) for k in self.__slots__}
        a.update(ch)
        return N(**a)

    def moved(self, f):
        """rigid motion f: Frame -> Frame of the whole subtree, stop surface included"""
        return self.with_(fr=f(self.fr), items=None if self.items is None else tuple(i.moved(f) for i in self.items), stop=self.stop and self.stop.moved(f))


def nodes(n, pre=""):
    """[(full name, node)]"""
    full = pre + n.name
    out = [(full, n)]
    for i in n.items or ():
        out += nodes(i, full + ".")
    return out


def replace(n, full, f):
    """apply f to the node called full below (or at) n"""
    if full == n.name:
        return f(n)
    rest = full[len(n.name) + 1:]
    return n.with_(items=tuple(replace(i, rest, f) if rest == i.name or (rest.startswith(i.name + ".") and i.items) else i for i in n.items))


def resolve(n, name):
    fulls = [f for f, _ in nodes(n)]
    if name in fulls:
        return name
    hits = [f for f in fulls if f.endswith("." + name)]
    return hits[0] if len(hits) == 1 else None


def mk(B, n):
    """build the optic with constructors only"""
    kw = dict(n.kw, coordSys=B.CoordSys(n.fr.o, n.fr.R))
    if n.stop is not None:
        kw["stopSurface"] = mk(B, n.stop)
    if n.items is not None:
        return getattr(B, n.cls)([mk(B, i) for i in n.items], **kw)
    if n.cls == "OPDScreen":
        scr = kw.pop("screen")
        return B.OPDScreen(n.surface, scr, **kw)
    return getattr(B, n.cls)(n.surface, **kw)


PX, PY = np.array([0.0, 0.3, -0.7]), np.array([0.0, -0.4, 0.2])


def same(c, B, key, o, n, pre=""):
    nm = pre + n.name
    ok = c.true(f"{key}#class:{nm}", type(o).__name__ == n.cls, f"{nm}: class {type(o).__name__} instead of {n.cls}")
    d = max(np.max(np.abs(np.asarray(o.coordSys.origin) - n.fr.o)), np.max(np.abs(np.asarray(o.coordSys.rot) - n.fr.R)))
    c.true(f"{key}#frame:{nm}", d < TOL, f"{nm} is not where the derivation puts it (off by {d})", got=[o.coordSys.origin, o.coordSys.rot], want=[n.fr.o, n.fr.R])
    for k, v in n.kw.items():
        if not hasattr(o, k):
            c.fail(f"{key}#attr:{nm}.{k}", f"{nm} lost its attribute {k}")
            continue
        g = getattr(o, k)
        c.true(f"{key}#attr:{nm}.{k}", g is v or g == v, f"{nm}.{k} changed", got=repr(g)[:300], want=repr(v)[:300])
    if n.items is None:
        c.true(f"{key}#surface:{nm}", o.surface == n.surface, f"{nm} has another surface", got=repr(o.surface)[:300], want=repr(n.surface)[:300])
    else:
        if not c.true(f"{key}#items:{nm}", [i.name for i in o.items] == [i.name for i in n.items], f"{nm} has other items", got=[i.name for i in o.items], want=[i.name for i in n.items]):
            return
        for i, j in zip(o.items, n.items):
            same(c, B, key, i, j, nm + ".")
    c.true(f"{key}#stop?:{nm}", hasattr(o, "stopSurface") == (n.stop is not None), f"{nm}: stop surface appeared or vanished")
    if n.stop is not None and hasattr(o, "stopSurface"):
        same(c, B, key, o.stopSurface, n.stop, nm + "<stop>")
    return ok


def attempts(f):
    try:
        return f()
    except Exception as e:       # noqa: the kind of error is not part of the property
        return e


def lookup(c, B, key, o, n):
    """every suffix of every full name"""
    def walk(o, pre=""):
        full = pre + o.name
        yield full, o
        for i in getattr(o, "items", ()):
            yield from walk(i, full + ".")
    real = dict(walk(o))
    names = set()
    for f in real:
        t = f.split(".")
        names |= {".".join(t[i:]) for i in range(len(t))}
    for nm in sorted(names) + ["nosuch", o.name + ".nosuch", ""]:
        if nm in [i.name for i in [n]] and nm not in real:
            continue
        full = resolve(n, nm)
        r = attempts(lambda: o[nm])
        if full is None:
            c.true(f"{key}#lookup:{nm}", isinstance(r, Exception), f"looking up {nm!r}, which names no single part, returns something", got=repr(r)[:200])
        else:
            c.true(f"{key}#lookup:{nm}", r is real[full], f"looking up {nm!r} does not find {full}", got=repr(r)[:200])
        c.outcome("ambiguous or unknown" if full is None else "found")
    c.trans(len(names))
    c.true(f"{key}#itemDict", list(sorted(o.itemDict)) == sorted(real) and all(o.itemDict[k] is v for k, v in real.items()), "itemDict differs from the tree of items")


# ------------------------------------------------------------------ the trees
def fr(i):
    f = Fr().shiftGlobal([0.05 * i, -0.04 * i, -0.5 * i])
    return f.rotateLocal(ref.rot([1, 0, 0], 0.1 * i)).rotateLocal(ref.rot([0, 1, 0], -0.07 * i))


def leafn(B, cls, name, i, **kw):
    med = [B.ConstMedium(1.0), B.ConstMedium(1.5)]
    surf = [B.Quadric(8.0 + i, -0.6), B.Sphere(-9.0 - i), B.Paraboloid(11.0 + i), B.Asphere(9.0, 0.1, [1e-3]), B.Plane()][i % 5]
    k = dict(name=name, inMedium=med[0], outMedium=med[0], obscuration=[None, B.ObscCircle(0.1, 0.2, 0.1), B.ObscNegation(B.ObscCircle(2.0 + i))][i % 3],
             skip=False, note=f"note-{name}")
    if cls in ("RefractiveInterface", "Mirror", "Baffle", "Detector"):
        k["forwardCoating"] = B.SimpleCoating(0.02 + 0.01 * i, 0.9)
        k["reverseCoating"] = B.SimpleCoating(0.03 + 0.01 * i, 0.8)
    if cls == "OPDScreen":
        k["screen"] = B.Zernike([0, 0, 0.01, -0.02], R_outer=3.0)
    k.update(kw)
    return N(cls, fr(i), k, surface=surf)


def tree_main(B):
    v, g = B.ConstMedium(1.0), B.ConstMedium(1.5)
    lens = N("Lens", fr(2), dict(name="g", inMedium=v, outMedium=v, skip=False, medium=g, note="lens"), items=(
        leafn(B, "RefractiveInterface", "b", 2, inMedium=v, outMedium=g),
        leafn(B, "RefractiveInterface", "c", 3, inMedium=g, outMedium=v)))
    inner = N("CompoundOptic", fr(4), dict(name="h", inMedium=v, outMedium=v, skip=False, R_outer=1.5, note=[1, 2]), items=(
        leafn(B, "OPDScreen", "e", 4), leafn(B, "Baffle", "k", 5, skip=True)), stop=leafn(B, "Interface", "hs", 7))
    return N("CompoundOptic", fr(1), dict(name="T", inMedium=v, outMedium=v, skip=False, pupilSize=2.0, pupilObscuration=0.3, backDist=3.0, sphereRadius=5.0,
                                          R_outer=2.5, R_inner=0.5, note={"free": "form"}),
             items=(leafn(B, "RefractiveInterface", "a", 1, R_outer=0.7, sphereRadius=4.0), lens, leafn(B, "Mirror", "d", 6), inner, leafn(B, "Detector", "f", 3)),
             stop=leafn(B, "Interface", "stop", 0))


def tree_names(B):
    """names that are prefixes of one another, repeated in different places, and repeated from the top"""
    v = B.ConstMedium(1.0)

    def L(nm, i):
        return leafn(B, "Interface", nm, i)

    def C(nm, i, *its):
        return N("CompoundOptic", fr(i), dict(name=nm, inMedium=v, outMedium=v, skip=False, note=nm), items=tuple(its))
    return C("T", 0, L("a", 1), L("ab", 2), C("g", 3, L("a", 4), C("gg", 5, L("ab", 6), L("x", 7))), C("T", 8, L("x", 9), L("y", 10)), C("gg", 2, L("x", 3), L("a.b", 1)))


# ------------------------------------------------------------------ the operations
R1 = ref.rot([1, 0, 0], 0.3) @ ref.rot([0, 0, 1], 0.5)
R2 = ref.rot([0, 1, 0], -0.4)
V1, V2 = [0.1, -0.2, 0.3], [-0.05, 0.4, 0.02]
CEN = [0.3, 0.7, -0.2]


def ops(B, n, names, level):
    """[(label, function on the optic, function on the model)] ; level 2: everything, 1: one of each kind, 0: a handful"""
    csF = Fr().shiftGlobal([0.2, -0.5, 1.0]).rotateLocal(ref.rot([1, 0, 0], 0.6))
    cs = B.CoordSys(csF.o, csF.R)
    out = [
        ("gshift", lambda o: o.withGlobalShift(V1), lambda m: m.moved(lambda f: f.shiftGlobal(V1))),
        ("lshift", lambda o: o.withLocalShift(np.array(V2)), lambda m: m.moved(lambda f: f.shiftGlobal(m.fr.vec(V2)))),
        ("grot", lambda o: o.withGlobalRotation(R1), lambda m: m.moved(lambda f: f.rotateAbout(R1, np.zeros(3)))),
        ("grotc", lambda o: o.withGlobalRotation(R2, CEN), lambda m: m.moved(lambda f: f.rotateAbout(R2, np.array(CEN)))),
        ("grotcs", lambda o: o.withGlobalRotation(R2, rotCenter=CEN, coordSys=cs), lambda m: m.moved(lambda f: f.rotateAbout(R2, csF.point(CEN)))),
        ("lrot", lambda o: o.withLocalRotation(R1), lambda m: m.moved(lambda f: f.rotateAbout(m.fr.R @ R1 @ m.fr.R.T, m.fr.o))),
        ("lrotc", lambda o: o.withLocalRotation(R2, CEN), lambda m: m.moved(lambda f: f.rotateAbout(m.fr.R @ R2 @ m.fr.R.T, m.fr.point(CEN)))),
        ("lrotcs", lambda o: o.withLocalRotation(R2, rotCenter=CEN, coordSys=cs), lambda m: m.moved(lambda f: f.rotateAbout(m.fr.R @ R2 @ m.fr.R.T, csF.point(CEN)))),
    ]
    if level == 1:
        out = [out[i] for i in (0, 1, 4, 6)]
    if level == 0:
        out = [out[i] for i in (1, 7)]

    def at(nm, f):
        def g(m):
            full = resolve(m, nm)
            return None if full is None else replace(m, full, f)
        return g
    new = B.Quadric(17.0, -1.2)
    pert = B.Zernike([0, 0, 0.001, -0.002, 0.003], R_outer=2.0)
    for i, nm in enumerate(names):
        rot, cen, v = (R1, R2)[i % 2], CEN, (V1, V2)[i % 2]

        def lr(c_, fcs=None, rot=rot):
            def f(x):
                return x.moved(lambda q: q.rotateAbout(x.fr.R @ rot @ x.fr.R.T, (fcs or x.fr).point(c_)))
            return f
        per = [
            (f"gshift:{nm}", lambda o, nm=nm, v=v: o.withGloballyShiftedOptic(nm, v), at(nm, lambda x, v=v: x.moved(lambda q: q.shiftGlobal(v)))),
            (f"lshift:{nm}", lambda o, nm=nm, v=v: o.withLocallyShiftedOptic(nm, v), at(nm, lambda x, v=v: x.moved(lambda q: q.shiftGlobal(x.fr.vec(v))))),
            (f"lrot:{nm}", lambda o, nm=nm, rot=rot: o.withLocallyRotatedOptic(nm, rot), at(nm, lr([0, 0, 0]))),
            (f"lrotc:{nm}", lambda o, nm=nm, rot=rot: o.withLocallyRotatedOptic(nm, rot, cen), at(nm, lr(cen))),
            (f"lrotcs:{nm}", lambda o, nm=nm, rot=rot: o.withLocallyRotatedOptic(nm, rot, rotCenter=cen, coordSys=cs), at(nm, lr(cen, csF))),
        ]
        if level == 1:
            per = per[i % 2:3 + i % 2:2]
        if level == 0:
            per = [per[(i * 3) % 5]]
        out += per
        full = resolve(n, nm)
        if full is not None and dict(nodes(n))[full].items is None:
            sf = [(f"surface:{nm}", lambda o, nm=nm: o.withSurface(nm, new), at(nm, lambda x: x.with_(surface=new))),
                  (f"perturb:{nm}", lambda o, nm=nm: o.withPerturbedSurface(nm, pert), at(nm, lambda x: x.with_(surface=x.surface + pert)))]
            out += sf if level == 2 else [sf[i % 2]]
        if full is None:
            out += [(f"surface:{nm}", lambda o, nm=nm: o.withSurface(nm, new), lambda m: None), (f"perturb:{nm}", lambda o, nm=nm: o.withPerturbedSurface(nm, pert), lambda m: None),
                    (f"insert:{nm}", lambda o, nm=nm: o.withInsertedOptic(nm, mk(B, leafn(B, "Mirror", "zz", 2))), lambda m: None), (f"remove:{nm}", lambda o, nm=nm: o.withRemovedOptic(nm), lambda m: None)]
        elif full.count(".") == 1:
            extra = leafn(B, "Mirror", f"new{i}", 2)

            def ins(m, nm=nm, extra=extra):
                f = resolve(m, nm)
                if f is None or f.count(".") != 1:
                    return None
                if extra.name in [q.name for q in m.items]:
                    return SKIP
                k = [m.name + "." + q.name for q in m.items].index(f)
                return m.with_(items=m.items[:k] + (extra,) + m.items[k:])

            def rem(m, nm=nm):
                f = resolve(m, nm)
                if f is None or f.count(".") != 1:
                    return None
                return m.with_(items=tuple(q for q in m.items if m.name + "." + q.name != f))
            if level > 0 or i % 2 == 0:
                out.append((f"insert:{nm}", lambda o, nm=nm, extra=extra: o.withInsertedOptic(nm, mk(B, extra)), ins))
            if level > 0 or i % 2 == 1:
                out.append((f"remove:{nm}", lambda o, nm=nm: o.withRemovedOptic(nm), rem))
    return out


def mkey(n):
    return repr((n.cls, n.name, np.round(n.fr.o, 9).tolist(), np.round(n.fr.R, 9).tolist(), repr(n.surface), None if n.items is None else [mkey(i) for i in n.items]))


def explore(c, B, tag, root, alphabet, depth, trace_depth, look_depth):
    o0 = mk(B, root)
    if alphabet and look_depth >= 0:
        lookup(c, B, f"{tag}:", o0, root)
    rv = S.rays(B, 7)

    def go(o, m, d, path):
        before = repr(o)
        for label, fo, fm in alphabet:
            key = f"{tag}:{'/'.join(path + [label])}"
            with c.case(key):
                want = fm(m)
                if want is SKIP:
                    continue
                got = attempts(lambda: fo(o))
                c.trans()
                if want is None:
                    c.true(key + "#noname", isinstance(got, Exception), "a derivation naming no single part returns an optic")
                    c.outcome("refused")
                    continue
                if isinstance(got, Exception):
                    raise got
                same(c, B, key, got, want)
                c.states.add(hash(mkey(want)))
                c.outcome("derived")
                if d + 1 <= look_depth:
                    lookup(c, B, key, got, want)
                if d + 1 <= trace_depth:
                    fresh = mk(B, want)
                    a, b = got.trace(rv.copy()), fresh.trace(rv.copy())
                    c.close(key + "#trace", alpha.snap(a), alpha.snap(b), atol=1e-9, rtol=1e-9, msg="the derived system traces differently from the same system built directly")
                    if not any(w in label for w in ("shift", "rot")) and d == 0:
                        c.true(key + "#eq", got == fresh, "a derived optic does not equal the same optic built directly")
                if d + 1 == depth:
                    c.trace()
                else:
                    go(got, want, d + 1, path + [label])
        same(c, B, f"{tag}:{'/'.join(path)}#original", o, m)
        c.true(f"{tag}:{'/'.join(path)}#original#repr", repr(o) == before, "deriving a new optic changed the original")
    go(o0, root, 0, [])


def singles(c, B):
    """derivations of a lone interface of every kind"""
    for i, cls in enumerate(("Interface", "RefractiveInterface", "Mirror", "Detector", "Baffle", "OPDScreen")):
        root = leafn(B, cls, "a", i + 1, sphereRadius=2.0, pupilSize=1.0).with_(stop=leafn(B, "Interface", "s", 6))
        new, pert = B.Quadric(17.0, -1.2), B.Zernike([0, 0, 0.001], R_outer=2.0)
        al = ops(B, root, [], 2) + [("surface", lambda o: o.withSurface(new), lambda m: m.with_(surface=new)),
                                    ("perturb", lambda o: o.withPerturbedSurface(pert), lambda m: m.with_(surface=m.surface + pert))]
        explore(c, B, "single:" + cls, root, al, 2, 2, -1)


def nested(c, B):
    """insertion and removal below the first level"""
    root = tree_main(B)
    extra = leafn(B, "Mirror", "new", 2)
    for act in ("insert", "remove"):
        for nm in ("T.h.e", "h.k", "e"):
            o = mk(B, root)
            full = resolve(root, nm)

            def f(x):
                k = [q.name for q in x.items].index(full.split(".")[-1])
                return x.with_(items=x.items[:k] + ((extra,) + x.items[k:] if act == "insert" else x.items[k + 1:]))
            want = replace(root, full.rsplit(".", 1)[0], f)
            with c.case(f"nested:{act}:{nm}"):
                got = attempts(lambda: o.withInsertedOptic(nm, mk(B, extra)) if act == "insert" else o.withRemovedOptic(nm))
                c.trans()
                if not isinstance(got, Exception) and got == o:
                    c.fail("nested-name-insert-remove-ignored", f"{act} with the nested name {nm!r} returns an unchanged optic")
                elif isinstance(got, Exception):
                    raise got
                else:
                    same(c, B, f"nested:{act}:{nm}", got, want)
                same(c, B, f"nested:{act}:{nm}#original", o, root)


def shipped(c, B):
    """one derivation of every kind of every part of a real telescope"""
    def model(o):
        kw = {k: v for k, v in vars(o).items() if k in ("name", "inMedium", "outMedium", "skip", "obscuration", "forwardCoating", "reverseCoating", "screen", "medium",
                                                         "pupilSize", "pupilObscuration", "backDist", "sphereRadius")}
        items = tuple(model(i) for i in o.items) if hasattr(o, "items") else None
        return N(type(o).__name__, Fr(o.coordSys.origin, o.coordSys.rot), kw, surface=getattr(o, "surface", None), items=items, stop=model(o.stopSurface) if hasattr(o, "stopSurface") else None)
    for f in ("LSST_r.yaml", "HSC.yaml") if c.quick else ("LSST_r.yaml", "HSC.yaml", "DECam.yaml", "ComCam_r.yaml"):
        path = [p for p in __import__("glob").glob(B.datadir + "/**/" + f, recursive=True)]
        if not path:
            continue
        o = B.Optic.fromYaml(path[0])
        root = model(o)
        names = [full for full, _ in nodes(root)]
        names += [nm for nm in {full.split(".")[-1] for full in names} if resolve(root, nm)]
        al = ops(B, root, names, 2)
        before = repr(o)
        lookup(c, B, f"{f}:", o, root)
        for label, fo, fm in al:
            key = f"{f}:{label}"
            with c.case(key):
                if label.startswith(("insert", "remove")) and root.cls == "Lens":
                    continue
                want = fm(root)
                got = fo(o)
                same(c, B, key, got, want)
                c.trans()
                c.trace()
                c.states.add(hash(f + label))
        c.true(f"{f}#original", repr(o) == before, "deriving a new optic changed the original")


def run(c, B):
    np.seterr(all='ignore')
    c.method = "explicit-state exploration of all derivation sequences up to a depth on real optics in lockstep with a reference tree"
    main = tree_main(B)
    allnames = ["T", "a", "T.g", "b", "g.c", "d", "h", "T.h.e", "k", "f"]
    explore(c, B, "main2", main, ops(B, main, allnames, 2), 1, 1, 1)
    explore(c, B, "main1", main, ops(B, main, ["T", "a", "g", "c", "h", "e", "f"], 1), 2 if c.quick else 3, 2, 2)
    explore(c, B, "main0", main, ops(B, main, ["a", "g", "b", "h"], 0), 3 if c.quick else 4, 2, 1)
    nm = tree_names(B)
    every = sorted({".".join(f.split(".")[i:]) for f, _ in nodes(nm) for i in range(f.count(".") + 1)})
    explore(c, B, "names", nm, ops(B, nm, every, 2), 1, 0, 1)
    explore(c, B, "names2", nm, ops(B, nm, ["T.a", "T.ab", "T.g.a", "g.gg", "T.T", "T.T.x", "x", "T.gg.x", "T.gg"], 0), 3, 0, 1)
    singles(c, B)
    nested(c, B)
    shipped(c, B)
    c.assume("the kind of exception raised for an unknown or ambiguous name is not part of the property")
    c.assume("two items of one compound never share a name")
    c.extra["bounds"] = "trees of 8-12 parts; all sequences of <= 2 (one of each kind of derivation), <= 3 (reduced alphabet) derivations; every name suffix; every part of two shipped telescopes"
