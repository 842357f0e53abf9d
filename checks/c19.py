"""C19 - configurations: a grammar of small configurations (every kind of part, surface, obscuration, medium; every ordered selection of
frame keys; every pattern of stated/unstated media; nestings) and all shipped files, against an independent interpreter."""
import copy
import glob
import itertools
import os
import tempfile

import numpy as np

import ref
import systems as S

Fr = ref.Frame
EXTRA = ("backDist", "sphereRadius", "pupilSize", "pupilObscuration", "R_outer", "R_inner")
AX = dict(rotX=[1, 0, 0], rotY=[0, 1, 0], rotZ=[0, 0, 1])


# ------------------------------------------------------------------ the reference interpreter
def rframe(cfg, f):
    for k, v in cfg.items():
        if k in "xyz":
            f = f.shiftLocal([v if k == a else 0.0 for a in "xyz"])
        elif k == "shift":
            f = f.shiftLocal(list(v))
        elif k in AX:
            f = f.rotateLocal(ref.rot(AX[k], v))
    return f


def rmedium(B, m):
    if isinstance(m, dict):
        a = {k: v for k, v in m.items() if k != "type"}
        return getattr(B, m["type"])(**a)
    return m if m is None or isinstance(m, B.Medium) else B.ConstMedium(m)


def rsurface(B, s):
    a = {k: v for k, v in s.items() if k != "type"}
    if s["type"] == "Sum":
        return B.Sum([rsurface(B, q) for q in a["items"]])
    return getattr(B, s["type"])(**a)


def robsc(B, o):
    t = o["type"]
    a = {k: v for k, v in o.items() if k != "type"}
    if t == "ObscNegation":
        return B.ObscNegation(robsc(B, a["original"]))
    if t in ("ObscUnion", "ObscIntersection"):
        return getattr(B, t)([robsc(B, q) for q in a["items"]])
    if t.startswith("Clear"):
        return B.ObscNegation(robsc(B, dict(a, type="Obsc" + t[5:])))
    return getattr(B, t)(**a)


def rparse(B, cfg, f=None, inM=None, outM=None):
    """dict(cls, name, frame, in, out, surface, screen, obsc, extra, items, stop)"""
    f = f or Fr()
    f = rframe(cfg.get("coordSys", {}), f)
    i = rmedium(B, cfg["inMedium"]) if "inMedium" in cfg else (inM or B.ConstMedium(1.0))
    o = rmedium(B, cfg["outMedium"]) if "outMedium" in cfg else outM
    o = i if o is None else o
    n = dict(cls=cfg["type"], name=cfg.get("name", ""), frame=f, i=i, o=o, extra={k: cfg[k] for k in EXTRA if k in cfg}, items=None, stop=None, surface=None, screen=None, obsc=None)
    if "stopSurface" in cfg:
        n["stop"] = rparse(B, cfg["stopSurface"])
    if cfg["type"] == "Lens":
        m = rmedium(B, cfg["medium"])
        n["items"] = [rparse(B, cfg["items"][0], f, i, m), rparse(B, cfg["items"][1], f, m, o)]
    elif cfg["type"] == "CompoundOptic":
        n["items"] = [rparse(B, q, f, i, o) for q in cfg["items"]]
    else:
        n["surface"] = rsurface(B, cfg["surface"])
        if "obscuration" in cfg:
            n["obsc"] = robsc(B, cfg["obscuration"])
        if "screen" in cfg:
            n["screen"] = rsurface(B, cfg["screen"])
    return n


WL = np.array([4e-7, 5.5e-7, 9e-7])
GX, GY = [q.ravel() for q in np.meshgrid(np.linspace(-1.6, 1.6, 9) + 0.013, np.linspace(-1.5, 1.5, 8) - 0.007)]


def same(c, B, key, o, n, pre=""):
    nm = pre + n["name"]
    c.true(f"{key}#class:{nm}", type(o).__name__ == n["cls"], f"{nm} is a {type(o).__name__}, not a {n['cls']}")
    c.true(f"{key}#name:{nm}", o.name == n["name"], f"{nm} is called {o.name!r}")
    d = max(np.max(np.abs(np.asarray(o.coordSys.origin) - n["frame"].o)), np.max(np.abs(np.asarray(o.coordSys.rot) - n["frame"].R)))
    c.true(f"{key}#frame:{nm}", d < 1e-12, f"{nm} is not in the frame its configuration states (off by {d})", got=[o.coordSys.origin, o.coordSys.rot], want=[n["frame"].o, n["frame"].R])
    for a, w in (("inMedium", n["i"]), ("outMedium", n["o"])):
        g = getattr(o, a)
        c.true(f"{key}#{a}:{nm}", g == w, f"{nm}.{a} is not what the configuration states", got=repr(g)[:200], want=repr(w)[:200])
        c.close(f"{key}#{a}N:{nm}", g.getN(WL), w.getN(WL), atol=0, msg=f"{nm}.{a}: index")
    for k, v in n["extra"].items():
        c.true(f"{key}#extra:{nm}.{k}", getattr(o, k, None) == v, f"{nm}.{k} is not what the configuration states", got=getattr(o, k, None), want=v)
    if n["items"] is None:
        c.true(f"{key}#surface:{nm}", o.surface == n["surface"], f"{nm}: another surface", got=repr(o.surface)[:300], want=repr(n["surface"])[:300])
        c.close(f"{key}#sag:{nm}", o.surface.sag(GX / 20, GY / 20), n["surface"].sag(GX / 20, GY / 20), atol=0, msg=f"{nm}: sag")
        c.true(f"{key}#obsc?:{nm}", (o.obscuration is None) == (n["obsc"] is None), f"{nm}: obscuration appeared or vanished")
        if n["obsc"] is not None and o.obscuration is not None:
            c.true(f"{key}#obsc:{nm}", o.obscuration == n["obsc"], f"{nm}: another obscuration", got=repr(o.obscuration)[:300], want=repr(n["obsc"])[:300])
            c.true(f"{key}#obscset:{nm}", np.array_equal(o.obscuration.contains(GX, GY), n["obsc"].contains(GX, GY)), f"{nm}: the obscuration contains other points")
        if n["screen"] is not None:
            c.true(f"{key}#screen:{nm}", o.screen == n["screen"], f"{nm}: another screen")
    else:
        if c.true(f"{key}#items:{nm}", len(o.items) == len(n["items"]), f"{nm}: {len(o.items)} parts instead of {len(n['items'])}"):
            for a, b in zip(o.items, n["items"]):
                same(c, B, key, a, b, nm + ".")
    c.true(f"{key}#stop?:{nm}", hasattr(o, "stopSurface") == (n["stop"] is not None), f"{nm}: stop surface appeared or vanished")
    if n["stop"] is not None and hasattr(o, "stopSurface"):
        same(c, B, key, o.stopSurface, n["stop"], nm + "<stop>")


def parser(B):
    import batoid.parse
    return batoid.parse.parse_optic


def one(c, B, key, cfg):
    p = parser(B)
    before = copy.deepcopy(cfg)
    o = p(cfg)
    c.true(key + "#cfg", cfg == before and list(map(str, cfg)) == list(map(str, before)), "parsing changed the configuration")
    same(c, B, key, o, rparse(B, before))
    o2 = p(cfg)
    c.true(key + "#again", o == o2 and hash(o) == hash(o2), "parsing the same configuration again gives another optic")
    c.trans(2)
    c.trace()
    c.state(key)
    return o


# ------------------------------------------------------------------ the grammar
def leaf(**k):
    return dict(dict(type="Interface", name="i", surface=dict(type="Plane")), **k)


VAL = dict(x=0.3, y=-0.2, z=1.5, shift=[0.1, -0.4, 0.7], rotX=0.3, rotY=-0.5, rotZ=0.8)


def frames(c, B, quick):
    K = list(VAL)
    seqs = [s for n in range(0, 4 if quick else 6) for s in itertools.permutations(K, n)]
    if quick:
        seqs += [s for s in itertools.permutations(K, 4) if s[0] < s[2]]
    for s in seqs:
        key = "frame:" + ",".join(s)
        with c.case(key):
            one(c, B, key, leaf(coordSys={k: VAL[k] for k in s}))
    # within a parent, and a parent's parent
    for s, t in itertools.product([q for n in range(0, 3) for q in itertools.permutations(K, n)], repeat=2):
        if quick and len(s) + len(t) > 3:
            continue
        key = f"frame2:{','.join(s)}/{','.join(t)}"
        with c.case(key):
            one(c, B, key, dict(type="CompoundOptic", name="p", coordSys={k: VAL[k] for k in s}, items=[leaf(coordSys={k: ([0.2, 0.3, -0.1] if k == "shift" else -0.7 * VAL[k]) for k in t}), leaf(name="j")]))
    for s in itertools.product(K, repeat=3):
        key = f"frame3:{'/'.join(s)}"
        with c.case(key):
            one(c, B, key, dict(type="CompoundOptic", name="p", coordSys={s[0]: VAL[s[0]]}, stopSurface=leaf(name="st", coordSys={s[1]: VAL[s[1]]}), items=[
                dict(type="Lens", name="q", medium=1.5, coordSys={s[1]: VAL[s[1]]}, items=[leaf(coordSys={s[2]: VAL[s[2]]}), leaf(name="j")]), leaf(name="k", coordSys={s[2]: VAL[s[2]]})]))
    c.outcome("frames", len(seqs))


MED = {
    "num": 1.3, "int": 1, "const": dict(type="ConstMedium", n=1.45), "table": dict(type="TableMedium", wavelengths=[3e-7, 5e-7, 1e-6], ns=[1.5, 1.48, 1.44]),
    "sell": dict(type="SellmeierMedium", coefs=[0.6961663, 0.4079426, 0.8974794, 0.0046791, 0.0135121, 97.9340025]),
    "sellB": dict(type="SellmeierMedium", B1=0.6961663, B2=0.4079426, B3=0.8974794, C1=0.0046791, C2=0.0135121, C3=97.9340025),
    "sumita": dict(type="SumitaMedium", A0=2.2377, A1=-0.0098, A2=0.0126, A3=0.0004, A4=-1e-5, A5=1e-6),
    "air": dict(type="Air"), "airp": dict(type="Air", pressure=60.0, temperature=280.0, h2o_pressure=0.5),
}


def media(c, B, quick):
    for m in MED:
        if m == "sell":
            continue
        for where in ("inMedium", "outMedium"):
            key = f"medium:{m}:{where}"
            with c.case(key):
                one(c, B, key, leaf(**{where: copy.deepcopy(MED[m])}))
        key = f"lensmedium:{m}"
        with c.case(key):
            o = one(c, B, key, dict(type="Lens", name="L", medium=copy.deepcopy(MED[m]), items=[leaf(), leaf(name="j")]))
            c.true(key + "#consistent", o.items[0].outMedium == o.items[1].inMedium and o.medium == rmedium(B, MED[m]), "the lens medium is not between its surfaces")
        with c.case(f"medium:{m}:object"):
            one(c, B, f"medium:{m}:object", leaf(inMedium=rmedium(B, MED[m])))
    # stated or not, at every level
    opt = (None, 1.1, 1.7)
    for ti, to, li, lo, a1, b0, ki, ko in itertools.product(opt[:2], (None, 1.2), (None, 1.3), (None, 1.4), (None, 1.5), (None, 1.5), (None, 1.6), (None, 1.7)):
        key = f"inherit:{ti}:{to}:{li}:{lo}:{a1}:{b0}:{ki}:{ko}"
        with c.case(key):
            def st(d, i, o):
                if i is not None:
                    d["inMedium"] = i
                if o is not None:
                    d["outMedium"] = o
                return d
            cfg = st(dict(type="CompoundOptic", name="T", items=[
                st(dict(type="Lens", name="L", medium=1.5, items=[st(leaf(type="RefractiveInterface", name="a"), None, a1), st(leaf(type="RefractiveInterface", name="b"), b0, None)]), li, lo),
                st(dict(type="CompoundOptic", name="C", items=[leaf(type="Mirror", name="m"), st(leaf(type="Baffle", name="n"), ko, None)]), ki, ko),
                st(leaf(type="Detector", name="d"), None, ki)]), ti, to)
            one(c, B, key, cfg)
    c.outcome("media")


SURF = {
    "Plane": dict(type="Plane"), "Tilted": dict(type="Tilted", tanx=0.1, tany=-0.2), "Sphere": dict(type="Sphere", R=-7.5), "Paraboloid": dict(type="Paraboloid", R=9.0), "Quadric": dict(type="Quadric", R=11.0, conic=-0.6),
    "Asphere": dict(type="Asphere", R=10.0, conic=0.2, coefs=[1e-3, -1e-4]), "Asphere1": dict(type="Asphere", R=10.0, conic=0.2, coefs=[1e-3, -1e-4], imin=1),
    "Zernike": dict(type="Zernike", coef=[0, 0, 0.1, -0.2, 0.3], R_outer=2.0), "Zernike2": dict(type="Zernike", coef=[0, 0, 0.1, -0.2, 0.3], R_outer=2.0, R_inner=0.5, x_origin=0.1, y_origin=-0.2),
    "Bicubic": dict(type="Bicubic", xs=[-1.0, -0.5, 0.0, 0.5, 1.0], ys=[-1.0, -0.25, 0.5, 1.25], zs=[[0.1 * i * j for i in range(5)] for j in range(4)]),
}
SURF["Sum"] = dict(type="Sum", items=[SURF["Quadric"], SURF["Zernike"]])
SURF["Sum3"] = dict(type="Sum", items=[SURF["Sphere"], dict(type="Sum", items=[SURF["Tilted"], SURF["Asphere"]]), SURF["Plane"]])
OBS = {
    "Circle": dict(type="ObscCircle", radius=1.1), "Circle2": dict(type="ObscCircle", radius=0.9, x=0.2, y=-0.3), "Annulus": dict(type="ObscAnnulus", inner=0.4, outer=1.2, x=0.1, y=0.2),
    "Rect": dict(type="ObscRectangle", width=0.8, height=1.9, x=0.1, y=-0.2, theta=0.4), "Rect0": dict(type="ObscRectangle", width=0.8, height=1.9), "Ray": dict(type="ObscRay", width=0.3, theta=0.7, x=0.1, y=0.2),
    "Poly": dict(type="ObscPolygon", xs=[-1.0, 1.2, 0.5], ys=[-0.7, -0.5, 1.1]), "CCircle": dict(type="ClearCircle", radius=1.1, x=0.2), "CAnnulus": dict(type="ClearAnnulus", inner=0.4, outer=1.2),
    "CRect": dict(type="ClearRectangle", width=0.8, height=1.9, theta=0.4), "CRay": dict(type="ClearRay", width=0.3, theta=0.7), "CPoly": dict(type="ClearPolygon", xs=[-1.0, 1.2, 0.5], ys=[-0.7, -0.5, 1.1]),
}


def parts(c, B, quick):
    for s in SURF:
        for k in ("Interface", "RefractiveInterface", "Mirror", "Baffle", "Detector", "OPDScreen"):
            key = f"part:{k}:{s}"
            with c.case(key):
                cfg = leaf(type=k, name=f"n-{s}", surface=copy.deepcopy(SURF[s]))
                if k == "OPDScreen":
                    cfg["screen"] = copy.deepcopy(SURF["Zernike"])
                one(c, B, key, cfg)
    for s in SURF:
        with c.case(f"screen:{s}"):
            one(c, B, f"screen:{s}", leaf(type="OPDScreen", screen=copy.deepcopy(SURF[s])))
    names = list(OBS)
    comp = {o: OBS[o] for o in names}
    for o in names:
        comp["neg" + o] = dict(type="ObscNegation", original=OBS[o])
    for a, b in itertools.product(names, repeat=2):
        for t in ("ObscUnion", "ObscIntersection"):
            comp[f"{t}:{a},{b}"] = dict(type=t, items=[OBS[a], OBS[b]])
    comp["deep"] = dict(type="ObscUnion", items=[dict(type="ObscIntersection", items=[OBS["CCircle"], OBS["Rect"]]), dict(type="ObscNegation", original=dict(type="ObscUnion", items=[OBS["Ray"], OBS["CAnnulus"], OBS["Poly"]]))])
    for nm, o in comp.items():
        for k in ("Mirror",) if quick and ":" in nm else ("Interface", "RefractiveInterface", "Mirror", "Baffle", "Detector", "OPDScreen"):
            key = f"obsc:{k}:{nm}"
            with c.case(key):
                cfg = leaf(type=k, obscuration=copy.deepcopy(o))
                if k == "OPDScreen":
                    cfg["screen"] = copy.deepcopy(SURF["Zernike"])
                one(c, B, key, cfg)
    # every attribute, alone and all together, on every kind of part
    vals = dict(backDist=12.5, sphereRadius=3.5, pupilSize=2.0, pupilObscuration=0.25, R_outer=1.25, R_inner=0.125)
    for k in ("Interface", "RefractiveInterface", "Mirror", "Baffle", "Detector", "OPDScreen", "Lens", "CompoundOptic"):
        for sub in [(a,) for a in vals] + [tuple(vals), ()]:
            for stop in (False, True):
                key = f"extra:{k}:{','.join(sub)}:{int(stop)}"
                with c.case(key):
                    cfg = dict({a: vals[a] for a in sub}, type=k, name="E")
                    if k in ("Lens", "CompoundOptic"):
                        cfg.update(items=[leaf(name="a"), leaf(name="b")])
                        if k == "Lens":
                            cfg["medium"] = 1.5
                    else:
                        cfg["surface"] = dict(type="Plane")
                        if k == "OPDScreen":
                            cfg["screen"] = dict(type="Tilted", tanx=0.0, tany=0.1)
                    if stop:
                        cfg["stopSurface"] = leaf(type="Interface", name="st", surface=SURF["Sphere"], coordSys=dict(z=0.4, rotX=0.1))
                    one(c, B, key, cfg)
    # missing name
    with c.case("noname"):
        cfg = leaf()
        del cfg["name"]
        one(c, B, "noname", cfg)
    for nm, bad in (("part", leaf(type="Nosuch")), ("obsc", leaf(obscuration=dict(type="Nosuch")))):
        with c.case("unknown:" + nm):
            try:
                parser(B)(bad)
                c.fail("unknown:" + nm, "an unknown type is accepted")
            except (ValueError, AttributeError, NameError):
                c.outcome("refused")
    # one dictionary used in several places (a YAML alias)
    with c.case("alias"):
        m, s, ob, cs = dict(type="ConstMedium", n=1.5), dict(type="Sphere", R=4.0), dict(type="ClearCircle", radius=1.0), dict(z=0.5, rotX=0.1)
        one(c, B, "alias", dict(type="CompoundOptic", name="T", inMedium=m, coordSys=cs, items=[leaf(name="a", surface=s, obscuration=ob, coordSys=cs, outMedium=m), leaf(name="b", surface=s, obscuration=ob, coordSys=cs, inMedium=m),
                                                                                               dict(type="Lens", name="L", medium=m, items=[leaf(name="c", surface=s, obscuration=ob), leaf(name="d", surface=s, obscuration=ob)])]))
    c.outcome("parts", len(SURF) * 7 + len(comp))


def nestings(c, B, quick):
    kinds = ["RefractiveInterface", "Mirror", "Baffle", "Detector"]
    for n in (2, 3) if quick else (2, 3, 4):
        for shape in S.shapes(n):
            key = f"nest:{n}:{shape}"
            with c.case(key):
                cnt = [0]

                def mk(s, depth):
                    cnt[0] += 1
                    k = cnt[0]
                    if isinstance(s, tuple):
                        d = dict(type="CompoundOptic", name=f"g{k}", coordSys={"z": 0.1 * k, "rotX": 0.05 * k}, items=[mk(q, depth + 1) for q in s])
                        if k % 2:
                            d["inMedium"] = 1 + 0.1 * k
                        return d
                    return leaf(type=kinds[s % 4], name=f"i{s}", surface=copy.deepcopy(SURF[("Sphere", "Plane", "Quadric", "Asphere")[s % 4]]), coordSys={"rotY": 0.1 * k, "x": 0.2}, obscuration=copy.deepcopy(OBS["Circle"]))
                cfg = mk(shape, 0)
                o = one(c, B, key, cfg)
                # the same through a file, from another directory, by path and twice
                with tempfile.TemporaryDirectory() as d:
                    import yaml
                    f = os.path.join(d, "t.yaml")
                    with open(f, "w") as h:
                        yaml.safe_dump(dict(opticalSystem=cfg), h, sort_keys=False)
                    a, b = B.Optic.fromYaml(f), B.Optic.fromYaml(f)
                    c.true(key + "#file", a == o and b == o, "loading the file differs from parsing the configuration")
                    c.trans(2)


def shipped(c, B, quick):
    import yaml
    files = sorted(glob.glob(os.path.join(B.datadir, "**", "*.yaml"), recursive=True))
    c.true("shipped#some", len(files) >= 38, "shipped telescope files are missing", n=len(files))
    base = [os.path.basename(f) for f in files]
    cwd = os.getcwd()
    for f in files:
        nm = os.path.basename(f)
        key = "shipped:" + nm
        with c.case(key):
            cfg = yaml.safe_load(open(f))
            if "opticalSystem" not in cfg:
                continue
            o = B.Optic.fromYaml(f)
            same(c, B, key, o, rparse(B, cfg["opticalSystem"]))
            o2 = B.Optic.fromYaml(f)
            c.true(key + "#again", o == o2 and hash(o) == hash(o2) and repr(o) == repr(o2), "loading again gives another optic")
            if base.count(nm) == 1:
                with tempfile.TemporaryDirectory() as d:
                    os.chdir(d)
                    try:
                        o3 = B.Optic.fromYaml(nm)
                    finally:
                        os.chdir(cwd)
                c.true(key + "#byname", o == o3, "loading by name gives another optic")
            L = S.leaves(o)
            c.true(key + "#unique", len({id(l) for l in L}) == len(L), "parts are shared")
            for a, b in zip(L, L[1:]):
                c.true(f"{key}#between:{a.name},{b.name}", a.outMedium == b.inMedium, f"{a.name} and {b.name} disagree about the medium between them", a=repr(a.outMedium)[:200], b=repr(b.inMedium)[:200])
            c.true(key + "#ends", o.inMedium == L[0].inMedium, "the system and its first part disagree about the incoming medium")
            c.trans(3)
            c.trace()
            c.state(key)
            c.outcome("shipped")
    with c.case("nofile"):
        try:
            B.Optic.fromYaml("no-such-telescope.yaml")
            c.fail("nofile", "a file that does not exist loads")
        except FileNotFoundError:
            c.outcome("refused")


def run(c, B):
    np.seterr(all='ignore')
    c.method = "exhaustive enumeration of configurations of a grammar and of all shipped files against an independent interpreter of configurations"
    frames(c, B, c.quick)
    media(c, B, c.quick)
    parts(c, B, c.quick)
    nestings(c, B, c.quick)
    shipped(c, B, c.quick)
    c.assume("stop surfaces are described relative to the global frame; skip marks, and obscurations of compounds, are not part of the configuration language")
    c.assume("individual surfaces, media and obscurations behave as judged by C06, C10, C11")
    c.extra["bounds"] = "all ordered selections of <= 3 (half of the 4-) frame keys, two and three nested frames; all 256 patterns of stated media over 3 levels; every part x surface, obscuration pairs, attributes; 38+ shipped files"
