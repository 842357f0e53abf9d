"""C12 - batches are values: breadth-first exploration of all build / copy / slice / join / pickle / mutate histories over a
pool of real RayVectors against a value-semantics model; plus all small indices, slices and masks, and all constructor forms."""
import copy
import itertools
import pickle

import numpy as np

import alpha

FLD = alpha.FIELDS + alpha.FLAGS


def raw(rv):
    return {k: np.array(getattr(rv, k)) for k in FLD}


def mk(B, d, cs):
    """an isolated fresh batch with exactly these rays"""
    return B.RayVector(*(np.array(d[k]) for k in ("x", "y", "z", "vx", "vy", "vz", "t", "wavelength", "flux", "vignetted", "failed")), coordSys=cs)


def start(B, n, seed=0, coordSys=None):
    """assorted rays, with every combination of the two marks"""
    rv = alpha.mixed_rays(B, n, seed=seed, coordSys=coordSys)
    i = np.arange(n) + seed
    d = raw(rv)
    d["vignetted"], d["failed"] = i % 2 == 1, (i // 2) % 2 == 1
    return mk(B, d, rv.coordSys)


class Val:
    """model value: raw arrays + frame"""
    __slots__ = ("d", "o", "R")

    def __init__(self, d, o, R):
        self.d, self.o, self.R = d, np.array(o), np.array(R)

    @classmethod
    def of(cls, rv):
        return cls(raw(rv), rv.coordSys.origin, rv.coordSys.rot)

    def key(self):
        return tuple(self.d[k].tobytes() for k in FLD) + (self.o.tobytes(), self.R.tobytes())


def agree(c, key, rv, v):
    n = len(v.d["x"])
    if len(rv) != n:
        c.fail(key + "#len", f"length {len(rv)} != {n}")
        return False
    ok = True
    for k in FLD:
        g = getattr(rv, k)
        if g.shape != (n,) or g.dtype != (bool if k in alpha.FLAGS else float) or not np.array_equal(g, v.d[k], equal_nan=True):
            c.fail(f"{key}#{k}", f"field {k} is not that of the value the batch should hold", got=g, want=v.d[k])
            ok = False
    if not (np.array_equal(rv.coordSys.origin, v.o) and np.array_equal(rv.coordSys.rot, v.R)):
        c.fail(key + "#frame", "frame is not that of the value the batch should hold")
        ok = False
    return ok


def histories(c, B, depth, width):
    cs1 = B.CoordSys().shiftGlobal([0.5, -1.0, 2.0]).rotateLocal(B.RotX(0.3))
    surf = B.Paraboloid(10.0)
    med = B.ConstMedium(1.4)

    def m_prop(rv):
        rv.propagate(3.25)

    def m_frame(rv):
        rv.toCoordSys(cs1)

    def m_write(rv):
        if len(rv):
            rv.x[0] = 77.0
            rv.vignetted[-1] ^= True
            rv.flux[:] *= 2

    def m_refract(rv):
        surf.refract(rv, B.ConstMedium(1.0), med)

    def m_obsc(rv):
        B.ObscCircle(1.0).obscure(rv)
    muts = {"prop": m_prop, "frame": m_frame, "write": m_write, "refract": m_refract, "obsc": m_obsc}

    def sel(v, s):
        return Val({k: v.d[k][s].copy() for k in FLD}, v.o, v.R)

    prods = {
        "copy": (lambda r: r.copy(), lambda v: v),
        "pickle": (lambda r: pickle.loads(pickle.dumps(r)), lambda v: v),
        "pickle2": (lambda r: pickle.loads(pickle.dumps(r, 2)), lambda v: v),
        "deepcopy": (lambda r: copy.deepcopy(r), lambda v: v),
        "ctor": (lambda r: B.RayVector(r.x, r.y, r.z, r.vx, r.vy, r.vz, r.t, r.wavelength, r.flux, r.vignetted, r.failed, r.coordSys), lambda v: v),
        "all": (lambda r: r[:], lambda v: v),
        "rev": (lambda r: r[::-1], lambda v: sel(v, slice(None, None, -1))),
        "tail": (lambda r: r[1:], lambda v: sel(v, slice(1, None))),
        "last": (lambda r: r[-1] if len(r) else r[-1:], lambda v: sel(v, slice(-1, None))),
        "mask": (lambda r: r[r.vignetted], lambda v: sel(v, v.d["vignetted"])),
    }
    base = start(B, 4)
    level = [("s", [base], [Val.of(base)])]
    seen = set()
    for d in range(depth + 1):
        nxt = []
        for key, pool, vals in level:
            with c.case("hist:" + key):
                good = all([agree(c, f"hist:{key}@{i}", rv, v) for i, (rv, v) in enumerate(zip(pool, vals))])
                for i, j in itertools.product(range(len(pool)), repeat=2):
                    same = vals[i].key() == vals[j].key()
                    nan = any(np.isnan(v).any() for v in list(vals[i].d.values())[:9])
                    if not nan:
                        c.true(f"hist:{key}#eq{i}{j}", (pool[i] == pool[j]) is same or bool(pool[i] == pool[j]) == same, "equality does not mean having the same rays")
                        c.true(f"hist:{key}#ne{i}{j}", bool(pool[i] != pool[j]) != same, "!= is not the negation of ==")
                if d == depth or not good:
                    c.trace()
                    continue

                steps = []
                for i in range(len(pool)):
                    for mn in muts:
                        steps.append((f"{mn}{i}", "mut", i, mn))
                    if len(pool) < width:
                        for pn in prods:
                            steps.append((f"{pn}{i}", "prod", i, pn))
                if len(pool) < width:
                    for i, j in itertools.product(range(len(pool)), repeat=2):
                        steps.append((f"join{i}{j}", "join", i, j))
                nxt += [(key, s) for s in steps]
        # replay every history from scratch so that real aliasing survives (no cloning of the pool)
        new = []
        for key, s in nxt:
            hist = hist_of.get(key, []) + [s]
            kk = key + "." + s[0]
            with c.case("hist:" + kk):
                base = start(B, 4)
                pool, vals = [base], [Val.of(base)]
                for name, kind, i, q in hist:
                    if kind == "mut":
                        iso = mk(B, vals[i].d, B.CoordSys(vals[i].o, vals[i].R))
                        muts[q](iso)
                        muts[q](pool[i])
                        vals[i] = Val.of(iso)
                    elif kind == "prod":
                        pool.append(prods[q][0](pool[i]))
                        vals.append(prods[q][1](vals[i]))
                    else:
                        pool.append(B.concatenateRayVectors([pool[i], pool[q]]))
                        vq = vals[q]
                        if not (np.array_equal(vals[i].o, vq.o) and np.array_equal(vals[i].R, vq.R)):
                            iso = mk(B, vq.d, B.CoordSys(vq.o, vq.R))           # the same rays, expressed where the first batch is
                            vq = Val.of(iso.toCoordSys(B.CoordSys(vals[i].o, vals[i].R)))
                        vals.append(Val({k: np.concatenate([vals[i].d[k], vq.d[k]]) for k in FLD}, vals[i].o, vals[i].R))
                    c.trans()
                # canonical: values and which members share memory (they must not)
                ck = tuple(v.key() for v in vals)
                shares = [(i, j) for i, j in itertools.combinations(range(len(pool)), 2)
                          if any(np.shares_memory(getattr(pool[i], k), getattr(pool[j], k)) for k in FLD)]
                c.true(f"hist:{kk}#share", not shares, "two batches share memory", pairs=shares)
                c.state("h", *[v.d[k] for v in vals for k in FLD])
                if (ck, d) in seen and d >= 2:
                    for i, (rv, v) in enumerate(zip(pool, vals)):
                        agree(c, f"hist:{kk}@{i}", rv, v)
                    c.trace()
                    continue
                seen.add((ck, d))
                hist_of[kk] = hist
                new.append((kk, pool, vals))
        level = new


hist_of = {}


def indexing(c, B, nmax):
    for n in range(0, nmax + 1):
        rv = start(B, n)
        d = raw(rv)
        s0 = alpha.snap(rv)

        def cmp(key, idx, want_idx):
            with c.case(key):
                got = rv[idx]
                agree(c, key, got, Val({k: d[k][want_idx] for k in FLD}, rv.coordSys.origin, rv.coordSys.rot))
                c.true(key + "#type", isinstance(got, B.RayVector), "not a RayVector")
                c.true(key + "#share", not any(np.shares_memory(getattr(got, k), getattr(rv, k)) for k in FLD), "a selection shares memory with its source")
                if len(got):
                    got.x[:] = 1e9
                    got.propagate(5.0)
                    got.failed[:] = True
                c.trans()
                c.trace()
                c.states.add((n, str(idx)))
        for i in range(-n - 2, n + 3):
            for typ in (int, np.int64, np.int32, np.intp):
                key = f"int:{n}:{i}:{typ.__name__}"
                if -n <= i < n:
                    cmp(key, typ(i), np.array([i]))
                else:
                    with c.case(key):
                        try:
                            rv[typ(i)]
                            c.fail(key, "an out-of-range index is accepted")
                        except IndexError:
                            pass
                        c.trans()
        ends = [None] + list(range(-n - 1, n + 2))
        for a, b, st in itertools.product(ends, ends, (None, 1, 2, 3, -1, -2, -3)):
            cmp(f"slice:{n}:{a}:{b}:{st}", slice(a, b, st), slice(a, b, st))
        if n <= 4:
            for m in itertools.product((False, True), repeat=n):
                cmp(f"mask:{n}:{m}", np.array(m, bool), np.array(m, bool))
            for k in (0, 1, 2, 3):
                for ix in itertools.product(range(-n, n), repeat=k):
                    cmp(f"fancy:{n}:{ix}", np.array(ix, int), np.array(ix, int))
                    if k:
                        cmp(f"fancylist:{n}:{ix}", list(ix), np.array(ix, int))
        with c.case(f"iter:{n}"):
            parts = list(rv)
            c.true(f"iter:{n}", len(parts) == n and all(np.array_equal(alpha.snap(p)[0], s0[i], equal_nan=True) for i, p in enumerate(parts)), "iterating does not yield each ray in order")
            if n:
                agree(c, f"rejoin:{n}", B.concatenateRayVectors(parts), Val(d, rv.coordSys.origin, rv.coordSys.rot))
        c.true(f"index:{n}#source", np.array_equal(alpha.snap(rv), s0, equal_nan=True), "selecting from or changing a selection changed the source")


def joins(c, B, quick):
    fs = list(alpha.frames(B).values())
    for lens in itertools.product(range(4), repeat=3 if quick else 4):
        for cs in (fs[0], fs[3]):
            key = f"join:{lens}:{fs.index(cs)}"
            with c.case(key):
                parts = [start(B, n, seed=i, coordSys=cs) for i, n in enumerate(lens)]
                before = [alpha.snap(p) for p in parts]
                for form in (list, tuple):
                    j = B.concatenateRayVectors(form(parts))
                    agree(c, key, j, Val({k: np.concatenate([getattr(p, k) for p in parts]) for k in FLD}, cs.origin, cs.rot))
                    if len(j):
                        j.propagate(9.0)
                        j.flux[:] = -1
                    c.true(key + "#source", all(np.array_equal(alpha.snap(p), b, equal_nan=True) for p, b in zip(parts, before)), "changing a joined batch changed its parts")
                    c.trans()
                c.state("j", lens, fs.index(cs))
                c.trace()


def joinframes(c, B):
    """parts given in different frames: the joined batch holds the same rays, in the first part's frame"""
    fs = list(alpha.frames(B).values())
    for ks, lens in itertools.product(itertools.product(range(len(fs)), repeat=3), ((2, 3, 1), (0, 2, 2), (1, 0, 4))):
        key = f"joinframes:{ks}:{lens}"
        with c.case(key):
            parts = [start(B, n, seed=i, coordSys=fs[k]) for i, (k, n) in enumerate(zip(ks, lens))]
            before = [(alpha.snap(p), np.array(p.coordSys.origin), np.array(p.coordSys.rot)) for p in parts]
            j = B.concatenateRayVectors(parts)
            f0 = fs[ks[0]]
            r, v = [], []
            for p in parts:
                g = p.r @ p.coordSys.rot.T + p.coordSys.origin
                r.append((g - f0.origin) @ f0.rot)
                v.append(p.v @ p.coordSys.rot.T @ f0.rot)
            c.close(key + "#r", j.r, np.concatenate(r), atol=1e-12, rtol=1e-12, msg="joining moved a ray")
            c.close(key + "#v", j.v, np.concatenate(v), atol=1e-13, msg="joining turned a ray")
            for q in ("t", "wavelength", "flux", "vignetted", "failed"):
                c.true(f"{key}#{q}", np.array_equal(getattr(j, q), np.concatenate([getattr(p, q) for p in parts])), f"{q} of a joined batch")
            c.true(key + "#frame", j.coordSys == f0, "a joined batch is not in its first part's frame")
            c.true(key + "#src", all(np.array_equal(alpha.snap(p), s, equal_nan=True) and np.array_equal(p.coordSys.origin, o) and np.array_equal(p.coordSys.rot, R)
                                     for p, (s, o, R) in zip(parts, before)), "joining changed its parts")
            c.trans()
            c.state("jf", ks, lens)
            c.trace()


def ctor(c, B):
    """every constructor argument form"""
    n = 4
    v = {k: np.round(np.linspace(1, 2, n) * (i + 1), 3) for i, k in enumerate(alpha.FIELDS)}
    v["vignetted"] = np.array([True, False, False, True])
    v["failed"] = np.array([False, False, True, True])
    forms = {"array": lambda a: a, "list": lambda a: a.tolist(), "tuple": lambda a: tuple(a.tolist()), "strided": lambda a: np.repeat(a, 2)[::2], "rev": lambda a: a[::-1].copy()[::-1],
             "column": lambda a: np.stack([a, a], 1)[:, 1], "be": lambda a: a.astype(a.dtype.newbyteorder('>')), "ro": lambda a: _ro(a), "object-scalar": lambda a: a[0],
             "pyscalar": lambda a: a[0].item(), "len1": lambda a: a[:1]}
    for k in FLD:
        for fn, f in forms.items():
            for others in ("array", "list"):
                key = f"ctor:{k}:{fn}:{others}"
                with c.case(key):
                    arrs = {q: (f(v[q]) if q == k else forms[others](np.array(v[q]))) for q in FLD}
                    keep = {q: copy.deepcopy(a) for q, a in arrs.items()}
                    rv = B.RayVector(**arrs)
                    want = {q: np.array(np.broadcast_to(np.asarray(arrs[q], bool if q in alpha.FLAGS else float), (n,))) for q in FLD}
                    V = Val({q: want[q].copy() for q in FLD}, np.zeros(3), np.eye(3))
                    agree(c, key, rv, V)
                    rv.propagate(7.0)
                    B.ObscNegation(B.ObscCircle(0.1)).obscure(rv)
                    rv.flux[:] = 0
                    rv.wavelength[:] = 0
                    c.true(key + "#caller", all(np.array_equal(arrs[q], keep[q]) for q in FLD), "changing the batch changed the caller's arrays")
                    rv = B.RayVector(**arrs)
                    for q in FLD:
                        if isinstance(arrs[q], np.ndarray) and arrs[q].flags.writeable and arrs[q].ndim:
                            arrs[q][:] = False if q in alpha.FLAGS else -99
                    agree(c, key + "#alias", rv, V)
                    c.trans(2)
                    c.state(key)
                    c.trace()
    # defaults, integer inputs, float flags
    with c.case("ctor:defaults"):
        rv = B.RayVector(1, 2, 3, 0, 0, -1)
        agree(c, "ctor:defaults", rv, Val({"x": np.array([1.]), "y": np.array([2.]), "z": np.array([3.]), "vx": np.array([0.]), "vy": np.array([0.]), "vz": np.array([-1.]), "t": np.array([0.]),
              "wavelength": np.array([0.]), "flux": np.array([1.]), "vignetted": np.array([False]), "failed": np.array([False])}, np.zeros(3), np.eye(3)))
        rv = B.RayVector(np.arange(3), 2, [1, 2, 3], 0, 0, np.int32(-1), vignetted=[1, 0, 0], failed=0, flux=np.float32(0.5), coordSys=B.CoordSys(origin=[1., 2, 3]))
        agree(c, "ctor:ints", rv, Val({"x": np.arange(3.), "y": np.full(3, 2.), "z": np.array([1., 2, 3]), "vx": np.zeros(3), "vy": np.zeros(3), "vz": -np.ones(3), "t": np.zeros(3),
              "wavelength": np.zeros(3), "flux": np.full(3, .5), "vignetted": np.array([True, False, False]), "failed": np.zeros(3, bool)}, np.array([1., 2, 3]), np.eye(3)))
        c.trans(2)
    for shp in ((0,), (1,), (3,)):
        for k in FLD:
            with c.case(f"ctor:broadcast:{shp}:{k}"):
                arrs = {q: (True if q in alpha.FLAGS else 1.5) for q in FLD}
                arrs[k] = np.full(shp, arrs[k])
                rv = B.RayVector(**arrs)
                agree(c, f"ctor:broadcast:{shp}:{k}", rv, Val({q: np.full(shp, arrs[q] if q != k else (True if q in alpha.FLAGS else 1.5)) for q in FLD}, np.zeros(3), np.eye(3)))
                c.trans()


def _ro(a):
    a = np.array(a)
    a.setflags(write=False)
    return a


def equality(c, B):
    """single-field differences, all ordered pairs"""
    cs = B.CoordSys().shiftGlobal([0, 0, 1e-9])
    base = start(B, 3)
    var = {"base": base, "copy": base.copy(), "short": base[:2], "rev": base[::-1], "frame": mk(B, raw(base), cs), "empty": base[:0], "empty2": start(B, 0)}
    for k in FLD:
        for i in (0, 2):
            d = raw(base)
            d[k][i] = (not d[k][i]) if k in alpha.FLAGS else np.nextafter(d[k][i], 1e9)
            var[f"{k}{i}"] = mk(B, d, base.coordSys)
    vals = {n: Val.of(r) for n, r in var.items()}
    for a, b in itertools.product(var, repeat=2):
        key = f"eq:{a}:{b}"
        with c.case(key):
            same = vals[a].key() == vals[b].key()
            c.true(key, bool(var[a] == var[b]) == same and bool(var[a] != var[b]) == (not same), "equality does not hold exactly between batches with the same rays", same=same)
            c.trans(2)
            c.state(key)
    for o in (None, 1, "x", base.x, [base], B.Plane()):
        with c.case(f"eq:other:{type(o).__name__}"):
            r = base == o if not isinstance(o, np.ndarray) else base.__eq__(o)
            c.true(f"eq:other:{type(o).__name__}", r is False or r is NotImplemented, "a batch equals something that is not a batch")


def run(c, B):
    np.seterr(all='ignore')
    hist_of.clear()
    c.method = "BFS over build/copy/slice/join/pickle/mutate histories on a pool of real batches (each history replayed from scratch so aliasing is real), value-semantics model"
    histories(c, B, 3 if c.quick else 4, 3)
    indexing(c, B, 5 if c.quick else 7)
    joins(c, B, c.quick)
    joinframes(c, B)
    ctor(c, B)
    equality(c, B)
    c.assume("copy.copy (shallow by name) is outside the property")
    c.extra["bounds"] = f"histories of length <= {3 if c.quick else 4} over 5 mutations, 10 producers and joins, pool <= 3; all ints/slices/masks/fancy index pairs for n <= {5 if c.quick else 7}"
