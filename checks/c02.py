"""C02 - batch compositions and array layouts, differential against one ray / one scalar at a time."""
import itertools

import numpy as np

import alpha
import c01


def kinds(B):
    """alphabet of single rays (in the identity frame)"""
    s = 0.6
    base = dict(x=0.3, y=-0.4, z=5.0, vx=0.02, vy=-0.01, t=0.2, wl=500e-9, fl=1.5, vig=False, fail=False, up=False)
    out = []
    for mod in (dict(), dict(x=0.9, y=0.8, vig=True, wl=700e-9), dict(fail=True, vig=True, x=-1.0), dict(x=np.nan, fail=True, vig=True),
                dict(x=300.0, fl=7.0), dict(vx=0.95, x=-14.0, wl=900e-9), dict(up=True, z=-4.0, t=9.0), dict(vx=np.nan, vy=np.nan, fail=True),
                dict(vx=0.0, vy=0.0, x=0.0, y=0.0, wl=330e-9),
                dict(wl=np.nan, x=0.1), dict(t=np.nan, y=0.2), dict(fl=np.nan, fail=True), dict(z=np.inf), dict(vx=0.999, vy=0.02, z=0.5)):
        d = dict(base, **mod)
        v2 = np.nan_to_num(d["vx"])**2 + np.nan_to_num(d["vy"])**2
        vz = -np.sqrt(1 - v2) * (-1 if d["up"] else 1)
        out.append((d["x"], d["y"], d["z"], d["vx"], d["vy"], vz, d["t"], d["wl"], d["fl"], d["vig"], d["fail"]))
    return out


def make(B, rows):
    if len(rows) == 0:
        z = np.zeros(0)
        return B.RayVector(z, z, z, z, z, z, z, z, z, z.astype(bool), z.astype(bool))
    a = list(zip(*rows))
    return B.RayVector(*[np.array(q) for q in a])


def per_ray(res, n):
    """(n, k) array of all per-ray outputs"""
    cols = []
    for a in res:
        a = np.asarray(a)
        if a.shape == (n, 3):
            cols += [a[:, i] for i in range(3)]
        elif a.shape == (3, n):
            cols += list(a)
        elif a.shape == (n,):
            cols += [a.real, a.imag] if a.dtype.kind == 'c' else [a.astype(float)]
        else:
            raise AssertionError(f"output of shape {a.shape} for a batch of {n} rays")
    return np.stack(cols, 1) if n else np.zeros((0, len(cols)))


def same(a, b):
    return (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-13 * (1 + np.abs(b)))


def layouts(vals):
    """(name, object, values in C order with the object's shape); vals has 12 entries"""
    v = np.array(vals, float)
    yield "array", v.copy(), v
    yield "list", v.tolist(), v
    yield "tuple", tuple(v.tolist()), v
    yield "listnp", list(v), v
    yield "empty", v[:0].copy(), v[:0]
    yield "one", v[:1].copy(), v[:1]
    big = np.full(40, np.nan)
    big[3:27:2] = v
    yield "strided", big[3:27:2], v
    yield "reversed", v[::-1].copy()[::-1], v
    yield "2d", v.reshape(3, 4).copy(), v.reshape(3, 4)
    yield "2dF", np.asfortranarray(v.reshape(3, 4)), v.reshape(3, 4)
    yield "2dT", v.reshape(4, 3).T, v.reshape(4, 3).T
    wide = np.full((6, 9), np.nan)
    wide[1:5, 2:8:2] = v.reshape(4, 3)
    yield "2dview", wide[1:5, 2:8:2], v.reshape(4, 3)
    yield "3d", v.reshape(2, 2, 3).copy(), v.reshape(2, 2, 3)
    yield "3dF", np.asfortranarray(v.reshape(2, 3, 2)), v.reshape(2, 3, 2)
    be = v.astype('>f8')
    yield "bigendian", be, v
    ro = v.copy()
    ro.flags.writeable = False
    yield "readonly", ro, v
    yield "0d", np.array(v[4]), np.array(v[4])
    yield "float", float(v[5]), np.array(v[5])
    yield "npfloat", np.float64(v[6]), np.array(v[6])
    mis = np.zeros(12 * 8 + 1, np.uint8)
    m = mis[1:].view(float)
    m[:] = v
    yield "unaligned", m, v
    f32 = v.astype(np.float32)
    yield "float32", f32, f32.astype(float)


def intlayouts():
    v = np.array([0, 1, -1, 2, 1, 0, -2, 1, 0, 2, -1, 1])
    for dt in (np.int64, np.int32, np.int8):
        yield dt.__name__, v.astype(dt), v.astype(float)
    yield "listint", v.tolist(), v.astype(float)
    yield "int", 1, np.array(1.0)
    yield "npint", np.int64(1), np.array(1.0)
    yield "bool", v > 0, (v > 0).astype(float)


def run(c, B):
    np.seterr(all='ignore')
    c.method = ("all ordered batches up to the length bound over a 9-ray alphabet, all positions in longer batches, for every ray operation; "
                "all argument layouts for every vectorised function; differential against single-ray / scalar calls")
    K = kinds(B)
    ops = c01.operations(B, c.quick)
    ops = {k: v[0] for k, v in ops.items() if v[1]}
    L = 2 if c.quick else 3
    batches = [()] + [b for n in range(1, L + 1) for b in itertools.product(range(len(K)), repeat=n)]
    longs = []
    for n in (3, 4, 5, 8, 16, 17, 33, 100):
        longs.append(tuple((i * i + 3 * i) % len(K) for i in range(n)))
        for k in range(len(K)):
            longs.append((k,) * n)
            longs.append(tuple(range(len(K)))[k:] + (k,) * n)
    if c.quick:
        t3 = list(itertools.product(range(len(K)), repeat=3))
        batches += t3[::5]
        c.extra["length3_batches"] = "every 5th in the quick tier, all in the thorough tier"
    for name, fn in ops.items():
        if not c.want(name):
            continue
        with c.case(name):
            single = []
            for k in range(len(K)):
                single.append(per_ray(fn(make(B, [K[k]])), 1)[0])
            single = np.array(single)
            c.trans(len(K))
            for b in batches + longs:
                rv = make(B, [K[k] for k in b])
                res = fn(rv)
                c.trans()
                got = per_ray(res, len(b))
                c.state(name, b)
                if len(b) == 0:
                    continue
                want = single[list(b)]
                ok = same(got, want)
                if not np.all(ok):
                    c.fail(f"{name}#batch", f"batch {b}: a ray's outcome depends on its batch", batch=b, got=got[~ok.all(1)][:2], want=want[~ok.all(1)][:2])
                c.trace()
    # summed amplitudes of a batch: sum over any partition
    with c.case("sumAmplitude"):
        good = [0, 1, 4, 6, 8, 2]
        r = np.array([0.1, -0.2, 0.4])
        for iv in (True, False):
            one = [make(B, [K[k]]).sumAmplitude(r, 0.3, ignoreVignetted=iv) for k in good]
            for n in range(0, 5 if c.quick else 6):
                for b in itertools.product(range(len(good)), repeat=n):
                    s = make(B, [K[good[k]] for k in b]).sumAmplitude(r, 0.3, ignoreVignetted=iv)
                    c.trans()
                    c.state("sum", iv, b)
                    c.close("sumAmplitude#partition", np.array([s.real, s.imag]),
                            np.array([sum(one[k].real for k in b), sum(one[k].imag for k in b)], float), 1e-12, msg=f"sum over batch {b}")
    # optic-level operations
    with c.case("optic"):
        S = alpha.surfaces(B)
        M = alpha.media(B)
        sys_ = B.CompoundOptic([
            B.RefractiveInterface(S["sphere+"][0], name="A", inMedium=M["vac"], outMedium=M["sellmeier"], obscuration=B.ObscNegation(B.ObscCircle(1.1))),
            B.RefractiveInterface(S["zernike"][0], name="C", inMedium=M["sellmeier"], outMedium=M["vac"], coordSys=alpha.frames(B)["shift"]),
            B.Mirror(S["sum"][0], name="D", coordSys=B.CoordSys().shiftGlobal([0, 0, -2.0]), obscuration=B.ObscCircle(0.2))], name="S")
        fns = {"trace": lambda rv: c01.rvout(sys_.trace(rv)), "reverse": lambda rv: c01.rvout(sys_.trace(rv, reverse=True)),
               "full": lambda rv: [x for d in sys_.traceFull(rv).values() for q in (d["in"], d["out"]) for x in c01.rvout(q)],
               "path": lambda rv: c01.rvout(sys_.trace(rv, path=["A", "C", "A", "C", "D"]))}
        for fname, fn in fns.items():
            single = np.array([per_ray(fn(make(B, [k])), 1)[0] for k in K])
            for b in batches + longs:
                got = per_ray(fn(make(B, [K[k] for k in b])), len(b))
                c.trans()
                c.state("optic", fname, b)
                if len(b):
                    c.true(f"optic/{fname}#batch", np.all(same(got, single[list(b)])), f"batch {b}: outcome depends on the batch", batch=b)
    # ------------------------------------------------------------------ vectorised functions
    F = alpha.frames(B)
    px = [0.3, -0.7, 1.1, 0.05, -0.35, 0.6, 0.9, -1.2, 0.0, 0.45, -0.15, 0.8]
    py = [0.1, 0.5, -0.9, 0.75, -0.25, 0.0, 1.05, -0.6, 0.2, -0.4, 0.3, 0.65]
    two = {}
    for sn, (s, _) in alpha.surfaces(B).items():
        two[f"sag/{sn}"] = (s.sag, ())
        two[f"normal/{sn}"] = (s.normal, (3,))
    for on, o in alpha.obscurations(B).items():
        two[f"contains/{on}"] = (o.contains, ())
    wl = [0.35e-6 + 0.05e-6 * i for i in range(12)]
    one = {f"getN/{m}": q.getN for m, q in alpha.media(B).items()}

    def compare(key, got, want, shape):
        got = np.asarray(got)
        c.true(key + "#shape", got.shape == shape, f"result has shape {got.shape}, expected {shape}")
        if got.shape == shape:
            c.close(key + "#value", got.astype(float), want.reshape(shape).astype(float), 1e-14, 1e-13, msg="value depends on the argument's form")

    for name, (fn, tail) in two.items():
        if not c.want(name):
            continue
        with c.case(name):
            for (ln, ax, vx), (_, ay, vy) in list(zip(layouts(px), layouts(py))) + list(zip(intlayouts(), list(intlayouts()))):
                want = np.array([np.asarray(fn(float(a), float(b)), float) for a, b in zip(vx.ravel(), vy.ravel())])
                try:
                    got = fn(ax, ay)
                except Exception as e:      # noqa
                    c.fail(f"{name}/{ln}#raised:{type(e).__name__}", str(e))
                    continue
                c.trans(1 + vx.size)
                c.state(name, ln)
                compare(f"{name}/{ln}", got, want, vx.shape + tail)
            # mixed forms broadcast
            for (ln, ax, vx) in layouts(px):
                if ln in ("float", "empty"):
                    continue
                try:
                    got = fn(ax, 0.25)
                except Exception as e:      # noqa
                    c.fail(f"{name}/{ln}-bc#raised:{type(e).__name__}", str(e))
                    continue
                want = np.array([np.asarray(fn(float(a), 0.25), float) for a in vx.ravel()])
                compare(f"{name}/{ln}-bc", got, want, vx.shape + tail)
                c.trans()
            a2, b2 = np.array(px[:3])[:, None], np.array(py[:4])[None, :]
            compare(f"{name}/outer", fn(a2, b2), np.array([[np.asarray(fn(float(p), float(q)), float) for q in py[:4]] for p in px[:3]]), (3, 4) + tail)
            c.trace()
    for name, fn in one.items():
        with c.case(name):
            for ln, a, v in layouts(wl):
                want = np.array([fn(float(q)) for q in v.ravel()], float)
                if ln == "float32":
                    continue
                compare(f"{name}/{ln}", fn(a), want, v.shape)
                c.trans()
                c.state(name, ln)
    # frames and coordinate transforms of points
    for fa, fb in itertools.product(F, F):
        ct = B.CoordTransform(F[fa], F[fb])
        for tag, fn in (("fwd", ct.applyForwardArray), ("rev", ct.applyReverseArray)):
            key = f"transform/{fa}-{fb}/{tag}"
            with c.case(key):
                for (ln, ax, vx), (_, ay, vy) in list(zip(layouts(px), layouts(py))) + list(zip(intlayouts(), list(intlayouts()))):
                    want = np.array([fn(float(a), float(b), float(a + b)) for a, b in zip(vx.ravel(), vy.ravel())])
                    az = ax + ay if isinstance(ax, (np.ndarray, float, int, np.generic)) and ln != "bool" else type(ax)(np.asarray(ax) * 1.0 + np.asarray(ay)) if ln != "bool" else ax * 1.0 + ay
                    try:
                        got = fn(ax, ay, az)
                    except Exception as e:      # noqa
                        c.fail(f"{key}/{ln}#raised:{type(e).__name__}", str(e))
                        continue
                    c.trans()
                    c.state(key, ln)
                    got = np.asarray(got)
                    if ln == "float32":
                        c.close(f"{key}/{ln}#value", got, want.T.reshape((3,) + vx.shape), 1e-6, msg="float32 input")
                    else:
                        compare(f"{key}/{ln}", got, want.T if want.size else np.zeros((3, 0)), (3,) + vx.shape)
        cs = F[fa]
        pts = np.array([px, py, px[::-1]]).T
        for tag, fn in (("toGlobal", cs.toGlobal), ("toLocal", cs.toLocal)):
            want = np.array([fn(p) for p in pts])
            for ln, a in (("array", pts.copy()), ("list", pts.tolist()), ("F", np.asfortranarray(pts)), ("T", np.array([px, py, px[::-1]]).T), ("one", pts[:1])):
                compare(f"frame/{fa}/{tag}/{ln}", fn(a), want[:len(a)], np.shape(a))
                c.trans()
            compare(f"frame/{fa}/{tag}/int", fn([1, 2, 3]), np.asarray(fn([1.0, 2.0, 3.0])), (3,))
    # RayVector built from every layout holds the same rays
    with c.case("construct"):
        for (ln, ax, vx), (_, ay, vy) in list(zip(layouts(px), layouts(py))) + list(zip(intlayouts(), list(intlayouts()))):
            if vx.ndim > 1:
                continue
            rv = B.RayVector(ax, ay, 2.0, ay, ax, -1.0, ax, 5e-7, ay, False, False)
            n = max(1, vx.size) if vx.ndim == 0 else vx.size
            c.true(f"construct/{ln}#len", len(rv) == n, "length")
            c.close(f"construct/{ln}#x", np.stack([rv.x, rv.y, rv.vx, rv.vy, rv.t, rv.flux]), np.stack([np.atleast_1d(q) for q in (vx, vy, vy, vx, vx, vy)]), msg="fields")
            ref_ = B.RayVector(*[np.atleast_1d(q).astype(float).copy() for q in (vx, vy, 2.0 + 0 * vx, vy, vx, -1.0 + 0 * vx, vx, 5e-7 + 0 * vx, vy)])
            c.true(f"construct/{ln}#eq", rv == ref_, "differs from the same rays given as plain arrays")
            c.close(f"construct/{ln}#prop", rv.propagate(2.5).r, ref_.propagate(2.5).r, msg="propagated")
            c.trans(3)
            c.state("construct", ln)
    c.sample({"operations": len(ops), "batches": len(batches) + len(longs), "vectorised": list(two) + list(one)})
