"""C09 - breadth-first exploration of ray-operation histories; monitor: the lost-ray state machine."""
import numpy as np

import alpha
import core


def start(B, kind):
    if kind == "mixed":
        rv = alpha.mixed_rays(B, 44, seed=3)
    elif kind == "glass":
        rv = alpha.mixed_rays(B, 33, seed=11, speed=1 / 1.5)
    else:                       # every flag combination x not-a-number payloads on dead rays
        n = 16
        i = np.arange(n)
        x = 0.3 * np.cos(i)
        vx = 0.02 * np.sin(i)
        vz = -np.sqrt(1 - vx**2)
        failed = (i % 4) >= 2
        vig = (i % 2) == 1
        bad = failed & (i >= 8)
        vx = np.where(bad, np.nan, vx)
        x = np.where(failed & (i >= 12), np.nan, x)
        rv = B.RayVector(x, 0.2 * np.sin(i), np.full(n, 4.0), vx, np.zeros(n), vz, 0.1 * i, 5e-7, 1.0 + i, vig, failed)
    return rv


def run(c, B):
    np.seterr(all='ignore')
    c.method = "breadth-first exploration of all histories of ray operations on real batches; monotone-flag monitor after every step"
    S = {k: v[0] for k, v in alpha.surfaces(B).items()}
    M = alpha.media(B)
    O = alpha.obscurations(B)
    F = alpha.frames(B)
    ar = B.SimpleCoating(0.2, 0.7)
    small = B.CompoundOptic([
        B.RefractiveInterface(S["sphere+"], name="L1", inMedium=M["vac"], outMedium=M["const"], obscuration=B.ObscNegation(B.ObscCircle(2.0))),
        B.RefractiveInterface(S["para-"], name="L2", inMedium=M["const"], outMedium=M["vac"], coordSys=F["shift"]),
        B.Baffle(S["plane"], name="B", obscuration=B.ObscAnnulus(0.5, 1.0), coordSys=B.CoordSys().shiftGlobal([0, 0, -3.0])),
        B.Mirror(S["asphere"], name="M", coordSys=B.CoordSys().shiftGlobal([0, 0, -4.0])),
    ], name="sys")

    def surf(fn):
        return ("surface", fn)

    def split(i, s, a, b, **kw):
        def f(rv):
            return s.rSplit(rv, M[a], M[b], ar, **kw)[i]
        return ("surface", f)

    ops = {
        "intersect/sphere-": surf(lambda rv: S["sphere-"].intersect(rv)),
        "intersect/zernike@shift": surf(lambda rv: S["zernike"].intersect(rv, coordSys=F["shift"])),
        "intersectC/plane@mix": surf(lambda rv: S["plane"].intersect(rv, coordSys=F["mix"], coating=ar)),
        "reflect/para+": surf(lambda rv: S["para+"].reflect(rv, coating=ar)),
        "reflect/bicubic@rotx": surf(lambda rv: S["bicubic"].reflect(rv, coordSys=F["rotx"])),
        "refract/quad/vac-const": surf(lambda rv: S["quad-hyper"].refract(rv, M["vac"], M["const"])),
        "refract/sphere+/const-vac": surf(lambda rv: S["sphere+"].refract(rv, M["const"], M["vac"], coating=ar)),
        "refract/tilted/sellmeier-vac@flip": surf(lambda rv: S["tilted"].refract(rv, M["sellmeier"], M["vac"], coordSys=F["flip"])),
        "splitT/asphere": split(0, S["asphere"], "vac", "const"),
        "splitR/sum@shift": split(1, S["sum"], "const", "vac", coordSys=F["shift"]),
        "splitT/plane/const-vac": split(0, S["plane"], "const", "vac"),
        "screen/plane": surf(lambda rv: S["plane"].refractScreen(rv, S["zernike"])),
        "screen/sphere@id": surf(lambda rv: S["sphere-"].refractScreen(rv, S["asphere"], coordSys=F["id"])),
        "obscure/annulus": ("obscure", lambda rv: O["annulus"].obscure(rv)),
        "obscure/neg": ("obscure", lambda rv: O["neg"].obscure(rv)),
        "toCoordSys/mix": ("move", lambda rv: rv.toCoordSys(F["mix"])),
        "propagate": ("move", lambda rv: rv.propagate(2.0)),
        "trace/system": ("surface", lambda rv: small.trace(rv)),
        "trace/reverse": ("surface", lambda rv: small.trace(rv, reverse=True)),
        "trace/path": ("surface", lambda rv: small.trace(rv, path=["L1", "L2", "L1", "L2", "B"])),
    }
    depth = 3 if c.quick else 4

    def step(key, rv, opname):
        kind, fn = ops[opname]
        before = alpha.snap(rv)
        cs0 = rv.coordSys
        good = before[:, 10] == 0
        sub = rv[np.flatnonzero(good)].copy() if good.any() else None
        try:
            out = fn(rv)
        except Exception as e:      # noqa
            c.fail(f"{opname}#raised:{type(e).__name__}", f"{key}: {e}")
            return None
        after = alpha.snap(out)
        c.trans()
        k = opname
        if len(out) != len(before):
            c.fail(k + "#len", f"{key}: number of rays changed")
            return None
        f0, f1 = before[:, 10] == 1, after[:, 10] == 1
        v0, v1 = before[:, 9] == 1, after[:, 9] == 1
        c.true(k + "#failed-cleared", not np.any(f0 & ~f1), f"{key}: a failed mark was cleared", history=key)
        c.true(k + "#vig-cleared", not np.any(v0 & ~v1), f"{key}: a vignetted mark was cleared", history=key)
        c.true(k + "#failed-vig", np.all(v1[f1 & ~f0]), f"{key}: a ray failed without being vignetted", history=key)
        if kind == "surface":
            same = (before[f0][:, :9] == after[f0][:, :9]) | (np.isnan(before[f0][:, :9]) & np.isnan(after[f0][:, :9]))
            c.true(k + "#dead-touched", np.all(same), f"{key}: numbers of an already failed ray were changed",
                   before=before[f0][:2], after=after[f0][:2])
        elif kind == "obscure":
            same = (before[:, :9] == after[:, :9]) | (np.isnan(before[:, :9]) & np.isnan(after[:, :9]))
            c.true(k + "#obscure-touched", np.all(same) and np.all(f0 == f1), f"{key}: obscuring changed more than vignetting", history=key)
        if kind == "move":
            c.true(k + "#move-flags", np.all(f0 == f1) and np.all(v0 == v1), f"{key}: flags changed by moving", history=key)
        c.outcome("newly_failed", int((f1 & ~f0).sum()))
        c.outcome("newly_vignetted", int((v1 & ~v0).sum()))
        # the others are unaffected by the presence of lost rays
        if sub is not None:
            o2 = alpha.snap(fn(sub))
            a = after[good]
            same = (np.abs(a - o2) <= 1e-12 * (1 + np.abs(o2))) | (np.isnan(a) & np.isnan(o2)) | (a == o2)
            c.true(k + "#neighbours", np.all(same), f"{key}: good rays depend on the presence of failed ones", history=key)
            c.trans()
        return out

    for kind in ("mixed", "glass", "flags"):
        with c.case(kind):
            frontier = [((), start(B, kind))]
            seen = set()
            for d in range(depth):
                nxt = []
                for hist, rv in frontier:
                    for o in ops:
                        key = f"{kind}:" + " > ".join(hist + (o,))
                        c.beat(key)
                        out = step(key, rv.copy(), o)
                        if out is None:
                            continue
                        s = core.canon(alpha.snap(out), out.coordSys.origin, out.coordSys.rot)
                        c.states.add(s)
                        c.trace()
                        if s not in seen and d + 1 < depth:
                            seen.add(s)
                            nxt.append((hist + (o,), out))
                frontier = nxt
    # whole-system history keeps the marks along the way
    with c.case("traceFull"):
        for kind in ("mixed", "flags"):
            rv = start(B, kind)
            b0 = alpha.snap(rv)
            tf = small.traceFull(rv)
            c.trans()
            prev = b0
            for name, st in tf.items():
                a, b = alpha.snap(st["in"]), alpha.snap(st["out"])
                for x, y in ((prev, a), (a, b)):
                    c.true(f"traceFull/{kind}/{name}#mono", not np.any((x[:, 9:] == 1) & (y[:, 9:] == 0)), "a mark was cleared inside traceFull")
                d = a[:, 10] == 1
                c.true(f"traceFull/{kind}/{name}#dead", np.all((a[d][:, :9] == b[d][:, :9]) | np.isnan(a[d][:, :9])), "failed ray changed inside traceFull")
                prev = b
            c.close(f"traceFull/{kind}#input", alpha.snap(rv), b0, msg="traceFull changed its input")
    c.sample({"operations": list(ops), "depth": depth})
