"""C16 - ghost tracing: the tree of all light paths of a system is enumerated by a reference walker that uses only surface-level
operations and coating coefficients; traceSplit must return exactly that set, whatever the nesting, skips, direction and flux limit."""
import glob
import itertools

import numpy as np

import alpha
import systems as S

TOL = dict(atol=1e-10, rtol=1e-10)


def keep(B, rv, w):
    return B.RayVector(rv.x[w], rv.y[w], rv.z[w], rv.vx[w], rv.vy[w], rv.vz[w], rv.t[w], rv.wavelength[w], rv.flux[w], rv.vignetted[w], rv.failed[w], rv.coordSys)


def scaled(B, rv, was, coef):
    """rv with the flux the rays had before (was), times the coefficient of the ray's own wavelength and incidence"""
    return B.RayVector(rv.x, rv.y, rv.z, rv.vx, rv.vy, rv.vz, rv.t, rv.wavelength, was * coef, rv.vignetted, rv.failed, rv.coordSys)


def branches(B, it, rv, reverse):
    """[(reflected?, rays)] leaving one interface, with surface-level operations only"""
    k = type(it).__name__
    if k in ("Mirror",):
        return [(False, S.step(B, it, rv, reverse))]
    if k in ("Baffle", "OPDScreen"):
        return [(False, S.step(B, it, rv, reverse))]
    # cosine of incidence at the interface, for the coatings
    at = rv.copy()
    it.surface.intersect(at, coordSys=it.coordSys)
    n = it.surface.normal(at.x, at.y)
    v = np.stack([at.vx, at.vy, at.vz], axis=1)
    cosi = np.abs(np.sum(n * v, axis=1)) / np.sqrt(np.sum(v * v, axis=1))
    coat = it.forwardCoating if (reverse or k == "Detector") else it.reverseCoating
    was = np.array(rv.flux)
    T = np.array([coat.getTransmit(w, c) for w, c in zip(rv.wavelength, cosi)])
    R = np.array([coat.getReflect(w, c) for w, c in zip(rv.wavelength, cosi)])
    if k == "Detector":
        thru = rv.copy()
        it.surface.refract(thru, it.inMedium, it.outMedium, coordSys=it.coordSys)
        if it.obscuration is not None:
            thru.vignetted[np.asarray(it.obscuration.contains(thru.x, thru.y), bool)] = True
    else:
        thru = S.step(B, it, rv, reverse)
    back = S.step(B, it, rv, reverse, reflect=True)
    return [(False, scaled(B, thru, was, T)), (True, scaled(B, back, was, R))]


def walk(B, seq, rv, minFlux, reverse=False, path=(), cap=200000):
    """{(side, path): rays} and the light dropped on the way"""
    out, lost, n = {}, 0.0, 0
    todo = [(rv, not reverse, len(seq) - 1 if reverse else 0, tuple(path))]
    while todo:
        r, fwd, i, p = todo.pop()
        if i < 0 or i >= len(seq):
            out.setdefault((fwd, p), []).append(r)
            continue
        n += 1
        assert n < cap
        it = seq[i]
        for refl, q in branches(B, it, r, not fwd):
            w = ~np.asarray(q.vignetted, bool) & ~np.asarray(q.failed, bool) & (np.asarray(q.flux) >= minFlux)
            lost += float(np.nansum(np.asarray(q.flux)[~w]))
            if not np.any(w):
                continue
            f = fwd != refl
            todo.append((keep(B, q, w), f, i + (1 if f else -1), p + (it.name,)))
    return out, lost, n


def cmp_rays(c, key, got, want, msg):
    g, w = alpha.snap(got), alpha.snap(want)
    if not c.true(key + "#n", g.shape == w.shape, msg + ": another number of rays survives", got=g.shape, want=w.shape):
        return
    c.true(key + "#flags", np.array_equal(g[:, 9:], w[:, 9:]), msg + ": marks differ")
    c.close(key, g[:, :9], w[:, :9], msg=msg, **TOL)
    c.true(key + "#frame", np.allclose(got.coordSys.origin, want.coordSys.origin, rtol=0, atol=1e-12) and np.allclose(got.coordSys.rot, want.coordSys.rot, rtol=0, atol=1e-12), msg + ": frame differs")


def one(c, B, key, o, rv, minFlux, reverse=False, pre=None, viatrace=False):
    seq = S.leaves(o)
    want, lost, nsteps = walk(B, seq, rv, minFlux, reverse, pre or ())
    s0 = S.snapshot(o)
    a = rv.copy()
    if pre:
        a.path = list(pre)
    kw = dict(minFlux=minFlux)
    if reverse:
        kw["reverse"] = True
    F, R = o.traceSplit(a, **kw)
    c.trans(1 + nsteps)
    lone = not hasattr(o, "items") or not seq
    if not seq:                                        # nothing to interact with: only the rays themselves are judged
        want = {k: [keep(B, b, ~np.asarray(b.vignetted) & ~np.asarray(b.failed) & (np.asarray(b.flux) >= minFlux)) for b in v] for k, v in want.items()}
    got = {}
    for fwd, grp in ((True, F), (False, R)):
        for b in grp:
            if b is None:
                continue
            if lone:                                   # a single interface does not filter; nothing at all need not
                p = tuple(getattr(b, "path", ()))
                b = keep(B, b, ~np.asarray(b.vignetted) & ~np.asarray(b.failed) & (np.asarray(b.flux) >= minFlux))
                b.path = p
            if len(b) == 0 and lone:
                continue
            c.true(f"{key}#path", isinstance(b.path, (list, tuple)), "a returned batch has no path")
            got.setdefault((fwd, tuple(b.path)), []).append(b)
    c.true(key + "#paths", {k: len(v) for k, v in got.items()} == {k: len(v) for k, v in want.items()}, "the set of light paths differs",
           missing=[k for k in want if k not in got][:10], extra=[k for k in got if k not in want][:10], twice=[k for k in got if len(got[k]) != len(want.get(k, got[k]))][:10])
    for k in want:
        for g, w in zip(got.get(k, []), want[k]):
            cmp_rays(c, f"{key}#{'F' if k[0] else 'R'}:{','.join(k[1])}", g, w, "a batch differs from the rays that follow its path")
            if viatrace and len(k[1]) > 1 and not reverse and not pre:
                t = rv.copy()
                o.trace(t, path=list(k[1]))
                ix = {x: i for i, x in enumerate(np.asarray(t.wavelength))}
                sel = [ix[x] for x in np.asarray(g.wavelength)]
                c.close(f"{key}#trace:{','.join(k[1])}", alpha.snap(t)[sel][:, :8], alpha.snap(g)[:, :8], msg="tracing along the path a batch carries does not lead to that batch", **TOL)
                c.trans()
    c.true(key + "#optic", S.snapshot(o) == s0, "ghost tracing modified the optic")
    c.states.update(hash((key,) + k) for k in want)
    c.trace(len(want))
    c.outcome("forward", sum(k[0] for k in want))
    c.outcome("reverse", sum(not k[0] for k in want))
    c.outcome("nothing left", int(not want))
    return got, lost


def srays(B, n=7):
    rv = S.rays(B, n)
    i = np.arange(n)
    return B.RayVector(rv.x, rv.y, rv.z, rv.vx, rv.vy, rv.vz, rv.t, (400 + 37 * i) * 1e-9, 1.0 + 0.5 * (i % 3), rv.vignetted, rv.failed)


def coat(B, lv, style):
    for i, it in enumerate(lv):
        if type(it).__name__ != "RefractiveInterface":
            continue
        if style == "asym":
            it.forwardCoating = B.SimpleCoating(0.10 + 0.05 * i, 0.80 - 0.1 * i)
            it.reverseCoating = B.SimpleCoating(0.30 - 0.04 * i, 0.65 + 0.02 * i)
        elif style == "strong":
            it.forwardCoating = it.reverseCoating = B.SimpleCoating(0.5, 0.5)
        elif style == "weak":
            it.forwardCoating = B.SimpleCoating(0.02, 0.98)
            it.reverseCoating = B.SimpleCoating(0.03, 0.97)
        elif style == "block":
            it.forwardCoating = B.SimpleCoating(1.0, 0.0) if i % 2 else B.SimpleCoating(0.1, 0.9)
            it.reverseCoating = B.SimpleCoating(0.0, 1.0)
    return lv


def flat(c, B, quick):
    for n in (1, 2, 3):
        for kinds in itertools.product("RMBO", repeat=n):
            for last in ("", "D") if n < 3 else ("",):
                for style, mf in (("asym", 0.05), ("strong", 0.1), ("weak", 1e-3), ("block", 0.02), (None, 1e-3)):
                    if style is None and n > 2 or (quick and n == 3 and style in ("strong", "block")):
                        continue
                    for rev in (False, True) if not last else (False,):
                        for obsc in (True, False):
                            if n == 3 and not obsc and kinds.count("R") != 3:
                                continue
                            key = f"flat:{''.join(kinds)}{last}:{style}:{int(rev)}:{int(obsc)}"
                            with c.case(key):
                                lv = coat(B, S.chain(B, kinds + tuple(last), obsc=obsc), style)
                                o = B.CompoundOptic(lv, name="T")
                                one(c, B, key, o, srays(B), mf, rev, viatrace=True)
                                if n == 1 and not last:
                                    one(c, B, key + "#lone", lv[0], srays(B), mf, rev)
                                    one(c, B, key + "#lonepath", lv[0], srays(B), mf, rev, pre=["x"])


def nested(c, B, quick):
    for kinds in ("RRR", "RMR", "RRBR", "RRRR") + (() if quick else ("RROMR", "RRRRR")):
        n = len(kinds)
        for shape in S.shapes(n):
            for cls in ("Compound", "Lens"):
                lv = coat(B, S.chain(B, kinds), "asym")
                if cls == "Lens" and n >= 4 and quick:
                    continue
                o = S.build(B, shape, lv, cls=cls)
                nd = [o] + S.nodes(o)
                for p in [()] + list(itertools.combinations(range(1, len(nd)), 1)) + (list(itertools.combinations(range(1, len(nd)), 2)) if n <= 3 or not quick else []) + [(0,)]:
                    for it in nd:
                        it.skip = False
                    for i in p:
                        nd[i].skip = True
                    for rev in (False, True):
                        if quick and n >= 4 and rev and p:
                            continue
                        key = f"nest:{kinds}:{shape}:{cls}:{p}:{int(rev)}"
                        with c.case(key):
                            if 0 in p:
                                a = srays(B)
                                F, R = o.traceSplit(a, minFlux=0.05, reverse=rev)
                                grp, oth = (R, F) if rev else (F, R)
                                c.true(key + "#skipped", len(oth) == 0 and len(grp) == 1, "a skipped optic splits light")
                                if len(grp) == 1:
                                    c.close(key + "#same", alpha.snap(grp[0]), alpha.snap(srays(B)), atol=0, msg="a skipped optic changes the rays")
                                c.state(key)
                                c.trans()
                            else:
                                one(c, B, key, o, srays(B, 5 if n > 3 else 7), 0.05 if n < 4 else 0.08, rev)
                with c.case(f"pre:{kinds}:{shape}:{cls}"):
                    for it in nd:
                        it.skip = False
                    one(c, B, f"pre:{kinds}:{shape}:{cls}", o, srays(B, 4), 0.1, False, pre=["p", "q"])


def limits(c, B, quick):
    """every flux limit in a ladder; fluxes exactly at the limit survive; lossless systems conserve flux"""
    for mf in (0.5, 0.25, 0.2, 0.125, 0.0625, 0.01, 1e-3) + (() if quick else (1e-4,)):
        for n in (2, 3, 4):
            if n == 4 and mf < 0.01 and quick:
                continue
            key = f"limit:{mf}:{n}"
            with c.case(key):
                lv = coat(B, S.chain(B, "R" * n, obsc=False, tilt=False), "strong")
                o = B.CompoundOptic(lv, name="T")
                i = np.arange(6)
                rv = B.RayVector(0.1 * i - 0.2, 0.05 * i, 2.0, 0.01, 0.0, -np.sqrt(1 - 1e-4), t=0.0, wavelength=(400 + 37 * i) * 1e-9, flux=[1.0, 0.5, 2.0, 1.0, 0.25, 4.0])
                got, lost = one(c, B, key, o, rv, mf)
                tot = sum(float(np.sum(b.flux)) for bs in got.values() for b in bs)
                c.true(key + "#conserve", abs(tot + lost - 8.75) < 1e-9, "light is created or lost beyond what is dropped", out=tot, dropped=lost)
    # rays that are marked before they start: neither they nor their light is heard of again
    for vig, fail in itertools.product(range(4), repeat=2):
        for kinds in ("R", "RR", "RMR", "ROR"):
            key = f"marked:{kinds}:{vig}:{fail}"
            with c.case(key):
                lv = coat(B, S.chain(B, kinds, obsc=False), "asym")
                rv = srays(B, 4)
                i = np.arange(4)
                rv = B.RayVector(rv.x, rv.y, rv.z, rv.vx, rv.vy, rv.vz, rv.t, rv.wavelength, rv.flux, i == vig, i == fail)
                one(c, B, key, B.CompoundOptic(lv, name="T"), rv, 0.05)
    # total internal reflection: a refracted ray that does not exist is not returned, its reflection is
    for inc in (0.2, 0.6, 0.7, 0.75, 0.8, 1.2):
        for rev in (False, True):
            key = f"tir:{inc}:{int(rev)}"
            with c.case(key):
                glass, air = B.ConstMedium(1.5), B.ConstMedium(1.0)
                lv = [B.RefractiveInterface(B.Plane(), name="a", inMedium=air if rev else glass, outMedium=glass if rev else air, coordSys=B.CoordSys([0, 0, 0.0])),
                      B.RefractiveInterface(B.Plane(), name="b", inMedium=glass if rev else air, outMedium=glass if not rev else air, coordSys=B.CoordSys([0, 0, -1.0]))]
                for l in lv:
                    l.forwardCoating = l.reverseCoating = B.SimpleCoating(0.25, 0.75)
                a = np.array([0.0, 0.1, inc])
                z = -3.0 if rev else 2.0
                sg = 1.0 if rev else -1.0
                n = 1.0 if rev else 1.5
                if rev:
                    lv[1].inMedium, lv[1].outMedium, lv[0].inMedium, lv[0].outMedium = air, glass, glass, air
                    n = 1.5
                rv = B.RayVector([0.0, 0.1, 0.2], 0.0, z, np.sin(a) / n, 0.0, sg * np.cos(a) / n, t=0.0, wavelength=(400 + 37 * np.arange(3)) * 1e-9, flux=1.0)
                one(c, B, key, B.CompoundOptic(lv, name="T"), rv, 0.05, rev)
    # the default limit
    with c.case("limit:default"):
        lv = coat(B, S.chain(B, "RR", obsc=False), "weak")
        o = B.CompoundOptic(lv, name="T")
        F, R = o.traceSplit(srays(B))
        w, _, _ = walk(B, lv, srays(B), 1e-3)
        c.true("limit:default", sorted(tuple(b.path) for b in F) == sorted(k[1] for k in w if k[0]) and sorted(tuple(b.path) for b in R) == sorted(k[1] for k in w if not k[0]), "the default flux limit is not 1e-3")
    # empty input
    with c.case("limit:empty"):
        F, R = B.CompoundOptic(S.chain(B, "RR"), name="T").traceSplit(srays(B)[:0])
        c.true("limit:empty", len(F) == 0 and len(R) == 0, "no light in, light out")


def telescopes(c, B, quick):
    for f, mf, Rf in (("LSST_r.yaml", 3e-4, 0.02), ("HSC.yaml", 8e-4, 0.03), ("DECam.yaml", 3e-4, 0.02)) if quick else (("LSST_r.yaml", 1e-5, 0.025), ("HSC.yaml", 5e-5, 0.03), ("DECam.yaml", 1e-5, 0.025)):
        p = glob.glob(B.datadir + "/**/" + f, recursive=True)
        if not p:
            continue
        with c.case("tel:" + f):
            o = B.Optic.fromYaml(p[0])
            for l in S.leaves(o):
                if type(l).__name__ in ("RefractiveInterface", "Detector"):
                    l.forwardCoating = B.SimpleCoating(Rf, 1 - Rf)
                    l.reverseCoating = B.SimpleCoating(Rf * 1.1, 1 - Rf * 1.1)
            rv = B.RayVector.asPolar(optic=o, wavelength=6.2e-7, theta_x=0.005, theta_y=-0.003, inner=0.3 * o.pupilSize, outer=0.48 * o.pupilSize, nrad=2, naz=6)
            rv = B.RayVector(rv.x, rv.y, rv.z, rv.vx, rv.vy, rv.vz, rv.t, rv.wavelength * (1 + 1e-4 * np.arange(len(rv))), np.ones(len(rv)), rv.vignetted, rv.failed, rv.coordSys)
            # wavelength tags each ray (no medium in these systems disperses that little more than it must)
            one(c, B, "tel:" + f, o, rv, mf, viatrace=f == "HSC.yaml")


def run(c, B):
    np.seterr(all='ignore')
    c.method = "explicit enumeration of the tree of light paths by a reference walker; traceSplit must return exactly that set with the same rays"
    flat(c, B, c.quick)
    nested(c, B, c.quick)
    limits(c, B, c.quick)
    telescopes(c, B, c.quick)
    c.assume("a refractive interface splits forward light with its reverseCoating and reverse light with its forwardCoating (as shipped)")
    c.assume("detectors stop the system: they are last and never met by reversed light")
    c.assume("the flux limit is positive, so the tree of paths is finite")
    c.extra["bounds"] = "all chains of <= 3 elements over refractor/mirror/baffle/screen with 5 coating styles, both directions; all nestings of 3-4 elements with <= 2 skips; a ladder of flux limits; 3 shipped telescopes"
