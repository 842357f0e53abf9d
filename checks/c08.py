"""C08 - coatings and splitting: surface x coating x direction x media x ray-state product with a flux ledger."""
import itertools

import numpy as np

import alpha


def batch(B, n, speed, up, cs=None):
    """good, vignetted, already failed, missing and steep (TIR) rays, travelling down or up"""
    rv = alpha.mixed_rays(B, n, seed=5, speed=1.0)
    sgn = -1.0 if up else 1.0
    z = np.where(rv.vz < 0, rv.z, -rv.z) * sgn
    vz = -np.abs(rv.vz) * sgn
    kw = {} if cs is None else dict(coordSys=cs)
    sp = np.broadcast_to(np.asarray(speed(rv.wavelength)), n)
    return B.RayVector(rv.x, rv.y, z, rv.vx * sp, rv.vy * sp, vz * sp, rv.t, rv.wavelength, rv.flux,
                       rv.vignetted, rv.failed, **kw)


def run(c, B):
    np.seterr(all='ignore')
    c.method = "product surface x coating x direction x media x ray state on native kernels; flux ledger"
    S = alpha.surfaces(B)
    M = alpha.media(B)
    F = alpha.frames(B)
    n = 132 if c.quick else 660
    grid = (0.0, 0.03, 0.5, 1.0) if c.quick else (0.0, 0.03, 0.25, 0.5, 0.97, 1.0, 1.7)
    coats = [B.SimpleCoating(r, t) for r, t in itertools.product(grid, grid)]
    pairs = [("vac", "const"), ("const", "vac"), ("sellmeier", "table"), ("air", "sumita"), ("vac", "vac"), ("sumita", "air")]
    fld = lambda rv: alpha.snap(rv)

    for (r, t) in itertools.product(grid, grid):
        ct = B.SimpleCoating(r, t)
        for wl, ca in itertools.product((300e-9, 1e-6), (-1.0, -0.3, 0.0, 0.7, 1.0)):
            c.trans(3)
            k = f"coef/{r},{t},{wl},{ca}"
            c.close(k, np.array([*ct.getCoefs(wl, ca), ct.getReflect(wl, ca), ct.getTransmit(wl, ca)]), np.array([r, t, r, t]), msg="coating coefficients")

    for name, (s, _) in S.items():
        if not c.want(name):
            continue
        with c.case(name):
            for (a, b), up, fr in itertools.product(pairs, (False, True), ("id", "mix")):
                m1, m2 = M[a], M[b]
                sp = lambda wl: 1 / np.asarray(m1.getN(wl)) * np.ones_like(wl)
                cs = F[fr]
                mk = lambda: batch(B, n, sp, up, cs)
                in0 = mk()
                f0, fail0, vig0 = in0.flux.copy(), in0.failed.copy(), in0.vignetted.copy()
                kw = dict(coordSys=F["shift"]) if fr == "mix" else {}
                plainR = fld(s.refract(mk(), m1, m2, **kw))
                plainL = fld(s.reflect(mk(), **kw))
                plainI = fld(s.intersect(mk(), **kw))
                c.trans(3 * n)
                c.state_rows((name, a, b, up, fr), fld(in0))
                for tag, p in (("refract", plainR), ("reflect", plainL), ("intersect", plainI)):
                    c.close(f"{name}/{a}-{b}/{up}{fr}/{tag}#plain", p[:, 8], f0, msg="flux changed without a coating")
                hit = plainI[:, 10] == 0
                tir = (plainR[:, 10] == 1) & hit
                c.outcome("tir", tir.sum())
                c.outcome("miss", ((~hit) & ~fail0).sum())
                c.outcome("dead", fail0.sum())
                c.outcome("good", (hit & ~tir).sum())
                for ct in coats:
                    R, T = ct.reflectivity, ct.transmissivity
                    key = f"{name}/{a}-{b}/{'up' if up else 'dn'}/{fr}/{R},{T}"
                    # --- split
                    rv = mk()
                    res = s.rSplit(rv, m1, m2, ct, **kw)
                    c.trans(n)
                    c.true(key + "#split-two", len(res) == 2 and res[0] is not res[1], "rSplit returns two batches")
                    gr, gl = fld(res[0]), fld(res[1])
                    c.true(key + "#split-cs", res[0].coordSys == res[1].coordSys == (F["shift"] if fr == "mix" else cs), "frames of split rays")
                    g = hit & ~tir
                    cols = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10]
                    c.close(key + "#split-refr", gr[g][:, cols], plainR[g][:, cols], 1e-12, msg="refracted half of a split vs refract")
                    c.close(key + "#split-refl", gl[hit][:, cols], plainL[hit][:, cols], 1e-12, msg="reflected half of a split vs reflect")
                    c.close(key + "#split-refr-dead", gr[~hit][:, [7, 9, 10]], plainR[~hit][:, [7, 9, 10]], msg="missed/failed rays in refracted half")
                    c.close(key + "#split-refl-dead", gl[~hit][:, [7, 9, 10]], plainL[~hit][:, [7, 9, 10]], msg="missed/failed rays in reflected half")
                    c.close(key + "#split-tir", gr[tir][:, [9, 10]], np.ones((tir.sum(), 2)), msg="totally reflected rays in refracted half")
                    c.close(key + "#split-T", gr[g][:, 8], f0[g] * T, 1e-15, 1e-15, msg="flux of the refracted half")
                    c.close(key + "#split-R", gl[hit][:, 8], f0[hit] * R, 1e-15, 1e-15, msg="flux of the reflected half")
                    c.close(key + "#split-deadflux", np.stack([gr[fail0][:, 8], gl[fail0][:, 8]]), np.stack([f0[fail0]] * 2), msg="flux of already failed rays")
                    # --- coated single interactions
                    for tag, fn, p, co in (("refract", lambda v: s.refract(v, m1, m2, coating=ct, **kw), plainR, T),
                                           ("reflect", lambda v: s.reflect(v, coating=ct, **kw), plainL, R),
                                           ("intersect", lambda v: s.intersect(v, coating=ct, **kw), plainI, T)):
                        out = fld(fn(mk()))
                        c.trans(n)
                        lit = g if tag == "refract" else hit
                        c.close(key + f"#{tag}-flux", out[lit][:, 8], f0[lit] * co, 1e-15, 1e-15, msg=f"flux after coated {tag}")
                        c.close(key + f"#{tag}-deadflux", out[fail0][:, 8], f0[fail0], msg="flux of already failed rays")
                        c.close(key + f"#{tag}-rest", out[:, cols], p[:, cols], 1e-12, msg=f"coating changed more than flux in {tag}")
                    c.trace(n)
    # --- interfaces
    ca, cb = B.SimpleCoating(0.1, 0.7), B.SimpleCoating(0.35, 0.2)
    for (name, (s, _)), (a, b), fr in itertools.product(S.items(), pairs, ("id", "mix")):
        key = f"interface/{name}/{a}-{b}/{fr}"
        if not c.want(key):
            continue
        with c.case(key):
            m1, m2 = M[a], M[b]
            for up in (False, True):
                ma, mb = (m2, m1) if up else (m1, m2)
                sp = lambda wl: 1 / np.asarray(ma.getN(wl)) * np.ones_like(wl)
                mk = lambda: batch(B, 44, sp, up, F["id"])
                it = B.RefractiveInterface(s, name="S", inMedium=m1, outMedium=m2, coordSys=F[fr] if fr == "id" else F["shift"],
                                           forwardCoating=ca, reverseCoating=cb)
                de = B.RefractiveInterface(s, name="S", inMedium=m1, outMedium=m2, coordSys=it.coordSys)
                mi = B.Mirror(s, name="M", inMedium=m1, outMedium=m1, coordSys=it.coordSys)
                ba = B.Baffle(s, name="B", inMedium=m1, outMedium=m1, coordSys=it.coordSys)
                sc = B.OPDScreen(s, B.Zernike([0, 0, 1e-7, 2e-7]), name="O", inMedium=m1, outMedium=m1, coordSys=it.coordSys)
                rr, rl = it.rSplit(mk(), reverse=up)
                # which coating serves which direction is the interface's business, but the pair must be one coating
                f0 = mk().flux
                want = fld(s.refract(mk(), ma, mb, coordSys=it.coordSys))
                wl_ = fld(s.reflect(mk(), coordSys=it.coordSys))
                cols = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10]
                g = want[:, 10] == 0
                hit = wl_[:, 10] == 0
                c.trans(6 * 44)
                c.close(key + f"/{up}#traj", fld(rr)[g][:, cols], want[g][:, cols], 1e-12, msg="interface split, refracted path")
                c.close(key + f"/{up}#trajl", fld(rl)[hit][:, cols], wl_[hit][:, cols], 1e-12, msg="interface split, reflected path")
                ok = any(np.allclose(rr.flux[g], f0[g] * q.transmissivity, rtol=1e-14) and np.allclose(rl.flux[hit], f0[hit] * q.reflectivity, rtol=1e-14) for q in (ca, cb))
                c.true(key + f"/{up}#coat", ok, "interface split does not use one of its coatings consistently")
                rr2, rl2 = it.rSplit(mk(), reverse=not up)
                if g.any() and hit.any():
                    h2 = ~rl2.failed & hit
                    if h2.any():
                        c.true(key + f"/{up}#two", not np.allclose(rl2.flux[h2], rl.flux[h2]), "both sides of an interface use the same coating")
                dr, dl = de.rSplit(mk(), reverse=up)
                c.close(key + f"/{up}#default", np.stack([dr.flux[g], dl.flux[g]]), np.stack([f0[g], 0 * f0[g]]), 1e-15, msg="uncoated refractive interface")
                m0, ml = mi.rSplit(mk(), reverse=up)
                c.true(key + f"/{up}#mirror", m0 is None, "a mirror transmits")
                c.close(key + f"/{up}#mirror", fld(ml), wl_, 1e-12, msg="mirror split")
                b0, b1 = ba.rSplit(mk(), reverse=up)
                c.true(key + f"/{up}#baffle", b1 is None, "a baffle reflects")
                c.close(key + f"/{up}#baffle", fld(b0), fld(s.intersect(mk(), coordSys=it.coordSys)), 1e-12, msg="baffle split")
                o0, o1 = sc.rSplit(mk(), reverse=up)
                c.true(key + f"/{up}#screen", o1 is None, "a phase screen reflects")
                c.close(key + f"/{up}#screen", fld(o0), fld(s.refractScreen(mk(), sc.screen, coordSys=it.coordSys)), 1e-12, msg="screen split")
                # ordinary tracing never changes flux
                for q in (it, de, mi, ba, sc):
                    out = q.trace(mk(), reverse=up)
                    c.trans(44)
                    c.close(key + f"/{up}#trace-{type(q).__name__}", out.flux, f0, msg="plain tracing changed the flux")
            dt = B.Detector(s, name="D", inMedium=m1, outMedium=m1, coordSys=it.coordSys)
            mk = lambda: batch(B, 44, lambda wl: 1 / np.asarray(m1.getN(wl)) * np.ones_like(wl), False, F["id"])
            d0, d1 = dt.rSplit(mk())
            hit = ~d0.failed
            c.close(key + "#det", np.stack([d0.flux, d1.flux * hit]), np.stack([mk().flux, 0 * d1.flux]), 1e-15, msg="detector split")
    c.sample({"coatings": [repr(x) for x in coats], "pairs": pairs, "surfaces": list(S), "batch": n})
