"""C07 - reflection, refraction and phase screens against vector mirror/Snell laws; reversal transitions."""
import itertools

import numpy as np

import alpha
import ref


def incidence(quick):
    """landing points x directions (both travel senses, normal to grazing)"""
    rad = [0.0, 0.5, 1.3, 2.1] if quick else [0.0, 0.3, 0.9, 1.6, 2.2]
    pts = [(0.0, 0.0)] + [(r * np.cos(a), r * np.sin(a)) for r in rad[1:] for a in np.arange(6) * np.pi / 3 + 0.1]
    dirs = []
    for th in np.deg2rad([0, 1e-6, 5, 12, 20, 35, 41.0, 42.5, 48, 55, 70, 80] + ([] if quick else [2, 25, 41.8, 45, 62, 75, 85])):
        for ph in np.arange(4) * np.pi / 2 + (0.3 if th else 0):
            for s in (-1, 1):
                dirs.append((np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), s * np.cos(th)))
            if th == 0:
                break
    P = np.array([p for p in pts for _ in dirs])
    D = np.array([d for _ in pts for d in dirs])
    return P, D


def media_pairs(B):
    M = alpha.media(B)
    M["neg"] = B.ConstMedium(1.0003)
    return M


def idx(m, wl):
    return np.asarray(m.getN(wl)) * np.ones_like(wl)


def refscreen(d, n, sag, gx, gy):
    P = np.stack([gx, gy, np.zeros_like(gx)], -1)
    cn = np.sum(d * n, -1, keepdims=True)
    tang = d - cn * n + P - np.sum(P * n, -1, keepdims=True) * n
    return tang + np.sign(cn) * np.sqrt(1 - np.sum(tang**2, -1, keepdims=True)) * n


def run(c, B):
    np.seterr(all='ignore')
    c.method = "product surface x medium pair x incidence x wavelength x frame on the native kernels, with reversal steps"
    c.assume("normals and landing points are those the surface itself reports (judged by C05 and C06)")
    S = alpha.surfaces(B)
    M = media_pairs(B)
    P, D = incidence(c.quick)
    N = len(P)
    wls = np.array([330e-9, 500e-9, 622e-9, 1150e-9])
    pairs = list(itertools.product(M, M))
    F = alpha.frames(B)
    for name, (s, _) in S.items():
        if not c.want(name):
            continue
        with c.case(name):
            z = s.sag(P[:, 0], P[:, 1])
            on = np.stack([P[:, 0], P[:, 1], z], 1)
            for (a, b) in pairs:
                m1, m2 = M[a], M[b]
                for rev, (start, wi) in itertools.product((0,), ((2.0, 0), (0.0, 1), (-0.5, 2)) if c.quick else itertools.product((2.0, 0.0, -0.5), range(3))):
                    key = f"{name}/{a}-{b}/s{start}w{wi}"
                    wl = wls[(np.arange(N) + wi) % 4]
                    n1, n2 = idx(m1, wl), idx(m2, wl)
                    v = D / n1[:, None]
                    p0 = on - D * start
                    t0 = 0.1 * np.arange(N) % 1.0
                    flux = 1.0 + np.arange(N) % 3
                    vig = np.arange(N) % 4 == 1

                    def mk(pp=p0, vv=v, tt=t0, **kw):
                        return B.RayVector(*pp.T, *vv.T, tt, wl, flux, vig, **kw)
                    it = s.intersect(mk())
                    ok = ~it.failed
                    r, t = it.r, it.t
                    nrm = s.normal(r[:, 0], r[:, 1])
                    ca = np.sum(D * nrm, 1)
                    ok &= np.abs(ca) > 1e-6
                    c.state_rows((name, a, b, start), np.hstack([p0, v, wl[:, None] * 1e9]))
                    wd, tir = ref.refract(v, nrm, n1, n2)
                    s2 = (n1 / n2)**2 * (1 - ca**2)
                    border = np.abs(s2 - 1) < 1e-9
                    # ---- refraction
                    out = s.refract(mk(), m1, m2)
                    c.trans(N)
                    go = ok & ~tir & ~border
                    c.outcome("refracted", go.sum())
                    c.outcome("tir", (ok & tir).sum())
                    c.close(key + "#refr-fail", out.failed[ok & ~border], tir[ok & ~border], msg="total internal reflection <=> failed")
                    c.close(key + "#refr-vig", out.vignetted[ok & ~border], (tir | vig)[ok & ~border], msg="vignetting after refraction")
                    c.close(key + "#refr-v", out.v[go], wd[go], 1e-10 / 1e-0, msg="refracted velocity (Snell)")
                    c.close(key + "#refr-speed", np.linalg.norm(out.v[go], axis=1) * n2[go], np.ones(go.sum()), 1e-12, msg="speed in the new medium")
                    c.close(key + "#refr-r", out.r[go], r[go], 1e-11, msg="refracted ray leaves from the intersection point")
                    c.close(key + "#refr-t", out.t[go], t[go], 1e-11, msg="refracted ray leaves at the intersection time")
                    c.close(key + "#refr-wl", out.wavelength, wl, msg="wavelength")
                    c.close(key + "#refr-flux", out.flux, flux, msg="flux")
                    # ---- reverse refraction
                    bk = B.RayVector(*(out.r + 0.01 * out.v * n2[:, None]).T, *(-out.v).T, 0.0, wl, flux, False, ~go)
                    bk = s.refract(bk, m2, m1)
                    c.trans(N)
                    # only where retracing lands on the same point (curved surfaces may be hit twice)
                    same = go & ~bk.failed & (np.linalg.norm(bk.r - r, axis=1) < 1e-6) & (np.abs(s2 - 1) > 1e-4)
                    c.close(key + "#refr-rev", bk.v[same], -v[same], 1e-7, msg="reversed refracted ray does not retrace")
                    if type(s).__name__ in ("Plane", "Tilted"):
                        c.true(key + "#refr-revall", np.all(same[go & (np.abs(s2 - 1) > 1e-4)]), "reversed refracted rays lost")
                    c.trace(int(same.sum()))
                    # ---- reflection (does not depend on m2)
                    if b == "vac" or not c.quick:
                        out = s.reflect(mk())
                        c.trans(N)
                        wv = ref.reflect(v, nrm)
                        c.close(key + "#refl-fail", out.failed[ok], np.zeros(ok.sum(), bool), msg="reflected rays failed")
                        c.close(key + "#refl-vig", out.vignetted[ok], vig[ok], msg="vignetting after reflection")
                        c.close(key + "#refl-v", out.v[ok], wv[ok], 1e-11, msg="mirror law")
                        c.close(key + "#refl-r", out.r[ok], r[ok], 1e-11, msg="reflected ray leaves from the intersection point")
                        c.close(key + "#refl-t", out.t[ok], t[ok], 1e-11, msg="reflected ray leaves at the intersection time")
                        c.close(key + "#refl-wl", out.wavelength, wl, msg="wavelength")
                        c.close(key + "#refl-flux", out.flux, flux, msg="flux")
                        bk = B.RayVector(*(out.r + 0.01 * out.v * n1[:, None]).T, *(-out.v).T, 0.0, wl, flux, False, ~ok)
                        bk = s.reflect(bk)
                        same = ok & ~bk.failed & (np.linalg.norm(bk.r - r, axis=1) < 1e-6)
                        c.close(key + "#refl-rev", bk.v[same], -v[same], 1e-8, msg="reversed reflected ray does not retrace")
                        c.trans(N)
                        c.trace(int(same.sum()))
            # ---- frames
            for (fa, A), (fb, C) in itertools.product(F.items(), F.items()):
                wl = wls[np.arange(N) % 4]
                n1, n2 = idx(M["vac"], wl), idx(M["sellmeier"], wl)
                p0, v = on - 1.5 * D, D / n1[:, None]
                pa = (C.origin + p0 @ C.rot.T - A.origin) @ A.rot
                va = v @ C.rot.T @ A.rot
                for what in ("reflect", "refract", "screen"):
                    def go(rv, cs):
                        if what == "reflect":
                            return s.reflect(rv, coordSys=cs)
                        if what == "refract":
                            return s.refract(rv, M["vac"], M["sellmeier"], coordSys=cs)
                        return s.refractScreen(rv, S["zernike"][0], coordSys=cs)
                    x = go(B.RayVector(*pa.T, *va.T, 0.25, wl, coordSys=A), C)
                    y = go(B.RayVector(*p0.T, *v.T, 0.25, wl, coordSys=C), None)
                    c.trans(2 * N)
                    k = f"{name}/frame-{fa}-{fb}-{what}"
                    c.true(k + "#cs", x.coordSys == C and y.coordSys == C, "frame of the outgoing rays")
                    ang = np.abs(np.sum(D * s.normal(y.x, y.y), 1)) > 0.05
                    g = ~x.failed & ~y.failed & ang
                    # rays within rounding of a boundary may differ; well-conditioned ones may not
                    c.true(k + "#fail", np.mean(x.failed == y.failed) > 0.97, "different rays fail in a different frame")
                    c.close(k + "#r", x.r[g], y.r[g], 1e-8, msg="position")
                    c.close(k + "#v", x.v[g], y.v[g], 1e-8, msg="velocity")
                    c.close(k + "#t", x.t[g], y.t[g], 1e-8, msg="time")
            # ---- phase screens
            for sc, (q, _) in S.items():
                for n1 in (1.0, 1.5):
                    for start in (2.0, 0.0, -0.5):
                        key = f"{name}/screen-{sc}/n{n1}s{start}"
                        wl = wls[np.arange(N) % 4]
                        v, p0 = D / n1, on - D * start
                        vig = np.arange(N) % 4 == 1
                        it = s.intersect(B.RayVector(*p0.T, *v.T, 0.5, wl, 2.0, vig))
                        r, t = it.r, it.t
                        nrm = s.normal(r[:, 0], r[:, 1])
                        qn = q.normal(r[:, 0], r[:, 1])
                        gx, gy = -qn[:, 0] / qn[:, 2], -qn[:, 1] / qn[:, 2]
                        h = q.sag(r[:, 0], r[:, 1])
                        wd = refscreen(D, nrm, h, gx, gy)
                        ok = ~it.failed & np.all(np.isfinite(wd), 1) & (np.abs(np.sum(D * nrm, 1)) > 0.05) & np.isfinite(h) \
                            & (np.abs(np.sum(wd * nrm, 1)) > 0.02) & (np.hypot(r[:, 0], r[:, 1]) < 3.2)
                        out = s.refractScreen(B.RayVector(*p0.T, *v.T, 0.5, wl, 2.0, vig), q)
                        c.trans(N)
                        c.outcome("screened", ok.sum())
                        c.close(key + "#v", out.v[ok], wd[ok] / n1, 1e-8, msg="screen deflection")
                        c.close(key + "#t", out.t[ok], (t + h)[ok], 1e-11, msg="screen delay")
                        c.close(key + "#r", out.r[ok], r[ok], 1e-11, msg="position on the screen")
                        c.close(key + "#flags", out.vignetted[ok], vig[ok], msg="vignetting")
                        c.true(key + "#fail", not np.any(out.failed[ok]), "ray failed at a screen")
                        c.close(key + "#flux", out.flux, np.full(N, 2.0), msg="flux")
                        c.close(key + "#wl", out.wavelength, wl, msg="wavelength")
                        bk = B.RayVector(*(out.r + 0.01 * out.v).T, *(-out.v).T, 0.0, wl, 1.0, False, ~ok)
                        bk = s.refractScreen(bk, q)
                        same = ok & ~bk.failed & (np.linalg.norm(bk.r - r, axis=1) < 1e-6)
                        c.close(key + "#rev", bk.v[same], -v[same], 1e-6, msg="reversed ray through a phase screen does not retrace")
                        c.trace(int(same.sum()))
    c.sample({"surfaces": list(S), "media": list(M), "rays": N, "pairs": len(pairs)})
