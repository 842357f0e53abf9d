"""C21 - derivative analyses: the product of system x field x projection x wavelength x sampling, each compared with an independent fit or
difference quotient of traced rays, with the symplectic relation between them, and with Gaussian optics where it is exact."""
import itertools
import os

import numpy as np

import importlib.util
import ref
import systems as S

_sp = importlib.util.spec_from_file_location("c20_systems", os.path.join(os.path.dirname(os.path.abspath(__file__)), "c20.py"))
C20 = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(C20)
PROJ = C20.PROJ
FIELD = dict(C20.FIELD, fold=0.004, fold2=0.004, flipped=0.003, refractor=0.01)


def optics(B, quick):
    out = C20.optics(B, quick)
    v = B.ConstMedium(1.0)
    st = B.Interface(B.Plane(), name="stop")
    # Newtonian: the flat fold flips the parity of the image
    m = B.Mirror(B.Paraboloid(3.0), name="M", inMedium=v)
    f = B.Mirror(B.Plane(), name="F", inMedium=v, coordSys=B.CoordSys().shiftGlobal([0, 0, 1.2]).rotateLocal(B.RotX(np.pi / 4)))
    # +z after the primary becomes +y or -y after the fold
    d = B.CoordSys().shiftGlobal([0, 0.3, 1.2]).rotateLocal(B.RotX(np.pi / 2))
    d2 = B.CoordSys().shiftGlobal([0, 0.3, 1.2]).rotateLocal(B.RotX(-np.pi / 2)).rotateLocal(B.RotZ(0.4))
    for nm, dd in (("fold", d), ("fold2", d2)):
        out[nm] = B.CompoundOptic([m, f, B.Detector(B.Plane(), name="D", inMedium=v, coordSys=dd)], name=nm, stopSurface=st, backDist=5.0, sphereRadius=1.5, pupilSize=0.1, inMedium=v)
    # detector seen from its back
    out["flipped"] = out["cass"].withLocallyRotatedOptic("cass.D", B.RotX(np.pi))
    # a thin-lens-like refractor with the stop well in front of it
    g = B.ConstMedium(1.5)
    l1 = B.RefractiveInterface(B.Sphere(-2.0), name="a", inMedium=v, outMedium=g, coordSys=B.CoordSys().shiftGlobal([0, 0, -0.3]))
    l2 = B.RefractiveInterface(B.Sphere(3.0), name="b", inMedium=g, outMedium=v, coordSys=B.CoordSys().shiftGlobal([0, 0, -0.32]))
    out["refractor"] = B.CompoundOptic([B.Lens([l1, l2], name="L"), B.Detector(B.Plane(), name="D", inMedium=v, coordSys=B.CoordSys().shiftGlobal([0, 0, -2.71]))],
                                       name="refractor", stopSurface=st, backDist=1.0, sphereRadius=2.0, pupilSize=0.05, inMedium=v)
    out["moved2"] = out["refractor"].withGlobalShift([-1.0, 0.5, 2.0]).withLocalRotation(B.RotY(-0.7) @ B.RotZ(0.3))
    FIELD["moved2"] = 0.01
    return out


def polar(B, o, d, wl, nrad, naz):
    a = B.RayVector.asPolar(optic=o, wavelength=wl, dirCos=d, nrad=nrad, naz=naz)
    r = a.copy()
    o.trace(r)
    return a, r


def cos(B, th, proj):
    return B.utils.fieldToDirCos(*th, projection=proj)


def kvec(r, wl):
    v = np.asarray(r.v)
    return 2 * np.pi / wl * v / np.sum(v * v, axis=1)[:, None]


def close(c, key, got, want, rel, msg):
    got, want = np.asarray(got, float), np.asarray(want, float)
    c.true(key, got.shape == want.shape and np.all(np.abs(got - want) <= rel * np.max(np.abs(want))), msg, got=got, want=want)


def jacobians(c, B, name, o, quick):
    A = B.analysis
    f = FIELD[name]
    ths = [(0.0, 0.0), (f, -0.6 * f), (-0.3 * f, 0.8 * f), (0.0, f)][:3 if quick else 4]
    for (fi, th), proj, wl, (nrad, naz) in itertools.product(enumerate(ths), PROJ, (6.2e-7, 4.9e-7) if quick else (6.2e-7, 4.9e-7, 8.1e-7), ((6, 36), (3, 12)) if quick else ((6, 36), (3, 12), (4, 20), (10, 60))):
        if (wl != 6.2e-7 or nrad != 6) and proj != "gnomonic":
            continue
        key = f"{name}:{fi}:{proj}:{wl}:{nrad}:{naz}"
        kw = dict(projection=proj)
        if (nrad, naz) != (6, 36):
            kw.update(nrad=nrad, naz=naz)
        d = cos(B, th, proj)
        a, r = polar(B, o, d, wl, nrad, naz)
        w = ~np.asarray(r.vignetted)
        if w.sum() < 5:
            c.outcome("vignetted")
            continue
        c.state(key)
        with c.case("dkdu:" + key):
            J = A.dkdu(o, *th, wl, **kw)
            u = np.asarray(a.r)[w]
            M = np.column_stack([np.ones(len(u)), u[:, 0], u[:, 1]])
            want = np.linalg.lstsq(M, kvec(r, wl)[w][:, :2], rcond=None)[0][1:]
            close(c, f"dkdu:{key}#fit", J, want, 1e-5, "not the linear dependence of the outgoing wave vector on the pupil coordinate")
            # difference quotient about the central ray
            h = 0.02 * o.pupilSize
            v0 = np.asarray(a.v)[0]
            pts = np.array([[h, 0], [-h, 0], [0, h], [0, -h]])
            # a ray of the same wavefront, displaced within it
            s = np.asarray(B.RayVector.fromStop(0.0, 0.0, optic=o, wavelength=wl, dirCos=d).r)[0]
            z = s[2] - (pts @ v0[:2]) / v0[2]
            rv = B.RayVector(s[0] + pts[:, 0], s[1] + pts[:, 1], z, *v0, wavelength=wl, coordSys=a.coordSys)
            o.trace(rv)
            k = kvec(rv, wl)
            if not np.asarray(rv.failed).any():
                q = np.array([(k[0] - k[1])[:2], (k[2] - k[3])[:2]]) / (2 * h)
                close(c, f"dkdu:{key}#quotient", J, q, {"LSST_r": 0.1, "singlet": 0.12}.get(name, 0.04), "far from the difference quotient of neighbouring rays")
            c.trans(2)
        with c.case("drdth:" + key):
            D = A.drdth(o, *th, wl, **kw)
            h = 2e-5
            cols = []
            for e in ((h, 0), (0, h)):
                p = polar(B, o, cos(B, (th[0] + e[0], th[1] + e[1]), proj), wl, nrad, naz)[1]
                m = polar(B, o, cos(B, (th[0] - e[0], th[1] - e[1]), proj), wl, nrad, naz)[1]
                cols.append((np.mean(np.asarray(p.r)[w], axis=0) - np.mean(np.asarray(m.r)[w], axis=0))[:2] / (2 * h))
            want = np.array(cols).T
            close(c, f"drdth:{key}#quotient", D, want, 2e-4, "not the derivative of the mean image position with respect to the field angle")
            I = A.dthdr(o, *th, wl, **kw)
            close(c, f"dthdr:{key}", I, np.linalg.inv(want), 4e-4, "not the derivative of the field angle with respect to the image position")
            F = A.focalLength(o, *th, wl, **kw)
            c.close(f"focal:{key}", F, np.sqrt(abs(np.linalg.det(want))), atol=0, rtol=4e-4, msg="not the focal length of the mapping from angle to position")
            if (th == (0.0, 0.0) and name not in ("singlet",)) and (nrad, naz) == (6, 36):
                # at a focus, phase space is preserved: (dk/du)(dr/dk0) = -1
                J = A.dkdu(o, *th, wl, **kw)
                P = J @ D * wl / 2 / np.pi
                # directions of the incoming wave in the frame in which the pupil coordinate is given
                close(c, f"symplectic:{key}", P, -np.eye(2), 0.04 if name not in ("LSST_r", "DECam") else 0.1, "pupil and angle derivatives are not conjugate")
            c.trans(4)
        c.trace()
    # documented defaults
    th = ths[1]
    for nm, fn in (("dkdu", A.dkdu), ("drdth", A.drdth), ("dthdr", A.dthdr), ("focalLength", A.focalLength)):
        with c.case(f"defaults:{nm}:{name}"):
            before = S.snapshot(o)
            x, y = fn(o, *th, 6.2e-7), fn(o, *th, 6.2e-7, nrad=6, naz=36, projection="postel")
            c.close(f"defaults:{nm}:{name}", x, y, atol=0, rtol=1e-9, msg="leaving the options out is not the same as giving their defaults")
            c.true(f"unchanged:{nm}:{name}", S.snapshot(o) == before, "the analysis changed the optic")
            c.trans(2)
    c.outcome("jacobians:" + name)


# ------------------------------------------------------------------ Gaussian optics
def rigid(o):
    return ref.Frame(o.coordSys.origin, o.coordSys.rot)


def paraxial(c, B, O, quick):
    # (exit pupil on the axis, focal length) from Gaussian optics, in the optic's own frame
    fl = 1 / (0.5 * (1 / 2.0 + 1 / 3.0) - 0.5**2 * 0.02 / (1.5 * 2.0 * 3.0))

    def lens_image():
        # stop at z=0 seen through the lens at -0.3, -0.32 (light going down)
        n1, n2, R1, R2, t = 1.0, 1.5, 2.0, -3.0, 0.02
        s = -0.3
        s1 = n2 / ((n2 - n1) / R1 + n1 / s)
        s2 = 1 / ((1.0 - n2) / R2 + n2 / (s1 - t))
        return -0.32 - s2
    table = {"para": (0.0, 1.5), "cass": (0.7 + 1 / (2 / 0.84 + 1 / 0.7), 3.5), "refractor": (lens_image(), fl), "flipped": (0.7 + 1 / (2 / 0.84 + 1 / 0.7), 3.5)}
    for n, (ep, F) in table.items():
        o = O[n]
        for a in (np.deg2rad(1 / 3600), 1e-4, 5e-5):
            key = f"gauss:exit:{n}:{a:.3g}"
            with c.case(key):
                p = B.analysis.exitPupilPos(o, 6.2e-7, smallAngle=a)
                c.close(key, p, [0, 0, ep], atol=2e-4, msg="exit pupil is not the image of the stop in the optics behind it")
                c.trans()
                c.state(key)
        key = f"gauss:focal:{n}"
        with c.case(key):
            c.close(key, B.analysis.focalLength(o, 0.0, 0.0, 6.2e-7), F, atol=0, rtol=3e-3, msg="focal length disagrees with Gaussian optics")
            c.trans()
            c.state(key)
    for a in (np.deg2rad(1 / 3600), 1e-4):
        for n in ("fold", "fold2"):
            key = f"gauss:exit:{n}:{a:.3g}"
            with c.case(key):
                # the exit pupil is the primary, seen in the fold; lines that left the axis approach it closest at the fold
                p = B.analysis.exitPupilPos(O[n], 6.2e-7, smallAngle=a)
                c.true(key, np.all(np.isfinite(p)), "exit pupil of a folded system", got=p)
                c.trans()
                c.state(key)


def line_closest(P, u, Q, v):
    """point of line P+su closest to line Q+tv, by projection"""
    v = v / np.linalg.norm(v)
    uu = u - v * (u @ v)
    w = Q - P
    w = w - v * (w @ v)
    return P + u * (w @ uu) / (uu @ uu)


def exits(c, B, O, quick):
    for n, o in O.items():
        for proj, wl, a in itertools.product(PROJ, (6.2e-7, 4.9e-7), (2e-4, 1e-4)):
            if (wl != 6.2e-7 or a != 2e-4) and proj != "postel":
                continue
            key = f"exit:{n}:{proj}:{wl}:{a}"
            with c.case(key):
                kw = {} if proj == "postel" and a == 1e-4 else dict(projection=proj)
                g = B.analysis.exitPupilPos(o, wl, smallAngle=a, **kw)
                ps = []
                f = rigid(o)
                bad = False
                for th in ((0, a), (0, -a), (a, 0), (-a, 0)):
                    # a plane wave's ray through the centre of the stop
                    r = B.RayVector.fromStop(0.0, 0.0, optic=o, wavelength=wl, dirCos=cos(B, th, proj))
                    o.trace(r)
                    bad |= bool(r.failed[0])
                    h = ref.Frame(r.coordSys.origin, r.coordSys.rot)
                    ps.append(line_closest(h.o + h.R @ np.asarray(r.r)[0], h.R @ np.asarray(r.v)[0], f.o, f.R[:, 2]))
                if bad:
                    c.outcome("lost")
                    continue
                w = np.mean(ps, axis=0)
                c.close(key, g, w, atol=1e-4 * (1 + np.linalg.norm(w - f.o)), rtol=0, msg="not the mean closest approach of the traced chief rays to the optic's axis")
                c.trans()
                c.trace()
                c.state(key)
        with c.case(f"exit:unchanged:{n}"):
            before = S.snapshot(o)
            x = B.analysis.exitPupilPos(o, 6.2e-7)
            y = B.analysis.exitPupilPos(o, 6.2e-7, smallAngle=np.deg2rad(1 / 3600), projection="postel")
            c.close(f"exit:defaults:{n}", x, y, atol=1e-12, msg="defaults")
            c.true(f"exit:unchanged:{n}", S.snapshot(o) == before, "the analysis changed the optic")
    # moving a system as a whole moves its exit pupil with it and changes none of the derivatives
    rots = [B.RotX(0.4) @ B.RotZ(1.1), B.RotY(np.pi / 2), B.RotZ(np.pi / 2), B.RotX(np.pi)]
    for n in ("para", "cass", "misaligned", "refractor", "fold") + (() if quick else ("singlet", "HSC", "LSST_r")):
        o = O[n]
        f = FIELD[n]
        for ri, sh in itertools.product(range(len(rots)), ([0, 0, 0], [3.0, -2.0, 1.0])):
            key = f"rigid:{n}:{ri}:{sh}"
            with c.case(key):
                m = o.withGlobalShift(sh).withLocalRotation(rots[ri])
                for nm in ("dkdu", "drdth", "focalLength"):
                    fn = getattr(B.analysis, nm)
                    close(c, f"{key}#{nm}", fn(m, f, -0.4 * f, 6.2e-7), fn(o, f, -0.4 * f, 6.2e-7), 2e-4, "depends on where the system as a whole stands")
                p, q = B.analysis.exitPupilPos(o, 6.2e-7, smallAngle=2e-4), B.analysis.exitPupilPos(m, 6.2e-7, smallAngle=2e-4)
                F0, F1 = rigid(o), rigid(m)
                c.close(f"{key}#exit", q, F1.o + F1.R @ (F0.R.T @ (p - F0.o)), atol=2e-4, msg="exit pupil does not move with the system")
                c.trans(8)
                c.trace()
                c.state(key)
    c.outcome("exits")


def run(c, B):
    np.seterr(all='ignore')
    c.method = "exhaustive enumeration of system x field x projection x wavelength x sampling, each element compared with difference quotients of traced rays"
    O = optics(B, c.quick)
    for n, o in O.items():
        jacobians(c, B, n, o, c.quick)
    paraxial(c, B, O, c.quick)
    exits(c, B, O, c.quick)
    c.assume("difference quotients about the central ray agree with the pupil-averaged slope only within the system's aberrations (4-12%); the pupil fit itself is compared to 1e-5")
    c.assume("rays generated and traced as judged by C17 and C14")
    c.extra["bounds"] = "13 systems (17 thorough) incl. misaligned, folded, flipped, rotated x 3-4 fields x 6 projections x 2-3 wavelengths x 2-4 samplings; 8 rigid motions"
