"""C03 - frames: breadth-first exploration of frame-operation histories, and of chains of frame changes on rays and points,
in lock-step with a rigid-motion reference model (ref.Frame)."""
import itertools

import numpy as np

import alpha
import ref

I3 = np.eye(3)


def op_alphabet(B):
    """name -> (fn(real, others), fn(model, others)); 'others' = a fixed pair (real frame, model frame)"""
    sh = {"sx": [0.3, 0, 0], "sxyz": [-0.2, 0.5, 1.1]}
    ro = {"Rx": ((1, 0, 0), 0.3), "Ry": ((0, 1, 0), -1.1), "Rz": ((0, 0, 1), np.pi / 2), "R111": ((1 / np.sqrt(3),) * 3, 2.0)}
    ctr = [0.7, -0.4, 0.25]
    ops = {}
    for n, d in sh.items():
        for how in ("shiftGlobal", "shiftLocal"):
            for cast in (list, np.array):
                if cast is list and n == "sx":
                    continue
                ops[f"{how}({n},{cast.__name__})"] = (
                    lambda f, o, how=how, d=d, cast=cast: getattr(f, how)(cast(d)),
                    lambda f, o, how=how, d=d: getattr(f, how)(d))
    for n, (ax, th) in ro.items():
        M = ref.rot(ax, th)
        real = {"Rx": B.RotX, "Ry": B.RotY, "Rz": B.RotZ}.get(n, lambda th: ref.rot((1 / np.sqrt(3),) * 3, th))(th)
        for how in ("rotateGlobal", "rotateLocal"):
            ops[f"{how}({n})"] = (lambda f, o, how=how, R=real: getattr(f, how)(R),
                                  lambda f, o, how=how, M=M: getattr(f, how)(M))
            if n in ("Rx", "R111"):
                ops[f"{how}({n},ctr)"] = (lambda f, o, how=how, R=real: getattr(f, how)(R, ctr),
                                          lambda f, o, how=how, M=M: getattr(f, how)(M, ctr))
                ops[f"{how}({n},ctr,cs)"] = (lambda f, o, how=how, R=real: getattr(f, how)(R, np.array(ctr), o[0]),
                                             lambda f, o, how=how, M=M: getattr(f, how)(M, ctr, o[1]))
                ops[f"{how}({n},0,cs)"] = (lambda f, o, how=how, R=real: getattr(f, how)(R, coordSys=o[0]),
                                           lambda f, o, how=how, M=M: getattr(f, how)(M, cs=o[1]))
    return ops


def pts():
    p = [(0, 0, 0), (1, 0, 0), (0, -2, 0), (0, 0, 3), (0.3, -0.7, 1.9), (-1e3, 2e3, 5.0)]
    return np.array(p, float)


P = pts()


def check_frame(c, key, f, m, deep):
    ok = c.close(key + "#origin", f.origin, m.o, atol=1e-11, rtol=1e-12, msg="origin differs from the rigid motion")
    ok &= c.close(key + "#rot", f.rot, m.R, atol=1e-12, msg="axes differ from the rigid motion")
    ok &= c.close(key + "#orthonormal", np.asarray(f.rot).T @ np.asarray(f.rot), I3, atol=1e-12, msg="axes not orthonormal")
    if not deep:
        return ok
    c.close(key + "#hats", np.stack([f.xhat, f.yhat, f.zhat]), m.R.T, atol=1e-12, msg="xhat/yhat/zhat")
    G = P @ m.R.T + m.o
    c.close(key + "#toGlobal", f.toGlobal(P), G, atol=1e-9, rtol=1e-12, msg="toGlobal")
    c.close(key + "#toLocal", f.toLocal(G), P, atol=1e-9, rtol=1e-12, msg="toLocal")
    c.close(key + "#toGlobal1", f.toGlobal(P[4]), G[4], atol=1e-11, msg="toGlobal of one point")
    c.close(key + "#toLocal1", f.toLocal(list(G[4])), P[4], atol=1e-11, msg="toLocal of one point")
    c.trans(4)
    return ok


def bfs(c, B, depth):
    ops = op_alphabet(B)
    start = [("0", B.CoordSys(), ref.Frame()),
             ("1", B.CoordSys(np.array([1., 2., 3.]), B.RotY(0.4)), ref.Frame([1, 2, 3], ref.rot((0, 1, 0), 0.4)))]
    other = (B.CoordSys(np.array([-0.6, 0.9, 0.1]), B.RotZ(1.2) @ B.RotX(-0.8)),
             ref.Frame([-0.6, 0.9, 0.1], ref.rot((0, 0, 1), 1.2) @ ref.rot((1, 0, 0), -0.8)))
    o0 = (other[0].origin.copy(), other[0].rot.copy())
    keep = []
    level = start
    for d in range(depth + 1):
        nxt = []
        for key, f, m in level:
            c.state("f", f.origin, f.rot)
            with c.case("frame:" + key):
                good = check_frame(c, "frame:" + key, f, m, d <= max(2, depth - 1))
                if d == depth or not good:
                    c.trace()
                    continue
                before = (np.array(f.origin), np.array(f.rot))
                for name, (fr, fm) in ops.items():
                    c.trans()
                    nxt.append((key + "." + name, fr(f, other), fm(m, other)))
                c.true("frame:" + key + "#mutated", np.array_equal(before[0], f.origin) and np.array_equal(before[1], f.rot),
                       "a frame derivation changed the frame it was derived from")
        if d <= 2:
            keep += level if d < 2 else level[::7]
        level = nxt
    c.true("frame#center-frame-mutated", np.array_equal(o0[0], other[0].origin) and np.array_equal(o0[1], other[0].rot),
           "the frame in which a rotation centre was given was changed")
    return keep


def gpos(rv, m):
    r = np.stack([rv.x, rv.y, rv.z], -1) @ m.R.T + m.o
    v = np.stack([rv.vx, rv.vy, rv.vz], -1) @ m.R.T
    return r, v


REST = ("t", "wavelength", "flux", "vignetted", "failed")


def same_rays(c, key, rv, m, G, V, rest, f):
    r, v = gpos(rv, m)
    c.close(key + "#pos", r, G, atol=1e-12, rtol=1e-12, msg="global position changed by a change of frame")
    c.close(key + "#vel", v, V, atol=1e-12, rtol=1e-12, msg="global velocity changed by a change of frame")
    for q in REST:
        c.true(key + "#" + q, np.array_equal(getattr(rv, q), rest[q], equal_nan=True), f"{q} changed by a change of frame")
    c.true(key + "#frame", np.array_equal(rv.coordSys.origin, f.origin) and np.array_equal(rv.coordSys.rot, f.rot),
           "the rays do not carry the frame they were taken to")


def chains(c, B, frames, depth, n):
    """all chains of frame changes over the frame alphabet, for rays"""
    for k0, f0, m0 in frames:
        base = alpha.mixed_rays(B, n, coordSys=f0)
        G, V = gpos(base, m0)
        rest = {q: np.array(getattr(base, q)) for q in REST}
        level = [("rays:" + k0, base)]
        for d in range(depth):
            nxt = []
            for key, rv in level:
                for k1, f1, m1 in frames:
                    kk = f"{key}>{k1}"
                    with c.case(kk):
                        s0 = alpha.snap(rv)
                        a = rv.copy()
                        out = a.toCoordSys(f1)
                        c.true(kk + "#ret", out is a, "toCoordSys does not return the batch it re-expresses")
                        same_rays(c, kk, a, m1, G, V, rest, f1)
                        b = B.RayVector.toCoordSys(rv.copy(), f1) if d == 0 else None
                        tr = B.CoordTransform(rv.coordSys, f1)
                        e = B.applyForwardTransform(tr, rv.copy())
                        same_rays(c, kk + "#fwd", e, m1, G, V, rest, f1)
                        tb = B.CoordTransform(f1, rv.coordSys)
                        g = tb.applyReverse(rv.copy())
                        same_rays(c, kk + "#rev", g, m1, G, V, rest, f1)
                        h = B.applyReverseTransform(tr, tr.applyForward(rv.copy()))
                        c.close(kk + "#round", alpha.snap(h), s0, atol=1e-12, rtol=1e-12, msg="there and back is not the identity")
                        c.true(kk + "#alias", np.array_equal(alpha.snap(rv), s0, equal_nan=True), "a copy shares memory with its source")
                        c.trans(6)
                        c.state("r", alpha.snap(a))
                        c.trace()
                        nxt.append((kk, a))
            level = nxt


def points(c, B, frames):
    """array forms for every ordered pair of frames and every array shape"""
    shapes = {"scalar": lambda a: float(a[4]), "1d": lambda a: a, "list": lambda a: list(a), "empty": lambda a: a[:0],
              "2d": lambda a: a.reshape(2, 3), "F": lambda a: np.asfortranarray(a.reshape(3, 2)),
              "strided": lambda a: np.repeat(a, 2)[::2], "int": lambda a: np.round(a).astype(int), "3d": lambda a: a.reshape(1, 2, 3)}
    for (k0, f0, m0), (k1, f1, m1) in itertools.product(frames, frames):
        tr = B.CoordTransform(f0, f1)
        key = f"points:{k0}>{k1}"
        with c.case(key):
            for sn, sf in shapes.items():
                x, y, z = sf(P[:, 0]), sf(P[:, 1]), sf(P[:, 2])
                A = np.array([x, y, z], float)
                flat = A.reshape(3, -1)
                glob = m0.R @ flat + m0.o[:, None]
                want = (m1.R.T @ (glob - m1.o[:, None])).reshape(A.shape)
                kk = f"{key}:{sn}"
                got = tr.applyForwardArray(x, y, z)
                c.close(kk + "#fwd", got, want, atol=1e-9, rtol=1e-12, msg="applyForwardArray")
                back = tr.applyReverseArray(*got)
                c.close(kk + "#rev", back, A, atol=1e-9, rtol=1e-12, msg="applyReverseArray does not undo applyForwardArray")
                q = B.CoordTransform(f1, f0).applyReverseArray(x, y, z)
                c.close(kk + "#inv", q, want, atol=1e-9, rtol=1e-12, msg="the transform the other way round, reversed")
                c.trans(3)
                if sn in ("1d", "empty"):
                    xx, yy, zz = (np.array(w, float) for w in (x, y, z))
                    B.trace.applyForwardTransformArrays(tr, xx, yy, zz)
                    c.close(kk + "#ip", np.stack([xx, yy, zz]), want, atol=1e-9, rtol=1e-12, msg="applyForwardTransformArrays")
                    B.trace.applyReverseTransformArrays(tr, xx, yy, zz)
                    c.close(kk + "#ipr", np.stack([xx, yy, zz]), A, atol=1e-9, rtol=1e-12, msg="applyReverseTransformArrays")
                    c.trans(2)
                c.state("p", got)
                c.trace()


def carry(c, B, frames, n):
    """operations taking coordSys= carry rays into that frame: the global outcome cannot depend on it"""
    S = {k: v[0] for k, v in alpha.surfaces(B).items() if k in ("plane", "quad-hyper", "zernike")}
    m = B.ConstMedium(1.3)
    obs = B.ObscCircle(1.2)
    for sn, s in S.items():
        for (ks, fs, ms), (kr, fr, mr) in itertools.product(frames, frames):
            key = f"carry:{sn}:{ks}:{kr}"
            with c.case(key):
                base = alpha.mixed_rays(B, n, coordSys=fs)
                other = base.copy().toCoordSys(fr)
                for on, fn in (("intersect", lambda r: s.intersect(r, coordSys=fs)),
                               ("reflect", lambda r: s.reflect(r, coordSys=fs)),
                               ("refract", lambda r: s.refract(r, B.ConstMedium(1.0), m, coordSys=fs)),
                               ("obscure", None)):
                    if on == "obscure":
                        a, b = obs.obscure(base.copy()), B.obscure(obs, other.copy().toCoordSys(fs))
                    else:
                        a, b = fn(base.copy()), fn(other.copy())
                    A, Bb = alpha.snap(a), alpha.snap(b)
                    gone = np.array(a.failed)
                    A, Bb = A[~gone], Bb[~gone]
                    c.true(f"{key}:{on}#failed", np.array_equal(gone, b.failed), f"{on}: which rays fail depends on the frame they came in")
                    c.close(f"{key}:{on}", Bb, A, atol=1e-8, rtol=1e-9, msg=f"{on} depends on the frame rays came in")
                    c.true(f"{key}:{on}#frame", b.coordSys == a.coordSys, "resulting frame")
                    c.trans(2)
                    c.state("c", A)
                c.trace()


def run(c, B):
    np.seterr(all='ignore')
    c.method = "BFS over frame-operation histories and frame-change chains on the real CoordSys/CoordTransform/RayVector, lock-step with rigid-motion model"
    keep = bfs(c, B, 3 if c.quick else 4)
    frames = keep[:2] + keep[2::4]
    c.extra["frames"] = len(frames)
    k0 = [keep[0], keep[1]] + keep[5:2 + 40:7]
    chains(c, B, k0[:6 if c.quick else 8], 3 if c.quick else 4, 13)
    for n in (0, 1, 2):
        chains(c, B, k0[:4], 2, n)
    # nearly coincident frames: rotations and shifts of every magnitude about a common frame
    near = [keep[1]]
    for e in (1e-3, 1e-5, 1e-6, 1e-7, 1e-8, 1e-10):
        for n, o, R in ((f"rx{e:g}", (0, 0, 0), ref.rot((1, 0, 0), e)), (f"rz{e:g}", (0, 0, 0), ref.rot((0, 0, 1), -e)),
                        (f"s{e:g}", (0, e, 0), I3), (f"sz{e:g}", (0, 0, -e), I3)):
            _, f0, m0 = keep[1]
            o, R = np.asarray(f0.origin) + o, np.asarray(f0.rot) @ R
            near.append((n, B.CoordSys(o, R), ref.Frame(o, R)))
    chains(c, B, near[:9] if c.quick else near[:17], 2, 5)
    chains(c, B, near, 1, 13)
    points(c, B, near)
    points(c, B, frames[:14] if c.quick else frames)
    carry(c, B, k0[:5] if c.quick else k0, 33)
    c.extra["bounds"] = f"frame histories of depth {3 if c.quick else 4} over {len(op_alphabet(B))} operations from 2 start frames; ray chains of length {3 if c.quick else 4}"
    c.sample([k for k, _, _ in k0])
