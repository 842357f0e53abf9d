"""C01 - thread/schedule independence, explored on the real native code.

The native extension is compiled with access instrumentation and linked to mc/schedrt.cpp, so every
OpenMP region runs as coroutines under our scheduler.  For every operation we enumerate
  * team sizes 1..4(6) x every order in which the workers run to completion (all T! permutations),
  * every single preemption: at every instrumented memory access of a run, to every other worker,
  * every pair of preemptions for short runs,
and require the bit pattern of every output to equal that of one worker.  In addition every run is
watched by a vector-clock happens-before detector: two accesses of different workers to overlapping
bytes, one a write, with no synchronisation between them, are a violation, whatever the results.
"""
import ctypes
import itertools
import math

import numpy as np

import alpha

VARIANT = "sched"


class Sched:
    def __init__(self, B):
        self.B = B
        self.lib = ctypes.CDLL(B._batoid.__file__)
        self.out = (ctypes.c_long * 9)()
        self.nruns = 0

    def run(self, T, order, pre, fn):
        import batoid.global_vars as gv
        gv._batoid_max_threads = T
        n = len(order)
        o = (ctypes.c_int * max(1, n))(*order)
        k = len(pre)
        pp = (ctypes.c_long * max(1, k))(*[p for p, _ in pre])
        pt = (ctypes.c_int * max(1, k))(*[t for _, t in pre])
        self.lib.mc_begin(o, n, pp, pt, k)
        try:
            res = fn()
        finally:
            self.lib.mc_end(self.out)
            gv._batoid_max_threads = 1
        self.nruns += 1
        return res, list(self.out)

    def conflict(self):
        b = (ctypes.c_ulong * 7)()
        self.lib.mc_conflict(0, b)
        return list(b)


def bits(res):
    out = []
    for a in res:
        a = np.ascontiguousarray(a)
        if a.dtype.kind in "fc":
            a = a.astype(a.dtype)
            f = a.view(float) if a.dtype.kind == "c" else a
            f = f.copy()
            f[np.isnan(f)] = np.nan          # one NaN
            a = f
        out.append((a.shape, a.tobytes()))
    return out


def rvout(rv):
    return [getattr(rv, f).copy() for f in alpha.FIELDS + alpha.FLAGS]


def operations(B, quick):
    S = alpha.surfaces(B)
    M = alpha.media(B)
    O = alpha.obscurations(B)
    fr = alpha.frames(B)
    ar = B.SimpleCoating(0.03, 0.9)
    screen = S["zernike"][0]
    ops = {}

    def op(name, fn, exact=True):
        ops[name] = (fn, exact)

    def two(t):
        return rvout(t[0]) + rvout(t[1])

    for sn, (s, _) in S.items():
        op(f"intersect/{sn}", lambda rv, s=s: rvout(s.intersect(rv, coordSys=fr["shift"])))
        op(f"reflect/{sn}", lambda rv, s=s: rvout(s.reflect(rv, coordSys=fr["shift"])))
        op(f"refract/{sn}", lambda rv, s=s: rvout(s.refract(rv, M["vac"], M["const"], coordSys=fr["rotx"])))
        op(f"rSplit/{sn}", lambda rv, s=s: two(s.rSplit(rv, M["vac"], M["sellmeier"], ar, coordSys=fr["shift"])))
        op(f"screen/{sn}", lambda rv, s=s: rvout(s.refractScreen(rv, screen, coordSys=fr["shift"])))
    for sn in ("plane", "asphere", "sum"):
        s = S[sn][0]
        op(f"intersectC/{sn}", lambda rv, s=s: rvout(s.intersect(rv, coating=ar)))
        op(f"reflectC/{sn}", lambda rv, s=s: rvout(s.reflect(rv, coating=ar)))
        op(f"refractC/{sn}", lambda rv, s=s: rvout(s.refract(rv, M["vac"], M["const"], coating=ar)))
    for scn in ("plane", "asphere", "bicubic", "sum"):
        op(f"screenkind/{scn}", lambda rv, q=S[scn][0]: rvout(S["plane"][0].refractScreen(rv, q)))
    for a in M:
        op(f"refractM/vac-{a}", lambda rv, a=a: rvout(S["sphere+"][0].refract(rv, M["vac"], M[a])))
        op(f"refractM/{a}-vac", lambda rv, a=a: rvout(S["sphere+"][0].refract(rv, M[a], M["vac"])))
        op(f"rSplitM/{a}-vac", lambda rv, a=a: two(S["sphere+"][0].rSplit(rv, M[a], M["vac"], ar)))
    for on, o in O.items():
        op(f"obscure/{on}", lambda rv, o=o: rvout(o.obscure(rv)))
    for fn, f in fr.items():
        ct = B.CoordTransform(fr["mix"], f)

        def fwd(rv, ct=ct, m=fr["mix"]):
            rv.coordSys = m
            return rvout(ct.applyForward(rv))

        def rev(rv, ct=ct):
            return rvout(ct.applyReverse(rv))

        def arrs(rv, ct=ct, which=None):
            from batoid import trace
            x, y, z = rv.x.copy(), rv.y.copy(), rv.z.copy()
            which(ct, x, y, z)
            return [x, y, z]
        op(f"forward/{fn}", fwd)
        op(f"reverse/{fn}", rev)
        from batoid import trace
        if hasattr(trace, "applyForwardTransformArrays"):
            op(f"forwardA/{fn}", lambda rv, g=arrs: g(rv, which=trace.applyForwardTransformArrays))
            op(f"reverseA/{fn}", lambda rv, g=arrs: g(rv, which=trace.applyReverseTransformArrays))
    op("propagate", lambda rv: rvout(rv.propagate(3.7)))
    op("positionAtTime", lambda rv: [rv.positionAtTime(-1.25)])
    op("phase", lambda rv: [rv.phase(np.array([0.1, 0.2, 0.3]), 0.7)])
    op("amplitude", lambda rv: [rv.amplitude(np.array([0.1, 0.2, 0.3]), 0.7)])
    op("sumAmplitude", lambda rv: [np.array([rv.sumAmplitude(np.array([0.1, 0.2, 0.3]), 0.7)])], exact=False)
    op("sumAmplitudeV", lambda rv: [np.array([rv.sumAmplitude(np.array([0., 0.2, 0.3]), 0.1, ignoreVignetted=False)])],
       exact=False)

    def chain(rv):
        rv = S["sphere-"][0].refract(rv, M["vac"], M["const"], coordSys=fr["shift"])
        rv = S["asphere"][0].refract(rv, M["const"], M["vac"], coordSys=fr["id"])
        O["annulus"].obscure(rv)
        rv.propagate(9.0)
        return rvout(rv) + [np.array([rv.sumAmplitude(np.zeros(3), 9.0)])]
    op("chain", chain, exact=False)
    # a second operation on the same objects must not depend on what the first one left behind
    return ops


def run(c, B):
    c.method = ("stateless exploration of the real native code under a controlled scheduler "
                "(all worker orders; all single preemptions at every memory access; all pairs for short runs) "
                "plus happens-before conflict detection in every schedule")
    c.assume("OpenMP workers interleave at instrumented memory accesses (sequential consistency); "
             "library calls (libm, memcpy) are atomic steps")
    S = Sched(B)
    ops = operations(B, c.quick)
    totals = dict(schedules=0, preempted=0, conflicts=0, regions=0, sync=0, accesses=0, maxteam=0)
    seeds = {}

    def explore(name, fn, exact, n, seed, T, order, pre, base):
        key = f"{name}/n{n}s{seed}/T{T}/o{''.join(map(str, order))}/p{'_'.join(f'{a}.{b}' for a, b in pre) or '-'}"
        try:
            res, st = S.run(T, order, pre, lambda: fn(alpha.mixed_rays(B, n, seed)))
        except Exception as e:      # noqa
            c.fail(f"{name}#raised:{type(e).__name__}", f"{key}: {type(e).__name__}: {e}")
            return None
        totals["schedules"] += 1
        totals["preempted"] += st[5]
        totals["regions"] += st[1]
        totals["sync"] += st[4]
        totals["accesses"] += st[7]
        totals["maxteam"] = max(totals["maxteam"], st[8])
        c.trans()
        if st[3]:
            totals["conflicts"] += 1
            cf = S.conflict()
            c.fail(f"{name}#conflict", f"{key}: unsynchronised conflicting accesses by workers {cf[3]} and {cf[4]} "
                                       f"to the same memory (writes: {cf[5]},{cf[6]})", schedule=key)
        b = bits(res)
        if base is None:
            return b, res, st
        if b != base[0]:
            same = not exact and all(
                r.shape == q.shape and np.allclose(r, q, rtol=1e-9, atol=1e-9 * (1 + n), equal_nan=True)
                for r, q in zip(res, base[1]))
            if not same:
                i = [k for k, (p, q) in enumerate(zip(b, base[0])) if p != q]
                c.fail(f"{name}#result", f"{key}: result differs from the single-worker run (outputs {i})",
                       schedule=key, got=res[i[0]] if i else None, want=base[1][i[0]] if i else None)
        return b, res, st

    sizes = [0, 1, 2, 3, 4, 5, 7] + [64, 257] + ([1000] if not c.quick else [])
    Tmax = 4 if c.quick else 6
    for name, (fn, exact) in ops.items():
        c.beat(name)
        if not c.want(name):
            continue
        # --- division of the work and worker order
        for n in sizes:
            base = explore(name, fn, exact, n, 3, 1, (0,), (), None)
            if base is None:
                break
            c.state(name, n, base[0].__repr__())
            for T in range(1, Tmax + 1):
                if n > 7:
                    perms = [tuple(range(T)), tuple(reversed(range(T)))]
                elif T <= 3 or n in (4, 5, 7):
                    perms = list(itertools.permutations(range(T)))
                    if T > 4:
                        perms = perms[:: max(1, len(perms) // 24)] + [perms[-1]]
                else:
                    perms = [tuple(range(T)), tuple(reversed(range(T)))]
                for p in perms:
                    if explore(name, fn, exact, n, 3, T, p, (), base) is None:
                        break
            c.trace()
        # --- preemptions
        plans = [(2, 2, 0), (2, 2, 1)] + ([(3, 3, 6)] if c.quick else [(3, 3, 6), (2, 3, 1), (2, 4, 4), (4, 4, 5)])
        for T, n, seed in plans:
            base = explore(name, fn, exact, n, seed, 1, (0,), (), None)
            if base is None:
                break
            for order in ([tuple(range(T))] if c.quick else [tuple(range(T)), tuple(reversed(range(T)))]):
                r = explore(name, fn, exact, n, seed, T, order, (), base)
                if r is None:
                    break
                N = r[2][0]
                # a schedule replayed is the same schedule: same steps, same accesses, same bits
                q = explore(name, fn, exact, n, seed, T, order, ((max(1, N // 2), T - 1),), base)
                q2 = explore(name, fn, exact, n, seed, T, order, ((max(1, N // 2), T - 1),), base)
                if q and q2:
                    totals["replayed"] = totals.get("replayed", 0) + 1
                    totals["replayed_identically"] = totals.get("replayed_identically", 0) + int((q[2][0], q[2][1], q[2][5], q[2][7]) == (q2[2][0], q2[2][1], q2[2][5], q2[2][7]) and q[0] == q2[0])
                stride = 1
                cap = 700 if c.quick else 6000
                if N * (T - 1) > cap:
                    # every access is still covered as a conflict candidate by the detector; preemption
                    # points beyond the cap are taken with a fixed stride and the run is not called exhaustive
                    stride = math.ceil(N * (T - 1) / cap)
                    c.extra.setdefault("preemption_points_strided", {})[f"{name}/T{T}n{n}"] = [N, stride]
                for s in range(1, N + 1, stride):
                    for t in range(T):
                        if explore(name, fn, exact, n, seed, T, order, ((s, t),), base) is None:
                            break
                if T == 2 and N <= (40 if c.quick else 160):
                    for s1, s2 in itertools.combinations(range(1, N + 1), 2):
                        for t1, t2 in ((0, 1), (1, 0)):
                            explore(name, fn, exact, n, seed, T, order, ((s1, t1), (s2, t2)), base)
            c.trace()
    c.extra["schedules"] = totals
    c.outcome("schedules", totals["schedules"])
    c.outcome("preemptions_taken", totals["preempted"])
    c.outcome("parallel_regions", totals["regions"])
    c.sample({"operations": sorted(ops)})
    c.sample({"sizes": sizes, "teams": list(range(1, Tmax + 1))})
    if totals["maxteam"] < 2 and totals["schedules"]:
        c.extra["note"] = "no parallel region ran with more than one worker"
