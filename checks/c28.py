"""C28 - objects may be shared by Python threads: every operation of C24's alphabet interrupted at every line of the package it executes, by the
whole of another thread's operation on the same objects; oracle = each operation alone in a process of its own, and the public state
of all shared objects as another thread sees it at every one of these moments."""
import contextlib
import importlib.util
import io
import os
import warnings

import numpy as np

import points as P


def _load(n):
    sp = importlib.util.spec_from_file_location(n + "_sh", os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


C24 = _load("c24")
HEAVY = {"double", "compare", "exitpupil", "split:F"}
SCOPED = ("err", "print", "warn")                                         # restored by context managers of numpy and the standard library


def public(B, W):
    f = C24.fp(B, W, "", {})
    return {k: v for k, v in f.items() if not k.endswith(SCOPED)}


def glance(B, x):
    """what another thread can read of x in a moment: every public attribute of every part"""
    out = {}

    def see(x, path):
        t = type(x)
        if t is np.ndarray:
            out[path] = (x.shape, x.dtype.str, x.tobytes(), x.flags.writeable)
        elif t in (float, int, str, bool, type(None), np.float64, bytes):
            out[path] = x
        elif t in (list, tuple):
            out[path] = (t, len(x))
            for i, v in enumerate(x):
                see(v, f"{path}[{i}]")
        elif t is dict:
            out[path] = tuple(x)
            for k, v in list(x.items()):
                see(v, f"{path}[{k}]")
        elif t is B.RayVector:
            out[path] = (x._x.tobytes(), x._vx.tobytes(), x._t.tobytes(), x._flux.tobytes(), x._vignetted.tobytes(), x._failed.tobytes(), id(x.coordSys)) if hasattr(x, "_x") else C24.fp(B, x, "", {})[""]
        elif t is C24.Env:
            out.update({f"{path}.{k}": v for k, v in x.read().items() if k not in SCOPED})
        else:
            out[path] = t
            for k, v in list(vars(x).items()) if hasattr(x, "__dict__") else ():
                if k[0] != "_" and k not in C24.LAZY:
                    see(v, f"{path}.{k}")
    see(x, "")
    return {k: repr(v) if isinstance(v, float) else v for k, v in out.items()}


def run(c, B):
    with contextlib.redirect_stdout(io.StringIO()) as noise:
        explore(c, B)
    del noise


def explore(c, B):
    c.method = "stateless exploration of thread schedules of the real library under a controlled scheduler (line-level preemption points); oracle = each operation alone"
    B.global_vars._batoid_max_threads = 1
    np.seterr(all="warn")
    warnings.filterwarnings("ignore", category=RuntimeWarning)
    root = os.path.dirname(os.path.abspath(B.__file__))
    O = C24.ops(B)
    names = list(O)
    letters = [(v, n, q) for n in names for v, q in ((0, 0), (0, 1))]
    with c.case("alone"):
        base = C24.alone(B, O, letters, lambda v: C24.world(B, v))
        for l, d in base.items():
            c.true(f"alone:{l}", not d.startswith(b"!"), "the operation fails on a fresh system: " + d[:300].decode("latin1"))
    probe = [(0, n, 0) for n in ("trace:T", "asGrid", "items", "surf:sum", "masks")]
    visits = 1 if c.quick else 6

    def work(job, report):
        kind, (v, n, q), cuts = job
        A = lambda W: O[n](W, q)
        W0 = C24.world(B, v)
        f0 = public(B, W0)
        ks, s = P.points(root, lambda: A(W0), visits)
        label = f"{n}.{q}"
        if kind == "watch":
            W = C24.world(B, v)
            ks, s = P.points(root, lambda: A(W), 2 * visits)
            f0 = glance(B, W0)
            # one run, observed by another thread at every line
            W = C24.world(B, v)
            bad = {}

            class Watch(P.Stop):
                def local(self, fr, ev, arg):
                    if ev == "line":
                        i = self.n
                        self.n += 1
                        if i in todo:
                            got, e = P.other_thread(lambda: glance(B, W))
                            df = C24.diff(f0, got) if e is None else [repr(e)]
                            if df:
                                bad.setdefault(tuple(df), (i, f"{os.path.basename(fr.f_code.co_filename)}:{fr.f_lineno}"))
                    return self.local
            todo = set(ks)
            w = Watch(root)
            d = C24.digest(B, w.run(lambda: A(W)))
            for df, (i, at) in bad.items():
                report("fail", f"watch:{label}:{df[0]}", "while an operation runs, an object it shares with others is different", dict(at=at, event=i, changed=df))
            if d != base[v, n, q]:
                report("fail", f"watch:{label}#result", "another result while being watched", {})
            report("trans", len(ks))
            report("outcome", "moments watched", len(ks))
            report("trace", 1)
            return
        if kind == "cut1":
            fs = firsts(s, ks)
            for k in ks:
                first = k in fs
                others = [(0, n, 1 - q)]
                if first:
                    others += [(0, n, q)] + ([p for p in probe if p[1] != n] if not c.quick else [probe[k % len(probe)]])
                if not c.quick and first:
                    others += [(0, m, (i + k) % 2) for i, m in enumerate(names) if m not in HEAVY and m != n and m not in [p[1] for p in probe]]
                for i, b in enumerate(others):
                    if i < 2:                                             # the first two find nothing looked up yet, the rest find everything
                        W = C24.world(B, v)
                    box = []
                    st = P.Stop(root, lambda fr: box.append(P.other_thread(lambda: C24.digest(B, O[b[1]](W, b[2])))), k)
                    key = f"cut:{label}:{b[1]}.{b[2]}"
                    try:
                        r = st.run(lambda: A(W))
                        d = C24.digest(B, r)
                    except Exception as e:
                        report("fail", key + "#first", f"an operation fails when another thread runs in the middle of it: {e!r}", dict(at=P.where(s, k), event=k))
                        continue
                    if not st.fired:
                        continue
                    if d != base[v, n, q]:
                        report("fail", key + "#first", "another result when another thread runs in the middle of it", dict(at=P.where(s, k), event=k))
                    if box[0][1] is not None or box[0][0] != base[b]:
                        report("fail", key + "#second", f"another result in the middle of another thread's operation ({box[0][1]!r})", dict(at=P.where(s, k), event=k))
                    report("trans", 2)
                    report("trace", 1)
                df = C24.diff(f0, public(B, W)) if first else []
                if df:
                    report("fail", f"cut:{label}#world", "shared objects differ afterwards", dict(at=P.where(s, k), changed=df))
            report("state", f"cut:{label}")
            report("outcome", "one preemption", len(ks))
            return
        if kind == "cut2":
            # both threads are cut once: i lines of the first, j lines of the second, the first to its end, the second to its end
            b = (v, n, 1 - q)
            W0 = C24.world(B, v)
            js, s2 = P.points(root, lambda: O[n](W0, 1 - q), 1)
            ks = sorted(firsts(s, ks))
            cnt = 0
            for i in ks[cuts::4]:
                for j in js:
                    W = C24.world(B, v)
                    res = P.Relay(root).go([lambda: O[n](W, q), lambda: O[n](W, 1 - q)], [[i], [j]])
                    for t, want in ((0, base[v, n, q]), (1, base[b])):
                        r, e = res[t]
                        if e is not None or C24.digest(B, r) != want:
                            report("fail", f"cut2:{label}#{t}", f"another result when two threads interleave ({e!r})", dict(first=P.where(s, i), second=P.where(s2, j), events=[i, j]))
                    cnt += 1
                df = C24.diff(f0, public(B, W))
                if df:
                    report("fail", f"cut2:{label}#world", "shared objects differ afterwards", dict(changed=df))
            report("trans", 2 * cnt)
            report("trace", cnt)
            report("outcome", "two preemptions", cnt)

    def firsts(s, ks):
        seen, out = set(), set()
        for k in ks:
            if s.seen[k] not in seen:
                seen.add(s.seen[k])
                out.add(k)
        return out

    jobs = [("watch", l, 0) for l in letters] + [("cut1", l, 0) for l in letters if not c.quick or l[2] == 0 or l[1] not in HEAVY | {"parse"}]
    if not c.quick:
        jobs += [("cut2", (0, n, 0), k) for n in names if n not in HEAVY for k in range(4)]
    weight = lambda j: (j[1][1] not in HEAVY | {"parse", "fft", "dthdr", "drdth"}, j[0] != "cut2", j[0] == "watch")
    P.spread(c, sorted(jobs, key=weight), work)
    for n in names:
        c.state(n)
