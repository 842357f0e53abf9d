"""C29 - an operation cut short leaves nothing behind: every operation of C24's alphabet ended by an exception at every line of the package
it executes; oracle = the public state of every object and of the process before it, and the results of operations alone in fresh processes."""
import contextlib
import importlib.util
import io
import linecache
import os
import warnings

import numpy as np

import points as P


def _load(n):
    sp = importlib.util.spec_from_file_location(n + "_cut", os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


C28 = _load("c28")
C24, HEAVY = C28.C24, C28.HEAVY | {"parse"}


class Cut(KeyboardInterrupt):
    pass


class Full(MemoryError):
    pass


def run(c, B):
    with contextlib.redirect_stdout(io.StringIO()) as noise:
        explore(c, B)
    del noise


def explore(c, B):
    c.method = "exhaustive fault injection on the real library: an exception at every executed line of every operation; oracle = state before, and each operation alone"
    B.global_vars._batoid_max_threads = 1
    np.seterr(all="warn")
    warnings.filterwarnings("ignore", category=RuntimeWarning)
    root = os.path.dirname(os.path.abspath(B.__file__))
    O = C24.ops(B)
    names = list(O)
    letters = [(0, n, q) for n in names for q in (0, 1)]
    with c.case("alone"):
        base = C24.alone(B, O, letters, lambda v: C24.world(B, v))
        for l, d in base.items():
            c.true(f"alone:{l}", not d.startswith(b"!"), "the operation fails on a fresh system: " + d[:300].decode("latin1"))
    visits = 1 if c.quick else 4
    probes = [("trace:T", 0), ("full:F", 0), ("items", 1), ("spot", 1), ("surf:bic", 0), ("zernikeGQ", 0), ("pickle", 0), ("draw", 0), ("withShift", 1), ("asSpokes", 1), ("media", 0), ("masks", 0), ("project", 0)]

    def leaving(s, k):
        """the moment before a with block's own clean-up: Python itself gives no protection there"""
        f, first, i, line = s.seen[k]
        return linecache.getline(f, line).lstrip().startswith("with ") and any(g == f and a == first and m == line and j < i for g, a, j, m in set(s.seen))

    def work(job, report):
        kind, (v, n, q), exc = job
        A = lambda W: O[n](W, q)
        W0 = C24.world(B, v)
        f0 = C24.fp(B, W0, "", {})
        ks, s = P.points(root, lambda: A(W0), visits)
        ks = [k for k in ks if not leaving(s, k)]
        label = f"{n}.{q}"
        old = C24.world(B, v)                                             # lives through all the interruptions

        def die(fr):
            raise (Cut if exc == 0 else Full)()

        def same(W, b, key, k, what):
            try:
                d = C24.digest(B, O[b[0]](W, b[1]))
                e = None
            except Exception as x:
                d, e = None, repr(x)
            if d != base[v, b[0], b[1]]:
                report("fail", key, what + (f": {e}" if e else ""), dict(at=P.where(s, k), event=k))
        done = 0
        for j, k in enumerate(ks):
            for W, life in ((C24.world(B, v), "new"), (old, "old")):
                st = P.Stop(root, die, k)
                try:
                    st.run(lambda: A(W))
                    swallowed = True
                except (Cut, Full):
                    swallowed = False
                except Exception:                                         # cleaning up may replace the exception
                    swallowed = False
                if not st.fired:
                    continue
                if swallowed and exc == 0:
                    report("fail", f"cut:{label}:{life}#swallowed", "an interruption from the keyboard is swallowed", dict(at=P.where(s, k), event=k))
                if life == "new":
                    df = C24.diff(f0, C24.fp(B, W, "", {}))
                    if df:
                        report("fail", f"cut:{label}#world:{df[0]}", "an operation that was cut short leaves shared objects different", dict(at=P.where(s, k), event=k, changed=df))
                    same(W, (n, q), f"cut:{label}:{life}#again", k, "another result after the operation was cut short")
                    p = probes[j % len(probes)]
                    same(W, p, f"cut:{label}:{life}#{p[0]}", k, "another result after some operation was cut short")
                    same(W, (n, 1 - q), f"cut:{label}:{life}#other", k, "another result after the operation was cut short") if n not in HEAVY else None
                done += 1
        for p in probes + [(n, q), (n, 1 - q)]:
            same(old, p, f"cut:{label}:old#{p[0]}.{p[1]}", ks[-1] if ks else 0, "another result after many interruptions") if ks else None
        df = C24.diff(f0, C24.fp(B, old, "", {}))
        if df:
            report("fail", f"cut:{label}:old#world:{df[0]}", "objects differ after many interruptions", dict(changed=df))
        report("trans", 2 * done)
        report("trace", done)
        report("state", label)
        report("outcome", ("interrupted", "out of memory")[exc], done)

    jobs = [("cut", l, 0) for l in letters if not c.quick or l[2] == 0 or l[1] not in HEAVY]
    if not c.quick:
        jobs += [("cut", l, 1) for l in letters]
    P.spread(c, sorted(jobs, key=lambda j: j[1][1] not in HEAVY | {"fft", "dthdr", "drdth"}), work)
    for n in names:
        c.state(n)
