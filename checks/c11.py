"""C11 - refractive indices: exhaustive medium x wavelength lattices (nodes, end points, floating-point neighbours), every
calling form and table element type, and the same index as seen by traced rays."""
import glob
import itertools
import os
import pickle
import tempfile
from fractions import Fraction as F

import numpy as np

L = np.longdouble


def ask(c, key, m, lam, want, rtol=1e-13):
    """every calling form gives want(lam)"""
    lam = np.asarray(lam, float)
    want = np.asarray(want, float)
    got = np.asarray(m.getN(lam))
    c.close(key, got, want, rtol=rtol, msg="index differs from the dispersion formula", lam=lam)
    c.trans()
    if not len(lam):
        return
    for i in range(len(lam)):
        s = m.getN(float(lam[i]))
        c.true(key + "#scalar", np.ndim(s) == 0 and (s == got[i] or (np.isnan(s) and np.isnan(got[i]))), "scalar query differs from array query", lam=lam[i])
        c.trans()
    eq = lambda a, b: np.array_equal(np.asarray(a), b, equal_nan=True)
    c.true(key + "#list", eq(m.getN(list(lam)), got), "list query differs from array query")
    c.true(key + "#2d", eq(m.getN(lam.reshape(-1, 1)), got.reshape(-1, 1)), "2-d query differs from 1-d query")
    c.true(key + "#rev", eq(m.getN(lam[::-1]), got[::-1]), "reversed (strided) query differs")
    c.true(key + "#rep", eq(m.getN(np.repeat(lam, 2)[::2]), got), "strided query differs")
    c.true(key + "#F", eq(m.getN(np.asfortranarray(np.stack([lam, lam]))), np.stack([got, got])), "Fortran-ordered query differs")
    c.true(key + "#again", eq(m.getN(lam), got), "asking twice gives two answers")
    c.trans(6)


def traced(c, B, key, m, lam, want):
    """rays entering the medium travel at 1/n of their own wavelength"""
    ok = np.isfinite(want)
    lam, want = np.asarray(lam, float)[ok], np.asarray(want, float)[ok]
    n = len(lam)
    if not n:
        return
    for s in (B.Plane(), B.Sphere(50.0)):
        rv = B.RayVector(np.linspace(-.1, .1, n), 0.05, 1.0, 0.0, 0.01, -np.sqrt(1 - 1e-4), wavelength=lam)
        s.refract(rv, B.ConstMedium(1.0), m)
        c.true(key + "#trace-failed", not np.any(rv.failed), "an ordinary ray failed entering the medium")
        sp = np.sqrt(np.sum(rv.v**2, -1))
        c.close(key + "#trace", 1 / sp, want, rtol=1e-11, msg="speed of refracted rays is not c/n at the ray's own wavelength", lam=lam)
        # at normal incidence leaving the medium restores c
        c.trans()
    vs = B.RayVector(0.0, 0.0, 1.0, 0.0, 0.0, -1 / want, wavelength=lam)
    B.Plane().refract(vs, m, B.ConstMedium(1.0))
    c.close(key + "#leave", vs.v, np.stack([0 * lam, 0 * lam, -np.ones(n)], 1), rtol=1e-12, atol=1e-12, msg="leaving the medium does not restore the vacuum speed")
    c.trans()


def nbrs(xs):
    out = []
    for x in xs:
        out += [np.nextafter(x, 0), x, np.nextafter(x, 1)]
    return np.unique(out)


def table_ref(w, v, lam):
    w, v = [F(float(q)) for q in w], [F(float(q)) for q in v]
    out = []
    for x in lam:
        x = F(float(x))
        if x < w[0] or x > w[-1]:
            out.append(np.nan)
            continue
        for i in range(1, len(w)):
            if x <= w[i]:
                out.append(float(v[i - 1] + (v[i] - v[i - 1]) * (x - w[i - 1]) / (w[i] - w[i - 1])))
                break
    return np.array(out)


def tables(c, B):
    for size in range(2, 5 if c.quick else 7):
        grids = {"uni": np.arange(size) * 100e-9 + 300e-9, "uneven": 350e-9 + 1e-9 * np.cumsum(np.arange(size)**2 * 7.0 + 1), "int": np.arange(1, size + 1, dtype=float)}
        for gn, w in grids.items():
            mids = [w[i] + (w[i + 1] - w[i]) * f for i in range(size - 1) for f in (0.25, 0.5, 0.75)]
            lam = np.concatenate([nbrs(w), mids, [w[0] * 0.9, w[-1] * 1.1, w[-1] * 50, 1e-30, -w[0], 0.0]])
            for vals in itertools.product((1, 1.5, 2), repeat=size):
                key = f"table:{gn}:{'/'.join(map(str, vals))}"
                with c.case(key):
                    want = table_ref(w, vals, lam)
                    m = B.TableMedium(w, np.array(vals, float))
                    ask(c, key, m, lam, want) if sum(map(float, vals)) % 1 == 0 else c.close(key, m.getN(lam), want, rtol=1e-13, msg="index differs from linear interpolation", lam=lam)
                    # nodes are reproduced, end points included
                    c.close(key + "#nodes", m.getN(w), np.array(vals, float), rtol=1e-15, msg="a table node is not reproduced")
                    c.state(key)
                    c.trans(2)
                    c.trace()
    # element types and layouts of the table
    w = np.array([1, 2, 4, 7])
    v = np.array([1, 2, 3, 2])
    lam = np.array([1.0, 1.5, 2.0, 3.0, 4.0, 5.5, 7.0, 0.5, 7.5])
    want = table_ref(w, v, lam)
    forms = {"int": (w, v), "int32": (w.astype('i4'), v.astype('i4')), "f4": (w.astype('f4'), v.astype('f4')), "list": (list(map(int, w)), list(map(int, v))),
             "tuple": (tuple(w), tuple(v)), "big-endian": (w.astype('>f8'), v.astype('>f8')), "strided": (np.repeat(w, 3)[::3] * 1.0, np.repeat(v, 2)[::2] * 1.0),
             "reversed-view": (np.array([7., 4, 2, 1])[::-1], np.array([2., 3, 2, 1])[::-1]), "column": (np.stack([w, v], 1)[:, 0] * 1.0, np.stack([w * 1., v], 1)[:, 1]),
             "ro": (np.array(w, float), np.array(v, float))}
    forms["ro"][0].setflags(write=False)
    forms["ro"][1].setflags(write=False)
    for fn, (a, b) in forms.items():
        key = "tableform:" + fn
        with c.case(key):
            m = B.TableMedium(a, b)
            ask(c, key, m, lam, want)
            ask(c, key + "#pickle", pickle.loads(pickle.dumps(m)), lam, want)
            c.state(key)
            c.trace()
    with c.case("tableform:alias"):
        a, b = np.array([1., 2, 4, 7]), np.array([1., 2, 3, 2])
        m = B.TableMedium(a, b)
        a[:] = 0
        b[:] = 9
        ask(c, "tableform:alias", m, lam, want)
    with c.case("tableform:gc"):
        import gc
        ms = [B.TableMedium(np.array([1., 2, 4, 7]), np.array([1., 2, 3, 2]) + i) for i in range(50)]
        gc.collect()
        junk = [np.full(4, 77.0) for _ in range(200)]
        for i, m in enumerate(ms):
            c.close("tableform:gc", m.getN(lam), want + i, rtol=1e-13, msg="the table does not keep its data alive")
            c.trans()
    with c.case("table:traced"):
        traced(c, B, "table:traced", B.TableMedium(forms["ro"][0] * 1e-7, forms["ro"][1]), nbrs(w[1:3] * 1e-7).tolist() + [2.5e-7, 1e-7, 7e-7], table_ref(w * 1e-7, v, nbrs(w[1:3] * 1e-7).tolist() + [2.5e-7, 1e-7, 7e-7]))


def files(c, B):
    for f in sorted(glob.glob(os.path.join(B.datadir, "**", "*.txt"), recursive=True)):
        try:
            d = np.loadtxt(f)
        except ValueError:
            continue
        if d.ndim != 2 or d.shape[1] != 2 or "media" not in f:
            continue
        for arg in (f, os.path.basename(f)):
            key = "file:" + os.path.basename(f) + ("" if arg == f else ":byname")
            with c.case(key):
                m = B.TableMedium.fromTxt(arg)
                w = d[:, 0] * 1e-6
                lam = np.concatenate([w, w[:-1] + 0.5 * np.diff(w), [w[0] * .99, w[-1] * 1.01]])
                want = np.interp(lam, w, d[:, 1], left=np.nan, right=np.nan)
                c.close(key, m.getN(lam), want, rtol=1e-13, msg="index differs from the file")
                c.state_rows(key, np.stack([lam, want], 1))
                c.trans(len(lam))
                c.trace()
    with tempfile.TemporaryDirectory() as td, c.case("file:custom"):
        p = os.path.join(td, "m.csv")
        open(p, "w").write("# lambda,n\n0.3,1.5\n0.5,1.4\n1,1.3\n")
        m = B.TableMedium.fromTxt(p, delimiter=',')
        lam = np.array([0.3e-6, 0.4e-6, 0.5e-6, 0.75e-6, 1e-6])
        c.close("file:custom", m.getN(lam), [1.5, 1.45, 1.4, 1.35, 1.3], rtol=1e-12, msg="index differs from the file")
    with c.case("file:missing"):
        try:
            B.TableMedium.fromTxt("no_such_file_anywhere.txt")
            c.fail("file:missing", "a missing table file is silently accepted")
        except FileNotFoundError:
            pass
        c.trans(2)


def run(c, B):
    np.seterr(all='ignore')
    c.method = "exhaustive medium x wavelength lattices on the real native code, formulas in extended precision / exact rationals"
    lam = np.concatenate([np.linspace(0.3e-6, 2.5e-6, 45), nbrs([0.4e-6, 0.5e-6, 0.6328e-6, 1e-6]), [0.2e-6, 5e-6]])
    lx = lam.astype(L) * 10**6
    for n in (1.0, 1, 1.5, 2, 0.9, 3.3):
        with c.case(f"const:{n}"):
            m = B.ConstMedium(n)
            ask(c, f"const:{n}", m, lam, np.full(len(lam), float(n)), rtol=0)
            traced(c, B, f"const:{n}", m, lam, np.full(len(lam), float(n)))
            c.state("const", n)
            c.trace()
    sell = [(0.6961663, 0.4079426, 0.8974794, 0.0046791, 0.0135121, 97.9340025), (1.03961212, 0.231792344, 1.01046945, 0.00600069867, 0.0200179144, 103.560653),
            (0.5675888, 0.4710914, 3.8484723, 0.00252643, 0.01007833, 1200.556), (1.0, 0.0, 0.0, 0.01, 0.02, 100.0), (0.0, 1.0, 0.0, 0.01, 0.02, 100.0), (0, 0, 1, 0, 0, 100)]
    for i, co in enumerate(sell):
        x = lx**2
        want = np.sqrt(1 + sum(L(b) * x / (x - L(q)) for b, q in zip(co[:3], co[3:])))
        kw = dict(zip(['B1', 'B2', 'B3', 'C1', 'C2', 'C3'], co))
        for fn, mk in {"args": lambda: B.SellmeierMedium(*co), "tuple": lambda: B.SellmeierMedium(co), "list": lambda: B.SellmeierMedium(list(co)),
                       "array": lambda: B.SellmeierMedium(np.array(co)), "kw": lambda: B.SellmeierMedium(**dict(reversed(list(kw.items())))),
                       "pickle": lambda: pickle.loads(pickle.dumps(B.SellmeierMedium(*co)))}.items():
            key = f"sellmeier{i}:{fn}"
            with c.case(key):
                m = mk()
                ask(c, key, m, lam, want, rtol=1e-12)
                traced(c, B, key, m, lam, want)
                c.state_rows(key, np.stack([lam, want.astype(float)], 1))
                c.trace()
    sumi = [(2.2377, -0.0098, 0.0126, 0.0004, -1e-5, 1e-6), (3.0, 0, 0, 0, 0, 0), (2.0, 0.01, 0, 0, 0, 0), (2.0, 0, 0.02, 0, 0, 0), (2.0, 0, 0, 0.003, 0, 0), (2.0, 0, 0, 0, 0.0004, 0),
            (2.0, 0, 0, 0, 0, 0.00005), (2.6859, -0.01, 0.02, 0.0008, 3e-5, 2e-6)]
    for i, co in enumerate(sumi):
        x = lx**2
        want = np.sqrt(L(co[0]) + L(co[1]) * x + sum(L(co[k]) * x**(-(k - 1)) for k in range(2, 6)))
        kw = dict(zip(['A0', 'A1', 'A2', 'A3', 'A4', 'A5'], co))
        for fn, mk in {"args": lambda: B.SumitaMedium(*co), "tuple": lambda: B.SumitaMedium(co), "array": lambda: B.SumitaMedium(np.array(co)), "kw": lambda: B.SumitaMedium(**dict(reversed(list(kw.items())))),
                       "pickle": lambda: pickle.loads(pickle.dumps(B.SumitaMedium(*co)))}.items():
            key = f"sumita{i}:{fn}"
            with c.case(key):
                m = mk()
                ask(c, key, m, lam, want, rtol=1e-12)
                traced(c, B, key, m, lam, want)
                c.state_rows(key, np.stack([lam, want.astype(float)], 1))
                c.trace()
    P0, T0, W0 = 69.328, 293.15, 1.067
    for P, T, W in itertools.product((P0, 0.0, 50.0, 101.325), (T0, 273.15, 250.0, 288.15), (W0, 0.0, 3.0)):
        key = f"air:{P}:{T}:{W}"
        with c.case(key):
            p, t, w = L(P) * L(7.50061683), L(T) - L(273.15), L(W) * L(7.50061683)
            s2 = 1 / lx**2
            n = (64.328 + L(29498.1) / (146 - s2) + L(255.4) / (41 - s2)) * L(1e-6)
            n = n * p * (1 + (L(1.049) - L(0.0157) * t) * L(1e-6) * p) / (L(720.883) * (1 + L(0.003661) * t))
            n = n - (L(0.0624) - L(0.000680) * s2) / (1 + L(0.003661) * t) * w * L(1e-6)
            ms = [B.Air(P, T, W), B.Air(pressure=P, temperature=T, h2o_pressure=W), pickle.loads(pickle.dumps(B.Air(P, T, W)))]
            if (P, T, W) == (P0, T0, W0):
                ms.append(B.Air())
            if (T, W) == (T0, W0):
                ms.append(B.Air(P))
            for m in ms:
                # n-1 ~ 1e-4: compare the refractivity itself
                c.close(key, np.asarray(m.getN(lam)) - 1, n.astype(float), atol=1e-15, rtol=1e-10, msg="refractivity of air differs from Filippenko (1982)")
                ask(c, key, m, lam, (1 + n).astype(float))
            traced(c, B, key, ms[0], lam, (1 + n).astype(float))
            c.state_rows(key, np.stack([lam, n.astype(float)], 1))
            c.trace()
    tables(c, B)
    files(c, B)
    c.extra["bounds"] = "tables of 2-4 (6) nodes with all value patterns over {1,1.5,2} on 3 node spacings; 6 Sellmeier, 8 Sumita, 48 air states x 59 wavelengths; 6 calling forms"
