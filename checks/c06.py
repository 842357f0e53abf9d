"""C06 - sag and normal of every surface kind over parameter grids, against closed-form references."""
import itertools

import numpy as np

import alpha
import ref


def tilted_wrong_grad(B, s):
    """slope that corresponds to the documented-but-wrong Tilted normal (known finding); None if no Tilted inside"""
    n = type(s).__name__
    if n == "Tilted":
        with np.errstate(all='ignore'):
            w = np.sqrt(1 - s.tanx**2 - s.tany**2)
        return lambda x, y: (np.full_like(x, s.tanx / w), np.full_like(x, s.tany / w))
    if n == "Sum":
        subs = [tilted_wrong_grad(B, q) for q in s.surfaces]
        if any(f is not None for f in subs):
            gs = [f or ref.Model(B, q).grad for f, q in zip(subs, s.surfaces)]

            def g(x, y):
                v = [h(x, y) for h in gs]
                return sum(a for a, _ in v), sum(b for _, b in v)
            return g
    return None


def universe(B, quick):
    U = {}
    U["plane"] = (B.Plane(), 3)
    for tx, ty in itertools.product((0.0, 0.1, -0.4), (0.0, -0.05, 0.3)):
        U[f"tilted/{tx},{ty}"] = (B.Tilted(tx, ty), 3)
    for R in (10.0, -8.0, 3.5, 1e4, 0.3, -1.0):
        U[f"sphere/{R}"] = (B.Sphere(R), min(3, 0.97 * abs(R)))
        U[f"para/{R}"] = (B.Paraboloid(R), 3)
        for k in (0.0, -1.0, -0.5, 0.6, 3.0, -1.001, -2.5, -30.0):
            rad = min(3, 0.97 * abs(R) / np.sqrt(1 + k)) if k > -1 else 3
            U[f"quadric/{R},{k}"] = (B.Quadric(R, k), rad)
    nmax = 5 if quick else 8
    for imin in (1, 2, 3, 4):
        for nc in range(0, nmax):
            for hot in [None] + list(range(nc)):
                co = [1e-3 / 2**i * (-1)**i for i in range(nc)] if hot is None else [2e-3 if i == hot else 0.0 for i in range(nc)]
                for R, k in ((10.0, -0.3), (-12.0, -1.7)):
                    U[f"asphere/{imin},{nc},{hot},{R}"] = (B.Asphere(R, k, co, imin=imin), 2)
    jmax = 28 if quick else 45
    for j in range(1, jmax + 1):
        for ro, ri in ((1.0, 0.0), (2.0, 0.5), (3.0, 1.8)):
            for tail in ((0,) if quick else (0, 3)):
                co = np.zeros(j + 1 + tail)
                co[j] = 0.1
                U[f"zernike/{j},{ro},{ri},{tail}"] = (B.Zernike(co, R_outer=ro, R_inner=ri), ro)
        co = 0.05 * np.cos(np.arange(j + 1))
        U[f"zernikeall/{j}"] = (B.Zernike(co, R_outer=2.0, R_inner=0.75, x_origin=0.2, y_origin=-0.4), 2)
        U[f"zernikelist/{j}"] = (B.Zernike(list(co), R_outer=2.0, x_origin=-0.3), 2)
    for nx, ny in itertools.product((2, 3, 4, 6), (2, 3, 5)):
        xs = np.linspace(-1.0, 2.0, nx)
        ys = np.linspace(-0.5, 1.5, ny)
        X, Y = np.meshgrid(xs, ys)
        Z = 0.1 * np.sin(2 * X) + 0.2 * np.cos(1.5 * Y) + 0.05 * X * Y
        dx, dy, dxy = 0.2 * np.cos(2 * X) + 0.05 * Y, -0.3 * np.sin(1.5 * Y) + 0.05 * X, np.full_like(X, 0.05)
        for pol in ("nan", "zero"):
            U[f"bicubic/{nx},{ny},given,{pol}"] = (B.Bicubic(xs, ys, Z, dx, dy, dxy, nanpolicy=pol), 2.2)
            U[f"bicubic/{nx},{ny},default,{pol}"] = (B.Bicubic(xs, ys, Z, nanpolicy=pol), 2.2)
        U[f"bicubic/{nx},{ny},partial"] = (B.Bicubic(list(xs), list(ys), Z.tolist(), dzdxs=dx), 2.2)
        U[f"bicubic/{nx},{ny},linear"] = (B.Bicubic(xs, ys, 0.3 * X - 0.2 * Y + 0.1), 2.2)
    A = {k: v[0] for k, v in alpha.surfaces(B).items()}
    for (a, s), (b, t) in itertools.product(A.items(), A.items()):
        U[f"sum/{a}+{b}"] = (B.Sum([s, t]), 2.5)
    for a, s in A.items():
        U[f"sum1/{a}"] = (B.Sum([s]), 2.5)
        U[f"sum3/{a}"] = (B.Sum(B.Plane(), s, A["para+"]), 2.5)
        U[f"add/{a}"] = (s + A["quad-hyper"] + A["zernike"], 2.5)
        U[f"nest/{a}"] = (B.Sum([B.Sum([s, A["asphere"]]), B.Sum([A["sphere-"], s])]), 2.0)
    for k, v in A.items():
        U[f"base/{k}"] = (v, 3.0)
    return U


def points(rad, quick):
    g = np.linspace(-1, 1, 9 if quick else 21)
    X, Y = np.meshgrid(g, g)
    x, y = X.ravel(), Y.ravel()
    th = np.linspace(0, 2 * np.pi, 13)[:-1] + 0.1
    for r in (1e-9, 0.3, 0.5, 0.77, 0.999):
        x, y = np.r_[x, r * np.cos(th)], np.r_[y, r * np.sin(th)]
    keep = np.hypot(x, y) <= 1.0000001 * np.sqrt(2)
    return x[keep] * rad, y[keep] * rad


def mag(s):
    """size of intermediate terms, for the rounding allowance"""
    n = type(s).__name__
    if n == "Sum":
        return sum(mag(q) for q in s.surfaces)
    if n == "Zernike":
        return 30 + len(s.coef)
    return 1 + abs(getattr(s, "R", 1.0))


def run(c, B):
    np.seterr(all='ignore')
    c.method = "product enumeration of surface parameters x positions against closed-form height and gradient"
    c.assume("annular Zernike reference by exact Gram-Schmidt; Hermite bicubic from node values and derivatives")
    U = universe(B, c.quick)
    for name, (s, rad) in U.items():
        if not c.want(name):
            continue
        with c.case(name):
            x, y = points(rad, c.quick)
            M = ref.Model(B, s)
            if name.startswith("bicubic/") or name.startswith("base/bicubic"):
                xs, ys = s.xs, s.ys
                # every node, cell centre and cell edge
                ex = np.unique(np.r_[xs, (xs[1:] + xs[:-1]) / 2, xs[:-1] + 0.3 * np.diff(xs)])
                ey = np.unique(np.r_[ys, (ys[1:] + ys[:-1]) / 2, ys[:-1] + 0.8 * np.diff(ys)])
                XX, YY = np.meshgrid(ex, ey)
                x, y = np.r_[x, XX.ravel()], np.r_[y, YY.ravel()]
            z = s.sag(x, y)
            n = s.normal(x, y)
            c.trans(2 * len(x))
            c.state_rows(name, np.stack([x, y], 1))
            c.true(name + "#shape", z.shape == x.shape and n.shape == x.shape + (3,), "shape of sag/normal")
            wz, wn = M.sag(x, y), M.normal(x, y)
            m = mag(s)
            inside = np.isfinite(wz)
            edge = np.zeros(len(x), bool)
            # on the table's rim or at a hair from a cell boundary either neighbour is right
            for q in [s] + list(getattr(s, "surfaces", [])) + [b for a in getattr(s, "surfaces", []) for b in getattr(a, "surfaces", [])]:
                if type(q).__name__ == "Bicubic":
                    for v, g in ((x, q.xs), (y, q.ys)):
                        edge |= np.abs(v - g[-1]) < 1e-9
                        edge |= np.abs(v - g[0]) < 1e-9
            cmp = inside & ~edge
            c.outcome("inside", cmp.sum())
            c.outcome("outside", (~inside).sum())
            c.close(name + "#sag", z[cmp], wz[cmp], atol=2e-14 * m, rtol=2e-13, msg="sag", x=x[cmp], y=y[cmp])
            c.true(name + "#sagout", np.all(~np.isfinite(z[~inside & ~edge])), "sag outside the domain must be undefined")
            on = inside & ~edge & np.all(np.isfinite(wn), axis=1)
            tw = tilted_wrong_grad(B, s)
            bad = np.max(np.abs(n - wn), axis=1)
            steep = 1 / np.maximum(np.abs(wn[:, 2]), 1e-3)
            tol = 1e-10 * m * steep
            if tw is not None and np.any(on & ~(bad <= tol)):
                gx, gy = tw(x, y)
                ww = np.stack([-gx, -gy, np.ones_like(gx)], -1)
                ww /= np.linalg.norm(ww, axis=1)[:, None]
                e2 = np.max(np.abs(n - ww), axis=1)
                same = np.all((e2 <= tol)[on] | (np.isnan(e2) & np.isnan(n[:, 0]))[on])
                c.fail("tilted-normal-documented-defect" if same else name + "#normal",
                       "normal is not perpendicular to the surface", got=n[on][:3], want=wn[on][:3])
            else:
                c.close(name + "#normal", n[on] / tol[on, None], wn[on] / tol[on, None], atol=1.0, msg="normal (in units of the tolerance)", x=x[on], y=y[on])
            if on.any() and not np.isnan(n[on]).any():
                c.close(name + "#unit", np.sum(n[on]**2, 1), np.ones(on.sum()), 1e-12, msg="normal length")
                c.true(name + "#up", np.all(n[on][:, 2] > 0), "normal does not point toward +z")
            if name.startswith("bicubic/") and "linear" in name:
                c.close(name + "#linear", z[cmp], (0.3 * x - 0.2 * y + 0.1)[cmp], 1e-12, msg="bicubic of a linear table is linear")
            if name.startswith("bicubic/"):
                if "given" not in name:
                    Z = s.zs
                    dx, dy = s.xs[1] - s.xs[0], s.ys[1] - s.ys[0]
                    c.close(name + "#dzdy", s.dzdys, np.gradient(Z, dy, axis=0), 1e-12, msg="default dz/dy")
                    if "partial" not in name:
                        c.close(name + "#dzdx", s.dzdxs, np.gradient(Z, dx, axis=1), 1e-12, msg="default dz/dx")
                    c.close(name + "#d2", s.d2zdxdys, np.gradient(np.gradient(Z, dy, axis=0), dx, axis=1), 1e-12, msg="default d2z/dxdy")
                XX, YY = np.meshgrid(s.xs[:-1], s.ys[:-1])
                c.close(name + "#nodes", s.sag(XX.ravel(), YY.ravel()), s.zs[:-1, :-1].ravel(), 1e-12, msg="sag at table nodes")
            if name.startswith("sum/"):
                parts = sum(q.sag(x, y) for q in s.surfaces)
                c.close(name + "#parts", z[cmp], parts[cmp], 1e-13 * m, 1e-13, msg="sum of heights")
            # height and normal describe the same surface: central differences of the API's own sag
            h = 1e-4 * rad
            if tw is None:
                gx = (8 * (s.sag(x + h, y) - s.sag(x - h, y)) - s.sag(x + 2 * h, y) + s.sag(x - 2 * h, y)) / (12 * h)
                gy = (8 * (s.sag(x, y + h) - s.sag(x, y - h)) - s.sag(x, y + 2 * h) + s.sag(x, y - 2 * h)) / (12 * h)
                ok = on & np.isfinite(gx) & np.isfinite(gy) & (np.abs(wn[:, 2]) > 0.2)
                if "bicubic" in name:      # third derivatives jump at cell boundaries
                    ok &= False
                c.close(name + "#consistent", np.stack([n[ok, 0] / n[ok, 2], n[ok, 1] / n[ok, 2]]),
                        np.stack([-gx[ok], -gy[ok]]), 1e-7 * m, 1e-6, msg="normal against differences of sag")
            c.trace()
    c.sample({"surfaces": len(U), "names": list(U)[:: max(1, len(U) // 20)]})
