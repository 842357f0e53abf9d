"""The seeded changes; python3 tools/plants.py [ID...] (re)writes /verif/seeded from /repo's working tree."""
import sys
import plant
WANT = sys.argv[1:]


def mk(id, *a, **k):
    if not WANT or id in WANT:
        plant.mk(id, *a, **k)


H = "import sys\nimport numpy as np\nimport batoid\n"

mk("c01-index-memo", "C01", {
    "include/medium.h": [("const double _B1, _B2, _B3, _C1, _C2, _C3;\n", "const double _B1, _B2, _B3, _C1, _C2, _C3;\n        mutable double _lastW = 0.0, _lastN = 0.0;  // most recent lookup\n")],
    "src/medium.cpp": [
        ("            double x = wavelength*wavelength*1e12;\n            return std::sqrt(1.0 + _B1",
         "            if (wavelength == _lastW)\n                return _lastN;\n            double x = wavelength*wavelength*1e12;\n            _lastW = wavelength;\n            return _lastN = std::sqrt(1.0 + _B1")]},
   H + '''
import batoid.global_vars as g
n = 200000
m = batoid.SellmeierMedium(0.6961663, 0.4079426, 0.8974794, 0.0046791, 0.0135121, 97.9340025)
w = np.where(np.arange(n) % 2 == 0, 400e-9, 900e-9)
z = np.zeros(n)
want = None
for trial in range(200):
    g._batoid_max_threads = 1 if want is None else 8
    rv = batoid.RayVector(z, z, z-1, z, np.full(n, 0.1), np.full(n, 0.99), z, w)
    rv = batoid.Plane().refract(rv, batoid.ConstMedium(1.0), m)
    got = np.array(rv.v)
    if want is None:
        want = got
    elif not np.array_equal(got, want):
        sys.exit("refraction depends on the thread schedule")
''',
   "rays of different wavelengths refracted into a SellmeierMedium by more than one thread: one thread looks up between another's two stores",
   "a shared memo of the last index is read while another thread is updating it, so some rays refract with another wavelength's index")

mk("c02-all-failed", "C02", {
    "src/batoid.cpp": [("void refractScreen(", "                if (success) {", "                if (success && std::isfinite(wptr[0])) {")]},
   H + '''
z = np.zeros(2)
rv = batoid.RayVector(z, z, z-1, z, z, z+1, z, np.array([np.nan, 7e-7]))
a = batoid.Plane().refractScreen(rv.copy(), batoid.Zernike([0, 0, 0, 0, 1e-6]))
b = batoid.Plane().refractScreen(rv[1:].copy(), batoid.Zernike([0, 0, 0, 0, 1e-6]))
sys.exit(0 if a.failed[1] == b.failed[0] and np.array_equal(a.r[1], b.r[0]) else "companion matters")
''',
   "a phase-screen batch whose first ray has a not-a-number wavelength",
   "the whole batch fails because of its first ray")

mk("c03-tiny-rotation", "C03", {
    "batoid/trace.py": [("def applyForwardTransform(ct, rv):\n    from .global_vars import _batoid_max_threads\n",
                         "def applyForwardTransform(ct, rv):\n    from .global_vars import _batoid_max_threads\n    # Nothing to compute if the frames coincide (trace == 3 only for identity)\n    if not ct.dr.any() and ct.drot.trace() > 3-1e-9:\n        rv.coordSys = ct.toSys\n        return rv\n")]},
   H + '''
a = batoid.CoordSys((1, 2, 3))
b = batoid.CoordSys((1, 2, 3), batoid.RotX(1e-5))
rv = batoid.RayVector(0., 5., 0., 0., 0., 1., 0., 5e-7, coordSys=a)
g0 = a.toGlobal(np.array(rv.r[0]))
rv.toCoordSys(b)
g1 = b.toGlobal(np.array(rv.r[0]))
sys.exit(0 if np.allclose(g0, g1, rtol=0, atol=1e-12) else f"{g0} {g1}")
''',
   "two frames with the same origin that differ by a rotation of less than about 3e-5 rad",
   "the ray is relabelled but not transformed, so its global position and direction jump")

mk("c04-phase-index", "C04", {
    "src/rayVector.cpp": [("            out[i] /= v2;\n            out[i] -= _t-tptr[i];", "            if (v2 < 1)\n                out[i] /= v2;\n            out[i] -= _t-tptr[i];")]},
   H + '''
s = 1.0/0.9  # a medium of index below one
rv = batoid.RayVector(0., 0., 0., 0., 0., s, 0., 5e-7)
p = rv.phase([0, 0, 1e-7], 0.0)[0]
sys.exit(0 if abs(p - 2*np.pi*0.9*1e-7/5e-7) < 1e-9 else f"{p}")
''',
   "rays in a medium whose index is below one (speed above one)",
   "phase advances with the wrong wavelength in the medium")

mk("c05-reflect-t", "C05", {
    "src/tilted.cpp": [("        if (den == 0) return false;\n", "        if (std::abs(den) < 1e-3) return false;\n")]},
   H + '''
s = batoid.Tilted(0.0, 0.0)
v = np.array([1, 0, 5e-4]); v /= np.linalg.norm(v)
rv = s.intersect(batoid.RayVector(0., 0., -1e-3, *v, 0., 5e-7))
sys.exit(0 if not rv.failed[0] and abs(rv.x[0]-2) < 1e-9 else "grazing ray lost")
''',
   "a ray within a milliradian of grazing a tilted plane",
   "a ray that does cross the surface is failed")

mk("c06-grady-origin", "C06", {
    "src/polynomialSurface.cpp": [("ny = -horner2d(x-_xorigin, y-_yorigin, _coefs_grady", "ny = -horner2d(x-_xorigin, y-_xorigin, _coefs_grady")]},
   H + '''
s = batoid.Zernike([0, 0, 0, 0, 0.01, 0.02, 0.03, 0.01], R_outer=2.0, x_origin=0.1, y_origin=-0.4)
h = 1e-5
n = s.normal(0.3, 0.2)
gy = (s.sag(0.3, 0.2+h)-s.sag(0.3, 0.2-h))/(2*h)
sys.exit(0 if abs(-n[1]/n[2]-gy) < 1e-7 else f"{-n[1]/n[2]} {gy}")
''',
   "a Zernike surface whose x and y origins differ",
   "the y slope is evaluated about the wrong origin")

mk("c08-split-order", "C08", {
    "src/batoid.cpp": [
        ("                    fluxptr2[i] = fluxptr[i]*reflect;\n", ""),
        ("                    fluxptr[i] *= transmit;\n", "                    fluxptr[i] *= transmit;\n                    fluxptr2[i] = (transmit > 0) ? fluxptr[i]/transmit*reflect : reflect;\n")]},
   H + '''
rv = batoid.RayVector(0., 0., -1., 0., 0., 1., 0., 5e-7, 3.0)
t, r = batoid.Plane().rSplit(rv, batoid.ConstMedium(1.0), batoid.ConstMedium(1.5), batoid.SimpleCoating(0.5, 0.0))
sys.exit(0 if abs(r.flux[0]-1.5) < 1e-12 else f"{r.flux}")
''',
   "a coating that transmits nothing and a ray whose flux is not one",
   "the reflected flux loses the incoming flux")

mk("c10-annulus-edge", "C10", {
    "src/obscuration.cpp": [("return (_inner <= h) && (h < _outer);", "return (_inner < h) && (h < _outer);")]},
   H + '''
a = batoid.ObscAnnulus(1.0, 2.0)
c = batoid.ObscIntersection(batoid.ObscNegation(batoid.ObscCircle(1.0)), batoid.ObscCircle(2.0))
sys.exit(0 if a.contains(1.0, 0.0) == c.contains(1.0, 0.0) else "edge in neither circle nor annulus")
''',
   "a point exactly on the annulus' inner edge",
   "an annulus and the circle it surrounds no longer partition the disc")

mk("c11-table-last", "C11", {
    "src/medium.cpp": [("if (wavelength > _args[_size-1])\n                return NAN;", "if (wavelength >= _args[_size-1])\n                return NAN;")]},
   H + '''
m = batoid.TableMedium([400e-9, 500e-9, 600e-9], [1.5, 1.4, 1.3])
sys.exit(0 if abs(m.getN(600e-9)-1.3) < 1e-12 else f"{m.getN(600e-9)}")
''',
   "a wavelength exactly at the last table entry",
   "the table's end point is outside its own range")

mk("c11-air-humidity", "C11", {
    "src/medium.cpp": [("n_minus_one -= (0.0624 - 0.000680 * sigma_squared)/(1.0 + 0.003661 * _T) * _W * 1.e-6;", "n_minus_one -= (0.0624 - 0.000680 * sigma_squared)/(1.0 + 0.003661 * _T) * (_W < 10 ? _W : 10) * 1.e-6;")]},
   H + '''
f = lambda w: batoid.Air(h2o_pressure=w).getN(500e-9)
d1, d2 = f(1.0)-f(0.0), f(3.0)-f(2.0)
sys.exit(0 if abs(d1-d2) < 1e-12 else f"{d1} {d2}")
''',
   "air with a water vapour pressure above 1.33 kPa",
   "humidity stops mattering above a threshold")

mk("c13-compound-eq", "C13", {
    "batoid/optic.py": [("class CompoundOptic(Optic):", "                self.inMedium == other.inMedium and\n                self.outMedium == other.outMedium and\n", "                self.inMedium == other.inMedium and\n")]},
   H + '''
m = batoid.optic.Mirror(batoid.Plane(), name='M')
a = batoid.optic.CompoundOptic([m], name='A', outMedium=batoid.ConstMedium(1.5))
b = batoid.optic.CompoundOptic([m], name='A')
sys.exit("different optics are equal" if a == b else 0)
''',
   "two compound optics that differ only in their outer medium", "optics that print differently compare equal")

mk("c13-obsc-pickle", "C13", {
    "batoid/obscuration.py": [("        self.width, self.theta, self.x, self.y = args\n        self._obsc = _batoid.CPPObscRay(*args)", "        self.width, self.theta, self.x, self.y = args\n        self._obsc = _batoid.CPPObscRay(self.width, self.theta, self.y, self.x)")]},
   H + '''
import pickle
a = batoid.ObscRay(0.2, 0.3, 1.0, -2.0)
b = pickle.loads(pickle.dumps(a))
p = (2.0, -2.0 + np.tan(0.3))
sys.exit(0 if a.contains(*p) == b.contains(*p) == True else "unpickled vane is elsewhere")
''',
   "a vane whose origin is not on the diagonal, after pickling (for example across worker processes)",
   "the unpickled obscuration is equal and prints the same but covers another region")

mk("c14-full-obsc", "C14", {
    "batoid/optic.py": [("def traceFull(self, rv, reverse=False, path=None):\n        \"\"\"Recursively trace rays through this `CompoundOptic`, returning a full", "                    if item.obscuration:\n                        item.obscuration.obscure(rv_out)\n", "                    if item.obscuration and not isinstance(item, RefractiveInterface):\n                        item.obscuration.obscure(rv_out)\n")]},
   H + '''
k = batoid.ConstMedium
L1 = batoid.optic.RefractiveInterface(batoid.Plane(), name='L1', outMedium=k(1.5), coordSys=batoid.CoordSys((0, 0, 1)))
L2 = batoid.optic.RefractiveInterface(batoid.Plane(), name='L2', inMedium=k(1.5), coordSys=batoid.CoordSys((0, 0, 2)), obscuration=batoid.ObscCircle(0.5))
D = batoid.optic.Detector(batoid.Plane(), name='D', coordSys=batoid.CoordSys((0, 0, 3)))
s = batoid.optic.CompoundOptic([L1, L2, D], name='S')
path = ['L1', 'L2', 'L1', 'L2', 'D']
rv = batoid.RayVector(0., 0., 0., 0., 0., 1., 0., 5e-7)
s2 = batoid.optic.CompoundOptic([L1, L2.withGlobalShift([0, 0, 0]), D], name='S')
a = s.trace(rv.copy(), path=path[:2] + ['L1'])
b = s.traceFull(rv.copy(), path=path[:2] + ['L1'])
last = list(b.values())[-1]['out']
sys.exit(0 if bool(a.vignetted[0]) == bool(last.vignetted[0]) else "trace and traceFull disagree about vignetting")
''',
   "a full-history trace along an explicit path that turns back at an obscured refracting surface",
   "rays blocked by that surface stay unvignetted in the history, unlike in trace()")

mk("c15-rotcenter-global", "C15", {
    "batoid/optic.py": [("def withLocallyRotatedOptic(self, name, rot, rotCenter=None,", "                    newItems.append(item.withLocallyRotatedOptic(\n                        name, rot, rotCenter, coordSys\n                    ))", "                    newItems.append(item.withLocallyRotatedOptic(\n                        name, rot, rotCenter\n                    ))")]},
   H + '''
M = batoid.optic.Mirror
a = batoid.optic.CompoundOptic([M(batoid.Plane(), name='p', coordSys=batoid.CoordSys((1, 0, 0)))], name='A')
s = batoid.optic.CompoundOptic([a], name='S')
t = s.withLocallyRotatedOptic('p', batoid.RotZ(np.pi/2), rotCenter=[0, 0, 0], coordSys=batoid.CoordSys())
sys.exit(0 if np.allclose(t['p'].coordSys.origin, [0, 1, 0]) else f"{t['p'].coordSys.origin}")
''',
   "rotating a nested part about a centre given in a frame other than the part's own",
   "the centre's frame is dropped on the way down, so the part turns about another point")


mk("c12-view-wavelength", "C12", {
    "batoid/rayVector.py": [("            np.copy(self._flux[idx]),\n", "            self._flux[idx],\n")]},
   H + '''
rv = batoid.RayVector(np.arange(4.), 0., 0., 0., 0., 1., 0., 5e-7)
s = rv[1:3]
batoid.Plane().reflect(s, coating=batoid.SimpleCoating(0.5, 0.5))
sys.exit(0 if np.all(rv.flux == 1) else "tracing a slice dimmed its source")
''',
   "a slice of a batch interacting with a coated surface", "the slice shares its flux with the batch it was cut from")

mk("c17-grid-parity", "C17", {
    "batoid/rayVector.py": [("            if (ny%2) == 0:\n                ly = dy*max(ny-2, 2)", "            if (nx%2) == 0:\n                ly = dy*max(ny-2, 2)")]},
   H + '''
rv = batoid.RayVector.asGrid(nx=4, ny=5, dx=0.1, dy=0.1, wavelength=5e-7, dirCos=(0, 0, -1), backDist=1.0)
ys = np.unique(np.round(np.array(rv.y), 9))
sys.exit(0 if np.allclose(np.diff(ys), 0.1) else f"{ys}")
''',
   "a grid with given spacing whose two sizes differ in parity", "the second spacing is not the requested one")

mk("c19-shift-first", "C19", {
    "batoid/parse.py": [("    for k, v in config.items():\n        if k == 'x':", "    # shifts go before rotations\n    for k, v in sorted(config.items(), key=lambda kv: kv[0].startswith('rot')):\n        if k == 'x':")]},
   H + '''
from batoid.parse import parse_coordSys
c = parse_coordSys({'rotX': np.pi/2, 'z': 1.0})
sys.exit(0 if np.allclose(c.origin, [0, -1, 0]) else f"{c.origin}")
''',
   "a configuration that states a rotation before a shift", "the shift is applied before the rotation")

mk("c19-lens-exit", "C19", {
    "batoid/parse.py": [("                itemsConfig[1],\n                coordSys=coordSys,\n                inMedium=medium,\n                outMedium=outMedium\n", "                itemsConfig[1],\n                coordSys=coordSys,\n                inMedium=medium,\n                outMedium=inMedium\n")]},
   H + '''
from batoid.parse import parse_optic
s = {'type': 'RefractiveInterface', 'surface': {'type': 'Plane'}}
l = parse_optic({'type': 'Lens', 'name': 'L', 'medium': 1.5, 'inMedium': 1.0, 'outMedium': 1.33, 'items': [dict(s, name='a'), dict(s, name='b')]})
sys.exit(0 if l.items[1].outMedium.n == 1.33 else f"{l.items[1].outMedium}")
''',
   "a lens with different media before and after it", "the lens' exit face leads into the entrance medium")

mk("c20-spot-mean", "C20", {
    "batoid/analysis.py": [("def spot(\n", "        point = np.mean(rays.r[w], axis=0)\n", "        point = np.mean(rays.r[~rays.failed], axis=0)\n")]},
   H + '''
t = batoid.Optic.fromYaml("LSST_r.yaml")
x, y = batoid.analysis.spot(t, np.deg2rad(1.7), 0.0, 620e-9, nx=16, reference='mean')
sys.exit(0 if abs(x.mean()) < 1e-12 and abs(y.mean()) < 1e-12 else f"{x.mean()} {y.mean()}")
''',
   "a vignetted field position with reference='mean'", "vignetted rays pull the reference point")

mk("c20-huygens-transpose", "C20", {
    "batoid/analysis.py": [("    ys = out.coords[..., 1].T + point[1]\n", "    ys = out.coords[..., 1].T + point[1]\n    # lattice is symmetric about its center\n    if abs(primitiveX[0, 1]) > abs(primitiveX[0, 0]):\n        xs, ys = xs.T, ys.T\n")]},
   H + '''
t = batoid.Optic.fromYaml("LSST_r.yaml")
d = 2e-6
th = np.deg2rad(1.6)
a = batoid.analysis.huygensPSF(t, th, 0.1*th, 620e-9, nx=8, dx=np.array([d, 0]), dy=np.array([0, d])).array
b = batoid.analysis.huygensPSF(t, th, 0.1*th, 620e-9, nx=8, dx=np.array([0, d]), dy=np.array([d, 0])).array
sys.exit(0 if np.allclose(a, b.T, rtol=1e-6, atol=1e-9*a.max()) else "swapped lattice vectors do not swap the image")
''',
   "a Huygens image on a lattice whose first vector is closer to the y axis", "the image is transposed")

mk("c21-drdth-transpose", "C21", {
    "batoid/analysis.py": [("    return np.array([[drx_dthx, drx_dthy], [dry_dthx, dry_dthy]])", "    return np.array([[drx_dthx, dry_dthx], [drx_dthy, dry_dthy]])")]},
   H + '''
t = batoid.Optic.fromYaml("LSST_r.yaml").withLocalRotation(batoid.RotZ(0.3))
D = t.withLocallyRotatedOptic('Detector', batoid.RotZ(0.5))
a = batoid.analysis.drdth(t, 0.01, 0.0, 620e-9)
b = batoid.analysis.drdth(D, 0.01, 0.0, 620e-9)
want = batoid.RotZ(0.5)[:2, :2].T @ a
sys.exit(0 if np.allclose(b, want, rtol=0, atol=1e-4) else f"{b} {want}")
''',
   "a camera rotated with respect to the field angles, so the Jacobian is not symmetric", "the Jacobian comes out transposed")

mk("c22-strided-slice", "C22", {
    "batoid/rayVector.py": [("            np.copy(self._wavelength[idx]),\n", "            self._wavelength[idx],\n")]},
   H + '''
w = np.array([4e-7, 5e-7, 6e-7, 7e-7])
rv = batoid.RayVector(np.zeros(4), 0., 0., 0., 0., 1., 0., w)
p = rv[::-1].phase([0, 0, 1e-7], 0.0)
sys.exit(0 if np.allclose(p, 2*np.pi*1e-7/w[::-1]) else f"{p}")
''',
   "a reversed or stepped slice of a batch passed to native code", "native code reads wavelengths outside the slice's memory")

mk("c22-table-edge", "C22", {
    "src/table.cpp": [("double Table::eval(double x, double y) const {", "if ((ix >= (_nx-1)) or (ix < 0) or (iy >= (_ny-1)) or (iy < 0)) {", "if ((ix >= (_nx-1)) or (ix < 0) or (iy > (_ny-1)) or (iy < 0)) {")]},
   H + '''
z = np.ones((5, 5))
s = batoid.Bicubic(np.arange(5.), np.arange(5.), z, nanpolicy='zero')
sys.exit(0 if s.sag(2.5, 4.0) == 0.0 else f"{s.sag(2.5, 4.0)}")
''',
   "a height looked up exactly at (or up to one cell beyond) the last row of a table", "the row after the table is read")


mk("c16-skip-reverse", "C16", {
    "batoid/optic.py": [('            s = "forward" if not reverse else "reverse"', "            if reverse:\n                return [], [rv]\n            else:\n                return [rv], []\n", "            # nothing happens here\n            return [rv], []\n")]},
   H + '''
R = batoid.SimpleCoating
k = batoid.ConstMedium
a = batoid.optic.RefractiveInterface(batoid.Plane(), name='a', coordSys=batoid.CoordSys((0, 0, 1)), skip=True, outMedium=k(1.0))
b = batoid.optic.Mirror(batoid.Plane(), name='b', coordSys=batoid.CoordSys((0, 0, 2)))
s = batoid.optic.CompoundOptic([a, b], name='S')
import signal
signal.alarm(20)
f, r = s.traceSplit(batoid.RayVector(0., 0., 0., 0., 0., 1., 0., 5e-7))
sys.exit(0 if len(f) == 0 and len(r) == 1 else f"{len(f)} {len(r)}")
''',
   "ghost light travelling backwards through a skipped part", "light is turned around by a part that should do nothing")

mk("c08-coating-angle", "C08", {
    "src/batoid.cpp": [("    void intersect(\n", "fluxptr[i] *= coatingPtr->getTransmit(wptr[i], alpha);", "fluxptr[i] = coatingPtr->getTransmit(wptr[i], alpha);")]},
   H + '''
rv = batoid.RayVector(0., 0., -1., 0., 0., 1., 0., 5e-7, 3.0)
batoid.Plane().intersect(rv, coating=batoid.SimpleCoating(0.5, 0.25))
sys.exit(0 if rv.flux[0] == 0.75 else f"{rv.flux}")
''',
   "a coated intersection of a ray whose flux is not one", "the coefficient replaces the flux instead of multiplying it")

mk("c09-split-tir-vig", "C09", {
    "src/batoid.cpp": [("// Flux coefficients", "                        failptr[i] = true;\n                        vigptr[i] = true;\n                    } else {", "                        failptr[i] = true;\n                    } else {")]},
   H + '''
v = np.array([0.9, 0, np.sqrt(1-0.81)])/1.5
k = batoid.ConstMedium
t, r = batoid.Plane().rSplit(batoid.RayVector(0., 0., -1., *v, 0., 5e-7), k(1.5), k(1.0), batoid.SimpleCoating(0.5, 0.5))
sys.exit(0 if t.failed[0] and t.vignetted[0] else "totally reflected ray is failed but not vignetted")
''',
   "a ray beyond the critical angle at a splitting surface", "the transmitted ray is failed without being vignetted, so it still counts in image sums")

mk("c09-refract-flux", "C09", {
    "src/batoid.cpp": [
        ("                    if (coatingPtr) {\n                        fluxptr[i] *= coatingPtr->getTransmit(wptr[i], alpha);\n                    }\n                } else {\n                    failptr[i] = true;\n                    vigptr[i] = true;\n                }\n",
         "                    if (coatingPtr) {\n                        fluxptr[i] *= coatingPtr->getTransmit(wptr[i], alpha);\n                    }\n                } else {\n                    failptr[i] = true;\n                    vigptr[i] = true;\n                }\n            } else if (coatingPtr) {\n                // lost light\n                fluxptr[i] *= coatingPtr->getTransmit(wptr[i], 1.0);\n")]},
   H + '''
rv = batoid.RayVector(0., 0., -1., 0., 0., 1., 0., 5e-7, 3.0, failed=True, vignetted=True)
k = batoid.ConstMedium
batoid.Plane().refract(rv, k(1.0), k(1.5), coating=batoid.SimpleCoating(0.5, 0.25))
sys.exit(0 if rv.flux[0] == 3.0 else f"{rv.flux}")
''',
   "an already failed ray refracted at a coated surface", "the stored flux of a failed ray changes")

mk("c07-flip-by-vz", "C07", {
    "src/batoid.cpp": [("void refract(", "if (alpha > 0.) {", "if (nvz > 0.) {")]},
   H + '''
# a ray travelling slightly upwards meets a steep surface from above: n.v < 0 although vz > 0
s = batoid.Zernike([0, 0, 1.0])  # z = 2x
v = np.array([1.0, 0.0, 0.2]); v /= np.linalg.norm(v)
p = np.array([1.0, 0.0, 2.0])
nrm = s.normal(1.0, 0.0)
n2 = 1.5
r0 = p - 0.1*v
rv = batoid.RayVector(*r0, *v, wavelength=5e-7)
batoid.Surface.refract(s, rv, batoid.ConstMedium(1.0), batoid.ConstMedium(n2))
nn = nrm if v@nrm < 0 else -nrm
c = -(v@nn)
want = (v/n2 + (c/n2 - np.sqrt(1-(1-c*c)/n2**2))*nn)/n2
sys.exit(0 if np.allclose(rv.r[0], p) and np.allclose(rv.v[0], want, atol=1e-9) else f"{rv} {want}")
''',
   "refraction where the ray and the surface normal disagree about which way is up: a steep part of a surface met by an oblique ray",
   "the normal is oriented by the sign of vz instead of n.v, so such rays leave on the wrong side of the surface")

mk("c18-stereo-cancel", "C18", {
    "batoid/utils.py": [("def stereographicToDirCos(", "stheta = np.sin(theta)", "stheta = np.sqrt(1-np.cos(theta)**2)")]},
   H + '''
u, v = 3e-7, -4e-7
a, b, g = batoid.utils.stereographicToDirCos(u, v)
sys.exit(0 if np.allclose([a, b], [u, v], rtol=1e-9, atol=0) else f"{a} {b}")
''',
   "a field angle much smaller than an arcsecond in the stereographic projection",
   "sin(theta) is recovered from cos(theta): small field angles lose all their digits")

mk("c23-slice-mirror", "C23", {
    "batoid/optic.py": [("def getXZSlice(", "z[:] = self.surface.sag(x, y)", "z = z[::-1].copy()")]},
   H + '''
o = batoid.Mirror(batoid.Tilted(0.1, 0.0), name="m", obscuration=batoid.ObscNegation(batoid.ObscCircle(1.0)))
x, z = o.getXZSlice(5)[0]
sys.exit(0 if np.allclose(z, 0.1*x) else f"{z}")
''',
   "a surface that is not symmetric in x (tilted, Zernike with odd terms, bicubic)",
   "the x >= 0 half of a drawn slice mirrors the x <= 0 half")

mk("c23-track-start", "C23", {
    "batoid/optic.py": [("CoordTransform(traceFull[start]['in'].coordSys, globalSys)", "CoordTransform(traceFull[names[0]]['in'].coordSys, globalSys)")]},
   H + '''
from batoid.optic import getGlobalRays
cs = batoid.CoordSys().shiftGlobal([0, 0, 1.0])
t = batoid.CompoundOptic([batoid.Baffle(batoid.Plane(), name="a", coordSys=cs), batoid.Mirror(batoid.Plane(), name="b")], name="T")
rv = batoid.RayVector([0, .1], [0, .2], [3., 3], [0, 0], [0, 0], [-1., -1], wavelength=5e-7)
tf = t.traceFull(rv)
xyz, n = getGlobalRays(tf, start="b")
sys.exit(0 if np.allclose(xyz[:, 2, 0], 1.0) else f"{xyz[:, 2]}")
''',
   "getGlobalRays with a start surface after the first, whose incoming rays are in another frame than the first surface's",
   "the first vertex of each drawn ray is taken to the global frame from the wrong local frame")

mk("c06-table-cross", "C06", {
    "src/table.cpp": [("// y-gradient", "_d2zdxdy[_nx*iy + ix]*_dy", "_d2zdxdy[_nx*iy + ix]*_dx")]} if "_d2zdxdy[_nx*iy + ix]*_dy" in open("/repo/src/table.cpp").read().split("// y-gradient")[1] else {
    "src/table.cpp": [("double oneDGrad(", "double b = 3*(val1-val0) - 2*der0 - der1;", "double b = 3*(val1-val0) - der0 - 2*der1;")]},
   H + '''
rng = np.random.default_rng(5)
xs, ys = np.linspace(-1, 1, 5), np.linspace(-1, 2, 4)
zs, zx, zy, zxy = rng.normal(size=(4, 4, 5))*0.1
s = batoid.Bicubic(xs, ys, zs, dzdxs=zx, dzdys=zy, d2zdxdys=zxy)
h = 1e-6
for x, y in [(0.13, 0.21), (-0.6, 1.3), (0.77, -0.4)]:
    n = s.normal(x, y)
    g = np.array([(s.sag(x+h, y)-s.sag(x-h, y))/(2*h), (s.sag(x, y+h)-s.sag(x, y-h))/(2*h)])
    if not np.allclose(-n[:2]/n[2], g, atol=1e-6):
        sys.exit(f"{x} {y} {n} {g}")
''',
   "a bicubic surface with a mixed second derivative on a grid whose x and y spacings differ",
   "the normal of a bicubic surface is not the gradient of its sag")


mk("c10-grid-top", "C10", {
    "src/obscuration.cpp": [("if ((y < ymin) or (y > ymax)) {", "if ((y <= ymin) or (y >= ymax)) {")]},
   H + '''
p = batoid.ObscPolygon([0.0, 2.0, 2.0, 0.0], [0.0, 0.0, 1.0, 1.0])
x, y = np.array([0.5, 1.5, 2.5]), np.array([-0.5, 0.0, 0.5, 1.0, 1.5])
g = p.containsGrid(x, y)
w = np.array([[p.contains(a, b) for a in x] for b in y])
sys.exit(0 if np.array_equal(g, w) else f"{g} {w}")
''',
   "a grid row exactly at the polygon's largest y",
   "containsGrid disagrees with contains along the polygon's top edge")

mk("c14-path-obsc", "C14", {
    "batoid/optic.py": [("rv_in.copy(), coordSys=item.coordSys\n                    )\n                    if item.obscuration:\n                        item.obscuration.obscure(rv_out)",
                         "rv_in.copy(), coordSys=item.coordSys\n                    )")]},
   H + '''
g = batoid.ConstMedium(1.5)
a = batoid.RefractiveInterface(batoid.Plane(), name="a", outMedium=g)
b = batoid.RefractiveInterface(batoid.Plane(), name="b", inMedium=g, coordSys=batoid.CoordSys().shiftGlobal([0, 0, -1.0]), obscuration=batoid.ObscNegation(batoid.ObscCircle(0.5)))
t = batoid.CompoundOptic([a, b], name="T")
rv = batoid.RayVector([0, 0.8], [0, 0.], [1., 1], [0, 0], [0, 0], [-1., -1], wavelength=5e-7)
p = ["a", "b", "a"]
x = t.trace(rv.copy(), path=p)
y = list(t.traceFull(rv.copy(), path=p).values())[-1]["out"]
sys.exit(0 if x == y and x.vignetted[1] else f"{x} {y}")
''',
   "traceFull along a path that turns round at a surface with an obscuration",
   "the history of a ghost path shows rays that trace() reports as vignetted")

mk("c17-no-slop", "C17", {
    "batoid/rayVector.py": [("slop = 0.1  # prevent 3.9999 -> 3, e.g.", "slop = 0.0")]},
   H + '''
kw = dict(wavelength=5e-7, theta_x=0.0, theta_y=0.0)
bad = [k for k in range(2, 30, 2) for d in (0.1, 0.3, 0.7, 1/3) if len(batoid.RayVector.asGrid(lx=sum([d]*k), dx=d, **kw)) != (k+2)**2 or len(batoid.RayVector.asGrid(lx=0.6/2*k, dx=0.6/2, **kw)) != (k+2)**2]
sys.exit(0 if not bad else f"{bad}")
''',
   "asGrid with a side length that is an even multiple of dx up to rounding",
   "a rounding error in lx/dx drops two rows and columns of the grid")

mk("c19-stop-frame", "C19", {
    "batoid/parse.py": [("kwargs['stopSurface'] = parse_optic(config['stopSurface'])", "kwargs['stopSurface'] = parse_optic(config['stopSurface'], coordSys)")]},
   H + '''
import batoid.parse as p
d = dict(type="Mirror", name="m", coordSys=dict(z=2.0), surface=dict(type="Plane"), stopSurface=dict(type="Interface", name="s", surface=dict(type="Plane"), coordSys=dict(z=0.5)))
o = p.parse_optic(d)
sys.exit(0 if np.allclose(o.stopSurface.coordSys.origin, [0, 0, 0.5]) else f"{o.stopSurface}")
''',
   "a described optic that has both a coordinate system of its own and a stop surface",
   "the stop surface is placed relative to the optic instead of the global frame")

mk("c20-mean-masked", "C20", {
    "batoid/analysis.py": [("sphere.intersect(rays)\n\n    if reference == 'mean':\n        w = np.where(1-rays.vignetted)[0]\n        t0 = np.mean(rays.t[w])\n    elif reference == 'chief':\n        t0 = rays.t[cridx]",
                            "sphere.intersect(rays)\n\n    if reference == 'mean':\n        t0 = np.mean(rays.t[~rays.failed])\n    elif reference == 'chief':\n        t0 = rays.t[cridx]")]},
   H + '''
t = batoid.Optic.fromYaml("HSC.yaml")
w = batoid.wavefront(t, 0.01, 0.004, 7e-7, nx=16, reference="mean")
m = w.array.mean()
sys.exit(0 if abs(m) < 1e-6 else f"the mean wavefront relative to the mean is {m}")
''',
   "a wavefront relative to the mean ray in a system with vignetting",
   "the reference time averages over vignetted rays as well, so the piston is wrong")

mk("c01-poly-static", "C01", {
    "src/obscuration.cpp": [("double xinters = 0.0;", "static double xinters;")]},
   H + '''
import batoid.global_vars as g
rng = np.random.default_rng(3)
th = np.linspace(0, 2*np.pi, 60, endpoint=False)
p = batoid.ObscPolygon(np.cos(th), np.sin(th))
n = 400000
x, y = rng.uniform(-1.05, 1.05, (2, n))
z = np.zeros(n)
rv = batoid.RayVector(x, y, z, z, z, z+1, z, z+5e-7, z+1)
g._batoid_max_threads = 1
w = p.obscure(rv.copy()).vignetted
for i in range(60):
    g._batoid_max_threads = 8
    if not np.array_equal(p.obscure(rv.copy()).vignetted, w):
        sys.exit("vignetting depends on the thread schedule")
''',
   "rays tested against a polygon by more than one thread, one of them between computing and using an edge's intercept",
   "the scratch variable holding the intercept is shared by all threads")

mk("c12-join-failed", "C12", {
    "batoid/rayVector.py": [("np.hstack([rv.failed for rv in rvs])", "np.hstack([rv.vignetted & rv.failed for rv in rvs])")]},
   H + '''
z = np.zeros(2)
rv = batoid.RayVector(z, z, z, z, z, z+1, z, z+5e-7, z+1, [False, True], [True, True])
j = batoid.concatenateRayVectors([rv, rv])
sys.exit(0 if np.array_equal(j.failed, np.tile(rv.failed, 2)) else f"{j.failed}")
''',
   "joining batches holding a ray that failed without being marked vignetted",
   "a joined batch forgets the failure of such rays")

mk("c09-reflect-unvig", "C09", {
    "src/batoid.cpp": [("fluxptr[i] *= coatingPtr->getReflect(wptr[i], alpha);\n                    }\n                } else {\n                    failptr[i] = true;\n                    vigptr[i] = true;",
                        "fluxptr[i] *= coatingPtr->getReflect(wptr[i], alpha);\n                    }\n                } else {\n                    failptr[i] = true;")]},
   H + '''
rv = batoid.RayVector([5.0], [0], [0.], [0], [0], [1.], wavelength=5e-7)
batoid.Sphere(1.0).reflect(rv)
sys.exit(0 if rv.failed[0] and rv.vignetted[0] else f"{rv}")
''',
   "a ray that misses a mirror",
   "a ray that fails at a mirror is not marked vignetted")

mk("c21-pupil-frame", "C21", {
    "batoid/analysis.py": [("    rays.toCoordSys(batoid.globalCoordSys)\n", "    rays.toCoordSys(optic.coordSys)\n")]},
   H + '''
t = batoid.Optic.fromYaml("HSC.yaml")
d = np.array([0.0, 0.0, 0.25])
a = batoid.exitPupilPos(t, 7e-7)
b = batoid.exitPupilPos(t.withGlobalShift(d), 7e-7)
sys.exit(0 if np.allclose(a+d, b, atol=1e-5) else f"{a+d} {b}")
''',
   "the exit pupil of a system whose own frame is not the global one",
   "rays are expressed in the system's frame but compared with the axis in global coordinates")

mk("c24-seterr", "C24", {
    "batoid/utils.py": [("def dirCosToPostel(", "    with np.errstate(invalid='ignore'):\n        u = alpha*rho/srho\n        v = beta*rho/srho\n", "    np.seterr(invalid='ignore')\n    u = alpha*rho/srho\n    v = beta*rho/srho\n")]},
   H + '''
np.seterr(all="raise")
d = batoid.utils.postelToDirCos(np.array([0.1, 0.2]), np.array([0.0, 0.1]))
batoid.utils.dirCosToPostel(*d)
sys.exit(0 if np.geterr()["invalid"] == "raise" else f"floating point error handling of the process changed: {np.geterr()}")
''',
   "a caller who relies on numpy raising for invalid operations, after any inverse Postel projection",
   "the projection switches off numpy's invalid-operation handling for the whole process instead of for itself")

mk("c24-hexapolar-memo", "C24", {
    "batoid/utils.py": [("def hexapolar(outer=1.0, inner=0.0, nrad=5, naz=30, kfold=6, rth=False):\n", "@lru_cache(maxsize=16)\ndef hexapolar(outer=1.0, inner=0.0, nrad=5, naz=30, kfold=6, rth=False):\n"),
                        ("import numpy as np\n", "from functools import lru_cache\n\nimport numpy as np\n")]},
   H + '''
x, y = batoid.utils.hexapolar(1.0, 0.2, 4, 18)
want = x.copy()
x *= 4.18  # to the pupil's size
x2, y2 = batoid.utils.hexapolar(1.0, 0.2, 4, 18)
sys.exit(0 if np.array_equal(x2, want) else "a second hexapolar grid is scaled like the first")
''',
   "a caller who rescales the grid in place and then asks for the same grid again",
   "the memoised grid arrays are handed out to every caller")

mk("c24-basis-memo", "C24", {
    "batoid/analysis.py": [("def zernike(\n", "    basis = zernikeBasis(\n        jmax, orig_x[w], orig_y[w],\n        R_outer=optic.pupilSize/2, R_inner=optic.pupilSize/2*eps\n    )\n",
        "    # the basis only depends on the pupil sampling\n    key = (optic.name, optic.pupilSize, theta_x, theta_y, nx, jmax, w.sum())\n    basis = _bases.get(key)\n    if basis is None:\n        basis = _bases[key] = zernikeBasis(\n            jmax, orig_x[w], orig_y[w],\n            R_outer=optic.pupilSize/2, R_inner=optic.pupilSize/2*eps\n        )\n"),
        ("def _reciprocalLatticeVectors(", "def _reciprocalLatticeVectors(", "_bases = {}\n\n\ndef _reciprocalLatticeVectors(")]},
   H + '''
t = batoid.Optic.fromYaml("HSC.yaml")
a = batoid.zernike(t, 0.005, 0.0, 7e-7, nx=16, jmax=11, eps=0.3)
batoid.analysis.__dict__.get("_bases", {}).clear()
b = batoid.zernike(t, 0.005, 0.0, 7e-7, nx=16, jmax=11, eps=0.0)
c = batoid.zernike(t, 0.005, 0.0, 7e-7, nx=16, jmax=11, eps=0.3)
sys.exit(0 if np.allclose(a, c, atol=1e-12) and not np.allclose(b, c, atol=1e-6) else "annular coefficients depend on what was fitted before")
''',
   "two fits of the same optic and field with different annular obscurations in one process",
   "the memo of the Zernike basis forgets the obscuration ratio in its key")


mk("c25-triple-name", "C25", {
    "batoid/optic.py": [("        nameDict = {}\n        duplicates = set()\n", "                if shortName in nameDict:\n                    duplicates.add(shortName)\n", "                if shortName in nameDict:\n                    del nameDict[shortName]\n"),
                        ("        nameDict = {}\n        duplicates = set()\n", "        for name in duplicates:\n            del nameDict[name]\n", ""),
                        ("        nameDict = {}\n        duplicates = set()\n", "        nameDict = {}\n        duplicates = set()\n", "        nameDict = {}\n")]},
   H + '''
def part(n, z):
    return batoid.Mirror(batoid.Plane(), name=n, coordSys=batoid.CoordSys().shiftGlobal([0, 0, z]))
t = batoid.CompoundOptic([batoid.CompoundOptic([part("x", 1.0*i), part("y", 1.0*i+0.5)], name=n) for i, n in enumerate("ABC")], name="T")
try:
    r = t["x"]
except ValueError:
    sys.exit(0)
sys.exit(f"an ambiguous name was resolved to {r.coordSys}")
''',
   "a short name shared by an odd number of parts, three or more",
   "short names that fit three parts resolve to the last of them instead of being refused")

mk("c25-overspec-random", "C25", {
    "batoid/rayVector.py": [("        # To determine the parallelogram, exactly", "        if sum(a is not None for a in [nx, dx, lx]) != 2:\n", "        if nrandom is None and sum(a is not None for a in [nx, dx, lx]) != 2:\n")]},
   H + '''
try:
    rv = batoid.RayVector.asGrid(wavelength=5e-7, dirCos=[0, 0, -1], nx=10, dx=0.5, lx=1.0, nrandom=1000, rng=1)
except ValueError:
    sys.exit(0)
sys.exit(f"a contradictory grid was accepted: rays span {np.ptp(rv.x)}")
''',
   "a random beam whose nx, dx and lx contradict each other",
   "the check that exactly two of nx, dx, lx are given is skipped for random beams")

mk("c25-gq-some-failed", "C25", {
    "batoid/analysis.py": [("def zernikeGQ(", "    if np.any(rays.failed):\n", "    if np.all(rays.failed):\n")]},
   H + '''
t = batoid.CompoundOptic([batoid.Mirror(batoid.Sphere(-0.045), name="m"), batoid.Detector(batoid.Plane(), name="d")], name="t",
    pupilSize=0.1, backDist=1.0, sphereRadius=1.0, stopSurface=batoid.Interface(batoid.Plane(), name="s"))
try:
    r = batoid.zernikeGQ(t, 0.0, 0.0, 5e-7, rings=4, jmax=4)
except ValueError:
    sys.exit(0)
sys.exit(f"answered {r}")
''',
   "a pupil of which some rays, not all, miss the optic",
   "Gaussian-quadrature fits over a partly failed pupil answer with garbage instead of refusing")

mk("c25-frame-first", "C25", {
    "batoid/trace.py": [("def refract(", "    ct = CoordTransform(rv.coordSys, coordSys)\n    _coating = coating._coating if coating else None\n", "    ct = CoordTransform(rv.coordSys, coordSys)\n    rv.coordSys = coordSys\n    _coating = coating._coating if coating else None\n"),
                        ("def refract(", "        rv._rv, _coating,\n        _batoid_max_threads, _batoid_niter\n    )\n    rv.coordSys = coordSys\n", "        rv._rv, _coating,\n        _batoid_max_threads, _batoid_niter\n    )\n")]},
   H + '''
rv = batoid.RayVector([0.1], [0.2], [1.0], [0.0], [0.0], [-1.0], wavelength=5e-7)
want = rv.copy()
cs = batoid.CoordSys().shiftGlobal([0, 0, -1.0])
try:
    batoid.Plane().refract(rv, batoid.ConstMedium(1.0), None, coordSys=cs)
except Exception:
    pass
sys.exit(0 if rv == want else f"rays moved by a refused refraction: {rv.coordSys}")
''',
   "a refraction in another frame that is refused because a medium is missing",
   "rays are relabelled to the surface's frame before the refraction can still be refused")

mk("c25-getitem-tail", "C25", {
    "batoid/optic.py": [("    def __getitem__(self, key):\n        \"\"\"Dictionary access to the entire", "                item = self.itemDict[self._names[key]]\n", "                item = self.itemDict[self._names[key.split(self.name+'.')[-1]]]\n")]},
   H + '''
t = batoid.Optic.fromYaml("HSC.yaml")
names = list(t.itemDict)
for bad in ["nope."+t.name+".PM", t.name+"."+t.name+".PM", t.items[1].name+"."+t.name+".PM"]:
    try:
        r = t[bad]
    except ValueError:
        continue
    sys.exit(f"{bad} resolved to {r.name}")
sys.exit(0)
''',
   "a dotted name that contains the system's own name in the middle",
   "everything before the system's name in a path is ignored, so paths that do not exist resolve")

mk("c26-bicubic-int", "C26", {
    "batoid/surface.py": [("class Bicubic", "        self._zs = np.array(zs, dtype=float, order=\"C\")\n", "        self._zs = np.array(zs, order=\"C\")\n")]},
   H + '''
xs = ys = np.linspace(-1, 1, 5)
z = np.arange(25).reshape(5, 5) % 7
a, b = batoid.Bicubic(xs, ys, z), batoid.Bicubic(xs, ys, z.astype(float))
p, q = a.sag(0.3, -0.4), b.sag(0.3, -0.4)
sys.exit(0 if abs(p-q) < 1e-12 else f"sag {p} from integer heights, {q} from the same as floats")
''',
   "a height grid given as integers or single precision",
   "the heights keep their element type and their bytes are read as doubles")

mk("c26-medium-int", "C26", {
    "batoid/parse.py": [("def parse_medium(", "    if isinstance(config, Real):\n", "    if isinstance(config, float):\n")]},
   H + '''
from batoid.parse import parse_medium
try:
    m = parse_medium(1)
except Exception as e:
    sys.exit(f"medium: 1 refused: {e!r}")
sys.exit(0 if m == batoid.ConstMedium(1.0) else repr(m))
''',
   "an index written as a whole number in a configuration",
   "a configuration's medium given as a number must be a float")

mk("c27-reference-global", "C27", {
    "batoid/analysis.py": [("def wavefront(", "    targetCoordSys = rays.coordSys.shiftLocal(\n", "    targetCoordSys = rays.coordSys.shiftGlobal(\n")]},
   H + '''
def tel(rot):
    s = batoid.CompoundOptic([
        batoid.Mirror(batoid.Paraboloid(20.0), name="m", coordSys=batoid.CoordSys()),
        batoid.Detector(batoid.Plane(), name="d", coordSys=batoid.CoordSys(origin=[0, 0, 10.0]))],
        name="t", pupilSize=3.0, backDist=15.0, sphereRadius=10.0,
        stopSurface=batoid.Interface(batoid.Plane(), name="s"))
    return s
def wf(tilt):
    t = tel(None).withLocallyRotatedOptic("d", batoid.RotX(tilt))
    return batoid.wavefront(t, 0.002, 0.001, 5e-7, nx=16).array
# turning the detector half a turn about its normal leaves every path length what it was
a = batoid.wavefront(tel(None), 0.002, 0.001, 5e-7, nx=16).array
t = tel(None).withLocallyRotatedOptic("d", batoid.RotZ(np.pi))
b = batoid.wavefront(t, 0.002, 0.001, 5e-7, nx=16).array
d = np.max(np.abs(a-b))
sys.exit(0 if d < 1e-3 else f"the wavefront changed by {d} waves when the detector was turned in its plane")
''',
   "a detector whose axes are not those of the global frame",
   "the reference sphere is centred on the image point's local coordinates taken as global ones")

mk("c28-itemdict-early", "C28", {
    "batoid/optic.py": [("    def itemDict(self):\n", "        out = {}\n        out[self.name] = self\n", "        # Publish first, so that the subitems' parents can already be looked up.\n        out = self.__dict__['itemDict'] = {}\n        out[self.name] = self\n")]},
   H + '''
import threading
hold, go = threading.Event(), threading.Event()
class Slow(batoid.Mirror):
    armed = False
    @property
    def itemDict(self):
        if self.armed and threading.current_thread() is first:
            hold.set(); go.wait(10)
        return {}
s = batoid.Sphere(-10.0)
t = batoid.CompoundOptic([batoid.Mirror(s, name="a"), Slow(s, name="b"), batoid.Detector(batoid.Plane(), name="c")], name="t")
first = threading.Thread(target=lambda: t.itemDict)
Slow.armed = True
first.start()
assert hold.wait(10)
try:
    t["t.c"]
    bad = None
except Exception as e:
    bad = e
go.set(); first.join()
sys.exit(0 if bad is None else f"another thread could not find t.c: {bad}")
''',
   "two threads looking up names of the same fresh system at once",
   "the name dictionary is published before it is filled, another thread sees part of it")

mk("c28-phase-scratch", "C28", {
    "batoid/rayVector.py": [("    def phase(self, r, t):", "        out = np.empty_like(self._t)\n        self._rv.phase(\n            r[0], r[1], r[2], t, out.ctypes.data, _batoid_max_threads\n        )\n        return out\n",
        "        # The same work space serves all calls for batches of this size.\n        out = _scratch(len(self))\n        self._rv.phase(\n            r[0], r[1], r[2], t, out.ctypes.data, _batoid_max_threads\n        )\n        return out.copy()\n"),
        ("class RayVector:", "class RayVector:", "_work = {}\n\n\ndef _scratch(n):\n    return _work.setdefault(n, np.empty(n))\n\n\nclass RayVector:")]},
   H + '''
import threading
rv = batoid.RayVector.asGrid(wavelength=5e-7, dirCos=[0, 0, -1.0], nx=8, lx=1.0, backDist=1.0)
want = rv.phase([0, 0, 0], 0.3)
main = threading.current_thread()
def tracer(frame, event, arg):
    if frame.f_code.co_name != "phase":
        return None
    def step(frame, event, arg):
        if event == "line" or event == "return":
            th = threading.Thread(target=lambda: rv.phase([0, 0, 5.0], 7.1)); th.start(); th.join()
        return step
    return step
sys.settrace(tracer)
got = rv.phase([0, 0, 0], 0.3)
sys.settrace(None)
sys.exit(0 if np.array_equal(want, got) else "phases are those another thread asked for")
''',
   "two threads asking for phases of equally many rays, one between the other's computation and its copy",
   "phases are computed in a work space shared by all calls")

mk("c28-path-skip", "C28", {
    "batoid/optic.py": [("    def trace(self, rv, reverse=False, path=None):", "                if direction == nextDirection:\n                    item.trace(rv, reverse=(direction==\"reverse\"))\n",
        "                if direction == nextDirection:\n                    # items named in the path are not skipped\n                    skip, item.skip = item.skip, False\n                    try:\n                        item.trace(rv, reverse=(direction==\"reverse\"))\n                    finally:\n                        item.skip = skip\n")]},
   H + '''
import threading
s = batoid.Sphere(-10.0)
seen = []
class Watch(batoid.Mirror):
    def trace(self, rv, reverse=False):
        th = threading.Thread(target=lambda: seen.append(t.items[0].skip)); th.start(); th.join()
        return super().trace(rv, reverse)
t = batoid.CompoundOptic([Watch(s, name="a", skip=True), batoid.Detector(batoid.Plane(), name="c")], name="t")
rv = batoid.RayVector.asGrid(wavelength=5e-7, dirCos=[0, 0, -1.0], nx=4, lx=1.0, backDist=1.0)
t.trace(rv, path=["a", "c"])
sys.exit(0 if all(seen) else f"another thread saw the skipped element unskipped: {seen}")
''',
   "a path naming an element marked as skipped, traced while another thread traces the whole system",
   "elements named in a path are temporarily unmarked, so other threads trace them too")

mk("c29-seterr", "C29", {
    "batoid/utils.py": [("def postelToDirCos(", "    with np.errstate(invalid='ignore'):\n        alpha = u/rho*srho\n        beta = v/rho*srho\n", "    old = np.seterr(invalid='ignore')\n    alpha = u/rho*srho\n    beta = v/rho*srho\n    np.seterr(**old)\n")]},
   H + '''
np.seterr(all="warn")
before = np.geterr()
def tracer(frame, event, arg):
    if frame.f_code.co_name != "postelToDirCos":
        return None
    first = frame.f_code.co_firstlineno
    def step(frame, event, arg):
        if event == "line" and "beta" not in frame.f_locals and "alpha" in frame.f_locals:
            raise KeyboardInterrupt
        return step
    return step
sys.settrace(tracer)
try:
    batoid.utils.postelToDirCos(np.array([0.0, 0.1]), np.array([0.0, 0.2]))
except KeyboardInterrupt:
    pass
sys.settrace(None)
sys.exit(0 if np.geterr() == before else f"floating-point settings left as {np.geterr()}")
''',
   "an interruption between the two divisions of the Postel projection",
   "floating-point error handling is restored by a plain statement, so an interruption leaves invalid operations silent for the rest of the process")

mk("c29-names-early", "C29", {
    "batoid/optic.py": [("    def _names(self):\n", "        nameDict = {}\n", "        nameDict = self.__dict__['_names'] = {}\n")]},
   H + '''
t = batoid.Optic.fromYaml("HSC.yaml")
t.itemDict
def tracer(frame, event, arg):
    if frame.f_code.co_name != "_names":
        return None
    n = [0]
    def step(frame, event, arg):
        n[0] += 1
        if n[0] == 40:
            raise KeyboardInterrupt
        return step
    return step
sys.settrace(tracer)
try:
    t["D"]
except KeyboardInterrupt:
    pass
sys.settrace(None)
try:
    t["D"]
except ValueError as e:
    sys.exit(f"after an interrupted lookup: {e}")
sys.exit(0)
''',
   "an interruption during the first lookup by short name",
   "the table of short names is stored before it is complete, an interrupted first lookup leaves part of it for good")

mk("c27-pupil-rot", "C27", {
    "batoid/analysis.py": [("def exitPupilPos(", "            optic.coordSys.zhat\n", "            optic.coordSys.rot[2]\n")]},
   H + '''
rot = batoid.RotZ(0.4) @ batoid.RotY(-0.5) @ batoid.RotX(0.3)
o = np.array([1.0, 2.0, 3.0])
at = lambda z, m: batoid.CoordSys(o + rot @ [0, 0, z], rot) if m else batoid.CoordSys(origin=[0, 0, z])
def tel(m):
    return batoid.CompoundOptic([
        batoid.Mirror(batoid.Quadric(20.0, -1.0), name="m", coordSys=at(0, m)),
        batoid.Mirror(batoid.Quadric(8.0, -3.0), name="n", coordSys=at(7.0, m)),
        batoid.Detector(batoid.Plane(), name="d", coordSys=at(-1.0, m))],
        name="t", pupilSize=3.0, backDist=15.0, coordSys=at(0, m),
        stopSurface=batoid.Interface(batoid.Plane(), name="s", coordSys=at(0, m)))
a = batoid.exitPupilPos(tel(False), 5e-7)
b = rot.T @ (batoid.exitPupilPos(tel(True), 5e-7) - o)
sys.exit(0 if np.max(np.abs(a-b)) < 1e-4 else f"exit pupil at {b} of the moved telescope instead of {a}")
''',
   "a telescope whose frame is turned about an axis other than its own",
   "the optic axis is a row of the rotation matrix instead of a column")
