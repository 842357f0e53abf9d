import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Parallel ray operations are independent of threads and schedule",
 "Every batch operation on rays (coordinate transforms, propagation, phases and amplitudes, obscuring, intersecting, reflecting, refracting, splitting, phase screens) gives the same result for every number of worker threads, every division of the rays among them and every interleaving of those threads; only summed amplitudes may differ, and then only by rounding. No two threads touch the same memory without synchronisation when at least one of them writes it.",
 ["schedules","inputs"],"every thread count, every interleaving of the worker threads, every batch size, every surface/medium/coating/obscuration kind",
 "The tests run with whatever schedule the OpenMP runtime happens to give for one or two thread counts; a race or an order dependence shows only on some schedules and some batch sizes.",
 ["src/batoid.cpp","src/rayVector.cpp","src/surface.cpp","src/obscuration.cpp","src/medium.cpp","src/coating.cpp"],
 [("omp parallel for loops with per-ray private state","src/batoid.cpp: intersect, reflect, refract, rSplit, refractScreen, obscure, apply*Transform*"),("reduction(+:real,imag)","src/rayVector.cpp: sumAmplitude"),("global thread limit","batoid/global_vars.py")],
 state=[("max_threads","number of workers used by each batch operation","batoid/global_vars.py, batoid/trace.py")],
 observe=["RayVector fields after each operation","memory accesses of each worker thread"])

p("C02","Each ray's outcome depends on that ray alone",
 "The result of any batch operation for one ray is the same whether that ray is processed alone, in any batch of any length, at any position, or next to failed, vignetted or not-a-number rays; the number and order of rays is preserved and an empty batch is accepted. The same holds for every vectorised function of positions, wavelengths or angles, for scalars, lists, integers and arrays of any memory layout.",
 ["inputs","configurations"],"every batch composition, length, position and array layout",
 "Tests use a few hand-picked batch shapes; cross-ray leakage depends on which neighbours a ray has, and layout bugs on particular strides, lengths and element types.",
 ["src/batoid.cpp","src/rayVector.cpp","batoid/trace.py","batoid/rayVector.py","batoid/surface.py","batoid/medium.py","batoid/coordTransform.py","pysrc/surface.cpp"],
 [("element loops","src/batoid.cpp"),("array conversion of inputs","batoid/surface.py: Surface.normal; batoid/coordTransform.py: applyForwardArray; batoid/rayVector.py: __init__")],
 observe=["per-ray outputs"])

p("C03","Changing coordinate frame never changes the physical ray",
 "Re-expressing rays or points in another frame preserves their global position and direction, speed, time, wavelength, flux and flags; going to any frame through any chain of intermediate frames equals going there directly, and going there and back is the identity. Shifting and rotating a frame, locally, globally or about any centre expressed in any frame, composes as rigid motions do, and frame axes stay orthonormal.",
 ["inputs","histories"],"every sequence of frame shifts/rotations and every chain of frame changes up to the bound",
 "Tests sample random frames with single steps; composition errors need chains with a particular mix of local/global steps, centres and frames.",
 ["batoid/coordSys.py","batoid/coordTransform.py","batoid/trace.py","batoid/rayVector.py","src/batoid.cpp"],
 [("CoordSys shift/rotate","batoid/coordSys.py"),("CoordTransform dr/drot","batoid/coordTransform.py"),("forward/reverse transform kernels","src/batoid.cpp: applyForwardTransform, applyReverseTransform")],
 state=[("coordSys","frame in which a batch is expressed","batoid/rayVector.py")],observe=["RayVector.r/v/coordSys","CoordSys.origin/rot"])

p("C04","Rays move freely in straight lines and carry a consistent phase",
 "Between surfaces a ray moves in a straight line with constant velocity, so moving rays to a time and reading their position at that time agree, moves compose to the last target time, and nothing but position and time changes. The phase of the wave a ray carries is constant along the ray, advances by one cycle per wavelength in its medium and per period in time, the complex amplitude is the unit phasor of that phase, and the summed amplitude is the flux-weighted sum over rays that have not failed (and, unless asked otherwise, are not vignetted).",
 ["inputs","histories"],"every sequence of moves and observations, every flag combination",
 "Tests compare a few random batches; sums that mishandle one flag combination or a second move are invisible to them.",
 ["batoid/rayVector.py","src/rayVector.cpp"],
 [("positionAtTime/propagate","src/rayVector.cpp"),("phase/amplitude/sumAmplitude","src/rayVector.cpp")],observe=["RayVector.r,t","phase, amplitude, sumAmplitude results"])

p("C05","Intersection puts each ray on the surface along its own line, or fails it",
 "After intersecting with a surface, a ray that is not failed lies on that surface, at a point of the straight line it was travelling along, with its time advanced by exactly the travel time and its velocity, wavelength and flags unchanged; where that point is does not depend on where along its line the ray started. A ray for which no intersection exists is marked failed and vignetted, and no ray is reported good with an undefined or off-surface position.",
 ["inputs"],"every surface kind and parameter, every ray position/direction including rays starting on the surface, travelling away from it, grazing or missing it",
 "Tests draw rays near the vertex heading toward the surface; the special cases (parabolic or planar limits, start on surface, backwards travel, far sheet, table edges) are points random sampling does not hit.",
 ["src/batoid.cpp","src/surface.cpp","src/quadric.cpp","src/sphere.cpp","src/paraboloid.cpp","src/asphere.cpp","src/plane.cpp","src/tilted.cpp","src/sum.cpp","src/bicubic.cpp","src/polynomialSurface.cpp","batoid/trace.py"],
 [("timeToIntersect per surface","src/*.cpp"),("intersect kernel and failure marking","src/batoid.cpp: intersect"),("Newton iteration","src/surface.cpp")],observe=["RayVector after intersect"])

p("C06","Surface heights and normals describe one and the same smooth surface",
 "Each surface's height is the documented function of position for its parameters (plane, tilt, sphere, paraboloid, conic, asphere, Zernike series, tabulated bicubic, sum), and its normal is the unit vector perpendicular to that height function pointing toward +z, at every position. A sum of surfaces has the summed height and the matching normal.",
 ["inputs","configurations"],"every surface kind, parameter set (including array lengths and orders) and position",
 "Tests check selected parameters; coefficient-indexing and derivative errors show only for particular orders, series lengths, grid shapes or nested sums.",
 ["src/surface.cpp","src/plane.cpp","src/tilted.cpp","src/sphere.cpp","src/paraboloid.cpp","src/quadric.cpp","src/asphere.cpp","src/polynomialSurface.cpp","src/bicubic.cpp","src/table.cpp","src/sum.cpp","batoid/surface.py"],
 [("sag and normal","src/*.cpp"),("coefficient preparation","batoid/surface.py: Asphere, Zernike, Bicubic")],observe=["Surface.sag, Surface.normal"])

p("C07","Reflection and refraction obey the laws of optics",
 "A reflected ray leaves the surface in the plane of incidence at the mirror angle with unchanged speed; a refracted ray satisfies Snell's law with the two media's indices at the ray's own wavelength and leaves with the speed of light in the new medium; both leave from the intersection point at the intersection time with wavelength and flux unchanged. A ray beyond the critical angle is marked failed and vignetted, reversing a reflected or refracted ray retraces its path, and a phase screen changes the direction cosines by the gradient of its path difference and the time by the path difference, leaving the speed unchanged.",
 ["inputs","configurations"],"every surface, pair of media, wavelength, and incidence angle and side, including normal and grazing incidence and frames differing from the ray's",
 "Tests sample random smooth cases in one orientation; normal incidence, incidence from the far side, mixed wavelengths in one batch and total internal reflection are measure-zero or absent.",
 ["src/batoid.cpp","batoid/trace.py","batoid/surface.py","src/medium.cpp"],
 [("reflect/refract/refractScreen kernels","src/batoid.cpp")],observe=["RayVector after reflect/refract/refractScreen"])

p("C08","Coatings and ray splitting account for flux exactly",
 "Splitting at a surface yields a refracted and a reflected batch whose trajectories equal those of refracting and reflecting the same rays, with fluxes equal to the incoming flux times the coating's transmissivity and reflectivity for that ray's wavelength and incidence. Applying a coating during a plain interaction multiplies the flux by the matching coefficient and changes nothing else; without a coating flux never changes.",
 ["inputs","configurations"],"every surface, coating, direction of travel, and mix of failed/vignetted/total-internal-reflection rays",
 "Tests cover one coating value with ordinary rays; wrong coefficient selection or flux applied to the wrong branch needs asymmetric coefficients and unusual rays.",
 ["src/batoid.cpp","src/coating.cpp","batoid/coating.py","batoid/trace.py","batoid/optic.py"],
 [("rSplit kernel","src/batoid.cpp: rSplit"),("coating application","src/batoid.cpp: intersect/reflect/refract")],observe=["flux and trajectories after rSplit and coated interactions"])

p("C09","Once lost, a ray stays lost and is left alone",
 "No sequence of ray operations ever clears a ray's failed or vignetted mark; every failed ray is also vignetted when the failure came from tracing; and a ray that has already failed is skipped by later surface interactions (intersecting, reflecting, refracting, splitting, phase screens, whole-system traces): its stored position, velocity, time, wavelength and flux are left as they were. Good rays in the same batch are unaffected.",
 ["histories","inputs"],"every sequence of operations up to the bound over batches mixing good, vignetted and failed rays",
 "Tests check single operations on batches that mostly succeed; a mark lost on a later operation needs a history.",
 ["src/batoid.cpp","batoid/trace.py","batoid/optic.py","batoid/obscuration.py"],
 [("early skip of failed rays","src/batoid.cpp kernels"),("vignetted |= contains","src/batoid.cpp: obscure")],
 state=[("failed","ray no longer meaningful","batoid/rayVector.py"),("vignetted","ray blocked","batoid/rayVector.py")],observe=["RayVector.failed, .vignetted and fields after every step"])

p("C10","Obscurations are exact point sets closed under boolean combination",
 "Each obscuration contains exactly the points of its documented shape (circle, annulus, rectangle with rotation, ray-shaped vane, polygon); negation, union and intersection act as set operations for any nesting; and scalar, array and grid queries agree. Obscuring rays marks as vignetted exactly the rays whose position lies in the set, adds to existing marks and changes nothing else.",
 ["inputs","configurations"],"every shape parameter on a grid, every nesting up to the bound, every query point including edges, every grid shape",
 "Tests sample random points for a few parameters; boundary points, vertices level with the query, non-square or coarse grids and nested combinations are not reached.",
 ["src/obscuration.cpp","pysrc/obscuration.cpp","batoid/obscuration.py","src/batoid.cpp"],
 [("contains per shape","src/obscuration.cpp"),("containsGrid scanline","src/obscuration.cpp: ObscPolygon::containsGrid"),("obscure kernel","src/batoid.cpp: obscure")],observe=["contains, containsGrid, RayVector.vignetted"])

p("C11","Refractive indices follow their dispersion formulas everywhere in their domain",
 "Each medium's refractive index is the documented function of wavelength (constant, linear interpolation of the table including both end points, Sellmeier, Sumita, and the air formula in pressure, temperature and humidity), for scalars and arrays and whatever numeric type the table was given in. Outside a table's range the index is undefined rather than some other value.",
 ["inputs","configurations"],"every medium kind and coefficient set, every wavelength including table nodes, end points and just outside",
 "Tests compare a handful of wavelengths with constants; node, end-point and index-search errors need exact alignment.",
 ["src/medium.cpp","pysrc/medium.cpp","batoid/medium.py"],
 [("getN per medium","src/medium.cpp"),("table search","src/medium.cpp: TableMedium::getN")],observe=["Medium.getN"])

p("C12","Ray batches are independent values under copying, slicing and joining",
 "Copies, slices, joined and unpickled batches, and batches built from user arrays, hold the same rays as their source at that moment, and later changing one by tracing, moving or re-framing never changes another. Indexing and slicing select the same rays that the same index or slice selects from an ordinary array, joining keeps order and all fields, and equality holds exactly between batches whose rays are the same.",
 ["histories","inputs"],"every sequence of build/copy/slice/join/pickle/mutate steps up to the bound, every index and slice of small batches",
 "Tests check a few slices and one mutation; aliasing shows only when a later mutation hits one of several live batches, and index arithmetic errors only for particular indices.",
 ["batoid/rayVector.py","pysrc/rayVector.cpp","src/dualView.cpp"],
 [("RayVector.__getitem__, copy, concatenateRayVectors","batoid/rayVector.py"),("lazy device view cached per batch","batoid/rayVector.py: _rv")],
 state=[("_rv","cached native view of the arrays","batoid/rayVector.py")],observe=["all fields of all live batches after each step"])

p("C13","Every object survives printing, pickling and comparison",
 "For every surface, medium, coating, obscuration, frame, frame change, lattice, ray batch and optic, unpickling its pickle and evaluating its printed form give an object equal to it with the same hash and the same behaviour. Equality distinguishes objects with different defining parameters (the ones their printed form shows), is symmetric, and equal objects hash alike and behave alike.",
 ["configurations","inputs"],"every constructible kind of object over a grid of parameters and nestings, all pairs compared",
 "Tests round-trip one random instance per kind; a parameter dropped from the state, hash or comparison is seen only when objects differ in just that parameter.",
 ["batoid/surface.py","batoid/medium.py","batoid/coating.py","batoid/obscuration.py","batoid/coordSys.py","batoid/coordTransform.py","batoid/lattice.py","batoid/rayVector.py","batoid/optic.py"],
 [("__getstate__/__setstate__/__repr__/__eq__/__hash__","each class")],observe=["pickle, repr, ==, hash, results of calls"])

p("C14","Tracing a system is tracing its surfaces in order",
 "Tracing rays through any nesting of optics equals interacting with each non-skipped surface in order (in opposite order when reversed, in the requested order for an explicit path, reflecting where the path turns back), then applying that surface's obscuration. The full-history trace reports exactly the rays entering and leaving each surface of that same trace without modifying its input, tracing never modifies the optic, and tracing the reversed outgoing rays backwards through the system returns them to where they came from.",
 ["programs","inputs","histories"],"every tree of optics up to the bound, every skip pattern, every path, forward and reverse, repeated use",
 "Tests trace a few shipped telescopes; ordering, skip, path and reversal errors depend on the shape of the system and on combinations of options.",
 ["batoid/optic.py","batoid/trace.py"],
 [("Interface/CompoundOptic trace, traceFull","batoid/optic.py")],observe=["trace, traceFull outputs; the optic before and after"])

p("C15","Deriving a perturbed optic changes exactly what was asked and nothing else",
 "Every derivation of a new optic (shifted, rotated, with one subsystem moved, with a surface replaced or perturbed, with an item inserted or removed) leaves the original unchanged and yields a system that differs in exactly the requested part: named parts and everything inside them move rigidly, all else, including media, coatings, obscurations, names, skip marks and extra attributes, is preserved. Lookup by full or unambiguous partial name finds exactly the named part, and sequences of derivations compose as the corresponding rigid motions and replacements do.",
 ["histories","programs"],"every sequence of derivations up to the bound on systems with nested, similarly named and differently oriented parts",
 "Tests perturb named parts of two telescopes one step at a time; wrong-part selection depends on the particular names, and lost attributes or stale caches appear on the second step.",
 ["batoid/optic.py","batoid/coordSys.py"],
 [("with* methods","batoid/optic.py"),("itemDict/_names lookup","batoid/optic.py: CompoundOptic")],
 state=[("itemDict, _names","cached name tables","batoid/optic.py")],observe=["frames, surfaces, media, coatings, obscurations, attributes of every part of old and new optics"])

p("C16","Ghost tracing enumerates every light path once and conserves flux",
 "Splitting rays through a system returns exactly one batch for every distinct sequence of surfaces along which some ray survives, in the group for the side on which it leaves; each batch equals tracing the rays along that sequence with the corresponding coefficients and carries that sequence as its path. Rays below the flux limit or blocked are dropped and no other light is lost or created.",
 ["programs","inputs"],"every small system of refracting, reflecting and blocking surfaces, every coating assignment, every flux limit in a grid, both directions",
 "Tests check total flux for one lens system; a missing, duplicated or misdirected path needs enumeration of the path tree.",
 ["batoid/optic.py","batoid/trace.py","src/batoid.cpp"],
 [("traceSplit work queue","batoid/optic.py: CompoundOptic.traceSplit"),("Interface.traceSplit","batoid/optic.py")],observe=["forward and reverse lists, paths, fluxes, rays"])

p("C17","Generated pupil rays hit the pupil where asked, as one plane wave",
 "Rays generated for a grid, polar pattern, fan, spokes or single stop point, collimated or from a finite source, cross the stop at exactly the documented pattern of points, lie on the documented starting wavefront behind the system, travel with the documented direction and the medium's light speed, share the wavefront time (for the grid, polar, fan, spoke and single-point generators), and have the requested wavelength and flux. Defaults taken from the optic equal the same values given explicitly.",
 ["inputs","configurations"],"every combination of generator, pattern size, field angle, projection, stop and medium in a grid",
 "Tests check a few combinations against one telescope; parity (even/odd sizes), defaults, finite sources and unusual stops interact.",
 ["batoid/rayVector.py","batoid/utils.py"],
 [("asGrid, asPolar, asFan, asSpokes, fromStop, fromFieldAngles","batoid/rayVector.py"),("stop projection","batoid/rayVector.py: _finish")],observe=["generated RayVector, traced to stop"])

p("C18","Field-angle projections are unit-vector bijections",
 "Each projection between field angles and direction cosines yields unit vectors travelling toward -z within its domain, is inverted exactly by its partner, agrees with its documented geometry and with every other projection to first order at the axis, and handles the axis itself. Scalars and arrays of any shape give the same values, normalising a vector gives the unit vector along it, and the rotations about the x, y and z axes are proper rotations by the stated angle, opposite angles inverting each other.",
 ["inputs"],"every projection on a grid of angles and directions including the axis, each axis crossing and all quadrants, scalar and array forms",
 "Tests sample random small angles; axis points, large angles and array branches that mix special and ordinary elements are not hit.",
 ["batoid/utils.py"],
 [("*ToDirCos, dirCosTo*, fieldToDirCos, dirCosToField","batoid/utils.py")],observe=["returned direction cosines and angles"])

p("C19","A configuration file builds exactly the optical system it describes",
 "Building an optic from a configuration yields the parts, frames (as the ordered composition of the stated shifts and rotations within the parent frame), surfaces, obscurations and media the configuration states, with unspecified media inherited from the enclosing part. Every shipped telescope file loads, loading is repeatable, and consecutive parts agree on the medium between them.",
 ["configurations"],"every small configuration from a grammar (types, nesting, media given or inherited, frame entries in every order), every shipped file",
 "Tests load the shipped files and compare a few traced rays; inheritance and ordering rules need combinations that the shipped files do not contain.",
 ["batoid/parse.py","batoid/optic.py","batoid/data"],
 [("parse_optic, parse_coordSys, parse_surface, parse_obscuration, parse_medium","batoid/parse.py")],observe=["parsed optic tree compared with an independent reading of the configuration"])

p("C20","Image and wavefront analyses agree with first-principles evaluation",
 "Spot, wavefront, diffraction image and Zernike analyses equal what follows from tracing the rays and applying their definitions: path-length difference at the reference sphere, discrete transform with reciprocal sampling, coherent sum of ray amplitudes, least-squares pupil fit. Gridded results carry coordinates that label each value correctly for every grid size and shape (array axes in numpy [y,x] order), and the analyses leave the optic unchanged.",
 ["inputs","configurations"],"every combination of analysis, grid size (odd, even, non-square), sampling, field angle and reference option in a grid, every small lattice",
 "Tests compare analyses on one configuration with loose tolerances; labelling, sign and parity errors are configuration-specific.",
 ["batoid/analysis.py","batoid/lattice.py"],
 [("spot, wavefront, huygensPSF, fftPSF, zernike*, exitPupilPos","batoid/analysis.py"),("Lattice coordinates","batoid/lattice.py")],observe=["returned lattices and arrays"])

p("C21","Differential analyses are the derivatives of the traced system",
 "Pupil, angle and focal-length derivative analyses equal the derivative of the traced quantity with respect to the stated input, in the documented orientation, and the reported exit pupil and focal length are those of the traced chief and neighbouring rays. They hold for any field angle, projection and orientation of the system and leave it unchanged.",
 ["inputs","configurations"],"every analysis over a grid of systems, field angles, projections and wavelengths",
 "Tests check on-axis rotationally symmetric telescopes where transposition and sign errors cancel.",
 ["batoid/analysis.py"],
 [("dkdu, drdth, dthdr, exitPupilPos, focalLength","batoid/analysis.py")],observe=["returned matrices and lengths"])

p("C22","Operations touch only their own memory",
 "No call with acceptable arguments reads or writes outside the arrays it was given or created: for every batch length, grid shape, table size and wavelength or position at a table's edge, the bytes around every buffer stay as they were and nothing uninitialised reaches a result. Input arrays supplied by the caller are not modified unless the operation is documented to work in place.",
 ["inputs","configurations"],"every operation over every small size and shape, with queries at and beyond table edges",
 "Tests would pass with an out-of-bounds access that lands in mapped memory; only an instrumented build over exhaustive shapes observes it.",
 ["src","pysrc","batoid/surface.py","batoid/obscuration.py","batoid/medium.py","batoid/rayVector.py"],
 [("raw pointers passed from numpy arrays","pysrc/*.cpp"),("table lookup","src/table.cpp, src/medium.cpp")],observe=["AddressSanitizer/UBSan reports, canary bytes, input arrays after each call"])
p("C23","Drawn parts and rays are the parts and rays that are traced",
 "The outlines, meshes and slices produced for drawing an optic consist of points on its surfaces, within their inner and outer radii, in global coordinates, for every part whose radius is known and for no other; drawing a compound draws exactly its parts (of the requested types). Ray tracks extracted from a full-history trace pass through exactly the vertices where each ray entered and left each requested surface, in the requested frame, up to the last one at which the ray is still visible. Drawing never changes the optic or the rays.",
 ["inputs","configurations"],"every surface kind, aperture kind and frame; every small tree and type filter; every traced history, start, end and frame",
 "The tests only check that drawing does not raise; a misplaced or misscaled drawing is invisible to them.",
 ["batoid/optic.py"],
 [("draw3d, get3dmesh, getXZSlice, draw2d of Interface, CompoundOptic and Lens","batoid/optic.py"),("getGlobalRays, drawTrace2d, drawTrace3d","batoid/optic.py")],observe=["points handed to the plotting axis"])
p("C24","Optical systems and their parts are values: using them never changes them",
 "Whatever sequence of tracing, ray generation, analysis, drawing, inspection, copying, printing and deriving of modified systems is performed, on this or other systems in the same process, each operation gives exactly the result it gives on a freshly built equal system. Every optic, surface, medium, obscuration, coating, frame, transform and lattice involved stays as it was, results already handed out do not change, process-wide state (random generators, floating-point error handling, default frame and media) is left alone, and the caller may overwrite computed results, or the arrays and lists an element was built from, without affecting any element. Methods documented to work in place change only the ray batch or optic they are called on.",
 ["histories","programs"],"every sequence of two (thorough: three) operations over an alphabet covering every public operation, two argument sets and two systems that differ in every number but in no name",
 "A test builds its system, does one thing and looks; a memo with an incomplete key, an aliased array or a default object modified in place shows only in the second or third operation.",
 ["batoid"],
 [("cached itemDict and names","batoid/optic.py"),("derived systems sharing parts","batoid/optic.py: with*"),("analyses","batoid/analysis.py"),("constructors","batoid/surface.py, batoid/obscuration.py, batoid/medium.py, batoid/coordSys.py")],observe=["result of every operation, public state of every object after it"])
p("C25","Malformed requests are refused and leave everything as it was",
 "A request that names a part, projection, reference, spacing, component type or file that does not exist, fits more than one part, gives too few or too many of the arguments that define a beam, joins arrays whose lengths must agree but do not, is built of ingredients of the wrong kind, or asks for a fit with fewer rays than terms raises an exception instead of answering; a complete request does not. After the refusal every object involved, including rays that were to be traced in place, configurations and process-wide state, is exactly as before, the same request is refused again, and every later operation gives the result it would have given without it.",
 ["inputs","histories","configurations"],"every entry of a table of malformed requests, every dotted name up to three tokens with every by-name operation, every subset of beam-defining arguments, every assignment of small lengths to arrays that must agree, every single broken place of a complete configuration, every ordered pair of malformed requests and of a malformed request and an ordinary operation",
 "Tests try a few bad calls and look for the exception; a half-finished operation, a name silently resolved to the wrong part or a contradiction silently ignored needs the whole table and a look at the state afterwards.",
 ["batoid"],
 [("by-name access and derivation","batoid/optic.py"),("generators' argument handling","batoid/rayVector.py"),("constructors' checks","batoid/surface.py, batoid/medium.py, batoid/obscuration.py, batoid/lattice.py"),("rank and failure checks","batoid/analysis.py"),("parse_*","batoid/parse.py")],observe=["exception or answer, public state of every object before and after, results of later operations"])
p("C26","The written form of a value does not matter",
 "Every public constructor, operation, query, ray generator, analysis and configuration gives the same result, and leaves its arguments as they are, however the same numbers are written: as Python integers or floats, NumPy scalars, lists, tuples, arrays of floating or integer element type, of native or swapped byte order, contiguous, Fortran-ordered, strided, reversed or read-only, by position or by name and in any order of names. What is built from one form equals, hashes, prints, pickles and behaves like what is built from another.",
 ["inputs","configurations"],"every public callable x every argument x every form, all arguments in one form at once, all pairs of forms for two-argument callables, positional and reordered named passing",
 "Tests pass float64 arrays or Python floats; a dropped conversion shows only for a float32, integer, strided or read-only argument of one particular parameter, often as silently wrong numbers read through a raw pointer.",
 ["batoid"],
 [("argument conversion","batoid/surface.py, batoid/medium.py, batoid/obscuration.py, batoid/coordSys.py, batoid/rayVector.py"),("projections","batoid/utils.py"),("analyses","batoid/analysis.py"),("configuration values","batoid/parse.py")],observe=["results, equality, hash and printed form of what is built, arguments afterwards"])
p("C27","Results transform with the system: mirror images, scale and rigid motion",
 "Mirroring or quarter-turning everything in the x-y plane, measuring all lengths in another unit (down to a thousandth of the size), or moving and turning all of it rigidly in space - elements, frames, masks, media, rays, fields and perturbations together - transforms every result by exactly the same operation: heights, normals, intersections, reflected, refracted, split and obscured rays, ghosts, generated beams, perturbed systems, spots, wavefronts, Zernike coefficients, point-spread images and plate scales; indices, fluxes and what is vignetted or lost do not change. No result depends on where the origin is, on which way the axes point or on an absolute length.",
 ["inputs","configurations"],"the eight symmetries of the square x powers of a common length scale x rigid motions, and their products, applied to every kind of element, three composite systems with every kind of part, a ghost system and all analyses",
 "A test compares with numbers for one placement and size; a sign, an axis or an absolute tolerance that is wrong only off that placement needs the same system in all its images.",
 ["batoid"],
 [("surfaces, masks, rays","src/*.cpp, batoid/surface.py, batoid/obscuration.py"),("beams","batoid/rayVector.py"),("systems","batoid/optic.py"),("analyses","batoid/analysis.py")],observe=["every ray field, flag and frame, every analysis result"])
p("C28","Objects may be shared by the Python threads of a process",
 "When several Python threads use the same optics, parts, lattices and ray batches at once, each for tracing copies of rays, generating beams, analysing, drawing, looking up, comparing, copying, pickling or deriving modified systems, every operation gives exactly the result it gives alone, whatever the interleaving. At no moment of an operation does another thread see a shared object, or process-wide state other than scoped floating-point and warning settings, different from what it was.",
 ["schedules"],"every operation preempted at every line of the package it executes (all schedules with one preemption; thorough: two), by the same operation with other and with the same arguments and by a set of others, on systems never used before and on used ones; shared state observed from another thread at every such line",
 "Threads in a test almost never meet inside the window in which a temporary value sits in a shared object or a memo is half built; only a controlled scheduler visits every window.",
 ["batoid"],
 [("cached names","batoid/optic.py: itemDict, _names"),("tracing and analyses","batoid/optic.py, batoid/analysis.py, batoid/rayVector.py"),("settings","batoid/global_vars.py, batoid/utils.py")],observe=["result of both operations, shared objects at every preemption point and afterwards"])
p("C29","An operation cut short leaves nothing behind",
 "If an operation that is not documented to work in place is ended at any point by an exception from outside, such as an interruption from the keyboard or a lack of memory, then every optic, surface, medium, obscuration, frame, ray batch and configuration involved and all process-wide state are as before it started, an interruption from the keyboard is not swallowed, and the same operation and every other one give the same results afterwards as on a freshly built system.",
 ["fault_sequences","histories"],"every operation of a 53-letter alphabet (two argument sets) ended at every line of the package it executes, on a system never used before and on one that has lived through all earlier interruptions, followed by the same operation and others",
 "A test never interrupts anything; a temporary change that is undone at the end, a memo marked ready before it is, or a setting restored without protection is wrong only if the end never comes.",
 ["batoid"],
 [("cached names","batoid/optic.py: itemDict, _names"),("derived systems","batoid/optic.py: with*"),("floating-point settings","batoid/utils.py"),("analyses","batoid/analysis.py")],observe=["public state of every object and of the process after the interruption, results of later operations"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
