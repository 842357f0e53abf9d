NOTES = {}
NA = {}
T = NOTES
def n(i, technique, note): NOTES[i] = {"technique": technique, "note": note}
EX = "Bounded exhaustive: every element of the stated finite space is executed on the real code built from /repo's tree and compared with an independent reference model; nothing is sampled. Assumes the alphabet's parameter values are representative of the continuous parameters. "
n("C01", "stateless model checking of the real native code: controlled scheduler, all worker orders and all single preemptions, plus happens-before conflict detection in every schedule",
  "Exhaustive over teams 1..4 (6 thorough), all worker orders, every single preemption point (pairs on short runs) for every ray operation and surface/medium/obscuration kind at batch sizes around the team size. Assumes sequential consistency between instrumented accesses and that libm calls are atomic.")
n("C02", "explicit-state enumeration of batch compositions (all ordered batches up to a length over a ray alphabet, all array layouts), differential against single-ray runs of the real code", EX)
n("C03", "breadth-first exploration of all frame-operation sequences up to a depth on the real CoordSys/CoordTransform, lock-step with a rigid-motion reference model", EX)
n("C04", "breadth-first exploration of all move/observe histories up to a depth on the real RayVector, lock-step with a closed-form reference model", EX)
n("C05", "exhaustive enumeration of a ray-state grid x surface alphabet (including all special positions) on the real kernels against an independent root-existence oracle", EX)
n("C06", "exhaustive enumeration of surface-parameter and position grids (all Noll orders, table shapes, sums) on the real code against closed-form reference models", EX)
n("C07", "exhaustive enumeration of surface x medium-pair x incidence states, with reverse-step transitions, on the real kernels against vector Snell/mirror reference models", EX)
n("C08", "exhaustive enumeration of surface x coating x direction x ray-state product on the real kernels against a flux-accounting reference model", EX)
n("C09", "breadth-first exploration of all ray-operation sequences up to a depth on the real code with the lost-ray state machine as monitor", EX)
n("C10", "exhaustive enumeration of shape/nesting/query-point/grid lattices on the real code against exact rational set-membership models", EX)
n("C11", "exhaustive enumeration of medium x wavelength lattices (all nodes, end points, neighbours in floating point) on the real code against the dispersion formulas", EX)
n("C12", "breadth-first exploration of all build/copy/slice/join/mutate histories up to a depth on real RayVectors, lock-step with a value-semantics list model; all small indices and slices", EX)
n("C13", "exhaustive enumeration of an object universe and of all pairs of its members on the real code (round trips, equality/hash laws)", EX)
n("C14", "exhaustive enumeration of all optic trees up to a size, skip patterns, directions and paths on the real code against a flattened-composition reference interpreter", EX)
n("C15", "breadth-first exploration of all derivation sequences up to a depth on real optics, lock-step with a reference tree model", EX)
n("C16", "exhaustive enumeration of small systems x coatings x flux limits on the real code against a reference exploration of the light-path tree", EX)
n("C17", "exhaustive enumeration of generator x pattern size x angle x projection x stop x medium product on the real code against geometric reference models", EX)
n("C18", "exhaustive enumeration of projection x angle lattice (axis, quadrants, scalar/array forms) on the real code against closed-form geometry", EX)
n("C19", "exhaustive enumeration of a bounded configuration grammar on the real parser against an independent reading of the configuration", EX)
n("C20", "exhaustive enumeration of analysis x grid size x sampling x field x reference product on the real code against definition-level reference computations", EX)
n("C21", "exhaustive enumeration of system x field x projection x orientation product on the real code against difference quotients of traced rays", EX)
n("C23", "exhaustive enumeration of parts x apertures x frames, trees x type filters and traced histories x (start, end) x frames, drawn on a recording axis and compared with surface, frame and ray models", EX)
n("C22", "exhaustive enumeration of call shapes under AddressSanitizer/UBSan build of the real native code, plus input-immutability monitor", EX)
n("C24", "explicit exploration of all operation histories up to length two (three thorough) over a 53-operation alphabet on fresh worlds, of all ordered pairs of calls and systems that differ in exactly one argument or number, and consecutively on one long-lived world (de Bruijn sequence), results compared bitwise with the same operation alone in a forked process; every constructor argument overwritten after use", EX)
n("C25", "explicit exploration of refused requests: table of malformed requests x worlds, all dotted names up to three tokens x by-name operations, all subsets of beam arguments, all small length assignments, all single-place breakages of a configuration, and histories (all ordered pairs of malformed requests; every malformed request followed by every ordinary operation) with full public-state comparison", EX)
n("C26", "exhaustive enumeration of written forms: every public callable x every argument x every form of the same numbers, uniform forms, pairs of forms and ways of passing, on the real library; oracle = the call with plain floats", EX)
n("C27", "explicit enumeration of a finite symmetry group (and products of its generators) acting on elements, systems, beams and analyses of the real library; oracle = the untransformed run carried over by the definition of the symmetry", EX)
n("C28", "stateless model checking of Python-level thread schedules on the real library: controlled scheduler with preemption points at every executed line, all one-preemption schedules (two in the thorough tier), state observation at every point",
  "Exhaustive over all executed lines of every operation (first visits of a line in the quick tier, six visits in the thorough one), with the partner operations stated in DESIGN.md. Native calls hold the interpreter lock throughout (no release in pysrc), so they are atomic; interleavings inside one source line are not explored.")
n("C29", "exhaustive fault injection on the real library: an exception raised at every executed line of every operation, then public-state comparison and replay of operations against results from fresh processes",
  "Exhaustive over the first visit (thorough: four visits) of every line each operation executes in the package, on a new system and on one that lived through all earlier interruptions. The moment between a with block and its own clean-up, which Python does not protect, is left out; native calls are not interrupted inside.")
