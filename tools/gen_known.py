"""(Re)writes the 'fixed:' lines of known_findings.txt from /repo's log; 'known:' lines are kept by hand below."""
import subprocess, os
MAP = [  # (subject fragment, property)
 ("reflecting face is inside silica", "C19"),
 ("one-element arrays at the axis", "C18"),
 ("dropped the optic's R_inner", "C15"),
 ("intersections choose the sheet", "C05"), ("start iterative intersections", "C05"), ("ObscPolygon.containsGrid", "C10"),
 ("Obscuration.obscure returns", "C10"), ("comparing polygons", "C13"), ("TableMedium stores", "C11"), ("TableMedium reads past", "C22"),
 ("Asphere with imin=1", "C22"), ("equal Bicubics hash", "C13"), ("Surface.normal broadcasts", "C02"), ("RayVector indexing", "C12"),
 ("RayVector equality", "C12"), ("Optic honours the skip", "C15"), ("skip takes part", "C13"), ("derived from one with coatings", "C15"),
 ("traceSplit through skipped", "C16"), ("traceSplit drops failed", "C16"), ("OPDScreen.rSplit", "C16"), ("select the named part", "C15"), ("stop surface rigidly", "C15"),
 ("repeated names raised", "C15"), ("phase screens deflect", "C07"), ("vector lx and ly", "C17"), ("vector dx", "C17"), ("asSpokes", "C17"),
 ("fromStop no longer", "C22"), ("finite source", "C17"), ("backDist is measured", "C17"), ("reciprocal lattice", "C20"),
 ("fftPSF with an odd", "C20"), ("zernikeGQ's chief", "C20"), ("exitPupilPos measures", "C21"), ("focalLength of systems", "C21"),
 ("fromFieldAngles overwrote", "C22"), ("lose angles near", "C18"), ("mangled 2-d", "C02"),
 ("Plane pickled", "C13"), ("PFS.yaml writes", "C19"),
 ("joining ray batches given in different frames", "C12"), ("get3dmesh of optics", "C23"), ("draw2d accepts a list", "C23"), ("documented globalSys", "C23"),
 ("along the x axis instead of NaNs", "C17"), ("ObscPolygon keeps its own", "C24"), ("Asphere keeps its own", "C24"), ("Lattices of masked", "C13"),
 ("flux arrays that do not match", "C25"), ("unknown spacing for", "C25"), ("tables with fewer indices", "C25"), ("coordinates of unequal lengths", "C25"),
 ("empty lists of obscurations", "C25"), ("partly traced when its path", "C25"),
 ("ring and spoke arrays", "C22"), ("accept lists and integer", "C26"), ("another thread looks up", "C28"),
 ("parsing an Interface", "C19"), ("parsing a configuration", "C19"),
]
KNOWN = open(os.path.join(os.path.dirname(__file__), "known_manual.txt")).read()
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "ec93a90..HEAD"], text=True).splitlines()
out = [KNOWN.rstrip()]
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    p = [q for f, q in MAP if f in s]
    if 'unknown spacing' in s: p = ['C25']
    assert len(p) == 1, (s, p)
    out.append(f"fixed: property={p[0]} {h} {s[5:]}")
open("/verif/known_findings.txt", "w").write("\n".join(out) + "\n")
