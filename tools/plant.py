"""Makes /verif/seeded/<id>/ from an edit: plant.mk(id, prop, {file: [(old, new), ...]}, demo, needs, breaks)."""
import difflib, json, os, sys
R, S = "/repo", "/verif/seeded"


def mk(id, prop, edits, demo, needs, breaks):
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    out = []
    for f, reps in edits.items():
        s = open(os.path.join(R, f)).read()
        t = s
        for r in reps:
            # (old, new): old occurs once; (anchor, old, new): the first old after the anchor, which occurs once
            anchor, a, b = r if len(r) == 3 else ("", *r)
            assert not anchor or t.count(anchor) == 1, (id, f, t.count(anchor), anchor)
            k = t.index(anchor)
            assert a in t[k:] and (anchor or t.count(a) == 1), (id, f, t.count(a), a)
            t = t[:k] + t[k:].replace(a, b, 1)
        out += [f"diff --git a/{f} b/{f}\n"] + list(difflib.unified_diff(s.splitlines(True), t.splitlines(True), f"a/{f}", f"b/{f}"))
    open(os.path.join(d, "patch.diff"), "w").writelines(out)
    open(os.path.join(d, "demo.py"), "w").write(demo.strip("\n") + "\n")
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n. /opt/vp/env.sh\nhere=$(cd "$(dirname "$0")" && pwd)\nexec timeout 200 python "$here/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
