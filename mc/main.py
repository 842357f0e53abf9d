import argparse
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--hang", type=float, default=200.0)
    a = ap.parse_args()
    import core
    if not os.environ.get("MC_CHILD"):
        sys.exit(core.supervise(a.prop, [os.path.abspath(__file__)] + sys.argv[1:], a.hang))
    import build
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        only = r["key"]
        a.tier = r.get("tier", a.tier)
    c = core.Checker(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick",
                     int(os.environ.get("VERIF_SEED", "1") or 1))
    mod = importlib.import_module(a.prop.lower())
    try:
        B = build.load(getattr(mod, "VARIANT", "plain"))
    except build.BuildError as e:
        print(e, file=sys.stderr)
        print("BUILD-ERROR: /repo does not compile", file=sys.stderr)
        sys.exit(2)
    c.t0 = __import__("time").time()
    try:
        mod.run(c, B)
    except core.TooMany:
        c.exhaustive = False
        c.extra["stopped"] = "stopped after too many violations"
    except (MemoryError, OSError, ImportError, KeyboardInterrupt):
        raise
    except Exception as e:
        # no element of the enumeration raises on a tree where the property holds
        c.fail(f"{c.cur or 'run'}#raised:{type(e).__name__}",
               f"unexpected {type(e).__name__} out of the code under test: {e}",
               traceback=traceback.format_exc()[-3000:])
    if only is not None:
        hit = {k: v for k, v in c.violations.items() if k == only}
        for v in hit.values():
            print(json.dumps(v, indent=1, default=repr))
        print("REPRODUCED" if hit else "not reproduced")
        sys.exit(1 if hit else 0)
    rc = c.finish()
    sys.stdout.flush()
    os._exit(rc)


try:
    main()
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    sys.exit(2)
