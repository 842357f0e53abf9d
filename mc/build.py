"""Builds batoid's native extension from /repo's *current working tree*, outside /repo.

Variants
  plain : the flags of the shipped build (-O2 -DNDEBUG -fopenmp)
  asan  : AddressSanitizer + UBSan (used by C22 in child processes); asanz: same, other stack fill
  sched : -fsanitize=thread instrumentation *without* libtsan, linked against
          mc/schedrt.cpp, a controlled scheduler/access recorder (C01)
Object files are cached under /verif/.cache by a hash of everything they depend on,
so a changed source is always rebuilt and an unchanged one never is.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get("BATOID_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")

COMMON = ["-std=c++14", "-fPIC", "-fvisibility=hidden", "-fopenmp", "-w"]
VARIANTS = {
    "plain": dict(cflags=["-O2", "-DNDEBUG"], ldflags=["-fopenmp"], extra=[]),
    "asan": dict(cflags=["-O1", "-g1", "-fsanitize=address,undefined",
                         "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined",
                         "-fno-omit-frame-pointer"],
                 ldflags=["-fopenmp", "-fsanitize=address,undefined"], extra=[]),
    # the same, with every automatic variable filled with zeros instead of a pattern
    "asanz": dict(cflags=[], ldflags=["-fopenmp", "-fsanitize=address,undefined"], extra=[]),
    "sched": dict(cflags=["-O1", "-g1", "-fsanitize=thread"],
                  ldflags=[], extra=[os.path.join(VERIF, "mc", "schedrt.cpp")]),
}
VARIANTS["asanz"]["cflags"] = VARIANTS["asan"]["cflags"] + ["-ftrivial-auto-var-init=zero"]
VARIANTS["asan"]["cflags"] = VARIANTS["asan"]["cflags"] + ["-ftrivial-auto-var-init=pattern"]


def _pyinc():
    import pybind11
    return ["-I" + pybind11.get_include(), "-I" + sysconfig.get_paths()["include"]]


def _digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def build(variant="plain"):
    v = VARIANTS[variant]
    headers = sorted(glob.glob(f"{REPO}/include/**/*.h*", recursive=True)
                     + glob.glob(f"{REPO}/src/*.h*") + glob.glob(f"{REPO}/pysrc/*.h*"))
    sources = sorted(glob.glob(f"{REPO}/src/*.cpp") + glob.glob(f"{REPO}/pysrc/*.cpp"))
    ext = sysconfig.get_config_var("EXT_SUFFIX")
    tag = [v["cflags"], v["ldflags"], COMMON, sys.version, subprocess.check_output(
        ["g++", "-dumpfullversion"]).decode()]
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, f"lock-{variant}"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        hd = _digest(headers, tag)
        allh = _digest(sources + headers + v["extra"], tag)
        out = os.path.join(CACHE, variant, allh, "_batoid" + ext)
        if os.path.exists(out):
            os.utime(os.path.dirname(out))
            return out
        objdir = os.path.join(CACHE, variant, "obj")
        os.makedirs(objdir, exist_ok=True)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        inc = ["-I" + REPO + "/include"] + _pyinc()
        jobs = []
        for s in sources:
            o = os.path.join(objdir, os.path.basename(os.path.dirname(s)) + "_"
                             + os.path.basename(s)[:-4] + "-" + _digest([s], [hd, s]) + ".o")
            jobs.append((s, o, COMMON + v["cflags"] + inc))
        for s in v["extra"]:
            o = os.path.join(objdir, os.path.basename(s)[:-4] + "-" + _digest([s], tag) + ".o")
            jobs.append((s, o, ["-std=c++17", "-fPIC", "-O2", "-fvisibility=hidden", "-w"]))

        def comp(j):
            s, o, fl = j
            if os.path.exists(o):
                return None
            tmp = o + ".tmp%d" % os.getpid()
            r = subprocess.run(["g++", *fl, "-c", s, "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                return f"{s}:\n{r.stderr[-3000:]}"
            os.replace(tmp, o)
            return None
        # biggest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (10**6 if "pysrc" in j[0] else 0))
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            errs = [e for e in ex.map(comp, jobs) if e]
        if errs:
            raise BuildError("\n".join(errs))
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++", "-shared", "-Wl,-Bsymbolic", "-o", tmp, *[j[1] for j in jobs],
                            *v["ldflags"]], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-3000:])
        os.replace(tmp, out)
        _prune(os.path.join(CACHE, variant), keep=os.path.dirname(out))
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _prune(d, keep, n=6):
    dirs = [os.path.join(d, x) for x in os.listdir(d) if x != "obj"]
    dirs.sort(key=os.path.getmtime, reverse=True)
    for x in dirs[n:]:
        if x != keep:
            shutil.rmtree(x, ignore_errors=True)
    objs = [os.path.join(d, "obj", x) for x in os.listdir(os.path.join(d, "obj"))]
    objs.sort(key=os.path.getmtime, reverse=True)
    for x in objs[400:]:
        os.unlink(x)


def load(variant="plain"):
    """Import batoid with Python code from REPO and the freshly built extension."""
    import importlib.util
    import types
    assert "batoid" not in sys.modules
    so = build(variant)
    sys.dont_write_bytecode = True
    spec = importlib.util.spec_from_file_location("batoid._batoid", so)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["batoid._batoid"] = mod
    spec.loader.exec_module(mod)
    if not os.path.exists(f"{REPO}/batoid/_version.py"):
        vm = types.ModuleType("batoid._version")
        vm.__version__ = "0.7.0"
        sys.modules["batoid._version"] = vm
    spec = importlib.util.spec_from_file_location(
        "batoid", f"{REPO}/batoid/__init__.py",
        submodule_search_locations=[f"{REPO}/batoid"])
    pkg = importlib.util.module_from_spec(spec)
    sys.modules["batoid"] = pkg
    spec.loader.exec_module(pkg)
    pkg._batoid = mod
    assert sys.modules["batoid._batoid"] is mod
    assert os.path.realpath(pkg.rayVector.__file__).startswith(os.path.realpath(REPO) + "/")
    return pkg


if __name__ == "__main__":
    for var in sys.argv[1:] or ["plain"]:
        print(build(var))
