"""C22 - memory: every operation over every small size, shape and layout, with table queries at and beyond the edges, executed on an
AddressSanitizer + UBSan build of the real native code; inputs sit between canaries and are compared afterwards; and two runs that
differ only in what fresh heap and stack memory contains must give the same results."""
import os
import subprocess
import sys
import tempfile

import build
import core

NS = 4
HERE = os.path.dirname(os.path.abspath(build.__file__))


def env(fill):
    lib = [subprocess.check_output(["g++", f"-print-file-name={n}"], text=True).strip() for n in ("libasan.so", "libubsan.so")]
    return dict(os.environ, LD_PRELOAD=" ".join(os.path.realpath(q) for q in lib), PYTHONMALLOC="malloc", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1",
                ASAN_OPTIONS=f"detect_leaks=0:max_malloc_fill_size=65536:malloc_fill_byte={fill}:free_fill_byte={fill ^ 0xFF}:max_free_fill_size=65536:allocator_may_return_null=1:handle_segv=1:abort_on_error=0:exitcode=77",
                UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=78")


def parse(path):
    done, last, bad, exc, total = {}, None, [], {}, None
    for line in open(path):
        t = line.rstrip("\n").split(" ", 3)
        if t[0] == "B":
            last = (int(t[1]), t[2])
        elif t[0] == "E":
            done[int(t[1])] = (last[1], t[2], int(t[3]))
            last = None
        elif t[0] == "V":
            bad.append((t[2], t[3]))
        elif t[0] == "X":
            exc[int(t[1])] = (t[2], t[3])
        elif t[0] == "N":
            total = int(t[1])
    return done, last, bad, exc, total


def run(c, B):
    c.method = "exhaustive enumeration of call shapes on the real native code under AddressSanitizer and UndefinedBehaviorSanitizer with memory-content twins"
    for v in ("asan", "asanz"):
        build.build(v)
    runs = [("asan", 0xAA), ("asanz", 0x11)]
    with tempfile.TemporaryDirectory(prefix="mc-mem-") as d:
        jobs = {}

        def start(r, s, at):
            v, fill = runs[r]
            e = open(os.path.join(d, f"{r}-{s}.err"), "w")
            jobs[r, s] = (subprocess.Popen([sys.executable, os.path.join(HERE, "memdrv.py"), v, str(fill), c.tier, str(s), str(NS), str(at), os.path.join(d, f"{r}-{s}.out")], env=env(fill), stdout=e, stderr=e), e)
        for r in (0, 1):
            for s in range(NS):
                start(r, s, 0)
        restarts = {k: 0 for k in jobs}
        res = {}
        while jobs:
            # wait for any child, telling the supervisor that there is progress as long as they write
            import time
            time.sleep(0.2)
            size = sum(os.path.getsize(os.path.join(d, f)) for f in os.listdir(d))
            if size != getattr(run, "_size", None):
                run._size = size
                key = "start"
                for r, s in jobs:
                    p = os.path.join(d, f"{r}-{s}.out")
                    if os.path.exists(p):
                        l = parse_tail(p)
                        key = l or key
                c.beat(key)
            for (r, s), (p, e) in list(jobs.items()):
                if p.poll() is None:
                    if core.rss(p.pid) > 6 << 30:
                        p.kill()
                    continue
                del jobs[r, s]
                e.close()
                out = os.path.join(d, f"{r}-{s}.out")
                if not os.path.exists(out):
                    raise OSError("the instrumented build does not start: " + open(os.path.join(d, f"{r}-{s}.err")).read()[-2000:])
                done, last, bad, exc, total = parse(out)
                res[r, s] = (done, bad, exc, total)
                if total is None and last is not None:
                    err = open(os.path.join(d, f"{r}-{s}.err")).read()
                    i = max(err.rfind("ERROR: AddressSanitizer"), err.rfind("runtime error"))
                    what = err[max(0, i - 200):][:3000]
                    c.fail(last[1] + "#memory", "memory error: " + (err[i:].split("\n")[0][:200] if i >= 0 else f"the process died with {p.returncode}"), report=what)
                    restarts[r, s] += 1
                    if restarts[r, s] < 6:
                        start(r, s, last[0] + 1)
                elif total is None:
                    raise OSError("instrumented child failed outside any case: " + open(os.path.join(d, f"{r}-{s}.err")).read()[-2000:])
        n = 0
        for s in range(NS):
            d0, b0, x0, t0 = res[0, s]
            d1, b1, x1, t1 = res[1, s]
            for k, m in b0 + b1:
                c.fail(k + "#input", m)
            for i, (k, m) in {**x0, **x1}.items():
                c.fail(k + "#raised", f"unexpected exception: {m}")
            for i in sorted(set(d0) & set(d1)):
                k, h, m = d0[i]
                c.state(k)
                c.trans(m)
                c.trace()
                n += 1
                c.true(k + "#uninitialised", d1[i][1] == h, "the results depend on what fresh memory contained: something uninitialised, freed or out of bounds reached a result")
                c.outcome(k.split(":")[0])
        if not c.violations:
            c.true("cases", n == t0, f"{n} of {t0} cases ran")
        c.sample(dict(cases=n, runs=[f"{v} fill={f:#x}" for v, f in runs]))
    c.assume("arguments are acceptable: tables and polygons whose arrays agree in length, one- to three-dimensional coordinates; Python objects are used by one thread at a time (C01 covers the native threads)")
    c.assume("numpy's and CPython's own memory handling is correct; freed blocks below 1 kB are recycled by numpy, so lifetimes are explored with larger arrays")
    c.extra["bounds"] = "lengths 0..33 (257), tables 2..6 (8) per side, all nodes +- 1 ulp, non-finite and huge queries, Zernike orders 1..28 (66), 5 array layouts, 3-4 dtypes"


def parse_tail(p):
    with open(p, "rb") as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - 400))
        for line in reversed(f.read().decode(errors="replace").splitlines()):
            if line.startswith("B "):
                return line.split(" ", 2)[-1]
    return None
