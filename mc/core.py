"""Explorer core: bookkeeping, known findings, evidence, replay files, supervision.

A check is a Python function run(c, B) that *enumerates* a finite space and, for every element,
executes the real code (B is batoid built from /repo's working tree) and compares with a boring
reference model.  Vocabulary used in the evidence:
  state      - a distinct (canonicalised) system state / input point on which the oracle was evaluated
  transition - one call of the real code from such a state
  trace      - one complete history whose every step was compared with the reference model
"""
import contextlib
import fnmatch
import hashlib
import json
import os
import re
import signal
import subprocess
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def _jsonable(o, depth=0):
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    if isinstance(o, np.ndarray):
        return o.tolist() if o.size <= 64 else {"shape": list(o.shape), "head": o.ravel()[:64].tolist()}
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, dict) and depth < 6:
        return {str(k): _jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)) and depth < 6:
        return [_jsonable(v, depth + 1) for v in list(o)[:200]]
    return repr(o)[:2000]


def canon(*parts):
    """Hash of a canonical form of a state (floats rounded to 12 significant digits)."""
    h = hashlib.blake2b(digest_size=12)
    for p in parts:
        if isinstance(p, np.ndarray):
            if p.dtype.kind == 'f':
                with np.errstate(all='ignore'):
                    q = np.where(np.isfinite(p) & (p != 0), p, 1.0)
                    e = np.power(10.0, np.floor(np.log10(np.abs(q))) - 11)
                    r = np.round(q / e) * e
                    r = np.where(np.isfinite(p) & (p != 0), r, p)
                h.update(np.nan_to_num(r, nan=1e301).astype('f8').tobytes())
            else:
                h.update(p.tobytes())
            h.update(str(p.shape).encode())
        else:
            h.update(repr(p).encode())
        h.update(b'|')
    return h.digest()


class KnownFindings:
    def __init__(self, prop):
        self.items = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                m = re.match(r'known:\s+property=(\S+)\s+key=(\S+)\s+(.*)', line)
                if m and m.group(1) == prop:
                    self.items.append((m.group(2), m.group(3).strip()))

    def match(self, key):
        for pat, what in self.items:
            if pat == key or ('*' in pat and fnmatch.fnmatchcase(key, pat)):
                return pat, what
        return None


class TooMany(Exception):
    pass


class Checker:
    MAXV = int(os.environ.get("MC_MAXV", "40"))

    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.states = set()
        self.ntrans = 0
        self.ntraces = 0
        self.samples = []
        self.violations = {}
        self.known_hit = {}
        self.known = KnownFindings(prop)
        self.extra = {}
        self.assumptions = []
        self.outcomes = {}
        self.exhaustive = True
        self.cur = None
        self.crumb = os.environ.get('MC_CRUMB')
        self._lastcrumb = 0
        self.method = ""

    # --- bookkeeping -------------------------------------------------
    def state(self, *parts):
        self.states.add(canon(*parts))

    def state_rows(self, tag, arr):
        """Count each row of a 2-d float array as a state."""
        arr = np.ascontiguousarray(np.atleast_2d(np.asarray(arr, dtype=float)))
        pre = hashlib.blake2b(repr(tag).encode(), digest_size=4).digest()
        for row in arr:
            self.states.add(pre + hashlib.blake2b(row.tobytes(), digest_size=8).digest())

    def trans(self, n=1):
        self.ntrans += int(n)

    def trace(self, n=1):
        self.ntraces += int(n)

    def outcome(self, kind, n=1):
        self.outcomes[kind] = self.outcomes.get(kind, 0) + int(n)

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(_jsonable(s))

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def beat(self, key):
        now = time.time()
        self.cur = key
        if self.crumb and (now - self._lastcrumb > 0.25 or True):
            self._lastcrumb = now
            try:
                with open(self.crumb, 'w') as f:
                    f.write(str(key)[:500])
            except OSError:
                pass

    @contextlib.contextmanager
    def case(self, key):
        """A named element of the enumeration.  On the unchanged tree no case raises, so an
        exception out of one means the code under test behaves differently."""
        self.beat(key)
        try:
            yield
        except TooMany:
            raise
        except Exception as e:
            self.fail(f"{key}#raised:{type(e).__name__}", f"unexpected {type(e).__name__}: {e}",
                      traceback=traceback.format_exc()[-2500:])

    def want(self, key):
        return self.only is None or str(key) in self.only or any(str(o).startswith(str(key)) for o in [self.only])

    # --- verdicts ----------------------------------------------------
    def fail(self, key, msg, **detail):
        key = re.sub(r'\s+', '', str(key))
        k = self.known.match(key)
        if k:
            self.known_hit.setdefault(k[0], (k[1], msg))
            return
        if key in self.violations:
            self.violations[key]["count"] += 1
            return
        if len(self.violations) >= self.MAXV:
            raise TooMany()
        self.violations[key] = {"property": self.prop, "key": key, "message": msg, "count": 1,
                                "tier": self.tier, "detail": _jsonable(detail)}

    def true(self, key, cond, msg, **detail):
        if not bool(cond):
            self.fail(key, msg, **detail)
            return False
        return True

    def close(self, key, got, want, atol=1e-12, rtol=0.0, msg="", **detail):
        """nan == nan; shapes must agree."""
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.fail(key, f"{msg}: shape {got.shape} != {want.shape}", got=got, want=want, **detail)
            return False
        if got.dtype.kind in 'bOUS' or want.dtype.kind in 'bOUS':
            bad = got != want
        else:
            with np.errstate(all='ignore'):
                bad = ~(np.abs(got - want) <= atol + rtol * np.abs(want))
                bad &= ~(np.isnan(got) & np.isnan(want))
                bad &= ~(got == want)
        if np.any(bad):
            i = tuple(int(v) for v in np.argwhere(np.atleast_1d(bad))[0])
            g, w = np.atleast_1d(got)[i], np.atleast_1d(want)[i]
            self.fail(key, f"{msg}: {int(np.sum(bad))} of {bad.size} values differ; first at {i}: "
                           f"got {g!r}, expected {w!r}", index=i, got=got, want=want, **detail)
            return False
        return True

    # --- end ---------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        cov = {"states": len(self.states), "transitions": self.ntrans,
               "traces_validated_against_impl": self.ntraces,
               "samples": self.samples, "exhaustive": bool(self.exhaustive),
               "distinct_outcomes": self.outcomes, "method": self.method}
        cov.update(_jsonable(self.extra))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 3),
              "violations": len(self.violations),
              "known_findings_seen": sorted(self.known_hit)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if self.only is None:
            with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
                json.dump(ev, f, indent=1, default=repr)
        for pat, (what, msg) in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.prop} {what} [{pat}]")
        print(f"{self.prop} tier={self.tier}: states={cov['states']} transitions={cov['transitions']} "
              f"traces={cov['traces_validated_against_impl']} outcomes={self.outcomes} "
              f"violations={len(self.violations)} wall={wall:.1f}s")
        return write_violations(self.prop, list(self.violations.values()))


def write_violations(prop, vs):
    if not vs:
        return 0
    d = os.path.join(VERIF, "replays", prop)
    os.makedirs(d, exist_ok=True)
    for i, v in enumerate(vs[:int(os.environ.get("MC_SHOW", "10"))]):
        path = os.path.join(d, f"{i}.json")
        v["replay_cmd"] = f"cd {VERIF} && bash run.sh {prop} --replay {path}"
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=repr)
        print(f"  {v['key']}: {v['message'][:400]}")
        print(f"VIOLATION property={prop} replay={path}")
    return 1


MAXRSS = 12 << 30


def rss(pid):
    try:
        with open(f"/proc/{pid}/statm") as f:
            return int(f.read().split()[1]) * 4096
    except (OSError, IndexError, ValueError):
        return 0


def supervise(prop, argv, hang_s):
    """Run the check in a child process so that a crash or a hang of the code under test is a
    verdict (with the element being explored) and not an error of the check."""
    import tempfile
    fd, crumb = tempfile.mkstemp(prefix="mc-crumb-")
    os.close(fd)
    env = dict(os.environ, MC_CHILD="1", MC_CRUMB=crumb)
    p = subprocess.Popen([sys.executable, "-X", "faulthandler", *argv], env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         start_new_session=True)
    import threading
    outs = {}

    def pump(name, stream, echo):
        buf = []
        for line in stream:
            buf.append(line)
            echo.write(line)
            echo.flush()
        outs[name] = "".join(buf)
    ths = [threading.Thread(target=pump, args=("o", p.stdout, sys.stdout)),
           threading.Thread(target=pump, args=("e", p.stderr, sys.stderr))]
    for t in ths:
        t.start()
    hung = huge = False
    last = time.time()
    stamp = None
    while p.poll() is None:
        time.sleep(0.2)
        st = os.stat(crumb)
        if (st.st_mtime_ns, st.st_size) != stamp:
            stamp = (st.st_mtime_ns, st.st_size)
            last = time.time()
        huge = rss(p.pid) > MAXRSS
        if huge or time.time() - last > hang_s:
            hung = not huge
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            break
    p.wait()
    for t in ths:
        t.join(timeout=10)
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    key = open(crumb).read()
    os.unlink(crumb)
    rc = p.returncode
    if huge and key:
        return write_violations(prop, [{"property": prop, "key": key + "#memory", "count": 1,
                                "message": f"this case allocated more than {MAXRSS >> 30} GB: the call does not terminate",
                                "detail": {}}])
    if hung and key:
        return write_violations(prop, [{"property": prop, "key": key + "#hang", "count": 1,
                                "message": f"no progress for {hang_s}s: the call does not terminate",
                                "detail": {"stderr": outs.get("e", "")[-3000:]}}])
    if rc < 0 and rc != -signal.SIGKILL and rc != -signal.SIGINT and rc != -signal.SIGTERM and key:
        return write_violations(prop, [{"property": prop, "key": key + "#crash", "count": 1,
                                "message": f"the process died with signal {-rc} during this case",
                                "detail": {"stderr": outs.get("e", "")[-3000:]}}])
    return rc if rc in (0, 1) else 2
