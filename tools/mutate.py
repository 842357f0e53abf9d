"""Mutation campaign: tools/mutate.py FILE[,FILE..] N WORKERS [--start K]
Applies single syntactic changes to non-test sources in private copies of /repo and runs the checks that concern the file, cheapest
first, until one reports a violation.  Survivors are printed for inspection (equivalent change, out of scope, or a gap in a check).
Log: /tmp/mut/log.jsonl"""
import ast, hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue

CHECKS = {
 "optic.py": "C23 C14 C16 C15 C13 C19 C25 C24", "analysis.py": "C21 C20 C25 C22 C24", "rayVector.py": "C17 C12 C25 C04 C13 C03 C02 C22 C24", "coordSys.py": "C03 C13 C25",
 "coordTransform.py": "C03 C13 C02 C25", "obscuration.py": "C10 C13 C25", "medium.py": "C11 C13 C25 C22", "surface.py": "C06 C13 C05 C07 C08 C02 C25 C22",
 "trace.py": "C03 C05 C07 C08 C09 C10 C25", "parse.py": "C19 C25", "lattice.py": "C20 C13 C25", "utils.py": "C18 C17 C20 C24", "coating.py": "C08 C13", "global_vars.py": "C01",
 "batoid.cpp": "C03 C05 C07 C08 C09 C02 C01 C22", "rayVector.cpp": "C04 C12 C27 C01 C22", "obscuration.cpp": "C10 C22", "medium.cpp": "C11 C22", "table.cpp": "C06 C22 C05",
 "coating.cpp": "C08 C26", "dualView.cpp": "C04 C12 C01 C22", None: "C06 C05 C07 C22 C27",
}


def py_mutants(src):
    t = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    P = lambda n, e=False: (off[(n.end_lineno if e else n.lineno) - 1] + (n.end_col_offset if e else n.col_offset))
    out = []
    docs = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    def between(l, r, old, new):
        s, e = P(l, True), P(r)
        seg = b[s:e].decode()
        i = seg.find(old)
        if i >= 0:
            out.append((s + i, s + i + len(old), new))
    OPS = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "/"), ast.Mod: ("%", "*"), ast.MatMult: ("@", "*"), ast.Pow: ("**", "*"), ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&")}
    CMP = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="), ast.Is: ("is", "is not"), ast.IsNot: ("is not", "is"), ast.In: ("in", "not in"), ast.NotIn: ("not in", "in")}
    for n in ast.walk(t):
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            between(n.left, n.right, *OPS[type(n.op)])
        elif isinstance(n, ast.Compare):
            between(n.left, n.comparators[0], *CMP[type(n.ops[0])])
        elif isinstance(n, ast.BoolOp):
            o = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            between(n.values[0], n.values[1], *o)
        elif isinstance(n, ast.UnaryOp):
            s = P(n)
            o = {ast.USub: "-", ast.Not: "not ", ast.Invert: "~"}.get(type(n.op))
            if o:
                out.append((s, s + len(o), ""))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not Ellipsis:
            v = n.value
            new = {True: "False", False: "True"}.get(v) if isinstance(v, bool) else ("0" if v is None else repr(v + 1))
            if v is not None:
                out.append((P(n), P(n, True), new))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return)) and n not in docs:
            if isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Attribute, ast.Subscript)) and len(n.targets) == 1 and random.random() < 0.7:
                continue                                                  # mostly NameErrors
            out.append((P(n), P(n, True), "pass"))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                a0, a1 = n.args[:2]
                s0, e0, s1, e1 = P(a0), P(a0, True), P(a1), P(a1, True)
                if b[s0:e0] != b[s1:e1]:
                    out.append((s0, e1, (b[s1:e1] + b[e0:s1] + b[s0:e0]).decode()))
            for kw in n.keywords:
                if kw.arg:
                    s, e = P(kw), P(kw, True)
                    m = re.match(rb"\s*,", b[e:])
                    out.append((s, e + (m.end() if m else 0), ""))
        elif isinstance(n, ast.If):
            out.append((P(n.test), P(n.test, True), "False"))
            out.append((P(n.test), P(n.test, True), "True"))
        elif isinstance(n, ast.Attribute) and n.attr in ("x", "y", "z", "vx", "vy", "vz", "inMedium", "outMedium", "reverseCoating", "forwardCoating"):
            o = {"x": "y", "y": "x", "z": "x", "vx": "vy", "vy": "vx", "vz": "vx", "inMedium": "outMedium", "outMedium": "inMedium", "reverseCoating": "forwardCoating", "forwardCoating": "reverseCoating"}[n.attr]
            e = P(n, True)
            out.append((e - len(n.attr), e, o))
    return [(s, e, r) for s, e, r in out if b[s:e].decode() != r]


def cpp_mutants(src):
    out = []
    code = re.sub(r"//[^\n]*|/\*.*?\*/|#[^\n]*", lambda m: " " * len(m.group()), src, flags=re.S)
    for pat, rep in [(r"(?<=[\w\)\] ])\+(?=[ \w\(])(?!\+)", "-"), (r"(?<=[\w\)\] ])-(?=[ \w\(])", "+"), (r"(?<=[\w\)\] ])\*(?=[ \w\(])", "/"), (r"(?<=[\w\)\] ])/(?=[ \w\(])", "*"),
                     (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r"&&", "||"), (r"\|\|", "&&"),
                     (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+= ", "-= "), (r"-= ", "+= "), (r"(?<=[^\w.])0(?=[^\w.x])", "1"), (r"(?<=[^\w.])1(?=[^\w.])", "2"), (r"\b1\.0\b", "2.0"),
                     (r"\b2\b", "3"), (r"\bx\b", "y"), (r"\by\b", "x"), (r"\bvx\b", "vy"), (r"\bvz\b", "vy"), (r"!(?=\w)", ""), (r"\bm1\b", "m2"), (r"\bn1\b", "n2"), (r"\bn2\b", "n1")]:
        for m in re.finditer(pat, code):
            out.append((m.start(), m.end(), rep))
    for m in re.finditer(r"\n[ \t]*([\w\[\]\.>\-]+ [\+\-\*/]?= [^;\n]+;)", code):                # assignments to existing variables
        if not re.match(r"(const )?(double|int|bool|auto|size_t|float)\b", m.group(1)):
            out.append((m.start(1), m.end(1), ";"))
    for m in re.finditer(r"if \(([^\n]*)\) ?(\{|return|[^\n;]*;)", code):
        out.append((m.start(1), m.end(1), "false"))
    return [(s, e, r) for s, e, r in out if src[s:e] != r]


def main():
    files = sys.argv[1].split(",")
    N, W = int(sys.argv[2]), int(sys.argv[3])
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    random.seed(seed)
    jobs = []
    for f in files:
        src = open("/repo/" + f).read()
        ms = py_mutants(src) if f.endswith(".py") else cpp_mutants(src)
        # docstring / comment positions are excluded by construction; stay on lines of the original repository
        random.shuffle(ms)
        jobs += [(f, m) for m in ms[:N]]
    random.shuffle(jobs)
    slots = queue.Queue()
    for k in range(W):
        d = f"/tmp/mut/w{k}"
        subprocess.run(["rm", "-rf", d])
        os.makedirs(d + "/verif")
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        subprocess.check_call(f"cd /verif && tar cf - --exclude=.git --exclude=replays --exclude=seeded . | tar xf - -C {d}/verif", shell=True)
        slots.put(d)
    log = open("/tmp/mut/log.jsonl", "a")

    def work(job):
        f, (s, e, r) = job
        d = slots.get()
        try:
            src = open("/repo/" + f, "rb").read()
            if f.endswith(".py"):
                new = src[:s] + r.encode() + src[e:]
            else:
                t = src.decode(); new = (t[:s] + r + t[e:]).encode()
            if f.endswith(".py"):
                try:
                    compile(new, f, "exec")
                except SyntaxError:
                    return
            line = src[:s].count(b"\n") + 1
            old = src.splitlines()[line - 1].decode().strip()
            nw = new.splitlines()[line - 1].decode().strip()
            open(f"{d}/repo/{f}", "wb").write(new)
            res, t0 = "SURVIVED", time.time()
            for p in CHECKS.get(os.path.basename(f), CHECKS[None]).split():
                try:
                    q = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {d}/repo /repo; mount --bind {d}/verif /verif; cd /verif; exec timeout 900 bash run.sh {p}"], capture_output=True, text=True, timeout=1000)
                    rc = q.returncode
                except subprocess.TimeoutExpired:
                    rc = 124
                if rc == 2 and ("BUILD-ERROR" in q.stderr):
                    res = "NOBUILD"; break
                if rc == 1 and "VIOLATION property" in q.stdout:
                    res = p; break
                if rc != 0:
                    res = f"RC{rc}:{p}:" + (q.stderr + q.stdout)[-300:]; break
            rec = dict(file=f, line=line, old=old, new=nw, res=res, wall=round(time.time() - t0))
            log.write(json.dumps(rec) + "\n"); log.flush()
            if res == "SURVIVED" or res.startswith("RC"):
                print(json.dumps(rec), flush=True)
        finally:
            shutil.copy2("/repo/" + f, f"{d}/repo/{f}")
            slots.put(d)
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(work, jobs))
    print("DONE", len(jobs), flush=True)
main()
