"""A controlled scheduler for Python code: run an operation up to its k-th line inside the package under test, and let something
else happen there - another thread's whole operation, or the end of this one."""
import io
import os
import pickle
import queue
import select
import sys
import threading
import time
import traceback


class Stop:
    """trace function: calls act(frame) once, before line event number k of code below root (k counted from 0)"""
    def __init__(self, root, act=None, k=None, per_opcode=False):
        self.root, self.act, self.k, self.n, self.seen, self.ops = root + os.sep, act, k, 0, [], per_opcode
        self.fired = False

    def __call__(self, fr, ev, arg):
        if not fr.f_code.co_filename.startswith(self.root):
            return None
        if self.ops:
            fr.f_trace_opcodes, fr.f_trace_lines = True, False
        return self.local

    def local(self, fr, ev, arg):
        if ev != ("opcode" if self.ops else "line"):
            return self.local
        i = self.n
        self.n += 1
        if self.k is None:
            self.seen.append((fr.f_code.co_filename, fr.f_code.co_firstlineno, fr.f_lasti, fr.f_lineno))
        elif i == self.k:
            self.fired = True
            sys.settrace(None)
            fr.f_trace = None
            self.act(fr)
            return None
        return self.local

    def run(self, f):
        sys.settrace(self)
        try:
            return f()
        finally:
            sys.settrace(None)


def points(root, f, visits, per_opcode=False):
    """numbers of the line events of f(): all of them, or the first `visits` of every line"""
    s = Stop(root, per_opcode=per_opcode)
    s.run(f)
    if not visits:
        return list(range(s.n)), s
    cnt, out = {}, []
    for i, p in enumerate(s.seen):
        cnt[p] = cnt.get(p, 0) + 1
        if cnt[p] <= visits:
            out.append(i)
    return out, s


def where(s, k):
    f, _, _, l = s.seen[k]
    return f"{os.path.basename(f)}:{l}"


class Other:
    """a second thread that runs what it is given, one thing after another"""
    pid = None

    @classmethod
    def call(cls, f):
        if cls.pid != os.getpid():
            cls.pid, cls.ask, cls.ans = os.getpid(), queue.SimpleQueue(), queue.SimpleQueue()
            threading.Thread(target=cls.serve, args=(cls.ask, cls.ans), daemon=True).start()
        cls.ask.put(f)
        return cls.ans.get()

    @staticmethod
    def serve(ask, ans):
        while True:
            f = ask.get()
            try:
                ans.put((f(), None))
            except BaseException as e:                                    # noqa: handed back
                ans.put((None, e))


other_thread = Other.call                                                 # f() in another thread, to its end -> (result, exception)


class Relay:
    """two threads, exactly one of which runs; control passes only at the chosen points"""
    def __init__(self, root):
        self.root = root
        self.turn = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]

    def go(self, fs, cuts):
        """fs: two thunks; cuts[t]: numbers of line events of thread t at which it lets the other one run.  Thread 0 starts."""
        res = [[None, None], [None, None]]

        def body(t):
            self.turn[t].acquire()
            left = sorted(cuts[t])
            n = [0]

            def local(fr, ev, arg):
                if ev == "line":
                    if left and n[0] == left[0]:
                        left.pop(0)
                        n[0] += 1
                        if not self.done[1 - t]:
                            self.turn[1 - t].release()
                            self.turn[t].acquire()
                        return local
                    n[0] += 1
                return local

            def glob(fr, ev, arg):
                return local if fr.f_code.co_filename.startswith(self.root + os.sep) else None
            sys.settrace(glob)
            try:
                res[t][0] = fs[t]()
            except BaseException as e:                                    # noqa: handed back
                res[t][1] = e
            finally:
                sys.settrace(None)
                self.done[t] = True
                self.turn[1 - t].release()
        th = [threading.Thread(target=body, args=(t,)) for t in (0, 1)]
        for t in th:
            t.start()
        self.turn[0].release()
        for t in th:
            t.join()
        return res


def spread(c, jobs, work, n=7, per_job=None):
    """work(job, report) for every job, over n processes; report(kind, *args) is replayed on c in order of jobs.
    A worker that dies is a violation of the job it was on."""
    jobs = list(jobs)
    rd = []
    qr, qw = os.pipe()                                                    # the queue: whoever is free takes the next number
    assert 4 * len(jobs) < 60000
    os.write(qw, b"".join(i.to_bytes(4, "little") for i in range(len(jobs))))
    os.close(qw)
    for w in range(min(n, len(jobs))):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                with os.fdopen(wr, "wb") as f:
                    while True:
                        i = os.read(qr, 4)
                        if not i:
                            break
                        i = int.from_bytes(i, "little")
                        t0 = time.time()
                        pickle.dump(("start", i, None), f)
                        f.flush()
                        log = []
                        try:
                            work(jobs[i], lambda *a: log.append(a))
                        except BaseException as e:                        # noqa: reported
                            log.append(("fail", f"{jobs[i]}#raised:{type(e).__name__}", f"unexpected {type(e).__name__}: {e}", dict(traceback=traceback.format_exc()[-2500:])))
                        if os.environ.get("MC_TIMES"):
                            sys.stderr.write(f"{time.time() - t0:.2f} {jobs[i]}\n")
                        pickle.dump(("done", i, log), f)
                        f.flush()
            except BaseException:                                         # noqa: the parent sees the missing end
                code = 1
            finally:
                os._exit(code)
        os.close(wr)
        rd.append((pid, r))
    os.close(qr)
    bufs = {r: b"" for _, r in rd}
    open_ = set(bufs)
    while open_:
        ready, _, _ = select.select(list(open_), [], [], 5.0)
        for r in ready:
            b = os.read(r, 1 << 20)
            if b:
                bufs[r] += b
            else:
                open_.discard(r)
                os.close(r)
        c.beat(f"jobs:{sum(map(len, bufs.values()))}")
    logs = {}
    for pid, r in rd:
        _, st = os.waitpid(pid, 0)
        f, last = io.BytesIO(bufs[r]), None
        while True:
            try:
                k, i, log = pickle.load(f)
            except (EOFError, pickle.UnpicklingError):
                break
            last = i if k == "start" else None
            if k == "done":
                logs[i] = log
        if last is not None:
            logs[last] = [("fail", f"{jobs[last]}#died", f"the process doing this ended with status {st}", {})]
    for i in sorted(logs):
        for kind, *a in logs[i]:
            if kind == "fail":
                c.fail(a[0], a[1], **a[2])
            elif kind == "trans":
                c.trans(*a)
            elif kind == "trace":
                c.trace(*a)
            elif kind == "outcome":
                c.outcome(*a)
            elif kind == "state":
                c.states.add(a[0])
            elif kind == "extra":
                c.extra.setdefault(a[0], {})[a[1]] = a[2]
    if set(logs) != set(range(len(jobs))):
        c.fail("jobs#missing", "some jobs gave no answer", missing=[str(jobs[i]) for i in range(len(jobs)) if i not in logs][:5])
