"""Entry points of one check analysed in child processes: nothing is shared, the results are merged in the order of submission."""
import os
import pickle
import select
import traceback

FIELDS = ("proved", "counts", "violations", "undecided", "samples", "functions")


def width():
    return int(os.environ.get("VERIF_JOBS", "0") or 0) or os.cpu_count() or 1


class Fanout:
    def __init__(self, rep):
        self.rep = rep
        self.jobs = []          # [label, pipe, pid, data, finished]

    def submit(self, label, work):
        while sum(not j[4] for j in self.jobs) >= width():
            self.pump()
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            self.jobs.append([label, r, pid, [], False])
            return
        code = 1
        try:
            os.close(r)
            rep = self.rep
            rep.proved, rep.counts, rep.violations, rep.undecided, rep.samples, rep.functions = 0, {}, [], [], [], set()
            rep.fanout = None
            err = None
            try:
                work()
            except Exception as e:
                traceback.print_exc()
                err = (type(e).__name__, str(e))
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps((err, {k: getattr(rep, k) for k in FIELDS})))
            code = 0
        finally:
            os._exit(code)

    def pump(self):
        open_ = {j[1]: j for j in self.jobs if not j[4]}
        for fd in select.select(list(open_), [], [])[0]:
            j = open_[fd]
            b = os.read(fd, 1 << 20)
            if b:
                j[3].append(b)
            else:
                os.close(fd)
                os.waitpid(j[2], 0)
                j[4] = True

    def join(self):
        from .report import AnalysisBroken
        while any(not j[4] for j in self.jobs):
            self.pump()
        jobs, self.jobs = self.jobs, []
        rep = self.rep
        for label, _, _, data, _ in jobs:
            try:
                err, d = pickle.loads(b"".join(data))
            except Exception:
                rep.undecide(label + ":scope", "not analysable: its process ended early")
                rep.count("entry points")
                continue
            if err:
                raise AnalysisBroken("%s: %s: %s" % (label, err[0], err[1]))
            rep.proved += d["proved"]
            for k, n in d["counts"].items():
                rep.count(k, n)
            for k, t in d["violations"]:
                rep.violate(k, t)
            for k, t in d["undecided"]:
                rep.undecide(k, t)
            rep.samples += d["samples"][:max(0, 12 - len(rep.samples))]
            rep.functions |= d["functions"]
