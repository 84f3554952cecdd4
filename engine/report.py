"""Verdicts, evidence and the known-findings file."""
import json
import os
import sys
import time
from . import build

ROOT = build.HERE


class AnalysisBroken(Exception):
    """An anchor vanished or a rule matched nothing: error exit, neither pass nor violation."""


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.proved = 0
        self.counts = {}
        self.violations = []     # (key, text)
        self.undecided = []      # (key, text)
        self.samples = []
        self.assumptions = []
        self.rules = []
        self.functions = set()
        self.arith = False       # C42: suites report arithmetic obligations only
        self.term = False        # C43: suites report loops that do not end only
        self.fanout = None       # entry points under way in child processes

    def submit(self, label, work):
        from . import fanout
        if fanout.width() == 1:
            return work()
        if self.fanout is None:
            self.fanout = fanout.Fanout(self)
        self.fanout.submit(label, work)

    def join(self):
        if self.fanout is not None:
            self.fanout.join()

    def rule(self, text):
        if text not in self.rules and not ((self.arith or self.term) and self.rules):
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, what=None, n=1):
        self.proved += n
        if what is not None and len(self.samples) < 12:
            self.samples.append(what)

    def violate(self, key, text):
        if self.term and "term:" not in key:
            return
        if self.arith and not any(k in key for k in ("ovf:", "fpconv:", "div0:")):
            return
        if key not in [k for k, _ in self.violations]:
            self.violations.append((key, text))

    def undecide(self, key, text):
        if key not in [k for k, _ in self.undecided]:
            self.undecided.append((key, text))

    def need(self, name, minimum):
        self.join()
        if self.counts.get(name, 0) < minimum and not self.violations:
            raise AnalysisBroken("%s: rule matched %d '%s' instances, expected at least %d" %
                                 (self.prop, self.counts.get(name, 0), name, minimum))

    def known(self):
        out = {}
        try:
            with open(os.path.join(ROOT, "known_findings.txt")) as f:
                for line in f:
                    if line.startswith("known:"):
                        parts = line.split(None, 3)
                        if parts[1] == "property=" + self.prop:
                            out[parts[2][len("key="):]] = parts[3].strip() if len(parts) > 3 else ""
        except OSError:
            pass
        return out

    def finish(self):
        self.join()
        known = self.known()
        new = []
        for k, t in self.violations:
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]))
            else:
                new.append((k, t))
        d = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        expl = ("Static analysis. Rules applied: " + " | ".join(self.rules) +
                ". Obligations discharged: %d; undecided (reported as such, not alarmed): %d; violations: %d." %
                (self.proved, len(self.undecided), len(self.violations)))
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0),
                  level="other",
                  coverage=dict(explanation=expl, obligations=self.proved + len(self.undecided) + len(self.violations),
                                discharged=self.proved, undecided=len(self.undecided),
                                undecided_list=[k + ": " + t.splitlines()[0] for k, t in self.undecided[:40]],
                                analysed=dict(self.counts),
                                functions=sorted(self.functions), samples=self.samples or ["none"]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3), violations=len(new))
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print("%s (%s): %d obligations discharged, %d undecided, %d violations; %s; %.1fs" %
              (self.prop, self.tier, self.proved, len(self.undecided), len(self.violations),
               ", ".join("%s=%d" % kv for kv in sorted(self.counts.items())), ev["wall_s"]))
        for k, t in self.undecided[:int(os.environ.get("VERIF_SHOW", "10"))]:
            print("  undecided %s: %s" % (k, t))
        if new:
            rp = os.path.join(d, self.prop + ".violation.txt")
            with open(rp, "w") as f:
                for k, t in new:
                    f.write("[%s] %s\n%s\n\n" % (self.prop, k, t))
            for k, t in new[:20]:
                print("  %s: %s" % (k, t))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0
