#!/usr/bin/env python3
"""Development aid (no check uses it): run checks against the textual mutants / refactorings listed in tools/mutants/*.txt.

File format: blocks separated by lines of '====':   first line 'ID file check[,check] bad|same', then old text, a line '---->', new text.
More replacements in the same block: a line '++++ file' starts the next one."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))


def load(path):
    out = []
    for blk in open(path).read().split("\n====\n"):
        blk = blk.strip("\n")
        if not blk:
            continue
        head, body = blk.split("\n", 1)
        id, file, checks, kind = head.split()
        reps = []
        for i, part in enumerate(re.split(r"^\+\+\+\+ ", "x\n" + body if False else file + "\n" + body, flags=re.M)):
            if i == 0:
                f, rest = part.split("\n", 1)
            else:
                f, rest = part.split("\n", 1)
            a, b = rest.split("\n---->\n") if "\n---->\n" in rest else (rest.split("\n---->")[0], "")
            reps.append((f.strip(), a, b.rstrip("\n")))
        out.append((id, reps, checks.split(","), kind))
    return out


def one(m):
    id, reps, checks, kind = m
    d = tempfile.mkdtemp(prefix="mutant")
    try:
        subprocess.run("cp -a %s/. %s/ && rm -rf %s/.git" % (os.environ.get("BASE", "/repo"), d, d), shell=True, check=True)
        for f, a, b in reps:
            p = os.path.join(d, f)
            s = open(p).read()
            if a not in s:
                return "%-14s PATTERN NOT FOUND in %s: %r" % (id, f, a[:60])
            open(p, "w").write(s.replace(a, b, 1))
        res = []
        ok = kind == "same"
        for c in checks:
            e = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d)
            p = subprocess.run([sys.executable, os.path.join(HERE, "..", "run.py"), c, "quick"], env=e, capture_output=True, text=True)
            und = [l for l in p.stdout.splitlines() if l.startswith("  undecided")]
            vio = [l for l in p.stdout.splitlines()[1:] if l.startswith("  ") and not l.startswith("  undecided") and not l.startswith("   ")]
            res.append("%s=%d%s" % (c, p.returncode, " und%d" % len(und) if und else ""))
            if kind == "bad" and p.returncode == 1:
                ok = True
            if kind == "same" and p.returncode != 0:
                ok = False
            if os.environ.get("V"):
                res.append("\n" + "\n".join(x[:300] for x in (vio[:2] + und[:2] + p.stderr.splitlines()[-3:])))
        return "%-14s %-5s %s %s" % (id, kind, "ok  " if ok else "FAIL", " ".join(res))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ms = []
    for a in sys.argv[1:]:
        if ":" in a:
            a, ids = a.split(":")
        else:
            ids = None
        p = os.path.join(HERE, "mutants", a + ".txt")
        ms += [m for m in load(p) if ids is None or m[0] in ids.split(",")]
    with ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
        for r in ex.map(one, ms):
            print(r, flush=True)
