#!/usr/bin/env python3
"""Development aid: run the quick check of each seed's property (or the given checks) on a patched scratch copy."""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(id):
    d = os.path.join(ROOT, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="rs")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git apply %s/patch.diff" % (w, w, d), shell=True, check=True)
        checks = os.environ.get("CHECKS", prop).split(",")
        out = []
        for c in checks:
            p = subprocess.run([sys.executable, ROOT + "/run.py", c, "quick"], env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=w), capture_output=True, text=True)
            ls = p.stdout.splitlines()
            v = [l for l in ls[1:] if l.startswith("  ") and not l.startswith("  undecided") and not l.startswith("   ")]
            out.append("%s %d %s" % (c, p.returncode, (v or ls[1:2] or [""])[0].strip()[:160]))
        return "%-24s %s" % (id, " ; ".join(out))
    finally:
        shutil.rmtree(w, ignore_errors=True)


with ThreadPoolExecutor(7) as ex:
    for r in ex.map(one, sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded"))):
        print(r, flush=True)
