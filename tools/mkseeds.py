#!/usr/bin/env python3
"""Development aid: create /verif/seeded/<id>/ from tools/seeds/<id>.txt and confirm each in a scratch copy of /repo.

Spec file: header lines 'property: C07', 'needs: ...', 'breaks: ...', 'sources: data/buffer.c', 'cflags: ...'; then blocks
'@@@ file' old '---->' new; finally '@@@ demo' followed by the C text of demo.c."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

DEMO = '''#!/bin/bash
# cwd: /repo (built). Compiles demo.c beside this script with the listed sources and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 0
trap 'rm -rf "$tmp"' EXIT
ulimit -c 0
%s -g -I. %s -o "$tmp/demo" "$here/demo.c" %s || exit %s
cd "$tmp" || exit 0
timeout 120 ./demo
'''


def parse(p):
    s = open(p).read()
    parts = re.split(r"^@@@ ", s, flags=re.M)
    h = {}
    for l in parts[0].splitlines():
        if ":" in l:
            a, b = l.split(":", 1)
            h[a.strip()] = b.strip()
    reps = []
    demo = None
    for q in parts[1:]:
        f, body = q.split("\n", 1)
        if f.strip() == "demo":
            demo = body
        else:
            a, b = body.split("\n---->\n") if "\n---->\n" in body else (body.split("\n---->")[0], "\n")
            reps.append((f.strip(), a, b[:-1] if b.endswith("\n") else b))
    return h, reps, demo


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", **k)


def one(id):
    h, reps, demo = parse(os.path.join(HERE, "seeds", id + ".txt"))
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % w, w)
        for f, a, b in reps:
            s = open(os.path.join(w, f)).read()
            if s.count(a) < 1:
                return "%s: PATTERN NOT FOUND %r" % (id, a[:50])
            open(os.path.join(w, f), "w").write(s.replace(a, b, 1))
        diff = sh("git diff", w).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.c"), "w").write(demo)
        cc = h.get("cc", "gcc")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % (cc, h.get("cflags", "-Wall"), h.get("sources", ""), h.get("compilefail", "0")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        for f in h.get("files", "").split():
            shutil.copy(os.path.join(ROOT, f), d)
        json.dump(dict(property=h["property"], needs=h["needs"], what_it_breaks=h["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        # lines of the original repository only
        fixed = sh("git -C /repo blame -s --line-porcelain HEAD -- x", w)
        base = sh("git -C /repo rev-list --max-parents=0 HEAD", w).stdout.strip()
        for f, a, b in reps:
            bl = sh("git -C /repo blame -s -l HEAD -- " + f, w).stdout.splitlines()
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", sh("git diff -U0 -- " + f, w).stdout, flags=re.M):
                n0, c = int(m.group(1)), int(m.group(2) or 1)
                for i in range(n0, n0 + c):
                    if base[:30] not in bl[i - 1]:
                        return "%s: touches a fix line: %s" % (id, bl[i - 1])
        # builds and passes
        b = "%s/_b" % w
        r = sh("cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_COMPILER=/usr/bin/gcc && ninja -C %s" % (w, b, b), w)
        if r.returncode:
            return "%s: does not build\n%s" % (id, r.stdout[-2000:])
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        failed = []
        for t in sorted({x.split("::")[0] for x in stable}):
            for u in [x.split("::")[1] for x in stable if x.split("::")[0] == t]:
                r = sh("ulimit -c 0; timeout 20 ./%s --exec=never %s" % (t, u), b)
                if r.returncode:
                    failed.append(t + "::" + u)
        if failed:
            return "%s: tests fail: %s" % (id, failed)
        bad = sh("bash %s/demo.sh" % d, w)
        good = sh("bash %s/demo.sh" % d, "/repo")
        if good.returncode != 0:
            return "%s: demo fails on the unchanged tree: %s" % (id, (good.stdout + good.stderr)[-500:])
        if bad.returncode == 0:
            return "%s: demo passes with the patch" % id + bad.stderr[-300:]
        return "%s: ok (demo: %s)" % (id, (bad.stdout + bad.stderr).strip()[-120:].replace("\n", " | "))
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:] or sorted(x[:-4] for x in os.listdir(os.path.join(HERE, "seeds")) if x.endswith(".txt"))
    with ThreadPoolExecutor(7) as ex:
        for r in ex.map(one, ids):
            print(r, flush=True)
