"""Compile sources of /repo to LLVM bitcode and load them."""
import hashlib
import os
import subprocess
import tempfile
import shutil
from . import llvmir

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "clang-18" if shutil.which("clang-18") else "clang"
OPT = "opt-18" if shutil.which("opt-18") else "opt"
_tmp = None


class BuildError(Exception):
    pass


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="verif-ir-")
        import atexit
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r


_cache = {}


def compile_ir(src, flags=(), text=None, passes="function(sroa)", lang=None):
    """Compile a C file (or text, with includes resolved against /repo) and load the IR."""
    key = (src, tuple(flags), text, passes)
    if key in _cache:
        return _cache[key]
    d = tmpdir()
    h = hashlib.sha1(repr(key).encode()).hexdigest()[:16]
    if text is not None:
        path = os.path.join(d, h + ".c")
        with open(path, "w") as f:
            f.write(text)
    else:
        path = os.path.join(REPO, src)
    bc = os.path.join(d, h + ".bc")
    cmd = [CLANG, "-std=gnu17", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-fno-discard-value-names",
           "-emit-llvm", "-c", "-I", REPO] + list(flags) + [path, "-o", bc]
    r = run(cmd)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
    out = os.path.join(d, h + ".o.bc")
    r = run([OPT, "-passes=" + passes, bc, "-o", out])
    if r.returncode != 0:
        raise BuildError(r.stderr[-3000:])
    m = llvmir.load(out)
    _cache[key] = m
    return m
