"""C04: every module stands alone (include graph, symbol dependencies, compile and link witnesses)."""
import os
import re
import shutil
import subprocess
import tempfile
from engine import build, modules
from engine.report import AnalysisBroken

USES = {
    "buffer": "int use(void) { BUFFER b = BUFFER_INITIALIZER; STACK s = STACK_INITIALIZER; ARRAY_int8 a = ARRAY_int8_INITIALIZER;"
              " return (int)(buffer_size(&b) + stack_size(&s) + array_int8_size(&a)); }",
    "htable": "struct X { int k; HTABLE_NODE n; }; struct X* use(HTABLE_NODE* p) { HTABLE t = HTABLE_INITIALIZER; (void)t;"
              " return HTABLE_DATA(p, struct X, n); }",
    "rbtree": "struct X { int k; RBTREE_NODE n; }; struct X* use(RBTREE_NODE* p) { RBTREE t = RBTREE_INITIALIZER; RBTREE_CURSOR c = RBTREE_CURSOR_INITIALIZER;"
              " (void)t; (void)c; return RBTREE_DATA(p, struct X, n); }",
    "list": "struct X { int k; LIST_NODE n; SLIST_NODE s; }; struct X* use(LIST_NODE* p) { return LIST_DATA(p, struct X, n); }",
    "value": "int use(void) { VALUE v = VALUE_NULL_INITIALIZER; return (int)value_type(&v); }",
    "malloca": "void use(size_t n) { char* p = (char*) MALLOCA(n); if(p != NULL) p[0] = 1; FREEA(p); }",
    "memchunk": "int use(void) { return 0; }",
    "defs": "int arr[5]; struct X { int k; char c; }; int use(int a, int b) { return MIN(a, b) + MAX(a, b) + ABS(a) + (int)OFFSETOF(struct X, c); }",
    "fnv1a": "uint32_t use(const char* s) { return fnv1a_32(FNV1A_BASE_32, s, 2); }",
}


def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def err(out):
    m = [l for l in out.splitlines() if "error" in l or "undefined" in l]
    return "; ".join(m[:3])[:400] or out[:300]


def c04(rep):
    rep.rule("a directory holding only a module's own files compiles; every undefined symbol of its object comes from libc/libm; every file it includes is its own or a "
             "system header; the header compiles alone, and twice, as C and as C++; a C++ unit naming every operation links against the C object")
    rep.assume("Linux/GNU target; the Windows-only module is compiled against stub Windows headers")
    top = tempfile.mkdtemp(prefix="verif-c04-")
    try:
        for name, (c, h) in sorted(modules.FILES.items()):
            d = os.path.join(top, name)
            os.mkdir(d)
            for f in (c, h):
                if f:
                    src = os.path.join(build.REPO, f)
                    if not os.path.exists(src):
                        raise AnalysisBroken("module file missing: " + f)
                    shutil.copy(src, d)
            inc = ["-I", modules.STUB] if name == "memstream" else []
            hb = os.path.basename(h)
            rep.count("modules")

            def witness(tag, cmd, fname, text, what):
                if text is not None:
                    with open(os.path.join(d, fname), "w") as f:
                        f.write(text)
                rc, out = run(cmd, d)
                rep.count("witnesses")
                if rc != 0:
                    rep.violate("%s:%s" % (name, tag), "%s: %s: %s" % (h, what, err(out)))
                    return False
                rep.ok("%s: %s" % (name, what))
                return True
            use = USES.get(name, "")
            for std in ("gnu99", "gnu17"):
                cc = ["gcc", "-std=" + std, "-Werror=implicit-function-declaration", "-Werror=implicit-int", "-w"] + inc
                witness("c-alone-" + std, cc + ["-fsyntax-only", "a.c"], "a.c", '#include "%s"\nint dummy;\n' % hb,
                        "header alone in C (%s)" % std)
                witness("c-use-" + std, cc + ["-fsyntax-only", "b.c"], "b.c", '#include "%s"\n#include "%s"\n%s\nint dummy;\n' % (hb, hb, use),
                        "header twice in C (%s), macros used" % std)
            cxxs = ["gnu++98", "gnu++17"] if name not in ("fnv1a", "crc32") else ["gnu++11", "gnu++17"]
            for std in cxxs:
                cc = ["g++", "-std=" + std, "-w"] + inc
                witness("cxx-alone-" + std, cc + ["-fsyntax-only", "a.cpp"], "a.cpp", '#include "%s"\nint dummy;\n' % hb,
                        "header alone in C++ (%s)" % std)
                if name != "memstream":
                    witness("cxx-use-" + std, cc + ["-fsyntax-only", "b.cpp"], "b.cpp",
                            '#include "%s"\n#include "%s"\n%s\nint dummy;\n' % (hb, hb, use), "header twice in C++ (%s), macros used" % std)
            if c is None:
                continue
            cb = os.path.basename(c)
            if not witness("object", ["gcc", "-Werror=implicit-function-declaration", "-w", "-fPIC"] + inc + ["-c", cb, "-o", "m.o"], cb, None,
                           "module compiles with only its own files"):
                continue
            # include graph
            rc, out = run(["gcc", "-M"] + inc + [cb], d)
            for f in re.findall(r"\S+\.h\b", out):
                p = os.path.realpath(os.path.join(d, f))
                rep.count("included_files")
                if not (p.startswith(os.path.realpath(d) + os.sep) or p.startswith(("/usr/include/", "/usr/lib/gcc")) or
                        p.startswith(os.path.realpath(modules.STUB))):
                    rep.violate("%s:include:%s" % (name, f), "%s includes %s, which is neither its own nor a system header" % (c, f))
            m = modules.module(name)
            ext = sorted(n for n, f in modules.own_functions(m).items()
                         if not f.internal and (name != "memstream" or n.startswith("memstream")))
            if not ext:
                raise AnalysisBroken("no external function in " + c)
            rep.count("operations_linked", len(ext))
            # link: object alone plus libc/libm only
            if name != "memstream":
                witness("link-c", ["gcc", "-shared", "-nodefaultlibs", "m.o", "-Wl,--no-undefined", "-o", "m.so", "-lc", "-lm", "-lgcc"], "", None,
                        "all symbols of %s come from the standard C library" % c) if True else None
                decl = "".join("  v[%d] = (void*) &%s;\n" % (i, n) for i, n in enumerate(ext) if re.search(r"\b%s\b" % n, open(os.path.join(d, hb)).read()))
                witness("link-cxx-o", ["g++", "-std=gnu++17", "-fpermissive", "-w", "-fPIC", "-c", "l.cpp", "-o", "l.o"], "l.cpp",
                        '#include "%s"\nvoid* v[%d];\nvoid use() {\n%s}\n' % (hb, len(ext) + 1, decl), "operations named from C++") and \
                    witness("link-cxx", ["g++", "-shared", "l.o", "m.o", "-Wl,--no-undefined", "-o", "l.so"], "", None,
                            "operations named from C++ link against the C object")
    finally:
        shutil.rmtree(top, True)
    rep.need("modules", 14)
    rep.need("witnesses", 100)
    rep.need("operations_linked", 60)
