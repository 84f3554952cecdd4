"""The modules of the repository and how each is turned into IR."""
import os
from . import build

# name -> (translation unit text, extra flags)
STUB = os.path.join(build.HERE, "stubs", "win32")
MODULES = {
    "buffer": ('#include "data/buffer.c"\n', ()),
    "htable": ('#include "data/htable.c"\n', ()),
    "list": ('#include "data/list.h"\n', ()),
    "rbtree": ('#include "data/rbtree.c"\n', ()),
    "value": ('#include "data/value.c"\n', ()),
    "base64": ('#include "encode/base64.c"\n', ()),
    "hex": ('#include "encode/hex.c"\n', ()),
    "crc32": ('#include "hash/crc32.c"\n', ()),
    "fnv1a": ('#include "hash/fnv1a.c"\n', ()),
    "memchunk": ('#include "mem/memchunk.c"\n', ()),
    "cmdline": ('#include "misc/cmdline.c"\n', ()),
    "memstream": ('#include "win32/memstream.c"\n', ("-I", STUB)),
}
# headers without a source file of their own, analysed through witness code only
HEADERS = {
    "malloca": ('#include <stddef.h>\n#include "mem/malloca.h"\n', ()),
    "defs": ('#include <stddef.h>\n#include "misc/defs.h"\n', ()),
}
FILES = {
    "buffer": ("data/buffer.c", "data/buffer.h"), "htable": ("data/htable.c", "data/htable.h"),
    "list": (None, "data/list.h"), "rbtree": ("data/rbtree.c", "data/rbtree.h"),
    "value": ("data/value.c", "data/value.h"), "base64": ("encode/base64.c", "encode/base64.h"),
    "hex": ("encode/hex.c", "encode/hex.h"), "crc32": ("hash/crc32.c", "hash/crc32.h"),
    "fnv1a": ("hash/fnv1a.c", "hash/fnv1a.h"), "memchunk": ("mem/memchunk.c", "mem/memchunk.h"),
    "cmdline": ("misc/cmdline.c", "misc/cmdline.h"), "malloca": (None, "mem/malloca.h"),
    "defs": (None, "misc/defs.h"), "memstream": ("win32/memstream.c", "win32/memstream.h"),
}


def module(name, extra="", passes="function(sroa)", flags=()):
    """Load the IR of a module. All functions, also unused inline ones, are emitted. `extra` is
    appended to the unit (witness code, offset constants)."""
    text, fl = MODULES[name] if name in MODULES else HEADERS[name]
    d = os.path.dirname(FILES[name][0] or FILES[name][1])
    return build.compile_ir(name, text=text + extra, passes=passes,
                            flags=tuple(fl) + ("-I", os.path.join(build.REPO, d),
                                               "-Xclang", "-femit-all-decls") + tuple(flags))


def own_functions(m):
    """Functions defined in files of the repository (not in system headers)."""
    r = os.path.realpath(build.REPO) + os.sep
    return {n: f for n, f in m.functions.items()
            if not f.decl and f.file and os.path.realpath(os.path.join(build.REPO, f.file)).startswith(r)}


def public_functions(m, name):
    """External functions and inline functions from the module's header."""
    out = {}
    for n, f in own_functions(m).items():
        if not f.internal or (f.file or "").endswith(".h"):
            out[n] = f
    return out
