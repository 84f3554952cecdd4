"""Allocation failures (C05) and ownership of heap blocks (C06): every suite of every module that allocates, with the obligations about
failing allocations and about the lifetime of blocks."""
from .common import *
from . import buffers, chunks, htable, macros, values, varray, vdict

KINDS = ["null", "bool"] + values.NUM + ["string", "longstring", "array", "dict", "orderdict", "cmpdict"]


def classify_init(v, label):
    p = set()
    if v.cls in ("uaf", "free", "leak"):
        p.add("C06")
    if v.cls == "noaf" or v.allocfail:
        p.add("C05")
    return p


def inits(rep):
    """Every initializer on an arbitrary uninitialized value, then value_fini()."""
    K = values.vconst()
    s = Suite(rep, "value", classify_init, passes="function(mem2reg)")
    for k in KINDS:
        def drv(eng):
            st0 = eng.initial()
            rid = values.new_value(eng, st0, K)
            v = PtrV(rid)
            for _, st, x in values.operands(eng, st0, k):
                if k == "cmpdict":
                    r = eng.call(st, "value_init_dict_ex", [v, PtrV(eng.region(st, "application comparator", 1, kind="opaque")), IntV(32, 1)])
                    what = "value_init_dict_ex()"
                elif k in ("string", "longstring"):
                    n = u64("len", 0, PMAX - 4096)
                    data = eng.region(st, "text", n, base="atoms", kind="caller")
                    r = eng.call(st, "value_init_string_", [v, PtrV(data), IntV(64, n)])
                    what = "value_init_string_()"
                else:
                    fn, args = {"null": ("value_init_null", []), "array": ("value_init_array", []), "dict": ("value_init_dict", []),
                                "orderdict": ("value_init_dict_ex", [NULL, IntV(32, 1)])}.get(k, ("value_init_" + k, [x]))
                    r = eng.call(st, fn, [v] + args)
                    what = fn + "()"
                for q, c in r:
                    outs = [(q, False)] if k == "null" else status(eng, q, c, what, None)
                    for z, failed in outs:
                        if has_event(z, "allocfail") and not failed:
                            bad(eng, z, "noaf", "claims", what + " claims success although its memory could not be allocated")
                        if failed:
                            # nothing is allocated, and the value can still be finalized or asked for its type
                            no_leak(eng, z, set())
                            for y, t in eng.call(z.copy(), "value_type", [v]):
                                must_equal(eng, y, t, IntV(32, K["t_NULL"]), "noaf", "null", what + " fails without leaving a null value")
                        for y, _ in eng.call(z, "value_fini", [v]):
                            no_leak(eng, y, set())
        s.run("value_init of %s and value_fini" % k, drv)


def suites(rep):
    buffers.add(rep)
    chunks.Driver(rep).run()
    inits(rep)
    varray.suite(rep)
    htable.Driver(rep, 3).run()
    vdict.suites(rep, ["plain", "ordered"])


def c05(rep):
    rep.rule("every allocation call on every analysed path is forked into success and failure; on each path with a failed allocation: no access to unallocated memory, a failure result unless the "
             "operation is a best-effort one, the object's previous content (size, every byte, item, node) and invariant kept, and nothing lost")
    rep.assume("heap model: malloc/realloc return null or a fresh block; blocks are at most PTRDIFF_MAX bytes; valid objects are passed")
    suites(rep)
    rep.need("entry points", 100)


def c06(rep):
    rep.rule("ownership typestate of every heap block on every analysed path: a block is released at most once, only if it came from the allocator, never accessed afterwards; at every return each live "
             "block is reachable from the object that owns it (or was handed to the caller)")
    rep.assume("heap model: malloc/realloc return null or a fresh block; realloc(p, 0) releases p; valid objects are passed")
    suites(rep)
    values.c22(rep)
    macros.c33(rep)
    rep.need("entry points", 130)
