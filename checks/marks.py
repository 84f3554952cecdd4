"""The mark of newly added items (C25)."""
from .common import *
from . import varray, vdict, vpath
from .values import NUM, vconst, new_value, operands

KINDS = ["null", "bool"] + NUM + ["string", "longstring", "array", "dict", "orderdict", "cmpdict"]


def classify(v, label):
    if v.cls.startswith("C25"):
        return {"C25"}
    if v.cls in ("bounds", "null", "uninit") and label.startswith("mark:"):
        return {"C25"}
    return set()


def is_new(eng, st, v, want, text):
    for y, r in eng.call(st.copy(), "value_is_new", [v]):
        for z, yes in status(eng, y, r, "value_is_new()", None):
            if yes != want:
                bad(eng, z, "C25/mark", "new" if want else "old", text + (": not marked as new" if want else ": still marked as new"))
            else:
                eng.ok("C25/mark")


def init(eng, st, K, k, v, x):
    """-> [(state, failed, what)]"""
    if k == "cmpdict":
        r, fn = eng.call(st, "value_init_dict_ex", [v, PtrV(eng.region(st, "application comparator", 1, kind="opaque")), IntV(32, 1)]), "value_init_dict_ex"
    elif k in ("string", "longstring"):
        n = u64("len", 0, PMAX - 4096)
        r = []
        for fn, size in (("value_init_string_", n), ("value_init_string", n + 1)):
            s = st.copy()
            data = eng.region(s, "text", size, base="cstr", data=n, kind="caller")
            r += eng.call(s, fn, [v, PtrV(data)] + ([IntV(64, n)] if fn[-1] == "_" else []))
    else:
        fn, args = {"null": ("value_init_null", []), "array": ("value_init_array", []), "dict": ("value_init_dict", []),
                    "orderdict": ("value_init_dict_ex", [NULL, IntV(32, 1)])}.get(k, ("value_init_" + k, [x]))
        r = eng.call(st, fn, [v] + args)
    if k == "null":
        return [(q, False, fn + "()") for q, _ in r]
    return [z + (fn + "()",) for q, c in r for z in status(eng, q, c, fn + "()", None)]


def new_items(eng, K):
    """-> [(state, item)]: an item added to an array, as the caller gets it."""
    st = eng.initial()
    A = varray.VArr(eng, st, K, False)
    out = []
    for y, p in eng.call(A.st, "value_array_append", [PtrV(A.rid)]):
        if isinstance(p, PtrV) and p.r is not None:
            out.append((y, p))
    return out


def c25(rep):
    rep.rule("every initializer runs on an item just added to an arbitrary array and on uninitialized memory, then value_is_new() is asked, also after value_fini() and for a null pointer; every operation that adds "
             "items (array append and insert at any index, dictionary add and get-or-add on arbitrary trees) must return a null value that is reported as new; path building is analysed per component "
             "(all paths, all types of the current value) and may initialize only values marked as new")
    rep.assume("as for C17, C23 and C24")
    K = varray.aconst()
    s = Suite(rep, "value", classify, passes="function(mem2reg)")
    n = 0
    for k in KINDS:
        def drv(eng):
            starts = [("a new array item", y, p) for y, p in new_items(eng, K)]
            if not starts:
                raise AnalysisBroken("no item can be appended")
            st = eng.initial()
            starts.append(("uninitialized memory", st, PtrV(new_value(eng, st, K))))
            for label, st0, v in starts:
                for _, st, x in operands(eng, st0, k):
                    for z, failed, what in init(eng, st, K, k, v, x):
                        if failed:
                            continue
                        is_new(eng, z, v, False, "%s on %s" % (what, label))
                        if label[0] == "u":
                            for y, _ in eng.call(z, "value_fini", [v]):
                                is_new(eng, y, v, False, "value_fini() after " + what)
        s.run("mark: value_init of %s" % k, drv)
        n += 1

    def null(eng):
        st = eng.initial()
        is_new(eng, st, NULL, False, "the null pointer")
        for y, p in new_items(eng, K):
            is_new(eng, y, p, True, "an item added by value_array_append()")
            for z, _ in eng.call(y, "value_fini", [p]):
                is_new(eng, z, p, False, "value_fini() of a new item")
    s.run("mark: null pointer, finalized item", null)
    s2 = Suite(rep, "value", classify, passes="function(mem2reg)", models={"value_fini": varray.fini_model(varray.D())})
    for fn in ("append", "insert"):
        for empty in (False, True):
            def add(eng):
                A = varray.VArr(eng, eng.initial(), K, empty)
                i = u64("index")
                for q, r in eng.call(A.st, "value_array_" + fn, [PtrV(A.rid)] + ([IntV(64, i)] if fn == "insert" else [])):
                    if isinstance(r, PtrV) and r.r is not None:
                        is_new(eng, q, r, True, "an item added by value_array_%s()" % fn)
                        for y, t in eng.call(q.copy(), "value_type", [r]):
                            must_equal(eng, y, t, IntV(32, K["t_NULL"]), "C25/mark", "type", "an item added by value_array_%s() is not null" % fn)
            s2.run("mark: value_array_%s%s" % (fn, " without storage" if empty else ""), add)
            n += 1
    DK = vdict.dconst()
    s3 = Suite(rep, "value", lambda v, label: {"C25"} if v.cls == "C17/new" else set(), passes="function(mem2reg)", max_states=1000000, apart=True)
    for vn in vdict.VARIANTS:
        for fn in ("value_dict_add_", "value_dict_get_or_add_"):
            s3.run("%s (%s)" % (fn, vn), lambda eng: vdict.add(eng, vdict.Dict(DK, **vdict.VARIANTS[vn]), fn))
            n += 1
    n += vpath.suite(rep, classify, [True])
    rep.need("entry points", n)
