"""Array values (C23)."""
from .common import *
from .values import vconst, new_value, init_value, NUM, operands

INV = "array"


def classify(v, label):
    p = set()
    if v.cls in ("uaf", "free", "leak"):
        p.add("C06")
    if v.cls == "C23/finalize":
        p.add("C06")
    if v.cls == "noaf" or v.allocfail:
        p.add("C05")
    if v.cls in ("bounds", "null", "uaf", "uninit", "free", "leak"):
        p.add("C23")
    elif v.cls != "noaf":
        p.add(v.cls.split("/")[0])
    return p


def aconst():
    K = vconst()
    K.update(offsets("value", {"a_buf": "OFFSETOF(ARRAY, value_buf)", "a_size": "OFFSETOF(ARRAY, size)", "a_alloc": "OFFSETOF(ARRAY, alloc)", "a": "sizeof(ARRAY)"}))
    return K


class VArr:
    """An array value in an arbitrary valid state, made by the initializer and then filled."""

    def __init__(self, eng, st, K, empty, rid=None):
        self.eng, self.K, self.empty = eng, K, empty
        self.rid = new_value(eng, st, K, "array") if rid is None else rid
        ss = init_value(eng, st, K, "array", self.rid)
        ss = [s for s in ss if not has_event(s, "allocfail")]
        if len(ss) != 1:
            raise Unsupported("initialization of an array value has %d outcomes" % len(ss))
        self.st = st = ss[0]
        own = [r for r in live_heap(st)]
        if len(own) == 1 and own[0].size == L(K["a"]):
            self.p = (own[0].id, L(0))
        elif not own:
            # payload inside the value itself: behind the tag, aligned
            self.p = (self.rid, L(8))
        else:
            raise Unsupported("array representation")
        self.base = {r.id for r in own}
        if empty:
            self.alloc = self.size = ZERO
            self.buf = None
        else:
            self.alloc = fresh("alloc", 1, PMAX // K["value"])
            self.size = fresh("size", 0, PMAX // K["value"])
            st.assume("ge", self.alloc - self.size)
            self.buf = eng.region(st, "items", self.alloc.scale(K["value"]), base="atoms", kind="heap")
            self.ct = st.mem[self.buf].content
            eng.put(st, self.p[0], self.p[1] + K["a_buf"], 8, PtrV(self.buf))
            eng.put(st, self.p[0], self.p[1] + K["a_size"], 8, IntV(64, self.size))
            eng.put(st, self.p[0], self.p[1] + K["a_alloc"], 8, IntV(64, self.alloc))

    def field(self, st, f, ty="int"):
        return rd(self.eng, st, self.p[0], (self.p[1] + self.K[f]).c, ty)

    def valid(self, st, what):
        """-> (buffer, size, alloc) or None"""
        e, c = self.eng, "C23/invariant"
        if not st.mem[self.p[0]].alive:
            bad(e, st, c, "gone", "%s releases the array itself" % what)
            return None
        d, n, a = self.field(st, "a_buf", "ptr"), self.field(st, "a_size"), self.field(st, "a_alloc")
        if not isinstance(d, PtrV) or not isinstance(n, IntV) or not isinstance(a, IntV):
            bad(e, st, c, "fields", "%s leaves an odd value in the array" % what, hard=any(isinstance(x, Undef) for x in (d, n, a)))
            return None
        if d.r is None:
            ok = must(e, st, "eq", d.o, c, "null", "%s leaves an invalid pointer in the array" % what)
            ok = must(e, st, "eq", n.l, c, "nullsize", "%s: size is not zero although there are no items" % what) and ok
            return (d, n, a) if must(e, st, "eq", a.l, c, "nullalloc", "%s: capacity is not zero although there are no items" % what) and ok else None
        r = st.mem[d.r]
        if not r.alive:
            bad(e, st, c, "dangling", "%s leaves the array pointing to released memory" % what)
            return None
        ok = must(e, st, "eq", d.o, c, "interior", "%s leaves the array pointing inside its block" % what)
        ok = must(e, st, "ge", r.size - a.l.scale(self.K["value"]), c, "alloc", "%s: the capacity exceeds the allocated block" % what) and ok
        ok = must(e, st, "ge", a.l - n.l, c, "size", "%s: the size exceeds the capacity" % what) and ok
        return (d, n, a) if ok else None

    def owned(self, st):
        d = self.field(st, "a_buf", "ptr")
        return set(self.base) | ({d.r} if isinstance(d, PtrV) else set())

    def holds(self, st, what, parts, cls="C23/items"):
        """The items are parts, in order: (first old index, count) or (None, count) for new ones."""
        f = self.valid(st, what)
        if f is None:
            return
        d, n, a = f
        e, V = self.eng, self.K["value"]
        total = ZERO
        for p in parts:
            total = total + p[1]
        if not must(e, st, "eq", n.l - total, "C23/size", "size", "%s: resulting size is %r, expected %r" % (what, st.s.norm(n.l), st.s.norm(total))):
            return
        at = ZERO
        for i, (o, c) in enumerate(parts):
            if o is not None and self.buf is not None and d.r is not None:
                same_bytes(e, st, (d.r, st.mem[d.r].content, at.scale(V)), (self.buf, self.ct, L(o).scale(V)), L(c).scale(V), cls, "part%d" % i,
                           "%s: an item that should be kept is lost or moved" % what)
            elif o is not None:
                must(e, st, "eq", L(c), cls, "part%d" % i, "%s: items are lost" % what)
            at = at + c
        no_leak(e, st, self.owned(st), cls="leak")


def fini_model(D):
    def m(eng, st, args, I):
        p = args[0]
        if not isinstance(p, PtrV) or p.r is None or p.r not in st.mem or st.mem[p.r].kind != "heap":
            return None
        out = []
        if not eng.access(st, p, D.K["value"], "finalizing an item"):
            return []
        for s, b in eng.read(st, p.r, st.mem[p.r].content, s_off(st, p, 8), 1):
            o = origin(s, b)
            if o is None:
                bad(eng, s, "C23/finalize", "what", "finalizes memory which holds no item", hard=isinstance(b, (Undef, IntV)))
                continue
            s.event("fini", s.s.norm(o - 8))
            out.append((s, None))
        return out
    return m


def s_off(st, p, k):
    return st.s.norm(p.o + k)


def origin(st, b):
    if isinstance(b, IntV):
        l = st.s.norm(b.l)
        if len(l.t) == 1 and l.t[0][1] == 1 and l.c == 0:
            d = SYMS[l.t[0][0]].defn
            if d is not None and d[0] == "atom":
                return d[2]
    return None


def segments(eng, st):
    """Byte ranges of the finalized items. -> [(lo, hi)] or a string"""
    out = []
    for e in st.all_events():
        if e[0] == "fini":
            out.append((e[1], e[1] + 16))
        elif e[0] == "loop":
            rec, n = e[1], e[2]
            for ci, (conds, vals, evs) in enumerate(rec.cases):
                fs = [x for x in evs if x[0] == "fini"]
                if any(x[0] == "loop" for x in evs):
                    raise Unsupported("nested finalizing loops")
                if len(rec.cases) > 1 and any(x[0] == "fini" for c in rec.cases for x in c[2]):
                    raise Unsupported("items finalized under a condition")
                for x in fs:
                    o = x[1]
                    ks = dict(o.t).get(rec.ksym)
                    if ks not in (16, -16) or any(s >= rec.local and s != rec.ksym for s in o.syms()):
                        raise Unsupported("order of finalizing")
                    a = absint.Inst(eng, st, rec, ZERO).lin(o)
                    if ks > 0:
                        out.append((a, a + L(n).scale(16)))
                    else:
                        out.append((a + 16 - L(n).scale(16), a + 16))
    return [(st.s.norm(a), st.s.norm(b)) for a, b in out]


def finalized(eng, st, lo, hi, what):
    """Exactly the items in the byte range lo..hi are finalized."""
    segs = segments(eng, st)
    cur = lo = st.s.norm(lo)
    left = list(segs)
    go = True
    while go:
        go = False
        for x in left:
            if st.s.entails_eq(x[0] - cur):
                cur = x[1]
                left.remove(x)
                go = True
                break
    must(eng, st, "eq", cur - hi, "C23/finalize", "all", "%s: the removed items are not all finalized (up to byte %r of the items, expected %r)" % (what, st.s.norm(cur), st.s.norm(L(hi))))
    for x in left:
        s = st.copy()
        if s.assume("ge", x[1] - x[0] - 1):
            bad(eng, s, "C23/finalize", "other", "%s finalizes an item it should not (at byte %r)" % (what, x[0]))


class D:
    pass


def c23(rep):
    rep.rule("every array operation is interpreted on an array value in an arbitrary valid state (any size <= capacity, any item bytes, or no storage), for any index and count; size, order and bytes of all kept "
             "items (one symbolic byte position), the set of finalized items, the new items and the storage invariant are compared with the specification")
    rep.assume("items are finalized through value_fini(), whose work on an item is covered by the checks of the item types; capacity * item size <= PTRDIFF_MAX")
    fns = suite(rep)
    rep.need("entry points", 2 * len(fns))


def suite(rep):
    d = D()
    d.K = K = aconst()
    s = Suite(rep, "value", classify, passes="function(mem2reg)", models={"value_fini": fini_model(d)})
    fns = ["get", "get_all", "size", "append", "insert", "remove", "remove_range", "clean", "fini"]
    for fn in fns:
        for empty in (False, True):
            s.run("value_array_%s%s" % (fn, " of an array without storage" if empty else ""), lambda eng: op(eng, K, fn, empty))
    for k in ["null", "bool"] + NUM + ["string", "longstring", "dict", "orderdict", "pointer"]:
        s.run("array operations on %s" % k, lambda eng: other(eng, K, k))
    return fns


def op(eng, K, fn, empty):
    A = VArr(eng, eng.initial(), K, empty)
    st = A.st
    n = A.size
    v = PtrV(A.rid)
    V = K["value"]
    name = "value_array_" + fn if fn != "fini" else "value_fini"
    if fn in ("get", "get_all", "size"):
        i = u64("index")
        args = [v] + ([IntV(64, i)] if fn == "get" else [])
        for q, r in eng.call(st, name, args):
            c = "C23/" + fn
            if fn == "size":
                must_equal(eng, q, r, IntV(64, n), c, "value", "value_array_size(): wrong size")
            elif fn == "get_all":
                must_equal(eng, q, r, PtrV(A.buf) if A.buf is not None else NULL, c, "value", "value_array_get_all(): wrong pointer")
            else:
                z = q.copy()
                if z.assume("ge", n - i - 1):
                    must_equal(eng, z, r, PtrV(A.buf, i.scale(V)), c, "value", "value_array_get() of an existing item: wrong item")
                if q.assume("ge", i - n):
                    must_equal(eng, q, r, NULL, c, "range", "value_array_get() of an index out of range: not null")
        return
    if fn in ("append", "insert"):
        i = n if fn == "append" else u64("index")
        for q, r in eng.call(st, name, [v] + ([IntV(64, i)] if fn == "insert" else [])):
            if not isinstance(r, PtrV):
                bad(eng, q, "C23/insert", "ret", "%s() returns an odd value" % name, hard=isinstance(r, Undef))
                continue
            finalized(eng, q, ZERO, ZERO, name + "()")
            if r.r is None:
                if not has_event(q, "allocfail"):
                    z = q.copy()
                    if z.assume("ge", n - i):
                        bad(eng, z, "C23/insert", "fail", "%s() at a valid index fails although nothing went wrong" % name)
                A.holds(q, name + "() which failed", [(ZERO, n)])
                continue
            if not must(eng, q, "ge", n - i, "C23/insert", "range", "%s() accepts an index out of range" % name):
                continue
            A.holds(q, name + "()", [(ZERO, i), (None, L(1)), (i, n - i)])
            f = A.valid(q, name + "()")
            if f is None:
                continue
            must_equal(eng, q, r, PtrV(f[0].r, i.scale(V)), "C23/insert", "ptr", "%s() does not return the new item" % name)
            for z, t in eng.call(q.copy(), "value_type", [PtrV(f[0].r, i.scale(V))]):
                must_equal(eng, z, t, IntV(32, K["t_NULL"]), "C23/insert", "null", "%s(): the new item is not a null value" % name)
            for z, t in eng.call(q.copy(), "value_is_new", [PtrV(f[0].r, i.scale(V))]):
                if isinstance(t, IntV):
                    must(eng, z, "ne", t.l, "C23/insert", "new", "%s(): the new item is not marked as new" % name)
        return
    if fn in ("remove", "remove_range"):
        i = u64("index")
        c = u64("count") if fn == "remove_range" else L(1)
        for q, r in eng.call(st, name, [v, IntV(64, i)] + ([IntV(64, c)] if fn == "remove_range" else [])):
            for z, failed in status(eng, q, r, name + "()", None):
                if failed:
                    y = z.copy()
                    if y.assume("ge", n - i) and y.assume("ge", n - i - c):
                        bad(eng, y, "C23/remove", "fail", "%s() of a valid range fails" % name)
                    finalized(eng, z, ZERO, ZERO, name + "() which failed")
                    A.holds(z, name + "() which failed", [(ZERO, n)])
                    continue
                if not must(eng, z, "ge", n - i, "C23/remove", "index", "%s() accepts an index out of range" % name):
                    continue
                if not must(eng, z, "ge", n - i - c, "C23/remove", "count", "%s() accepts a range out of range" % name):
                    continue
                finalized(eng, z, i.scale(V), (i + c).scale(V), name + "()")
                A.holds(z, name + "()", [(ZERO, i), (i + c, n - i - c)])
        return
    for q, r in eng.call(st, name, [v]):
        finalized(eng, q, ZERO, n.scale(V), name + "()")
        if fn == "clean":
            A.holds(q, name + "()", [])
            for z, t in eng.call(q, "value_type", [v]):
                must_equal(eng, z, t, IntV(32, K["t_ARRAY"]), "C23/clean", "type", "value_array_clean() changes the type")
        else:
            no_leak(eng, q, set())
            for z, t in eng.call(q, "value_type", [v]):
                must_equal(eng, z, t, IntV(32, K["t_NULL"]), "C23/clean", "type", "value_fini() does not leave a null value")


def other(eng, K, k):
    """Operations on a value which is no array: refused without any change."""
    st0 = eng.initial()
    starts = []
    if k == "pointer":
        starts = [(st0, NULL, None)]
    else:
        rid = new_value(eng, st0, K)
        for _, s0, x in operands(eng, st0, k):
            starts += [(z, PtrV(rid), rid) for z in init_value(eng, s0, K, k, rid, x)]
    for st, v, rid in starts:
        i, c = IntV(64, u64("index")), IntV(64, u64("count"))
        for fn, args in (("append", []), ("insert", [i]), ("remove", [i]), ("remove_range", [i, c]), ("clean", [])):
            before = st.copy()
            for q, r in eng.call(before, "value_array_" + fn, [v] + args):
                what = "value_array_%s() of a %s value" % (fn, k)
                if fn in ("append", "insert"):
                    must_equal(eng, q, r, NULL, "C23/other", "ret", what + ": not refused")
                elif fn != "clean":
                    must_equal(eng, q, r, IntV(32, (1 << 32) - 1), "C23/other", "ret", what + ": not refused")
                if rid is not None:
                    for r0 in list(st.mem.values()):
                        if q.mem[r0.id].content is not r0.content or not q.mem[r0.id].alive:
                            if r0.kind == "alloca":
                                continue
                            bad(eng, q, "C23/other", "write", what + " changes it", hard=False)
                eng.ok("C23/other")
