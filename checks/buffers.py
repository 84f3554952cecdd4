"""BUFFER, STACK and ARRAY_xxx (C07, C08, C09 and the buffer part of C05, C06)."""
from .common import *

TYPES = [("int8", 1), ("uint8", 1), ("int16", 2), ("uint16", 2), ("int32", 4), ("uint32", 4),
         ("int64", 8), ("uint64", 8), ("ptr", 8)]


def classify(v, label):
    p = set()
    typed = any(label.startswith(x) for x in ("stack_", "array_"))
    if v.cls in ("bounds", "null", "uninit", "ub", "const"):
        p.add("C07")
        if typed:
            p.add("C09")
    if v.cls in ("uaf", "free", "leak"):
        p.add("C06")
    if v.cls in ("inv",):
        p |= {"C07", "C08"}
        if typed:
            p.add("C09")
    if v.cls in ("content", "size"):
        p.add("C08")
        if typed:
            p.add("C09")
    if v.cls == "elem":
        p.add("C09")
    if v.cls in ("fail", "cap"):
        p |= {"C07", "C08"}
    if v.cls == "noaf":          # obligations on paths where an allocation failed
        p.add("C05")
    if v.allocfail:
        p.add("C05")
    return p


class Buf:
    """A buffer object in an arbitrary valid state."""

    def __init__(self, eng, st, off, null, name="buf", align=1):
        self.eng = eng
        self.off = off
        self.name = name
        self.rid = eng.region(st, "*" + name, off["sizeof"], kind="object")
        self.null = null
        if null:
            self.d = None
            self.size = self.alloc = ZERO
            eng.put(st, self.rid, L(off["data"]), 8, NULL)
        else:
            self.alloc = fresh(name + "->alloc", 1, PMAX)
            if align > 1:
                n = fresh("count(%s)" % name, 0, PMAX // align)
                self.size = n.scale(align)
                self.count = n
            else:
                self.size = fresh(name + "->size", 0, PMAX)
                self.count = self.size
            self.d = eng.region(st, name + "->data", self.alloc, base="atoms", kind="heap")
            st.assume("ge", self.alloc - self.size)
            eng.put(st, self.rid, L(off["data"]), 8, PtrV(self.d))
        if null:
            self.count = ZERO
        eng.put(st, self.rid, L(off["size"]), 8, IntV(64, self.size))
        eng.put(st, self.rid, L(off["alloc"]), 8, IntV(64, self.alloc))
        self.ct = st.mem[self.d].content if self.d is not None else None

    def fields(self, st):
        e = self.eng
        return (rd(e, st, self.rid, self.off["data"], "ptr"), rd(e, st, self.rid, self.off["size"]),
                rd(e, st, self.rid, self.off["alloc"]))

    def valid(self, st, what):
        """Representation invariant. -> (data, size, alloc) or None"""
        e = self.eng
        d, n, a = self.fields(st)
        if isinstance(d, Undef) or isinstance(n, Undef) or isinstance(a, Undef):
            bad(e, st, "inv", "fields", "%s leaves a field of %s uninitialized" % (what, self.name))
            return None
        if not isinstance(d, PtrV) or not isinstance(n, IntV) or not isinstance(a, IntV):
            bad(e, st, "inv", "fields", "%s leaves an odd value in %s" % (what, self.name), hard=False)
            return None
        if d.r is None:
            ok = must(e, st, "eq", d.o, "inv", "null", "%s leaves an invalid data pointer" % what)
            ok = must(e, st, "eq", n.l, "inv", "nullsize", "%s: size is not zero although there is no data block" % what) and ok
            ok = must(e, st, "eq", a.l, "inv", "nullalloc", "%s: capacity is not zero although there is no data block" % what) and ok
            return (d, n, a) if ok else None
        r = st.mem[d.r]
        if not r.alive:
            bad(e, st, "uaf", "dangling", "%s leaves %s pointing to released memory" % (what, self.name))
            return None
        if r.kind != "heap":
            bad(e, st, "inv", "foreign", "%s leaves %s pointing to %s" % (what, self.name, r.name))
            return None
        ok = must(e, st, "eq", d.o, "inv", "interior", "%s leaves %s pointing inside its block" % (what, self.name))
        ok = must(e, st, "ge", r.size - a.l, "inv", "alloc", "%s: the capacity exceeds the allocated block" % what) and ok
        ok = must(e, st, "ge", a.l - n.l, "inv", "size", "%s: the size exceeds the capacity" % what) and ok
        return (d, n, a) if ok else None

    def owned(self, st):
        d = self.fields(st)[0]
        return {d.r} if isinstance(d, PtrV) else set()

    def unchanged(self, st, what):
        """Size and content are those before the call."""
        e = self.eng
        f = self.valid(st, what)
        if f is None:
            return
        d, n, a = f
        if not must(e, st, "eq", n.l - self.size, "size", "size", "%s changes the size" % what):
            return
        if self.d is not None and d.r is not None:
            same_bytes(e, st, (d.r, st.mem[d.r].content, 0), (self.d, self.ct, 0), self.size, "content", "kept",
                       "%s does not preserve the content" % what)

    def content(self, st, parts, what, cls="content"):
        """The content is the concatenation of parts: (rid, content, offset, length) or ('free', length)."""
        e = self.eng
        f = self.valid(st, what)
        if f is None:
            return
        d, n, a = f
        total = ZERO
        for p in parts:
            total = total + p[-1]
        if not must(e, st, "eq", n.l - total, "size", "size", "%s: resulting size is %r, expected %r" % (what, st.s.norm(n.l), st.s.norm(total))):
            return
        at = ZERO
        for i, p in enumerate(parts):
            ln = p[-1]
            if p[0] != "free" and p[0] is not None and d.r is not None:
                same_bytes(e, st, (d.r, st.mem[d.r].content, at), (p[0], p[1], p[2]), ln, cls, "part%d" % i,
                           "%s: the resulting content is wrong" % what)
            elif p[0] is not None and p[0] != "free":
                must(e, st, "eq", ln, cls, "part%d" % i, "%s: content is lost" % what)
            at = at + ln


def spurious(eng, st, need, what):
    """A failure must come from a failed allocation or an unrepresentable size."""
    if has_event(st, "allocfail"):
        eng.ok("noaf")
        return
    must(eng, st, "ge", need - (PMAX + 1), "fail", "spurious", "%s fails although nothing went wrong" % what)


class Driver:
    def __init__(self, suite):
        self.s = suite
        self.off = offsets("buffer", {"data": "__builtin_offsetof(BUFFER, data)", "size": "__builtin_offsetof(BUFFER, size)",
                                      "alloc": "__builtin_offsetof(BUFFER, alloc)", "sizeof": "sizeof(BUFFER)"})

    def both(self, name, fn, align=1):
        """Run fn(eng, st, buf) for the empty and the allocated state."""
        for null in (False, True):
            def drv(eng, null=null):
                st = eng.initial()
                b = Buf(eng, st, self.off, null, align=align)
                fn(eng, st, b)
            self.s.run(name, drv)

    # ------------------------------------------------------------------ operations
    def ops(self):
        s = self.s

        def init(eng):
            st = eng.initial()
            for fn in ("buffer_init", "stack_init") + tuple("array_%s_init" % t for t, n in TYPES):
                r = eng.region(st, "*buf", self.off["sizeof"], kind="object")
                for q, v in eng.call(st, fn, [PtrV(r)]):
                    b = Buf.__new__(Buf)
                    b.eng, b.rid, b.off, b.name = eng, r, self.off, "buf"
                    f = b.valid(q, fn + "()")
                    if f:
                        must(eng, q, "eq", f[1].l, "size", "init", fn + "() does not make the buffer empty")
        s.run("buffer_init", init)

        def fini(fn):
            def go(eng, st, b):
                for q, v in eng.call(st, fn, [PtrV(b.rid)]):
                    no_leak(eng, q, set())
            return go
        for fn in ["buffer_fini", "stack_fini"] + ["array_%s_fini" % t for t, n in TYPES]:
            self.both(fn, fini(fn))

        def realloc_(eng, st, b):
            n = u64("alloc")
            for q, v in eng.call(st, "buffer_realloc", [PtrV(b.rid), IntV(64, n)]):
                for q, failed in status(eng, q, v, "buffer_realloc()", 1):
                    no_leak(eng, q, b.owned(q))
                    if failed:
                        spurious(eng, q, n, "buffer_realloc()")
                        b.unchanged(q, "failing buffer_realloc()")
                        continue
                    # content is the prefix that fits
                    for a, cond, ln in ((q.copy(), n - b.size, b.size), (q.copy(), b.size - n - 1, n)):
                        if a.assume("ge", cond):
                            b.content(a, [(b.d, b.ct, ZERO, ln)], "buffer_realloc()")
                            f = b.fields(a)
                            if isinstance(f[2], IntV):
                                must(eng, a, "eq", f[2].l - n, "cap", "alloc", "buffer_realloc() does not give the requested capacity")
        self.both("buffer_realloc", realloc_)

        def reserve(fn):
            def go(eng, st, b):
                n = u64("n")
                for q, v in eng.call(st, fn, [PtrV(b.rid), IntV(64, n)]):
                    for q, failed in status(eng, q, v, fn + "()", 1):
                        no_leak(eng, q, b.owned(q))
                        b.unchanged(q, fn + "()")
                        if failed:
                            spurious(eng, q, b.size + n, fn + "()")
                        else:
                            f = b.fields(q)
                            if isinstance(f[1], IntV) and isinstance(f[2], IntV):
                                must(eng, q, "ge", f[2].l - f[1].l - n, "cap", "room", fn + "() claims success without providing the room")
            return go
        self.both("buffer_reserve", reserve("buffer_reserve"))
        self.both("stack_reserve", reserve("stack_reserve"))

        def shrink(eng, st, b):
            for q, v in eng.call(st, "buffer_shrink", [PtrV(b.rid)]):
                no_leak(eng, q, b.owned(q))
                b.unchanged(q, "buffer_shrink()")
        self.both("buffer_shrink", shrink)

        def query(fn, what):
            def go(eng, st, b):
                off = u64("off")
                args = [PtrV(b.rid)]
                if what == "at":
                    args.append(IntV(64, off))
                    if not st.assume("ge", b.size - off):
                        return
                for q, v in eng.call(st, fn, args):
                    no_leak(eng, q, b.owned(q))
                    b.unchanged(q, fn + "()")
                    if what == "size":
                        must_equal(eng, q, v, IntV(64, b.size), "size", "ret", fn + "() reports a wrong size")
                    elif what == "empty":
                        for q, t in status(eng, q, v, fn, 0):
                            must(eng, q, "eq" if t else "ge", b.size if t else b.size - 1, "size", "ret", fn + "() is wrong")
                    elif what == "data":
                        must_equal(eng, q, v, PtrV(b.d), "content", "ret", fn + "() returns a wrong address")
                    elif what == "at" and b.d is not None:
                        must_equal(eng, q, v, PtrV(b.d, off), "content", "ret", fn + "() returns a wrong address")
            return go
        for fn, w in (("buffer_size", "size"), ("stack_size", "size"), ("buffer_is_empty", "empty"), ("stack_is_empty", "empty"),
                      ("buffer_data", "data"), ("buffer_const_data", "data"), ("stack_data", "data"), ("stack_const_data", "data"),
                      ("buffer_data_at", "at"), ("buffer_const_data_at", "at")):
            self.both(fn, query(fn, w))
        for t, n in TYPES:
            self.both("array_%s_is_empty" % t, query("array_%s_is_empty" % t, "empty"))
            self.both("array_%s_data" % t, query("array_%s_data" % t, "data"))
            self.both("array_%s_const_data" % t, query("array_%s_const_data" % t, "data"))

        # insertion
        def insert(fn, raw, append):
            def go(eng, st, b):
                n = u64("n")
                args = [PtrV(b.rid)]
                if append:
                    off = b.size
                else:
                    off = u64("off")
                    if not st.assume("ge", b.size - off):
                        return
                    args.append(IntV(64, off))
                src = None
                if not raw:
                    src = eng.region(st, "data", n, base="atoms", kind="caller", writable=False)
                    args.append(PtrV(src))
                args.append(IntV(64, n))
                sct = st.mem[src].content if src else None
                for q, v in eng.call(st, fn, args):
                    for q, failed in status(eng, q, v, fn + "()", 1):
                        no_leak(eng, q, b.owned(q))
                        if failed:
                            spurious(eng, q, b.size + n, fn + "()")
                            b.unchanged(q, "failing %s()" % fn)
                            continue
                        mid = ("free", n) if raw else (src, sct, ZERO, n)
                        b.content(q, [(b.d, b.ct, ZERO, off), mid, (b.d, b.ct, off, b.size - off)], fn + "()")
                        if raw:
                            d = b.fields(q)[0]
                            must_equal(eng, q, v, PtrV(d.r, d.o + off), "content", "ret", fn + "() returns a wrong address")
            return go
        for fn, raw, app in (("buffer_insert_raw", 1, 0), ("buffer_insert", 0, 0), ("buffer_append_raw", 1, 1),
                             ("buffer_append", 0, 1), ("stack_push_raw", 1, 1), ("stack_push", 0, 1)):
            self.both(fn, insert(fn, raw, app))

        def remove(fn):
            def go(eng, st, b):
                off, n = u64("off"), u64("n")
                if fn == "buffer_remove":
                    args = [PtrV(b.rid), IntV(64, off), IntV(64, n)]
                else:
                    args = [PtrV(b.rid)]
                    off, n = ZERO, b.size
                for q, v in eng.call(st, fn, args):
                    no_leak(eng, q, b.owned(q))
                    what = fn + "()"
                    a = q.copy()
                    if a.assume("ge", off - b.size):
                        b.content(a, [(b.d, b.ct, ZERO, b.size)], what)
                    a = q.copy()
                    if a.assume("ge", b.size - off) and a.assume("ge", n - (b.size - off)):
                        b.content(a, [(b.d, b.ct, ZERO, off)], what)
                    a = q.copy()
                    if a.assume("ge", b.size - off - n - 1):
                        b.content(a, [(b.d, b.ct, ZERO, off), (b.d, b.ct, off + n, b.size - off - n)], what)
            return go
        for fn in ("buffer_remove", "buffer_clear", "stack_clear"):
            self.both(fn, remove(fn))

        def acquire(fn, esz):
            def go(eng, st, b):
                for withsize in (0, 1):
                    s2 = st.copy()
                    out = eng.region(s2, "*p_size", 8, kind="caller")
                    for q, v in eng.call(s2, fn, [PtrV(b.rid), PtrV(out) if withsize else NULL]):
                        what = fn + "()"
                        keep = b.owned(q) | ({v.r} if isinstance(v, PtrV) else set())
                        no_leak(eng, q, keep)
                        must_equal(eng, q, v, PtrV(b.d), "content", "ret", what + " does not return the block")
                        f = b.valid(q, what)
                        if f:
                            must(eng, q, "eq", f[1].l, "size", "empty", what + " does not leave the buffer empty")
                            if f[0].r is not None and f[0].r == v.r:
                                bad(eng, q, "free", "shared", what + ": the block handed to the caller is still owned by the buffer")
                        if withsize:
                            must_equal(eng, q, rd(eng, q, out, 0), IntV(64, b.count), "size", "psize", what + " reports a wrong size")
                        if b.d is not None and isinstance(v, PtrV) and v.r == b.d:
                            same_bytes(eng, q, (b.d, q.mem[b.d].content, 0), (b.d, b.ct, 0), b.size, "content", "kept", what + " does not keep the content")
            return go
        self.both("buffer_acquire", acquire("buffer_acquire", 1))
        self.both("stack_acquire", acquire("stack_acquire", 1))
        for t, n in TYPES:
            self.both("array_%s_acquire" % t, acquire("array_%s_acquire" % t, n), align=n)

        def swap(fn):
            for n1 in (0, 1):
                for n2 in (0, 1):
                    def go(eng):
                        st = eng.initial()
                        a = Buf(eng, st, self.off, n1, "buf1")
                        b = Buf(eng, st, self.off, n2, "buf2")
                        fa, fb = a.fields(st), b.fields(st)
                        for q, v in eng.call(st, fn, [PtrV(a.rid), PtrV(b.rid)]):
                            for x, y, z in zip(a.fields(q) + b.fields(q), fb + fa, ("data", "size", "alloc") * 2):
                                must_equal(eng, q, x, y, "content", "swap " + z, fn + "(): wrong " + z)
                            no_leak(eng, q, a.owned(q) | b.owned(q))
                    self.s.run(fn, go)

                    def self_(eng):
                        st = eng.initial()
                        a = Buf(eng, st, self.off, n1, "buf1")
                        fa = a.fields(st)
                        for q, v in eng.call(st, fn, [PtrV(a.rid), PtrV(a.rid)]):
                            for x, y, z in zip(a.fields(q), fa, ("data", "size", "alloc")):
                                must_equal(eng, q, x, y, "content", "swap self " + z, fn + "() with itself: wrong " + z)
                    self.s.run(fn + " (same object)", self_)
        for fn in ["buffer_swap", "stack_swap"] + [f for f in ("array_%s_swap" % t for t, n in TYPES) if self.s.has(f)]:
            swap(fn)

    # ------------------------------------------------------------------ stack with raw blocks
    def stack(self):
        def peekpop(fn, raw, pop):
            def go(eng, st, b):
                n = u64("n")
                if not st.assume("ge", b.size - n) or b.d is None:
                    return
                args = [PtrV(b.rid)]
                out = None
                if not raw:
                    out = eng.region(st, "addr", n, base="undef", kind="caller")
                    args.append(PtrV(out))
                args.append(IntV(64, n))
                for q, v in eng.call(st, fn, args):
                    what = fn + "()"
                    no_leak(eng, q, b.owned(q))
                    if raw:
                        d = b.fields(q)[0]
                        must_equal(eng, q, v, PtrV(b.d, b.size - n), "elem", "ret", what + " returns a wrong address")
                    else:
                        same_bytes(eng, q, (out, q.mem[out].content, 0), (b.d, b.ct, b.size - n), n, "elem", "value",
                                   what + " does not fetch the top of the stack")
                    if pop:
                        b.content(q, [(b.d, b.ct, ZERO, b.size - n)], what)
                    else:
                        b.unchanged(q, what)
            return go
        for fn, raw, pop in (("stack_peek_raw", 1, 0), ("stack_peek", 0, 0), ("stack_pop_raw", 1, 1), ("stack_pop", 0, 1)):
            self.both(fn, peekpop(fn, raw, pop))

    # ------------------------------------------------------------------ typed operations
    def typed(self):
        for t, n in TYPES:
            self.typed_stack(t, n)
            self.typed_array(t, n)

    def value(self, t, n, name="value"):
        if t == "ptr":
            return lambda eng, st: PtrV(eng.region(st, "pointee", 64, kind="caller", base="atoms"), Lin(8))
        return lambda eng, st: IntV(8 * n, fresh(name, 0, (1 << (8 * n)) - 1))

    def arg_type_ok(self, eng, fn, pos, t, n, v):
        """The value parameter must be exactly n bytes wide."""
        F = self.s.m.functions.get(fn)
        if F is None or F.decl:
            raise AnalysisBroken("function %s() not found" % fn)
        return F

    def typed_stack(self, t, n):
        val = self.value(t, n)

        def push(eng, st, b):
            fn = "stack_push_" + t
            x = val(eng, st)
            for q, v in eng.call(st, fn, [PtrV(b.rid), self.fit(fn, 1, x)]):
                for q, failed in status(eng, q, v, fn + "()", 1):
                    no_leak(eng, q, b.owned(q))
                    if failed:
                        spurious(eng, q, b.size + n, fn + "()")
                        b.unchanged(q, "failing %s()" % fn)
                    else:
                        self.holds(eng, q, b, [(b.d, b.ct, ZERO, b.size), ("value", x, L(n))], fn + "()")
        self.both("stack_push_" + t, push)

        def peekpop(pop):
            fn = "stack_%s_%s" % ("pop" if pop else "peek", t)

            def go(eng, st, b):
                if b.d is None or not st.assume("ge", b.size - n):
                    return
                for q, v in eng.call(st, fn, [PtrV(b.rid)]):
                    no_leak(eng, q, b.owned(q))
                    self.fetched(eng, q, v, b, b.size - n, n, t, fn + "()")
                    if pop:
                        b.content(q, [(b.d, b.ct, ZERO, b.size - n)], fn + "()", cls="elem")
                    else:
                        b.unchanged(q, fn + "()")
            self.both(fn, go)
        peekpop(0)
        peekpop(1)

    def fit(self, fn, pos, x):
        """Argument as the function declares it (wider or narrower integer parameters truncate or extend)."""
        F = self.s.m.functions.get(fn)
        if F is None or F.decl:
            raise AnalysisBroken("function %s() not found" % fn)
        ty = F.argtys[pos]
        if isinstance(x, IntV) and ty.kind == "int" and ty.width < x.w:
            return IntV(ty.width, derived_low(x, ty.width))
        if isinstance(x, IntV) and ty.kind == "int" and ty.width > x.w:
            return IntV(ty.width, x.l)
        return x

    def fetched(self, eng, st, v, b, off, n, t, what):
        """v is the element stored at byte offset off."""
        if isinstance(v, Undef):
            bad(eng, st, "elem", "ret", what + " returns an uninitialized value")
            return
        if isinstance(v, IntV) and v.w != 8 * n:
            bad(eng, st, "elem", "ret", "%s returns %d bits for elements of %d bytes" % (what, v.w, n))
            return
        for i in range(n):
            for s1, w in eng.read(st.copy(), b.d, b.ct, st.s.norm(off + i), 1):
                x = v
                if isinstance(v, PtrV) and v.r is None:
                    x = IntV(64, v.o)
                if not isinstance(x, IntV):
                    bad(eng, s1, "elem", "ret", what + " returns a wrong value", hard=False)
                    return
                must_equal(eng, s1, eng.slice(s1, x, i, 1), w, "elem", "ret", what + " returns a wrong value")

    def holds(self, eng, st, b, parts, what):
        """Like Buf.content, with ('value', v, n) parts."""
        f = b.valid(st, what)
        if f is None:
            return
        d = f[0]
        total = ZERO
        for p in parts:
            total = total + p[-1]
        if not must(eng, st, "eq", f[1].l - total, "elem", "size", "%s: the size does not change by one element" % what):
            return
        at = ZERO
        for i, p in enumerate(parts):
            if d.r is None:
                must(eng, st, "eq", p[-1], "elem", "part%d" % i, what + ": elements are lost")
                continue
            if p[0] == "value":
                x = p[1]
                for j in range(p[2].c):
                    for s1, w in eng.read(st.copy(), d.r, st.mem[d.r].content, st.s.norm(at + j), 1):
                        if isinstance(w, Undef):
                            bad(eng, s1, "elem", "stored", what + " does not store the whole value")
                        else:
                            must_equal(eng, s1, w, eng.slice(s1, x, j, 1), "elem", "stored", what + " does not store the value")
            elif p[0] is not None and p[0] != "free":
                same_bytes(eng, st, (d.r, st.mem[d.r].content, at), (p[0], p[1], p[2]), p[-1], "elem", "part%d" % i,
                           what + ": other elements change")
            at = at + p[-1]

    def typed_array(self, t, n):
        val = self.value(t, n)
        P = "array_%s_" % t

        def size(eng, st, b):
            fn = P + "size"
            for q, v in eng.call(st, fn, [PtrV(b.rid)]):
                must_equal(eng, q, v, IntV(64, b.count), "elem", "ret", fn + "() reports a wrong count")
                b.unchanged(q, fn + "()")
        self.both(P + "size", size, align=n)

        def get(eng, st, b):
            fn = P + "get"
            if b.d is None:
                return
            i = u64("index")
            if not st.assume("ge", b.count - i - 1):
                return
            for q, v in eng.call(st, fn, [PtrV(b.rid), IntV(64, i)]):
                self.fetched(eng, q, v, b, i.scale(n), n, t, fn + "()")
                b.unchanged(q, fn + "()")
        self.both(P + "get", get, align=n)

        def set_(eng, st, b):
            fn = P + "set"
            if b.d is None:
                return
            i = u64("index")
            if not st.assume("ge", b.count - i - 1):
                return
            x = val(eng, st)
            for q, v in eng.call(st, fn, [PtrV(b.rid), IntV(64, i), self.fit(fn, 2, x)]):
                self.holds(eng, q, b, [(b.d, b.ct, ZERO, i.scale(n)), ("value", x, L(n)),
                                       (b.d, b.ct, i.scale(n) + n, b.size - i.scale(n) - n)], fn + "()")
        self.both(P + "set", set_, align=n)

        def ins(fn, kind, append):
            def go(eng, st, b):
                args = [PtrV(b.rid)]
                i = b.count
                if not append:
                    i = u64("index")
                    if not st.assume("ge", b.count - i):
                        return
                    args.append(IntV(64, i))
                cnt = L(1)
                x = None
                if kind == "n":
                    cnt = u64("n")
                    args.append(IntV(64, cnt))
                elif kind == "value":
                    x = val(eng, st)
                    args.append(self.fit(fn, len(args), x))
                for q, v in eng.call(st, fn, args):
                    for q, failed in status(eng, q, v, fn + "()", 1):
                        no_leak(eng, q, b.owned(q))
                        if failed:
                            spurious(eng, q, b.size + cnt.scale(n), fn + "()")
                            b.unchanged(q, "failing %s()" % fn)
                            continue
                        mid = ("value", x, L(n)) if kind == "value" else ("free", cnt.scale(n))
                        o = i.scale(n)
                        self.holds(eng, q, b, [(b.d, b.ct, ZERO, o), mid, (b.d, b.ct, o, b.size - o)], fn + "()")
            return go
        for fn, kind, app in ((P + "insert_raw", "raw", 0), (P + "insert", "value", 0), (P + "insert_n_raw", "n", 0),
                              (P + "append_raw", "raw", 1), (P + "append", "value", 1), (P + "append_n", "n", 1)):
            self.both(fn, ins(fn, kind, app), align=n)

        def rem(fn, many):
            def go(eng, st, b):
                i = u64("index")
                args = [PtrV(b.rid), IntV(64, i)]
                cnt = L(1)
                if many:
                    cnt = u64("n")
                    args.append(IntV(64, cnt))
                for q, v in eng.call(st, fn, args):
                    no_leak(eng, q, b.owned(q))
                    a = q.copy()
                    if a.assume("ge", i - b.count):
                        self.holds(eng, a, b, [(b.d, b.ct, ZERO, b.size)], fn + "()")
                    a = q.copy()
                    if a.assume("ge", b.count - i - 1) and a.assume("ge", cnt - (b.count - i)):
                        self.holds(eng, a, b, [(b.d, b.ct, ZERO, i.scale(n))], fn + "()")
                    a = q.copy()
                    if a.assume("ge", b.count - i - cnt - 1):
                        o = i.scale(n)
                        e = o + cnt.scale(n)
                        self.holds(eng, a, b, [(b.d, b.ct, ZERO, o), (b.d, b.ct, e, b.size - e)], fn + "()")
            return go
        self.both(P + "remove", rem(P + "remove", 0), align=n)
        self.both(P + "remove_n", rem(P + "remove_n", 1), align=n)


def derived_low(x, w):
    from engine.lin import derived
    return derived(("div", x.l, 1 << w), "#hi", 0, None).scale(-(1 << w)) + x.l


def add(rep, typed=True, ops=True):
    s = Suite(rep, "buffer", classify)
    d = Driver(s)
    if ops:
        d.ops()
        d.stack()
    if typed:
        d.typed()
    return s


def rules(rep):
    rep.rule("abstract interpretation of every buffer/stack/array operation from an arbitrary valid object state (empty, or a block "
             "of symbolic capacity and size with symbolic bytes), arbitrary offsets and counts, every allocation both failing and "
             "succeeding; obligations: each access within its block, object invariant (size <= capacity <= block) and result at return")
    rep.assume("a valid object is passed; insert positions are at most the current size, peek/pop amounts at most the size; "
               "source data does not overlap the object")
    rep.assume("heap model: malloc/realloc return null or a fresh block; blocks are at most PTRDIFF_MAX bytes; realloc(p, 0) frees p")


def c07(rep):
    rules(rep)
    add(rep)
    rep.need("entry points", 100)


def c08(rep):
    rules(rep)
    rep.rule("content: for a symbolic index i the byte at i after the call is compared, by case analysis over the recorded writes "
             "and block copies, with the byte the specification names")
    add(rep, typed=False)
    rep.need("entry points", 40)


def c09(rep):
    rules(rep)
    rep.rule("each of the nine element types: element i occupies bytes [i*size, (i+1)*size); stored and fetched values are compared byte by byte")
    add(rep)
    rep.need("entry points", 200)
