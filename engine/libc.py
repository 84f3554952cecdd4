"""Models of libc functions and LLVM intrinsics for the abstract interpreter.
A model is h(eng, st, args, I) -> list of (state, value); None means: analyse the body instead."""
from . import lin
from .lin import Lin, L, ZERO, derived
from .absint import IntV, PtrV, Undef, CondV, FltV, FnV, AggV, NULL, Unsupported, TRUE, FALSE, Content

PTRDIFF_MAX = (1 << 63) - 1


def as_ptr(v):
    if isinstance(v, IntV):
        return PtrV(None, v.l)
    return v


def as_lin(v, what="size"):
    if isinstance(v, IntV):
        return v.l
    if isinstance(v, PtrV) and v.r is None:
        return v.o
    raise Unsupported("%s is %r" % (what, v))


# ------------------------------------------------------------------ heap

def new_block(eng, st, n, base, what, I):
    """Allocation of n (Lin) bytes: fails or succeeds. -> list of (state, ptr)"""
    out = []
    fail = st.copy()
    fail.event("allocfail", n)
    fail.trail = (fail.trail, "%s:%s=NULL" % (I.line if I else "?", what))
    out.append((fail, NULL))
    if st.assume("ge", Lin(PTRDIFF_MAX) - n):
        eng.heapno = getattr(eng, "heapno", 0) + 1
        rid = eng.region(st, "%s() block of line %s" % (what, I.line if I else "?"), n, base=base, kind="heap")
        st.mem[rid].line = I.line if I else 0
        st.event("alloc", rid, n)
        out.append((st, PtrV(rid)))
    return out


def m_malloc(eng, st, args, I):
    if isinstance(args[0], Undef):
        eng.fail(st, "uninit", "malloc:" + eng.where(st), "allocation of an uninitialized size")
        return []
    return new_block(eng, st, st.s.norm(as_lin(args[0])), "undef", "malloc", I)


def m_calloc(eng, st, args, I):
    a, b = st.s.norm(as_lin(args[0])), st.s.norm(as_lin(args[1]))
    if a.t and b.t:
        la, lb = st.s.rng(a), st.s.rng(b)
        hi = None if la[1] is None or lb[1] is None else la[1] * lb[1]
        n = st.s.derive(("mul", 128, a, b), "#calloc", 0, None, 0, hi)
    else:
        n = a.scale(b.c) if not b.t else b.scale(a.c)
    return new_block(eng, st, n, "zero", "calloc", I)


def check_free(eng, st, p, what):
    """p is a pointer free()/realloc() may release? -> True/False (path ends)"""
    w = eng.where(st)
    if isinstance(p, Undef):
        eng.fail(st, "uninit", "free:" + w, "%s() of an uninitialized pointer" % what)
        return False
    if not isinstance(p, PtrV):
        raise Unsupported("%s of %r" % (what, p))
    if p.r is None:
        eng.fail(st, "free", "free:" + w, "%s() of an invalid address" % what)
        return False
    r = st.mem[p.r]
    if r.kind == "opaque" and r.lazy is None:
        raise Unsupported("free of opaque object")
    if r.kind not in ("heap",):
        eng.fail(st, "free", "free:" + w, "%s() of %s, which was not allocated on the heap" % (what, r.name))
        return False
    if not r.alive:
        eng.fail(st, "free", "free:" + w, "%s() of %s, which has already been released" % (what, r.name))
        return False
    eng.ok("free")
    return eng.require(st, "eq", p.o, "free", "interior:" + w, "%s() of an address inside %s" % (what, r.name))


def m_free(eng, st, args, I):
    p = as_ptr(args[0])
    if isinstance(p, PtrV) and p.r is None:
        if st.s.entails_eq(p.o):
            return [(st, None)]
    if not check_free(eng, st, p, "free"):
        return []
    h = st.mem[p.r].lazy
    if h is not None and hasattr(h, "free"):
        h.free(eng, st, p.r)
    r = eng.mut(st, p.r)
    r.alive = False
    st.event("free", p.r)
    return [(st, None)]


def m_realloc(eng, st, args, I):
    p = as_ptr(args[0])
    n = st.s.norm(as_lin(args[1]))
    if isinstance(p, PtrV) and p.r is None and st.s.entails_eq(p.o):
        return new_block(eng, st, n, "undef", "realloc", I)
    if not check_free(eng, st, p, "realloc"):
        return []
    out = []
    # size zero: the block is released and null returned
    if not st.s.entails_ge(n - 1):
        z = st.copy()
        if z.assume("eq", n):
            z.trail = (z.trail, "%s:realloc(0)" % I.line)
            r = eng.mut(z, p.r)
            r.alive = False
            z.event("free", p.r)
            z.event("realloc0", p.r)
            out.append((z, NULL))
        if not st.assume("ge", n - 1):
            return out
    n = st.s.norm(n)
    old = st.mem[p.r]
    for s, q in new_block(eng, st, n, "undef", "realloc", I):
        if q is NULL:
            out.append((s, q))
            continue
        osz = s.s.norm(old.size)
        cases = []
        if s.s.entails_ge(n - osz):
            cases.append((s, osz))
        elif s.s.entails_ge(osz - n):
            cases.append((s, n))
        else:
            a = s.copy()
            if a.assume("ge", n - osz):
                cases.append((a, osz))
            b = s.copy()
            if b.assume("ge", osz - n - 1):
                cases.append((b, n))
        for c, ln in cases:
            r = eng.mut(c, q.r)
            src = c.mem[p.r]
            r.content = Content("copy", r.content, off=ZERO, len=c.s.norm(ln), src=src.content, srcoff=ZERO, srcreg=p.r)
            if src.lazy is not None:
                src.lazy.realloc(eng, c, p.r, q.r, ln)
            o = eng.mut(c, p.r)
            o.alive = False
            c.event("free", p.r)
            c.event("realloc", p.r, q.r)
            out.append((c, q))
    return out


# ------------------------------------------------------------------ block operations

def m_memcpy(eng, st, args, I):
    return [(s, args[0]) for s in eng.copy_mem(st, as_ptr(args[0]), as_ptr(args[1]), as_lin(args[2]), "memcpy")]


def m_memmove(eng, st, args, I):
    return [(s, args[0]) for s in eng.copy_mem(st, as_ptr(args[0]), as_ptr(args[1]), as_lin(args[2]), "memmove")]


def m_memset(eng, st, args, I):
    v = args[1]
    if isinstance(v, IntV) and v.w != 8:
        v = IntV(8, eng.wrap(st, 8, v.l))
    return [(s, args[0]) for s in eng.fill_mem(st, as_ptr(args[0]), v, as_lin(args[2]))]


def const_bytes(eng, st, p, n):
    """Bytes at p as list of constants, or None."""
    if p.r is None or p.o.t:
        return None
    r = st.mem[p.r]
    out = []
    for i in range(n):
        v = eng.const_read(r.content, p.o.c + i, 1)
        if v is None:
            return None
        out.append(v)
    return out


def m_memcmp(eng, st, args, I):
    a, b, n = as_ptr(args[0]), as_ptr(args[1]), st.s.norm(as_lin(args[2]))
    if st.s.entails_eq(n):
        return [(st, IntV(32, 0))]
    out = []
    if not st.s.entails_ge(n - 1):
        z = st.copy()
        if z.assume("eq", n):
            out.append((z, IntV(32, 0)))
        if not st.assume("ge", n - 1):
            return out
    if not eng.access(st, a, n, "memcmp reading") or not eng.access(st, b, n, "memcmp reading"):
        return out
    n = st.s.norm(n)
    if not n.t and n.c <= 64:
        x, y = const_bytes(eng, st, a, n.c), const_bytes(eng, st, b, n.c)
        if x is not None and y is not None:
            return out + [(st, IntV(32, 0 if x == y else 1 if x > y else (1 << 32) - 1))]
    a2, b2 = PtrV(a.r, st.s.norm(a.o)), PtrV(b.r, st.s.norm(b.o))
    if a2 == b2:
        return out + [(st, IntV(32, 0))]
    # contents are part of the identity of the result
    key = ("memcmp", a2, id(st.mem[a.r].content), b2, id(st.mem[b.r].content), n)
    KEEP.append((st.mem[a.r].content, st.mem[b.r].content))
    r = derived(key, "#memcmp", 0, (1 << 32) - 1)
    return out + [(st, IntV(32, r))]


KEEP = []


def m_abs(eng, st, args, I):
    v = args[0]
    if not isinstance(v, IntV):
        return None
    out = []
    l = eng.signed(st, v.w, v.l)
    a = st.copy()
    if a.assume("ge", l):
        out.append((a, IntV(v.w, l)))
    if st.assume("ge", (-l) - 1):
        out.append((st, IntV(v.w, eng.wrap(st, v.w, -l))))
    return out


def m_strlen(eng, st, args, I):
    p = as_ptr(args[0])
    if not eng.access(st, p, 1, "strlen reading"):
        return []
    r = st.mem[p.r]
    ct = r.content
    if ct.k == "base" and ct.val == "cstr":
        ln = ct.src
        out = []
        if not st.s.entails_ge(ln - p.o):
            b = st.copy()
            if b.assume("ge", p.o - ln - 1):
                eng.fail(b, "bounds", "strlen:" + eng.where(st), "strlen() starts behind the terminator of %s" % r.name, [p.o, ln])
            if not st.assume("ge", ln - p.o):
                return []
        return [(st, IntV(64, st.s.norm(ln - p.o)))]
    o = st.s.norm(p.o)
    if not o.t:
        n = 0
        while n < 4096:
            v = eng.const_read(ct, o.c + n, 1)
            if v is None:
                break
            if v == 0:
                return [(st, IntV(64, n))]
            n += 1
    raise Unsupported("strlen of " + r.name)


MODELS = {
    "malloc": m_malloc, "calloc": m_calloc, "realloc": m_realloc, "free": m_free,
    "memcpy": m_memcpy, "memmove": m_memmove, "memset": m_memset, "memcmp": m_memcmp, "bcmp": m_memcmp,
    "abs": m_abs, "labs": m_abs, "llabs": m_abs, "strlen": m_strlen,
}


# ------------------------------------------------------------------ intrinsics

def i_overflow(op, sgn):
    def h(eng, st, args, I):
        a, b = args
        if not isinstance(a, IntV) or not isinstance(b, IntV):
            raise Unsupported("overflow intrinsic")
        w = a.w
        x, y = (eng.signed(st, w, a.l), eng.signed(st, w, b.l)) if sgn else (a.l, b.l)
        x, y = st.s.norm(x), st.s.norm(y)
        if op == "mul":
            if x.t and y.t:
                if repr(y) < repr(x):
                    x, y = y, x
                lx, ly = st.s.rng(x), st.s.rng(y)
                if sgn or None in lx or None in ly:
                    raise Unsupported("signed nonlinear overflow check")
                r = st.s.derive(("mul", 2 * w, x, y), "#wmul", 0, (1 << 2 * w) - 1, lx[0] * ly[0], lx[1] * ly[1])
            else:
                r = x.scale(y.c) if not y.t else y.scale(x.c)
        else:
            r = x + y if op == "add" else x - y
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sgn else (0, (1 << w) - 1)
        out = []
        f = st.copy()
        if f.assume("ge", r - lo) and f.assume("ge", Lin(hi) - r):
            out.append((f, AggV({0: IntV(w, eng.wrap(f, w, r)), 1: FALSE})))
        for cond in (r - hi - 1, Lin(lo - 1) - r):
            g = st.copy()
            if g.assume("ge", cond):
                out.append((g, AggV({0: IntV(w, eng.wrap(g, w, r)), 1: TRUE})))
        return out
    return h


def i_minmax(pred):
    def h(eng, st, args, I):
        a, b = args
        out = []
        for s, c in eng.icmp(st, pred, a.w, a, b):
            for s2, t in eng.branch(s, c):
                out.append((s2, a if t else b))
        return out
    return h


def i_fabs(eng, st, args, I):
    v = args[0]
    if isinstance(v, Undef):
        return [(st, v)]
    if eng.float_exact:
        from . import floats
        return floats.arith(eng, st, "fabs", v.k, [v])
    return [(st, eng.fold_float(FltV(v.k, ("fabs", v.k, v.t))))]


def i_math(name):
    def h(eng, st, args, I):
        for v in args:
            if isinstance(v, Undef):
                return [(st, v)]
        if eng.float_exact and name in ("floor", "ceil", "trunc", "round"):
            from . import floats
            return floats.rounding(eng, st, name, args[0].k, args[0])
        return [(st, eng.fold_float(FltV(args[0].k, (name, args[0].k) + tuple(v.t for v in args))))]
    return h


def i_fshl(left):
    def h(eng, st, args, I):
        a, b, c = args
        w = a.w
        if not st.s.norm(c.l).isc():
            raise Unsupported("variable rotation")
        k = st.s.norm(c.l).c % w
        if not left:
            k = (w - k) % w
        if k == 0:
            return [(st, a if left else b)]
        hi = eng.wrap(st, w, a.l.scale(1 << k))
        lo = eng.div(st, b.l, 1 << (w - k))
        return [(st, IntV(w, st.s.norm(hi + lo)))]
    return h


def i_bswap(eng, st, args, I):
    v = args[0]
    n = v.w // 8
    bs = [eng.slice(st, v, i, 1) for i in range(n)]
    l = ZERO
    for i, b in enumerate(bs):
        l = l + b.l.scale(256 ** (n - 1 - i))
    return [(st, IntV(v.w, st.s.norm(l)))]


def i_nop(eng, st, args, I):
    return [(st, NULL)]


def i_expect(eng, st, args, I):
    return [(st, args[0])]


def i_assume(eng, st, args, I):
    return [(s, None) for s, t in eng.branch(st, args[0]) if t]


def i_trap(eng, st, args, I):
    eng.fail(st, "ub", "trap:" + eng.where(st), "a trap is reachable")
    return []


def intrinsic(name):
    n = name[5:]
    p = n.split(".")
    if p[0] in ("memcpy",):
        return m_memcpy
    if p[0] == "memmove":
        return m_memmove
    if p[0] == "memset":
        return m_memset
    if len(p) > 2 and p[1] == "with" and p[0] in ("uadd", "usub", "umul", "sadd", "ssub", "smul"):
        return i_overflow(p[0][1:], p[0][0] == "s")
    if p[0] in ("umin", "umax", "smin", "smax"):
        return i_minmax(p[0][0] + ("lt" if p[0][1:] == "min" else "gt"))
    if p[0] == "abs":
        return m_abs
    if p[0] == "fabs":
        return i_fabs
    if p[0] in ("floor", "ceil", "round", "trunc", "rint", "nearbyint", "fma", "fmuladd"):
        return i_math(p[0])
    if p[0] == "fshl":
        return i_fshl(True)
    if p[0] == "fshr":
        return i_fshl(False)
    if p[0] == "bswap":
        return i_bswap
    if p[0] in ("stacksave", "stackrestore", "lifetime", "dbg", "prefetch", "va_start", "va_end"):
        return i_nop
    if p[0] == "expect":
        return i_expect
    if p[0] == "assume":
        return i_assume
    if p[0] in ("trap", "debugtrap", "ubsantrap"):
        return i_trap
    return None
