"""Macro headers: stack-or-heap allocation (C33) and the utility macros (C36), through witness code that uses them."""
import itertools
import re
from .common import *
from engine import build


def compiles(rep, name, witnesses, prelude=""):
    """Keep the witnesses that compile; a failing one is a violation. witnesses: [(label, text)]"""
    try:
        modules.module(name, extra=prelude)
    except build.BuildError as e:
        raise AnalysisBroken("witness prelude does not compile: %s" % str(e)[-400:])
    good = []

    def split(ws):
        if not ws:
            return
        try:
            modules.module(name, extra=prelude + "".join(t for _, t in ws))
            good.extend(ws)
        except build.BuildError as e:
            if len(ws) == 1:
                msg = [l for l in str(e).splitlines() if "error" in l][:1]
                rep.violate("%s:compile:%s" % (name, ws[0][0]), "%s does not compile: %s" % (ws[0][0], (msg or [""])[0][:300]))
                return
            split(ws[:len(ws) // 2])
            split(ws[len(ws) // 2:])
    split(list(witnesses))
    return good


# ------------------------------------------------------------------ MALLOCA

M_PRELUDE = """
extern void verif_use(void* p, size_t n, size_t threshold);
"""

# label, parameters, statements before, size expression, threshold expression or None, extra
M_SIZES = [
    ("n", "size_t n", "n"),
    ("int n", "int n", "n"),
    ("unsigned char n", "unsigned char n", "n"),
    ("unsigned n", "unsigned n", "n"),
    ("a + b", "size_t a, size_t b", "a + b"),
    ("a << 1", "size_t a", "a << 1"),
    ("a | b", "size_t a, size_t b", "a | b"),
    ("a & b", "size_t a, size_t b", "a & b"),
    ("c ? a : b", "int c, size_t a, size_t b", "c ? a : b"),
    ("size", "size_t size", "size"),
    ("ptr", "size_t ptr", "ptr"),
    ("mark", "size_t mark", "mark"),
    ("threshold", "size_t threshold", "threshold"),
]
M_THRESH = [(None, "", None), ("t", "size_t t", "t"), ("t & u", "size_t t, size_t u", "t & u"), ("c2 ? t : u", "int c2, size_t t, size_t u", "c2 ? t : u"),
            ("0", "", "0"), ("1", "", "1"), ("8", "", "8"), ("64 + 64", "", "64 + 64"), ("int t", "int t", "t")]


def m_classify(v, label):
    if v.cls in ("leak",):
        return {"C06", "C33"}
    if v.cls == "noaf":
        return {"C33"}
    p = {"C33"}
    if v.cls in ("uaf", "free"):
        p.add("C06")
    return p


def c33(rep):
    rep.rule("witness functions expand the allocation and release macros with many argument expressions; their IR is interpreted for every size and threshold: "
             "usable size, origin (stack or heap) of the block handed to the caller, release of exactly the heap blocks, and null for impossible sizes")
    rep.assume("argument expressions have no side effects; the caller writes any bytes into the block and nothing outside it; the stack is large enough")
    ws = []
    meta = {}
    k = 0
    for (l, ps, e), (tl, tps, te) in itertools.product(M_SIZES, M_THRESH):
        if te is not None and l not in ("n", "int n", "c ? a : b", "a & b"):
            continue
        fn = "verif_m%d" % k
        k += 1
        P = ", ".join(x for x in (ps, tps) if x)
        call = "MALLOCA(%s)" % e if te is None else "MALLOCA_(%s, %s)" % (e, te)
        th = "(MALLOCA_THRESHOLD)" if te is None else "(size_t)(%s)" % te
        text = "void %s(%s) { void* verif_p = %s; verif_use(verif_p, (size_t)(%s), %s); FREEA(verif_p); }\n" % (fn, P, call, e, th)
        ws.append((call, text))
        meta[fn] = call
    forms = {
        "verif_f_cond": "void verif_f_cond(size_t n, int c) { char* a = MALLOCA(n); char* b = NULL; verif_use(a, n, MALLOCA_THRESHOLD); FREEA(c ? a : b); FREEA(c ? b : a); }\n",
        "verif_f_deref": "void verif_f_deref(size_t n) { int* a = MALLOCA(n); int** pp = &a; verif_use(a, n, MALLOCA_THRESHOLD); FREEA(*pp); }\n",
        "verif_f_arith": "void verif_f_arith(size_t n) { short* a = MALLOCA(n); verif_use(a, n, MALLOCA_THRESHOLD); if(a != NULL) a = a + 1; else a = (short*)0 + 1; FREEA(a - 1); }\n",
        "verif_f_else": "void verif_f_else(size_t n, int c) { char* a = MALLOCA(n); verif_use(a, n, MALLOCA_THRESHOLD); if(c) FREEA(a); else FREEA(a); }\n",
        "verif_f_names": "void verif_f_names(size_t n) { char* mark = MALLOCA(n); { char* ptr = mark; char* x = ptr; verif_use(x, n, MALLOCA_THRESHOLD); FREEA(x); } }\n",
        "verif_f_ptr": "void verif_f_ptr(size_t n) { long long* ptr = MALLOCA(n); verif_use(ptr, n, MALLOCA_THRESHOLD); FREEA(ptr); }\n",
        "verif_f_markname": "void verif_f_markname(size_t n) { void* mark = MALLOCA(n); verif_use(mark, n, MALLOCA_THRESHOLD); FREEA(mark); }\n",
        "verif_f_null": "void verif_f_null(void) { char* p = NULL; FREEA(p); FREEA((void*)0); }\n",
        "verif_f_two": "void verif_f_two(size_t n, size_t m) { char* a = MALLOCA(n); char* b = MALLOCA(m); verif_use(a, n, MALLOCA_THRESHOLD); verif_use(b, m, MALLOCA_THRESHOLD); FREEA(a); FREEA(b); }\n",
        "verif_f_expr": "void verif_f_expr(size_t n) { char* a; if((a = MALLOCA(n)) != NULL) { verif_use(a, n, MALLOCA_THRESHOLD); FREEA(a); } }\n",
        "verif_f_cast": "void verif_f_cast(size_t n) { char* a = (char*) MALLOCA(n) ; verif_use(a, n, MALLOCA_THRESHOLD); FREEA((void*) a); }\n",
    }
    for f, t in forms.items():
        ws.append((f, t))
        meta[f] = f[8:] + " form"
    good = compiles(rep, "malloca", ws, M_PRELUDE)
    text = M_PRELUDE + "".join(t for _, t in good)
    have = set(re.findall(r"void (verif_\w+)\(", text))

    def use(eng, st, args, I):
        p, n, t = args
        p = absint.NULL if isinstance(p, IntV) and st.s.entails_eq(p.l) else p
        n, t = st.s.norm(n.l), st.s.norm(t.l)
        if isinstance(p, Undef):
            bad(eng, st, "block", "uninit", "%s gives an uninitialized pointer" % eng.title)
            return []
        if isinstance(p, PtrV) and p.r is None:
            must(eng, st, "eq", p.o, "block", "invalid", "%s gives an invalid address" % eng.title)
            if has_event(st, "allocfail"):
                eng.ok("noaf")
            else:
                must(eng, st, "ge", n - (PMAX - 64), "block", "spurious", "%s gives null although nothing went wrong" % eng.title)
            return [(st, None)]
        if not isinstance(p, PtrV):
            bad(eng, st, "block", "odd", "%s gives an odd pointer" % eng.title, hard=False)
            return []
        R = st.mem[p.r]
        if not R.alive:
            bad(eng, st, "uaf", "dead", "%s gives memory which is no longer valid" % eng.title)
            return []
        must(eng, st, "ge", p.o, "block", "low", "%s gives memory before the start of the block" % eng.title)
        must(eng, st, "ge", R.size - p.o - n, "block", "short", "%s gives less memory than requested" % eng.title)
        if R.kind == "alloca":
            must(eng, st, "ge", t - n - 1, "block", "stack", "%s takes memory from the stack although the request is not below the threshold" % eng.title)
        elif R.kind == "heap":
            must(eng, st, "ge", n - t + 16, "block", "heap", "%s takes memory from the heap although the request is well below the threshold" % eng.title)
        else:
            bad(eng, st, "block", "foreign", "%s gives memory of %s" % (eng.title, R.name))
            return []
        # the caller fills the block with anything
        if st.assume("ge", n - 1) if not st.s.entails_eq(n) else False:
            src = eng.region(st, "caller's data", n, base="atoms", kind="caller")
            eng.copy_mem(st, p, PtrV(src), n, "memcpy")
        return [(st, None)]

    s = Suite(rep, "malloca", m_classify, models={"verif_use": use}, extra=text)
    for fn, title in meta.items():
        if fn not in have:
            continue

        def drv(eng):
            eng.title = title
            st = eng.initial()
            F = s.m.functions[fn]
            args = []
            for a, ty in zip(F.args, F.argtys):
                x = fresh(str(a), 0, (1 << ty.width) - 1)
                args.append(IntV(ty.width, x))
            for q, v in eng.call(st, fn, args):
                no_leak(eng, q, set())
        s.run(fn + ": " + title, drv)
    rep.need("entry points", 30)


# ------------------------------------------------------------------ defs.h

REF = {
    "MIN": (2, "({ __typeof__(1 ? ({E0}) : ({E1})) verif_0 = ({E0}), verif_1 = ({E1}), verif_r; if(verif_0 < verif_1) verif_r = verif_0; else verif_r = verif_1; verif_r; })"),
    "MAX": (2, "({ __typeof__(1 ? ({E0}) : ({E1})) verif_0 = ({E0}), verif_1 = ({E1}), verif_r; if(verif_0 > verif_1) verif_r = verif_0; else verif_r = verif_1; verif_r; })"),
    "MIN3": (3, "({ __typeof__((1 ? ({E0}) : (1 ? ({E1}) : ({E2})))) verif_0 = ({E0}), verif_1 = ({E1}), verif_2 = ({E2}), verif_r = verif_0; "
                "if(verif_1 < verif_r) verif_r = verif_1; if(verif_2 < verif_r) verif_r = verif_2; verif_r; })"),
    "MAX3": (3, "({ __typeof__((1 ? ({E0}) : (1 ? ({E1}) : ({E2})))) verif_0 = ({E0}), verif_1 = ({E1}), verif_2 = ({E2}), verif_r = verif_0; "
                "if(verif_1 > verif_r) verif_r = verif_1; if(verif_2 > verif_r) verif_r = verif_2; verif_r; })"),
    "CLAMP": (3, "({ __typeof__((1 ? ({E0}) : (1 ? ({E1}) : ({E2})))) verif_0 = ({E0}), verif_1 = ({E1}), verif_2 = ({E2}), verif_r = verif_0; "
                 "if(verif_0 < verif_1) verif_r = verif_1; if(verif_0 > verif_2) verif_r = verif_2; verif_r; })"),
    "ABS": (1, "({ __typeof__(+({E0})) verif_0 = ({E0}), verif_r; if(verif_0 < 0) verif_r = -verif_0; else verif_r = verif_0; verif_r; })"),
}
TYPES = ["signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long long", "unsigned long long", "float", "double"]
# contexts around the macro; {M} is replaced
CONTEXTS = ["{M}", "2 * {M}", "{M} + 1", "1 - {M}", "-{M}", "{M} < c", "c == {M}", "!{M}", "c ? {M} : d", "{M} ? c : d", "({M}, d)"]
INTCTX = ["{M} % 7", "7 & {M}", "~{M}", "{M} | 5", "{M} ^ c"]
# argument expressions for one position
EXPRS = ["a", "a + b", "a - b", "a < b", "a ? b : c", "c ? a : b", "a == b", "(a, b)", "a && b", "!a"]
INTEX = ["a | b", "a & b", "a ^ b", "~a", "a & 3"]
NAMES = [("x", "y", "z"), ("tmp", "r", "t"), ("value_max", "value_min", "value"), ("_a", "_b", "_c"), ("b", "a", "c"), ("a_", "b_", "c_"), ("__a", "__b", "__c")]


def d_witnesses():
    """[(label, text, kind, payload)]"""
    out = []
    n = [0]

    def pair(T, macro, exprs, ctx, params=("a", "b", "c", "d"), ret=None, outer=None):
        k = n[0]
        n[0] += 1
        m = "%s(%s)" % (macro, ", ".join("(%s)" % e if "," in e and not e.startswith("(") else e for e in exprs))
        ref = REF[macro][1]
        for i, e in enumerate(exprs):
            ref = ref.replace("{E%d}" % i, e)
        if outer is not None:
            # nested macros: replace the placeholder argument
            om, pos, rest = outer
            args = list(rest)
            args.insert(pos, m)
            rargs = list(rest)
            rargs.insert(pos, ref)
            mm = "%s(%s)" % (om, ", ".join(args))
            rr = REF[om][1]
            for i, e in enumerate(rargs):
                rr = rr.replace("{E%d}" % i, e)
            m, ref = mm, rr
        R = ret or "__typeof__(%s)" % ctx.replace("{M}", "(%s)" % ref)
        # GNU statement expressions cannot be used in a return type at file scope: use a result pointer
        P = ", ".join("%s %s" % (T, p) for p in params)
        text = "void verif_d%d(void* out, %s) { __typeof__(%s) verif_res = %s; *(__typeof__(verif_res)*)out = verif_res; }\n" % (
            k, P, ctx.replace("{M}", m), ctx.replace("{M}", m))
        text += "void verif_e%d(void* out, %s) { __typeof__(%s) verif_res = %s; *(__typeof__(verif_res)*)out = verif_res; }\n" % (
            k, P, ctx.replace("{M}", "(%s)" % ref), ctx.replace("{M}", "(%s)" % ref))
        bounds = []
        if macro == "CLAMP":
            bounds.append((exprs[1], exprs[2]))
        if outer is not None and outer[0] == "CLAMP":
            bounds.append((outer[2][0], outer[2][1]))
        if bounds:
            text += "int verif_b%d(%s) { return %s; }\n" % (k, P, " & ".join("((%s) <= (%s))" % x for x in bounds))
        out.append(("%s on %s" % (ctx.replace("{M}", m), T), text, k, (T, macro, exprs if outer is None else None, outer, ctx, params)))

    for T in TYPES:
        fl = T in ("float", "double")
        for macro, (ar, _) in REF.items():
            base = ["a", "b", "c"][:ar]
            pair(T, macro, base, "{M}")
            if T not in ("int", "unsigned", "double", "long long"):
                continue
            for ctx in CONTEXTS + ([] if fl else INTCTX):
                if ctx != "{M}":
                    pair(T, macro, base, ctx)
            for pos in range(ar):
                for e in EXPRS + ([] if fl else INTEX):
                    if e == "a" or (ar == 3 and e in ("a - b", "a ^ b")):
                        continue
                    ex = list(base)
                    ex[pos] = e
                    pair(T, macro, ex, "{M}")
    for T in ("int", "double"):
        for names in NAMES:
            for macro, (ar, _) in REF.items():
                pair(T, macro, list(names[:ar]), "{M}", params=names)
        for inner in ("MIN", "MAX", "ABS", "MIN3", "CLAMP"):
            for om in ("MIN", "MAX", "ABS", "MAX3", "CLAMP"):
                ia = ["a", "b", "c"][:REF[inner][0]]
                rest = ["c", "d", "b"][:REF[om][0] - 1]
                for pos in ([0] if om in ("ABS", "CLAMP") else [0, 1]):
                    pair(T, inner, ia, "{M}", outer=(om, pos, rest))
    return out


STRUCTS = """
typedef struct { char c; int x; short s[5]; struct { long long q; char t; } in; } VIN;
typedef struct { int first; VIN a; double d; VIN b; } VOUT;
#define VERIF_MAJOR 5
#define VERIF_MINOR 3
#define VERIF_EMPTY
#define VERIF_NEST VERIF_MAJOR
"""


def d_classify(v, label):
    return {"C36"}


def c36(rep):
    rep.rule("each macro is expanded with many argument expressions, operand types, surrounding operators, variable names and nestings; the IR of the expansion and of "
             "a reference that evaluates each argument once into a variable are interpreted on the same symbolic operands and must give the same result on every path; "
             "offset, container, array size and stringize macros are decided from the compiler's constants and addresses")
    rep.assume("argument expressions have no side effects and share a type after the usual conversions; floating-point operands are not NaN; clamp bounds are ordered")
    ws = d_witnesses()
    good = compiles(rep, "defs", [(l, t) for l, t, _, _ in ws])
    ok = {l for l, _ in good}
    text = "".join(t for _, t in good)
    s = Suite(rep, "defs", d_classify, extra=text, max_states=20000)
    for l, t, k, info in ws:
        if l not in ok:
            continue

        def drv(eng):
            pairwise(eng, s.m, k, l, info, False)
            if eng.undecided and not eng.violations:
                del eng.undecided[:]
                pairwise(eng, s.m, k, l, info, True)
        s.run(l, drv)
    shapes(rep)
    rep.need("entry points", 300)


def operand(T, p):
    w = {"signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned": 32, "long long": 64, "unsigned long long": 64}.get(T)
    if w is None:
        return FltV(T, ("in", p))
    return IntV(w, fresh(p, 0, (1 << w) - 1))


def pairwise(eng, m, k, label, info, split):
    T, macro, exprs, outer, ctx, params = info
    F = m.functions["verif_d%d" % k]
    st = eng.initial()
    args = [operand(T, a) for a in params]
    outs = [eng.region(st, "result", 16, base="zero", kind="caller") for _ in range(2)]
    eng.float_order = True
    starts = [st]
    plain = ctx == "{M}" and outer is None and all(re.fullmatch(r"\w+", e) for e in exprs)
    for a in args:
        if not isinstance(a, IntV) or T.startswith("unsigned"):
            continue
        # signed operands: no overflow in the surrounding expression; by sign when a case split is needed
        half, lim = 1 << (a.w - 1), (1 << (a.w - 1)) if plain or a.w < 32 else 1 << (a.w - 4)
        nxt = []
        for z in starts:
            if plain and not split:
                nxt.append(z)
                continue
            p, n = z.copy(), z
            if p.assume("ge", L(lim - 1) - a.l):
                nxt.append(p)
            if n.assume("ge", a.l - (2 * half - lim)):
                nxt.append(n)
        starts = nxt
    for s0 in starts:
        for s1 in ordered(eng, s0, k, args) if "verif_b%d" % k in m.functions else [s0]:
            for q, _ in eng.call(s1, "verif_d%d" % k, [PtrV(outs[0])] + args):
                for z, _ in eng.call(q, "verif_e%d" % k, [PtrV(outs[1])] + args):
                    compare(eng, z, outs, label, args)


def ordered(eng, st, k, args):
    """Only operands for which the clamp bounds are ordered."""
    res = []
    for q, v in eng.call(st, "verif_b%d" % k, args):
        for z, c in eng.icmp(q, "ne", 32, v, IntV(32, 0)):
            res += [y for y, t in eng.branch(z, c) if t]
    return res


def merged(eng, st, v, args):
    """v with operands the path has found equal replaced by one of them."""
    if not isinstance(v, IntV):
        return v
    syms = [a.l for a in args if isinstance(a, IntV) and len(a.l.t) == 1]
    m = {}
    for i, x in enumerate(syms):
        for y in syms[:i]:
            if st.s.entails_eq(x - y):
                m[x.t[0][0]] = y
                break
    return IntV(v.w, absint.rewrite(eng, st, st.s.norm(v.l), m)) if m else v


def compare(eng, st, outs, label, args):
    a, b = st.mem[outs[0]].content, st.mem[outs[1]].content
    x, y = cell(a), cell(b)
    if x is None or y is None:
        raise Unsupported("result is not a single store")
    if x[0] != y[0]:
        bad(eng, st, "value", "type", "%s: the result has %d bytes, expected %d" % (label, x[0], y[0]))
        return
    if x[1] == y[1]:
        eng.ok("value")
        return
    u, v = x[1], y[1]
    if isinstance(u, CondV) or isinstance(v, CondV):
        raise Unsupported("condition stored")
    if isinstance(u, FltV) and isinstance(v, FltV):
        # equal numbers of different origin (e.g. x and y when x == y)
        if u.k == v.k and same_float(eng, st, u.k, u.t, v.t):
            eng.ok("value")
            return
        for z, t in eng.branch(st, eng.fcmp(st, "oeq", u, v)):
            if t:
                eng.ok("value")
            else:
                bad(eng, z, "value", "value", "%s: wrong result" % label)
        return
    must_equal(eng, st, merged(eng, st, u, args), merged(eng, st, v, args), "value", "value", "%s: wrong result" % label)


def same_float(eng, st, k, t, u):
    if t == u:
        return True
    if not isinstance(t, tuple) or not isinstance(u, tuple):
        return False
    if st.s.entails_eq(eng.float_rank(st, k, t) - eng.float_rank(st, k, u)):
        return True
    if t[0] == u[0] and t[0] in ("fadd", "fsub", "fmul", "fdiv", "fneg") and len(t) == len(u) and t[1] == u[1]:
        return all(same_float(eng, st, k, a, b) for a, b in zip(t[2:], u[2:]))
    return False


def cell(ct):
    if ct.k == "cells" and len(ct.cells) == 1:
        return list(ct.cells.values())[0]
    return None


def shapes(rep):
    """Macros about types and addresses."""
    W = []
    # array sizes
    consts = {}

    def const(label, expr, value, pre=""):
        n = "verif_c%d" % len(consts)
        consts[n] = (label, value)
        W.append((label, "%sconst unsigned long long %s = (unsigned long long)(%s);\n" % (pre, n, expr)))
    W0 = STRUCTS + "int va[7]; char vb[3][11]; VIN vs[4]; VOUT vo; void* vp[9]; double vd[2];\n"
    for e, n in (("va", 7), ("vb", 3), ("vb[1]", 11), ("vs", 4), ("vo.a.s", 5), ("vs[1].s", 5), ("vp", 9), ("vd", 2), ("*vb", 11), ("((VOUT*)0)->b.s", 5),
                 ("\"abcd\"", 5), ("*&va", 7), ("*(vb + 1)", 11)):
        const("SIZEOF_ARRAY(%s)" % e, "SIZEOF_ARRAY(%s)" % e, n)
        const("100 / SIZEOF_ARRAY(%s)" % e, "100 / SIZEOF_ARRAY(%s)" % e, 100 // n)
        const("SIZEOF_ARRAY(%s) * 2 %% 5" % e, "SIZEOF_ARRAY(%s) * 2 %% 5" % e, n * 2 % 5)
    for t, mem in (("VIN", "c"), ("VIN", "x"), ("VIN", "s"), ("VIN", "s[3]"), ("VIN", "in"), ("VIN", "in.t"), ("VOUT", "first"), ("VOUT", "a"), ("VOUT", "b"), ("VOUT", "b.x"),
                   ("VOUT", "d"), ("VOUT", "b.in.t"), ("struct { int i; VIN v; }", "v.in.t")):
        ref = "__builtin_offsetof(%s, %s)" % (t, mem)
        const("OFFSETOF(%s, %s)" % (t, mem), "OFFSETOF(%s, %s) - %s" % (t, mem, ref), 0)
        const("3 * OFFSETOF(%s, %s)" % (t, mem), "3 * OFFSETOF(%s, %s) - 3 * %s" % (t, mem, ref), 0)
    strs = {}

    def string(label, expr, value):
        n = "verif_s%d" % len(strs)
        strs[n] = (label, value)
        W.append((label, "const char %s[] = %s;\n" % (n, expr)))
    string("STRINGIZE(VERIF_MAJOR.VERIF_MINOR)", "STRINGIZE(VERIF_MAJOR.VERIF_MINOR)", "5.3")
    string("STRINGIZE(VERIF_MAJOR)", "STRINGIZE(VERIF_MAJOR)", "5")
    string("STRINGIZE(VERIF_NEST)", "STRINGIZE(VERIF_NEST)", "5")
    string("STRINGIZE(a + b)", "STRINGIZE(a + b)", "a + b")
    string('"x" STRINGIZE(VERIF_MINOR) "y"', '"x" STRINGIZE(VERIF_MINOR) "y"', "x3y")
    string("STRINGIZE(\"q\")", "STRINGIZE(\"q\")", '"q"')
    string("STRINGIZE((1,2))", "STRINGIZE((1,2))", "(1,2)")
    string("STRINGIZE(VERIF_EMPTY)", "STRINGIZE(VERIF_EMPTY)", "")
    string("STRINGIZE(no_such_name)", "STRINGIZE(no_such_name)", "no_such_name")
    conts = {}

    def cont(label, params, expr, member, inner):
        n = "verif_k%d" % len(conts)
        conts[n] = (label, member, inner)
        W.append((label, "const void* %s(%s) { return %s; }\n" % (n, params, expr)))
    cont("CONTAINEROF(p, VOUT, b)", "VIN* p", "CONTAINEROF(p, VOUT, b)", "b", 0)
    cont("CONTAINEROF(p, VOUT, a)", "VIN* p", "CONTAINEROF(p, VOUT, a)", "a", 0)
    cont("CONTAINEROF(p, VOUT, first)", "int* p", "CONTAINEROF(p, VOUT, first)", "first", 0)
    cont("CONTAINEROF(p + 1, VOUT, b)", "VIN* p", "CONTAINEROF(p + 1, VOUT, b)", "b", -1)
    cont("CONTAINEROF(c ? p : q, VOUT, b)", "VIN* p, VIN* q, int c", "CONTAINEROF(c ? p : q, VOUT, b)", "b", 0)
    cont("CONTAINEROF(&p[0], VOUT, b)", "VIN* p", "CONTAINEROF(&p[0], VOUT, b)", "b", 0)
    cont("&CONTAINEROF(p, VOUT, b)->first", "VIN* p", "&CONTAINEROF(p, VOUT, b)->first", "b", 0)
    cont("CONTAINEROF(p, VOUT, b.in)", "void* p", "CONTAINEROF(p, VOUT, b.in)", "b.in", 0)
    cont("CONTAINEROF(p, VOUT, b) + 1 - 1", "VIN* p", "CONTAINEROF(p, VOUT, b) + 1 - 1", "b", 0)
    cont("CONTAINEROF((VIN*) p, VOUT, d)", "double* p", "CONTAINEROF(p, VOUT, d)", "d", 0)
    cont("CONTAINEROF(ptr, VOUT, b)", "VIN* ptr", "CONTAINEROF(ptr, VOUT, b)", "b", 0)
    cont("CONTAINEROF(member, VOUT, b)", "VIN* member", "CONTAINEROF(member, VOUT, b)", "b", 0)
    # nested use
    cont("CONTAINEROF(&CONTAINEROF(p, VIN, in)->c, VOUT, b.c)", "void* p", "CONTAINEROF(&CONTAINEROF(p, VIN, in)->c, VOUT, b.c)", "b.in", 0)
    good = compiles(rep, "defs", W, W0)
    ok = {l for l, _ in good}
    extra = W0 + "".join(t for _, t in good)
    m = modules.module("defs", extra=extra)
    from engine import llvmir
    for n, (label, value) in consts.items():
        if label not in ok:
            continue
        g = m.globals.get(n)
        v = 0
        for off, size, o in llvmir.init_bytes(g.init, g.size):
            if o[0] == "i":
                v = o[2]
        rep.count("constant witnesses")
        if v != value:
            rep.violate("defs:const:" + label, "%s is %d, expected %d" % (label, v, value))
        else:
            rep.ok("defs: " + label)
    for n, (label, value) in strs.items():
        if label not in ok:
            continue
        g = m.globals.get(n)
        bs = [0] * g.size
        for off, size, o in llvmir.init_bytes(g.init, g.size):
            if o[0] == "i":
                for i in range(size):
                    bs[off + i] = (o[2] >> (8 * i)) & 255
        t = bytes(bs)
        rep.count("constant witnesses")
        if t != value.encode() + b"\0":
            rep.violate("defs:string:" + label, "%s gives %r, expected %r" % (label, t, value))
        else:
            rep.ok("defs: " + label)
    off = offsets("defs", dict([("m%d" % i, "__builtin_offsetof(VOUT, %s)" % c[1]) for i, c in enumerate(conts.values())] +
                               [("size", "sizeof(VOUT)"), ("in", "sizeof(VIN)")]), extra=W0)
    s = Suite(rep, "defs", d_classify, extra=extra)
    for i, (n, (label, member, inner)) in enumerate(conts.items()):
        if label not in ok:
            continue

        def drv(eng):
            st = eng.initial()
            r = eng.region(st, "container", off["size"], base="atoms", kind="object")
            F = s.m.functions[n]
            at = L(off["m%d" % i] + inner * off["in"])
            args = [PtrV(r, at) if ty.kind == "ptr" else IntV(ty.width, fresh("c", 0, (1 << ty.width) - 1)) for a, ty in zip(F.args, F.argtys)]
            for q, v in eng.call(st, n, args):
                must_equal(eng, q, v, PtrV(r), "value", "container", "%s does not give the containing structure" % label)
        s.run(label, drv)
    # definitions made by the application before the header are kept
    pre = "".join("#define %s 4711\n" % x for x in ("MIN(a,b)", "MAX(a,b)", "MIN3(a,b,c)", "MAX3(a,b,c)", "CLAMP(a,b,c)", "ABS(a)", "SIZEOF_ARRAY(a)", "OFFSETOF(a,b)",
                                                    "CONTAINEROF(a,b,c)", "STRINGIZE(a)"))
    uses = ("MIN(1,2)", "MAX(1,2)", "MIN3(1,2,3)", "MAX3(1,2,3)", "CLAMP(1,2,3)", "ABS(1)", "SIZEOF_ARRAY(x)", "OFFSETOF(x,y)", "CONTAINEROF(x,y,z)", "STRINGIZE(x)")
    t = pre + '#include "misc/defs.h"\n' + "".join("const unsigned long long verif_o%d = %s;\n" % (i, u) for i, u in enumerate(uses))
    try:
        mm = build.compile_ir("defs-own", text=t)
    except build.BuildError as e:
        rep.violate("defs:own", "definitions made before including the header are not kept: %s" % str(e)[-300:])
        return
    for i, u in enumerate(uses):
        g = mm.globals["verif_o%d" % i]
        v = [o[2] for off_, size, o in llvmir.init_bytes(g.init, g.size) if o[0] == "i"]
        if v == [4711]:
            rep.ok("defs: own definition of %s kept" % u.split("(")[0])
        else:
            rep.violate("defs:own:" + u, "an application's own definition of %s is replaced" % u.split("(")[0])
