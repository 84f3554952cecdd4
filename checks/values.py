"""Scalar and string values: exact read-back and conversion (C20), compatibility (C21), strings (C22), the new mark (C25)."""
from .common import *
from engine import floats

INTS = {"int32": (32, True, "int32_t"), "uint32": (32, False, "uint32_t"), "int64": (64, True, "int64_t"), "uint64": (64, False, "uint64_t")}
FLTS = {"float": "float", "double": "double"}
NUM = list(INTS) + list(FLTS)
TYPES = ["NULL", "BOOL", "INT32", "UINT32", "INT64", "UINT64", "FLOAT", "DOUBLE", "STRING", "ARRAY", "DICT"]
ENUM = dict((t, i) for i, t in enumerate(TYPES))

REFS = "".join("%s verif_ref_%s_%s(%s x) { return (%s)x; }\n" % (ct, a, b, at, ct)
               for a, at in [(k, v[2]) for k, v in INTS.items()] + list(FLTS.items())
               for b, ct in [(k, v[2]) for k, v in INTS.items()] + list(FLTS.items()))
WIT = REFS + "const unsigned long long verif_sizeof_value = sizeof(VALUE);\n"


def vconst():
    return offsets("value", dict([("value", "sizeof(VALUE)")] + [("t_" + t, "VALUE_" + t) for t in TYPES]))


def classify_scalar(v, label):
    if v.cls in ("fpconv",):
        return {"C21"} if label.startswith("value_is_compatible") else {"C20"}
    if v.cls in ("bounds", "null", "uaf", "uninit", "free"):
        return {"C20", "C21"}
    return {v.cls.split("/")[0]}


def new_value(eng, st, K, name="v"):
    return eng.region(st, name, K["value"], base="undef", kind="object")


def init_value(eng, st, K, kind, rid, x=None):
    """Initialize the value region through the public initializer. -> states where it succeeded"""
    v = PtrV(rid)
    if kind == "null":
        return [s for s, _ in eng.call(st, "value_init_null", [v])]
    if kind == "bool":
        r = eng.call(st, "value_init_bool", [v, x])
    elif kind in NUM:
        r = eng.call(st, "value_init_" + kind, [v, x])
    elif kind == "string":
        data = x if x is not None else eng.region(st, "text", 5, base="atoms", kind="caller")
        r = eng.call(st, "value_init_string_", [v, PtrV(data), IntV(64, 5)])
    elif kind == "longstring":
        data = eng.region(st, "text", 40, base="atoms", kind="caller")
        r = eng.call(st, "value_init_string_", [v, PtrV(data), IntV(64, 40)])
    elif kind == "array":
        r = eng.call(st, "value_init_array", [v])
    elif kind == "dict":
        r = eng.call(st, "value_init_dict", [v])
    elif kind == "orderdict":
        r = eng.call(st, "value_init_dict_ex", [v, NULL, IntV(32, 1)])
    else:
        raise AnalysisBroken(kind)
    out = []
    for s, c in r:
        for z, failed in status(eng, s, c, "value_init_" + kind, None):
            if not failed:
                out.append(z)
            elif not has_event(z, "allocfail"):
                bad(eng, z, "C20/init" if kind in NUM + ["bool"] else "C22/init" if "string" in kind else "C23/init", "init",
                    "initializing a %s value fails although nothing went wrong" % kind)
    return out


def operands(eng, st, kind):
    if kind in INTS:
        w = INTS[kind][0]
        return [("", st, IntV(w, fresh("x", 0, (1 << w) - 1)))]
    if kind == "bool":
        return [("", st, IntV(32, fresh("x", 0, (1 << 32) - 1)))]
    if kind in FLTS:
        return floats.inputs(eng, st, kind)
    return [("", st, None)]


def type_kind(t):
    return t.lower()


def c20(rep):
    rep.rule("for every stored type and getter: the initializer and the getter are interpreted on an arbitrary number (floating-point numbers as exact terms, partitioned into "
             "fractional and integral ones, NaN and infinities apart); the result must be the stored number, its C conversion, the nearest integer, or the error value")
    rep.assume("numbers outside the range of the target type are excluded where C leaves the conversion undefined; getters of a null pointer behave as for a null value")
    K = vconst()
    s = Suite(rep, "value", classify_scalar, extra=WIT, passes="function(mem2reg)")

    def both(rid_kind):
        return rid_kind

    kinds = ["null", "bool"] + NUM + ["string", "longstring", "array", "dict", "orderdict", "new", "pointer"]
    getters = ["bool"] + NUM + ["string", "string_length", "array_size", "array_get", "array_get_all", "dict_size", "dict_flags", "dict_get_", "type"]
    for k in kinds:
        for g in getters:
            label = "value_%s of %s" % (g, k)

            def drv(eng):
                eng.float_exact = True
                st0 = eng.initial()
                if k == "pointer":
                    starts = [("", st0, None, NULL)]
                elif k == "new":
                    rid = new_value(eng, st0, K, "array")
                    starts = []
                    for z in init_value(eng, st0, K, "array", rid):
                        for y, p in eng.call(z, "value_array_append", [PtrV(rid)]):
                            if isinstance(p, PtrV) and p.r is not None:
                                starts.append(("", y, None, p))
                else:
                    rid = new_value(eng, st0, K)
                    starts = [(lab, z, x, PtrV(rid)) for lab, s0, x in operands(eng, st0, k) for z in init_value(eng, s0, K, k, rid, x)]
                if not starts:
                    raise AnalysisBroken("no initialized state for " + label)
                for lab, st, x, v in starts:
                    getter(eng, s, st, K, k, g, x, v, lab)
            s.run(label, drv)
    rep.need("entry points", len(kinds) * len(getters))


def getter(eng, s, st, K, k, g, x, v, lab):
    what = "value_%s() of a %s value%s" % (g, k, " (%s)" % lab if lab else "")
    cls = "C20/" + g
    args = [v]
    if g == "array_get":
        args.append(IntV(64, 0))
    if g == "dict_get_":
        args += [PtrV(eng.region(st, "key", 3, base="atoms", kind="caller")), IntV(64, 3)]
    starts = [(st, None)]
    if g in INTS and k in FLTS:
        # only numbers whose conversion is defined and whose nearest integer is in range
        if isinstance(x, FltV) and not floats.finite(x):
            eng.ok(cls)
            return
        w, sg, _ = INTS[g]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        if s.rep.arith:          # the last integer at each end is not separated from its fractions
            lo, hi = lo + 1, hi - 1
        starts = []
        q = floats.exact(st, x)
        for z, n in floats.integer_part(eng, st, q, "round"):
            if not (z.assume("ge", n - lo) and z.assume("ge", L(hi) - n)):
                continue
            for y, t in floats.integer_part(eng, z, q, "trunc"):
                if y.assume("ge", t - lo) and y.assume("ge", L(hi) - t):
                    starts.append((y, n))
    for st1, n in starts:
        for q, r in eng.call(st1, "value_" + g, list(args)):
            sym, step = None, 1
            if isinstance(x, IntV) and x.l.t:
                sym = x.l.t[0][0]
            elif isinstance(x, FltV) and x.t[0] == "fx" and x.t[2].t:
                sym, u = x.t[2].t[0]
                step = max(1, floats.U // abs(u))
            floats.hunt(eng, q, sym, step, lambda z: expect(eng, s, z, K, k, g, x, n, r, what, cls))


def expect(eng, s, st, K, k, g, x, n, r, what, cls):
    if isinstance(r, Undef):
        bad(eng, st, cls, "uninit", "%s returns an uninitialized value" % what)
        return
    if g == "type":
        t = {"longstring": "string", "orderdict": "dict", "new": "null", "pointer": "null"}.get(k, k).upper()
        must_equal(eng, st, r, IntV(32, K["t_" + t]), cls, "type", "%s: wrong type" % what)
        return
    if g == "bool":
        if k != "bool":
            must_equal(eng, st, r, IntV(32, (1 << 32) - 1), cls, "error", "%s: wrong error value" % what)
            return
        for z, t in eng.branch(st, CondV("ne", x.l)):
            must_equal(eng, z, r, IntV(32, 1 if t else 0), cls, "value", "%s: wrong value" % what)
        return
    if g in ("string", "array_get", "array_get_all", "dict_get_"):
        own = {"string": ("string", "longstring"), "array_get_all": ("array",)}.get(g, ())
        if k in own:
            eng.ok(cls)
            return
        must_equal(eng, st, r, NULL, cls, "error", "%s: does not return null" % what)
        return
    if g in ("string_length", "array_size", "dict_size", "dict_flags"):
        want = {("string_length", "string"): 5, ("string_length", "longstring"): 40, ("dict_flags", "orderdict"): 1}.get((g, k), 0)
        must_equal(eng, st, r, IntV(32 if g == "dict_flags" else 64, want), cls, "error", "%s: wrong result" % what)
        return
    # numeric getters
    if k not in NUM:
        if g in INTS:
            must_equal(eng, st, r, IntV(INTS[g][0], (1 << INTS[g][0]) - 1), cls, "error", "%s: wrong error value" % what)
        else:
            flt_equal(eng, st, r, FltV(g, ("fc", -1.0)), cls, "error", "%s: wrong error value" % what)
        return
    if k == g:
        if g in INTS:
            must_equal(eng, st, r, x, cls, "value", "%s: wrong value" % what)
        else:
            flt_equal(eng, st, r, x, cls, "value", "%s: wrong value" % what)
        return
    if g in INTS and k in FLTS:
        w = INTS[g][0]
        must_equal(eng, st, r, IntV(w, eng.wrap(st, w, n)), cls, "round", "%s: not the nearest integer" % what)
        return
    for z, want in eng.call(st, "verif_ref_%s_%s" % (k, g), [x]):
        if g in INTS:
            must_equal(eng, z, r, want, cls, "value", "%s: not the conversion of the stored number" % what)
        else:
            flt_equal(eng, z, r, want, cls, "value", "%s: not the conversion of the stored number" % what)


def flt_equal(eng, st, a, b, cls, key, text):
    if not isinstance(a, FltV) or not isinstance(b, FltV):
        bad(eng, st, cls, key, "%s (found %r, expected %r)" % (text, a, b), hard=False)
        return
    e = floats.equal(eng, st, a, b)
    if e:
        eng.ok(cls)
        return
    x, y = floats.exact(st, a), floats.exact(st, b)
    if x is not None and y is not None:
        must(eng, st, "eq", x - y, cls, key, text)
        return
    bad(eng, st, cls, key, "%s (found %r, expected %r)" % (text, a, b), hard=e is False)


# ------------------------------------------------------------------ C21

RANGE = {"INT32": (-(1 << 31), (1 << 31) - 1), "UINT32": (0, (1 << 32) - 1), "INT64": (-(1 << 63), (1 << 63) - 1), "UINT64": (0, (1 << 64) - 1)}


def c21(rep):
    rep.rule("for every stored type and every target type: the test is interpreted on an arbitrary number; its result must be true exactly when the type is the value's own, or the target "
             "is floating-point and the value numeric, or the number is an integer in the target's range; every floating-point-to-integer conversion on the way must be in range")
    K = vconst()
    s = Suite(rep, "value", classify_scalar, extra=WIT, passes="function(mem2reg)")
    kinds = ["null", "bool"] + NUM + ["string", "longstring", "array", "dict", "orderdict", "new", "pointer"]
    for k in kinds:
        for t in TYPES:
            def drv(eng):
                eng.float_exact = True
                st0 = eng.initial()
                if k == "pointer":
                    starts = [("", st0, None, NULL)]
                elif k == "new":
                    rid = new_value(eng, st0, K, "array")
                    starts = []
                    for z in init_value(eng, st0, K, "array", rid):
                        starts += [("", y, None, p) for y, p in eng.call(z, "value_array_append", [PtrV(rid)]) if isinstance(p, PtrV) and p.r is not None]
                else:
                    rid = new_value(eng, st0, K)
                    starts = [(lab, z, x, PtrV(rid)) for lab, s0, x in operands(eng, st0, k) for z in init_value(eng, s0, K, k, rid, x)]
                for lab, st, x, v in starts:
                    compat(eng, st, K, k, t, x, v, lab)
            s.run("value_is_compatible of %s with %s" % (k, t), drv)
    rep.need("entry points", len(kinds) * len(TYPES))


def compat(eng, st, K, k, t, x, v, lab):
    own = {"longstring": "string", "orderdict": "dict", "new": "null", "pointer": "null"}.get(k, k).upper()
    cases = []       # (state, expected)
    if own == t:
        cases = [(st, True)]
    elif k in NUM and t in ("FLOAT", "DOUBLE"):
        cases = [(st, True)]
    elif k in NUM and t in RANGE:
        lo, hi = RANGE[t]
        if k in INTS:
            w, sg, _ = INTS[k]
            l = eng.signed(st, w, x.l) if sg else x.l
            states = [(st, l, None)]
        elif not floats.finite(x):
            cases = [(st, False)]
            states = []
        else:
            q = floats.exact(st, x)
            states = []
            for z, n in floats.integer_part(eng, st, q, "trunc"):
                states.append((z, n, z.s.norm(q - n.scale(floats.U))))
        for z, l, frac in states:
            ins = z.copy()
            if ins.assume("ge", l - lo) and ins.assume("ge", L(hi) - l):
                if frac is None:
                    cases.append((ins, True))
                else:
                    a = ins.copy()
                    if a.assume("eq", frac):
                        cases.append((a, True))
                    if ins.assume("ne", frac):
                        cases.append((ins, False))
            a = z.copy()
            if a.assume("ge", L(lo) - l - 1):
                cases.append((a, False))
            a = z.copy()
            if a.assume("ge", l - hi - 1):
                cases.append((a, False))
    else:
        cases = [(st, False)]
    for z, want in cases:
        for q, r in eng.call(z, "value_is_compatible", [v, IntV(32, K["t_" + t])]):
            if isinstance(r, Undef):
                bad(eng, q, "C21/value", "uninit", "value_is_compatible() returns an uninitialized value")
                continue
            for y, got in eng.branch(q, CondV("ne", q.s.norm(r.l))):
                if got == want:
                    eng.ok("C21/value")
                else:
                    bad(eng, y, "C21/value", "value", "value_is_compatible() of a %s value%s with %s is %s" % (k, " (%s)" % lab if lab else "", t, "true" if got else "false"))


# ------------------------------------------------------------------ C22

def classify_string(v, label):
    p = set()
    if v.cls in ("uaf", "free", "leak"):
        p.add("C06")
    if v.cls == "noaf" or v.allocfail:
        p.add("C05")
    if v.cls in ("bounds", "null", "uaf", "uninit", "free", "leak"):
        p.add("C22")
    elif v.cls != "noaf":
        p.add(v.cls.split("/")[0])
    return p


def classes():
    """Length classes: number of bytes of the length prefix changes between them."""
    out, lo = [], 0
    while lo <= PMAX:
        hi = min(128 * max(lo, 1) - 1, PMAX - 4096)
        out.append((lo, hi))
        lo = hi + 1
        if hi == PMAX - 4096:
            break
    return out


def c22(rep):
    rep.rule("for every length (classes cut where a length prefix of 7 bits per byte changes size) and arbitrary bytes: the string is stored through the public initializer; then the returned pointer must "
             "designate exactly these bytes followed by zero, the returned length must be the stored one, and finalizing must release the one block")
    rep.assume("string lengths below PTRDIFF_MAX - 4096 (no larger object exists)")
    K = vconst()
    s = Suite(rep, "value", classify_string, passes="function(mem2reg)")
    for lo, hi in classes():
        for how in ("value_init_string_", "value_init_string", "null"):
            if how == "null" and lo > 0:
                continue
            label = "%s of length %d..%d" % (how, lo, hi)

            def drv(eng):
                st = eng.initial()
                n = u64("len", lo, hi)
                rid = new_value(eng, st, K)
                if how == "null":
                    data, args = None, [PtrV(rid), NULL, IntV(64, n)]
                    fns = [("value_init_string_", args, L(0)), ("value_init_string", args[:2], L(0))]
                elif how == "value_init_string_":
                    data = eng.region(st, "text", n, base="atoms", kind="caller")
                    fns = [(how, [PtrV(rid), PtrV(data), IntV(64, n)], n)]
                else:
                    data = eng.region(st, "text", n + 1, base="cstr", data=n, kind="caller")
                    fns = [(how, [PtrV(rid), PtrV(data)], n)]
                for fn, args, want in fns:
                    for z, r in eng.call(st.copy(), fn, list(args)):
                        string_ok(eng, z, K, fn, rid, data, want, r)
            s.run(label, drv)
    rep.need("entry points", 19)


def string_ok(eng, st, K, fn, rid, data, n, r):
    for z, failed in status(eng, st, r, fn, None):
        if failed:
            if not has_event(z, "allocfail"):
                bad(eng, z, "C22/init", "init", "%s() fails although nothing went wrong" % fn)
            no_leak(eng, z, set())
            continue
        v = PtrV(rid)
        for y, l in eng.call(z.copy(), "value_string_length", [v]):
            must_equal(eng, y, l, IntV(64, L(n)), "C22/length", "length", "value_string_length() after %s(): wrong length" % fn)
        for y, p in eng.call(z.copy(), "value_string", [v]):
            if not isinstance(p, PtrV) or p.r is None:
                bad(eng, y, "C22/string", "null", "value_string() after %s() does not return the string" % fn)
                continue
            R = y.mem[p.r]
            for x, b in eng.read(y, p.r, R.content, y.s.norm(p.o + n), 1):
                must_equal(eng, x, b, IntV(8, L(0)), "C22/terminator", "zero", "value_string() after %s(): the string is not terminated" % fn)
            if data is not None:
                same_bytes(eng, y, (p.r, R.content, p.o), (data, y.mem[data].content, L(0)), n, "C22/bytes", "bytes", "value_string() after %s()" % fn)
        for y, _ in eng.call(z, "value_fini", [v]):
            no_leak(eng, y, set())
            for x, t in eng.call(y, "value_type", [v]):
                must_equal(eng, x, t, IntV(32, K["t_NULL"]), "C22/fini", "type", "value_fini() does not leave a null value")
