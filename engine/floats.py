"""Exact domain for floating-point numbers: a number is a linear term q standing for q * 2^-1074.

Operations whose result is provably representable stay exact; the others give opaque terms. Inputs are partitioned by
the caller into numbers with a fraction (|x| < 2^(p-1)) and integral ones, see inputs()."""
import math
from fractions import Fraction
from . import lin
from .lin import Lin, L, SYMS, fresh
from .absint import FltV, IntV, CondV, Undef, Unsupported, TRUE, FALSE

U = 1 << 1074
PREC = {"float": 24, "double": 53}
EMIN = {"float": -149, "double": -1074}
FMAX = {"float": int((2 - 2.0 ** -23) * 2.0 ** 127), "double": int((2 - 2.0 ** -52) * 2.0 ** 1023)}
INF = 1 << (1074 + 1100)


def inputs(eng, st, kind, name="x"):
    """[(label, state, value)] covering every number of the kind; NaN and infinities are constants."""
    p = PREC[kind]
    out = []
    for sg in (1, -1):
        lab = "" if sg > 0 else "negative "
        s = st.copy()
        # numbers with (possibly) a fraction: 0 <= |x| < 2^(p-1)
        unit = 1 << (1074 + EMIN[kind])
        m = fresh(name, 0 if sg > 0 else 1, (U << (p - 1)) // unit - 1)
        q = m.scale(unit * sg)
        note(eng, q, p)
        out.append((lab + "with a fraction", s, FltV(kind, ("fx", kind, q))))
        s = st.copy()
        m = fresh(name, 1 << (p - 1), FMAX[kind])
        q = m.scale(U * sg)
        note(eng, q, p)
        out.append((lab + "integral", s, FltV(kind, ("fx", kind, q))))
    for lab, c in (("not a number", math.nan), ("infinite", math.inf), ("negative infinite", -math.inf)):
        out.append((lab, st.copy(), FltV(kind, ("fc", c))))
    return out


def note(eng, q, p):
    """q is representable with p bits of precision."""
    if not hasattr(eng, "fknown"):
        eng.fknown = {}
    eng.fknown[q] = p
    eng.fknown[-q] = p


def exact(st, v):
    """Scaled value of v, or None."""
    t = v.t
    if t[0] == "fx":
        return st.s.norm(t[2])
    if t[0] == "fc":
        c = t[1]
        if c != c:
            return None
        if c in (math.inf, -math.inf):
            return Lin(INF if c > 0 else -INF)
        return Lin(int(Fraction(c) * U))
    return None


def isnan(v):
    return v.t[0] == "fc" and v.t[1] != v.t[1]


def finite(v):
    return not (v.t[0] == "fc" and (v.t[1] != v.t[1] or v.t[1] in (math.inf, -math.inf)))


def known(eng, l, p):
    k = getattr(eng, "fknown", {}).get(l)
    return k is not None and k <= p


def representable(eng, st, k, q):
    p = PREC[k]
    q = st.s.norm(q)
    if known(eng, q, p):
        return True
    g = abs(q.c)
    for s, a in q.t:
        g = math.gcd(g, abs(a))
    if g == 0:
        return True
    j = (g & -g).bit_length() - 1
    if j >= 1074 + EMIN[k]:
        if not q.t:
            n = abs(q.c) >> j
            while n and not n & 1:
                n >>= 1
            return n.bit_length() <= p and abs(q.c) <= FMAX[k] * U
        lim = 1 << (p + j)
        if lim <= FMAX[k] * U and st.s.entails_ge(Lin(lim) - q) and st.s.entails_ge(q + lim):
            return True
    # integer part of a representable number
    for s, a in q.t:
        d = SYMS[s].defn
        if d is not None and d[0] == "div" and d[2] >= 1:
            # the quotient is floor(X / U') where the number is X / U'
            x = d[1].scale(U // d[2]) if U % d[2] == 0 else None
            if x is None or not st.s.entails_ge(d[1]):
                continue
            ip = Lin(0, ((s, U),))
            for y in {st.s.norm(x)}:
                if known(eng, y, p):
                    if q in (ip, -ip, y - ip, ip - y):
                        return True
    return False


def sterbenz(st, a, b):
    for x, y in ((a, b), (-a, -b)):
        if st.s.entails_ge(x) and st.s.entails_ge(y) and st.s.entails_ge(x.scale(2) - y) and st.s.entails_ge(y.scale(2) - x):
            return True
    return False


def opaque(op, k, vs):
    return FltV(k, (op, k) + tuple(v.t for v in vs))


def make(eng, st, k, q, op, vs, sure=False):
    q = st.s.norm(q)
    if sure or representable(eng, st, k, q):
        note(eng, q, PREC[k])
        return FltV(k, ("fx", k, q))
    return opaque(op, k, vs)


def arith(eng, st, op, k, vs):
    """[(state, value)]"""
    if any(isnan(v) for v in vs):
        return [(st, FltV(k, ("fc", math.nan)))]
    if not all(finite(v) for v in vs):
        return [(st, opaque(op, k, vs))]
    qs = [exact(st, v) for v in vs]
    if any(q is None for q in qs):
        return [(st, opaque(op, k, vs))]
    if op == "fneg":
        return [(st, make(eng, st, k, -qs[0], op, vs, True))]
    if op == "fabs":
        out = []
        for neg in (0, 1):
            s = st.copy()
            if s.assume("ge", -qs[0] - 1 if neg else qs[0]):
                out.append((s, make(eng, s, k, -qs[0] if neg else qs[0], op, vs, True)))
        return out
    if op in ("fadd", "fsub"):
        a, b = qs
        if op == "fadd":
            b = -b
        sure = sterbenz(st, a, b) or st.s.entails_eq(b) or st.s.entails_eq(a)
        return [(st, make(eng, st, k, a - b, op, vs, sure))]
    if op in ("fmul", "fdiv"):
        a, b = qs
        if op == "fmul" and not a.t:
            a, b = b, a
        if not b.t and b.c:
            r = Fraction(b.c, U)
            r = r if op == "fmul" else 1 / r
            if r.denominator == 1:
                return [(st, make(eng, st, k, a.scale(r.numerator), op, vs))]
            if all(x % r.denominator == 0 for x in [a.c] + [y for _, y in a.t]):
                q = Lin(a.c // r.denominator, tuple((s, y // r.denominator) for s, y in a.t)).scale(r.numerator)
                return [(st, make(eng, st, k, q, op, vs))]
    return [(st, opaque(op, k, vs))]


def integer_part(eng, st, q, how):
    """[(state, integer Lin)]"""
    out = []
    for neg in (0, 1):
        s = st.copy()
        if not s.assume("ge", -q - 1 if neg else q):
            continue
        a = -q if neg else q
        if how == "trunc":
            n = eng.div(s, a, U)
        elif how == "round":
            n = eng.div(s, a.scale(2) + U, 2 * U)
        elif (how == "floor") != bool(neg):
            n = eng.div(s, a, U)
        else:
            n = eng.div(s, a + (U - 1), U)
        out.append((s, s.s.norm(-n if neg else n)))
    return out


def rounding(eng, st, how, k, v):
    if isnan(v) or not finite(v):
        return [(st, v)]
    q = exact(st, v)
    if q is None:
        return [(st, opaque(how, k, [v]))]
    return [(s, make(eng, s, k, n.scale(U), how, [v])) for s, n in integer_part(eng, st, q, how)]


def to_int(eng, st, op, w, v):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == "fptosi" else (0, (1 << w) - 1)
    if isnan(v) or not finite(v):
        eng.fail(st, "fpconv", "range:" + eng.where(st), "conversion of %s to a %d-bit integer is undefined" % ("NaN" if isnan(v) else "an infinity", w))
        return []
    q = exact(st, v)
    if q is None:
        raise Unsupported("conversion of an inexact floating-point number")
    out = []
    for s, n in integer_part(eng, st, q, "trunc"):
        if not eng.require(s, "ge", n - lo, "fpconv", "range:" + eng.where(s), "conversion of a floating-point number outside the range of the integer type"):
            continue
        if not eng.require(s, "ge", Lin(hi) - n, "fpconv", "range:" + eng.where(s), "conversion of a floating-point number outside the range of the integer type"):
            continue
        for op2, l in (("ge", n), ("ge", -n - 1)):
            z = s.copy()
            if z.assume(op2, l):
                out.append((z, IntV(w, eng.wrap(z, w, z.s.norm(n)))))
    return out


def from_int(eng, st, k, l):
    q = st.s.norm(l.scale(U))
    v = FltV(k, ("itofp", k, st.s.norm(l)))
    if representable(eng, st, k, q):
        return FltV(k, ("fx", k, q))
    # the integer part of a number of this kind which is not recognised through its product
    return v


def resize(eng, st, op, k, v):
    if isnan(v) or not finite(v):
        return FltV(k, v.t)
    q = exact(st, v)
    if q is not None and (op == "fpext" or representable(eng, st, k, q)):
        return make(eng, st, k, q, op, [v], True)
    return opaque(op, k, [v])


def compare(eng, st, pred, a, b):
    """pred: olt, ole, oeq, one, ord. -> CondV / constant or None"""
    if isnan(a) or isnan(b):
        return FALSE
    x, y = exact(st, a), exact(st, b)
    if x is None or y is None:
        return None
    if pred == "ord":
        return TRUE
    return eng.cmp(st, {"olt": "slt", "ole": "sle", "oeq": "eq", "one": "ne"}[pred], x - y)


def equal(eng, st, a, b):
    """True, False (provably may differ) or None."""
    if a == b:
        return True
    if isnan(a) and isnan(b):
        return True
    if isnan(a) or isnan(b):
        return False
    x, y = exact(st, a), exact(st, b)
    if x is not None and y is not None:
        return st.s.entails_eq(x - y)
    x, y = concrete(st, a), concrete(st, b)
    if x is not None and y is not None:
        return x == y
    if a.k == b.k and a.t[0] == b.t[0] == "itofp":
        d = a.t[2] - b.t[2]
        if st.s.entails_eq(d):
            return True
        s = st.copy()
        ok = s.assume("ne", d)
        for z in (a.t[2], b.t[2]):
            ok = ok and s.assume("ge", z + (1 << 24)) and s.assume("ge", Lin(1 << 24) - z)
        return False if ok else None
    if a.k == b.k and a.t[0] == b.t[0] and len(a.t) == len(b.t) and a.t[0] in ("fptrunc", "fadd", "fsub", "fmul", "fdiv"):
        # same operation on equal operands
        return True if all(equal(eng, st, FltV(a.k, x), FltV(a.k, y)) for x, y in zip(a.t[2:], b.t[2:])) else None
    return None


def rounded(k, r):
    """Nearest number of the kind to the exact rational r."""
    if r == 0:
        return Fraction(0)
    p, emin = PREC[k], EMIN[k]
    a = abs(r)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    ulp = Fraction(2) ** max(e - p + 1, emin)
    n = a / ulp
    f = n.numerator // n.denominator
    d = n - f
    if d > Fraction(1, 2) or (d == Fraction(1, 2) and f & 1):
        f += 1
    a = f * ulp
    if a > FMAX[k]:
        return math.inf if r > 0 else -math.inf
    return a if r > 0 else -a


def concrete(st, v):
    """Number denoted by a constant term: a Fraction, an infinity, NaN, or None when it is not constant."""
    return conc(st, v.t)


def const(st, l):
    l = st.s.norm(l)
    if not l.t:
        return l.c
    return lin.evaluate(l, {s: r.c for s, r in st.s.subst.items() if not r.t})


def conc(st, t):
    op = t[0]
    if op == "fc":
        c = t[1]
        return c if c != c or c in (math.inf, -math.inf) else Fraction(c)
    if op == "fx":
        q = const(st, t[2])
        return None if q is None else Fraction(q, U)
    if op == "itofp":
        l = const(st, t[2])
        return None if l is None else rounded(t[1], Fraction(l))
    if op in ("fadd", "fsub", "fmul", "fdiv", "fptrunc", "fpext", "fneg", "fabs"):
        vs = [conc(st, x) for x in t[2:]]
        if any(not isinstance(x, Fraction) for x in vs):
            return None
        a = vs[0]
        if op == "fdiv":
            if vs[1] == 0:
                return None
            r = a / vs[1]
        else:
            r = a + vs[1] if op == "fadd" else a - vs[1] if op == "fsub" else a * vs[1] if op == "fmul" else -a if op == "fneg" else abs(a) if op == "fabs" else a
        return rounded(t[1], r)
    return None


def samples(st, lo, hi, step=1):
    """Interesting values of a symbol in lo..hi where `step` values make up the number one."""
    out = []
    for n in [0, 1, 2, 3, 5, 7, 100, 255, 1000] + [x for e in (8, 16, 23, 24, 31, 32, 52, 53, 62, 63, 64) for x in ((1 << e) - 1, 1 << e, (1 << e) + 1, (1 << e) + (1 << max(0, e - 12)) + 1)]:
        out += [n * step, n * step + step // 2, n * step + step // 4, n * step + 1, n * step - 1]
    return [x for x in dict.fromkeys(out + [lo, hi]) if lo <= x <= hi]


def hunt(eng, st, sym, step, check):
    """check(state); what it leaves undecided is retried on sample values of the input symbol (a witness search: whatever is
    reported still has to be refuted by the rules, for that one value)."""
    n = len(eng.undecided)
    check(st)
    if len(eng.undecided) == n or sym is None:
        return
    lo, hi = st.s.bounds(sym)
    m = Lin(0, ((sym, 1),))
    nv = len(eng.violations)
    for c in samples(st, lo, hi, step):
        z = st.copy()
        if not z.assume("eq", m - c):
            continue
        for u in eng.undecided[n:]:
            eng.tries.pop(u.key, None)
        k = len(eng.undecided)
        check(z)
        del eng.undecided[k:]
        if len(eng.violations) > nv:
            del eng.undecided[n:]
            return
