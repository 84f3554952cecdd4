"""Numeric abstract domain: conjunctions of linear integer facts over symbols, with value sets for
small-domain symbols. Entailment by Fourier-Motzkin elimination with integer tightening (no external solver)."""
import time
from math import gcd


class Sym:
    __slots__ = ("id", "name", "lo", "hi", "defn", "impr", "values", "base")

    def __repr__(self):
        return self.name


SYMS = []
DEFS = {}
TABLES = {}      # table id -> list of ints


DEADLINE = [None]


def reset():
    _sweeps.clear()
    _has_ite.clear()
    del SYMS[:]
    DEFS.clear()
    TABLES.clear()


def fresh(name, lo, hi, defn=None, impr=False, values=None):
    s = Sym()
    s.id = len(SYMS)
    s.name = name
    s.lo = lo
    s.hi = hi
    s.defn = defn
    s.impr = impr
    s.values = values
    s.base = None
    SYMS.append(s)
    return Lin(0, ((s.id, 1),))


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return self.__class__ is o.__class__ and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def isc(self):
        return not self.t

    def add(self, o, k=1):
        """self + k*o"""
        if isinstance(o, int):
            return Lin(self.c + k * o, self.t)
        if not o.t:
            return Lin(self.c + k * o.c, self.t)
        if not self.t:
            if k == 1:
                return Lin(self.c + o.c, o.t)
            return Lin(self.c + k * o.c, tuple((s, k * a) for s, a in o.t))
        d = dict(self.t)
        for s, a in o.t:
            v = d.get(s, 0) + k * a
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return Lin(self.c + k * o.c, tuple(sorted(d.items())))

    def __add__(self, o):
        return self.add(o)

    __radd__ = __add__

    def __sub__(self, o):
        return self.add(o, -1)

    def __rsub__(self, o):
        return self.scale(-1).add(o)

    def __neg__(self):
        return self.scale(-1)

    def scale(self, k):
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((s, a * k) for s, a in self.t))

    def __mul__(self, k):
        return self.scale(k)

    __rmul__ = __mul__

    def syms(self):
        return [s for s, a in self.t]

    def sub(self, m):
        """substitute {sym id: Lin}"""
        r = None
        for s, a in self.t:
            if s in m:
                r = True
                break
        if r is None:
            return self
        r = Lin(self.c)
        rest = []
        for s, a in self.t:
            if s in m:
                r = r.add(m[s], a)
            else:
                rest.append((s, a))
        return r.add(Lin(0, tuple(rest)))

    def __repr__(self):
        if not self.t:
            return str(self.c)
        p = []
        for s, a in self.t:
            n = SYMS[s].name
            p.append(n if a == 1 else "-" + n if a == -1 else "%d*%s" % (a, n))
        if self.c:
            p.append(str(self.c))
        return "(" + " + ".join(p) + ")"


ZERO = Lin(0)


def L(x):
    return x if isinstance(x, Lin) else Lin(x)


def tighten(t, c):
    """normalise t.x + c >= 0 by the gcd of its coefficients"""
    g = 0
    for s, a in t:
        g = gcd(g, a)
        if g == 1:
            return t, c
    return tuple((s, a // g) for s, a in t), c // g


# ---------------------------------------------------------------- derived symbols

def derived(key, name, lo, hi, impr=False):
    """Hash-consed symbol defined by key (kind, args...)."""
    s = DEFS.get(key)
    if s is None:
        im = impr or any(isinstance(a, Lin) and lin_impr(a) for a in key)
        s = fresh(name, lo, hi, key, im)
        DEFS[key] = s
    return s


def grng(l):
    """Interval of l in every state."""
    lo = hi = l.c
    for s, a in l.t:
        S = SYMS[s]
        x, y = (S.lo, S.hi) if a > 0 else (S.hi, S.lo)
        lo = None if lo is None or x is None else lo + a * x
        hi = None if hi is None or y is None else hi + a * y
    return lo, hi


def lin_impr(l):
    return any(SYMS[s].impr for s, a in l.t)


def axioms(sid):
    """Defining inequalities of a derived symbol."""
    d = SYMS[sid].defn
    if d is None:
        return ()
    if d[0] == "div":        # floor(e/m)
        e = d[1].add(Lin(0, ((sid, 1),)), -d[2])
        return (e, Lin(d[2] - 1).add(e, -1))
    if d[0] == "min":
        me = Lin(0, ((sid, 1),))
        return (d[1] - me, d[2] - me)
    return ()


_eval_memo = {}


def evaluate(l, env):
    """Value of l under {sym id: int}, expanding derived symbols; None if it depends on others."""
    v = l.c
    for s, a in l.t:
        x = eval_sym(s, env)
        if x is None:
            return None
        v += a * x
    return v


def eval_sym(s, env):
    if s in env:
        return env[s]
    d = SYMS[s].defn
    if d is None:
        return None
    k = d[0]
    if k == "div":
        e = evaluate(d[1], env)
        return None if e is None else e // d[2]
    if k == "lookup":
        e = evaluate(d[2], env)
        t = TABLES[d[1]]
        if e is None or not 0 <= e < len(t):
            return None
        return t[e]
    if k == "ite":
        c = evaluate(d[1], env)
        return None if c is None else evaluate(d[2] if c == 0 else d[3], env)
    if k in BITOPS:
        a = evaluate(d[2], env)
        b = evaluate(d[3], env)
        if a is None or b is None:
            return None
        return BITOPS[k](a, b, d[1])
    if k == "min":
        a = evaluate(d[1], env)
        b = evaluate(d[2], env)
        return None if a is None or b is None else min(a, b)
    return None


BITOPS = {"and": lambda a, b, w: a & b, "or": lambda a, b, w: a | b, "xor": lambda a, b, w: a ^ b,
          "mul": lambda a, b, w: (a * b) % (1 << w), "shl": lambda a, b, w: (a << b) % (1 << w) if b < w else 0,
          "lshr": lambda a, b, w: a >> b if b < w else 0,
          "udiv": lambda a, b, w: a // b if b else 0, "urem": lambda a, b, w: a % b if b else 0}


def bases(sid):
    """Base symbols a symbol is a function of."""
    S = SYMS[sid]
    if S.base is None:
        d = S.defn
        if d is None or d[0] not in EVALUABLE:
            S.base = frozenset((sid,))
        else:
            r = frozenset()
            for a in d:
                if isinstance(a, Lin):
                    r |= lin_bases(a)
            S.base = r
    return S.base


EVALUABLE = {"div", "lookup", "min", "ite"} | set(BITOPS)


def all_syms(l):
    """All symbols a term is built from."""
    out = set()

    def go(l):
        for s, a in l.t:
            if s not in out:
                out.add(s)
                d = SYMS[s].defn
                if d is not None:
                    for x in d:
                        if isinstance(x, Lin):
                            go(x)
    go(l)
    return out


def lin_bases(l):
    r = frozenset()
    for s, a in l.t:
        r |= bases(s)
    return r


_has_ite = {}


def find_ite(l):
    """An innermost 'ite' symbol a term depends on, or None."""
    for s, a in l.t:
        d = SYMS[s].defn
        if d is None:
            continue
        r = _has_ite.get(s)
        if r is None:
            r = False
            for x in d:
                if isinstance(x, Lin):
                    y = find_ite(x)
                    if y is not None:
                        r = y
                        break
            if r is False and d[0] == "ite":
                r = s
            _has_ite[s] = r
        if r is not False:
            return r
    return None


SMALL = 256
_sweeps = {}


def sweep(bs, l, op, cons):
    """Function searching all combinations of base values for one that satisfies cons but not `l op 0`."""
    key = (tuple(bs), l, op, cons)
    f = _sweeps.get(key)
    if f is not None:
        return f
    pos = {s: i for i, s in enumerate(bs)}
    lines = [[] for b in bs] + [[]]
    names = {}

    def term(l):
        """-> (expression, depth)"""
        d = 0
        parts = [str(l.c)] if l.c or not l.t else []
        for s, a in l.t:
            e, n = sym(s)
            d = max(d, n)
            parts.append(e if a == 1 else "%d*%s" % (a, e))
        return "(" + "+".join(parts) + ")", d

    def sym(s):
        if s in names:
            return names[s]
        if s in pos:
            names[s] = ("b%d" % pos[s], pos[s] + 1)
            return names[s]
        d = SYMS[s].defn
        args = [term(x) for x in d if isinstance(x, Lin)]
        n = max([x[1] for x in args] + [0])
        A = [x[0] for x in args]
        k = d[0]
        if k == "div":
            e = "%s//%d" % (A[0], d[2])
        elif k == "lookup":
            tb = "T%d" % len(tabs)
            tabs[tb] = TABLES[d[1]]
            e = "%s[%s] if 0<=%s<%d else 0" % (tb, A[0], A[0], len(TABLES[d[1]]))
        elif k == "min":
            e = "min(%s,%s)" % (A[0], A[1])
        elif k == "ite":
            e = "%s if %s==0 else %s" % (A[1], A[0], A[2])
        else:
            w = d[1]
            m = (1 << w) - 1
            e = {"and": "%s&%s", "or": "%s|%s", "xor": "%s^%s", "mul": "(%s*%s)&%d" % ("%s", "%s", m)}.get(k)
            if e is None:
                e = "_op(%r,%%s,%%s,%d)" % (k, w)
            e = e % (A[0], A[1])
        v = "v%d" % s
        lines[n].append("%s=%s" % (v, e))
        names[s] = (v, n)
        return names[s]
    tabs = {"_op": lambda k, a, b, w: BITOPS[k](a, b, w)}
    x, n = term(l)
    cs = []
    for o, c in cons:
        e, m = term(c)
        cs.append("%s%s0" % (e, {"ge": ">=", "eq": "==", "ne": "!="}[o]))
    out = ["def f(%s):" % ",".join("d%d" % i for i in range(len(bs)))]
    ind = " "
    for y in lines[0]:
        out.append(ind + y)
    for i in range(len(bs)):
        out.append(ind + "for b%d in d%d:" % (i, i))
        ind += " "
        for y in lines[i + 1]:
            out.append(ind + y)
    test = "not %s%s0" % (x, {"eq": "==", "ge": ">=", "ne": "!="}[op])
    out.append(ind + "if %s:" % " and ".join([test] + cs))
    out.append(ind + " return (%s,)" % ",".join("b%d" % i for i in range(len(bs))))
    env = dict(tabs)
    exec("\n".join(out), env)
    f = env["f"]
    if len(_sweeps) > 20000:
        _sweeps.clear()
    _sweeps[key] = f
    return f


class Infeasible(Exception):
    pass


class Store:
    """Immutable conjunction of facts. add_* return a new store, or None when the result is infeasible."""
    __slots__ = ("subst", "ge", "ne", "bd", "vs", "cache", "hold")

    def __init__(self):
        self.subst = {}
        self.ge = {}      # term tuple -> constant (t.x + c >= 0)
        self.ne = ()
        self.bd = {}
        self.vs = {}
        self.cache = {}

    def copy(self):
        s = Store.__new__(Store)
        s.subst = dict(self.subst)
        s.ge = dict(self.ge)
        s.ne = self.ne
        s.bd = dict(self.bd)
        s.vs = dict(self.vs)
        s.cache = {}
        return s

    # ------------------------------------------------------------ basics
    def norm(self, l):
        if not l.t or not self.subst:
            return l
        return l.sub(self.subst)

    def bounds(self, sid):
        b = self.bd.get(sid)
        if b is not None:
            return b
        S = SYMS[sid]
        return (S.lo, S.hi)

    def rng(self, l):
        """Interval of l."""
        l = self.norm(l)
        lo = hi = l.c
        for s, a in l.t:
            x, y = self.bounds(s)
            if a > 0:
                lo = None if lo is None or x is None else lo + a * x
                hi = None if hi is None or y is None else hi + a * y
            else:
                lo = None if lo is None or y is None else lo + a * y
                hi = None if hi is None or x is None else hi + a * x
        return lo, hi

    def derive(self, key, name, glo, ghi, lo=None, hi=None):
        """Hash-consed symbol: glo..ghi holds in every state (the symbol is shared), lo..hi in this one."""
        v = derived(key, name, glo, ghi)
        sid = v.t[0][0]
        if sid in self.subst:
            return v
        a, b = self.bounds(sid)
        x = a if lo is None or (a is not None and a >= lo) else lo
        y = b if hi is None or (b is not None and b <= hi) else hi
        if (x, y) != (a, b):
            self.bd[sid] = (x, y)
        return v

    # ------------------------------------------------------------ adding facts
    def add_ge(self, l):
        """l >= 0"""
        l = self.norm(l)
        if not l.t:
            return self if l.c >= 0 else None
        lo, hi = self.rng(l)
        if lo is not None and lo >= 0:
            return self
        if hi is not None and hi < 0:
            return None
        n = self.copy()
        try:
            n._ge(l)
            n._unary(l, "ge")
        except Infeasible:
            return None
        if n.infeasible([l]):
            return None
        return n

    def add_eq(self, l):
        l = self.norm(l)
        if not l.t:
            return self if l.c == 0 else None
        lo, hi = self.rng(l)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return None
        n = self.copy()
        try:
            n._unary(l, "eq")
            n._eq(l)
        except Infeasible:
            return None
        if n.infeasible([], focus=l.syms()):
            return None
        return n

    def add_ne(self, l):
        l = self.norm(l)
        if not l.t:
            return self if l.c != 0 else None
        lo, hi = self.rng(l)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return self
        if lo == 0:
            return self.add_ge(l - 1)
        if hi == 0:
            return self.add_ge((-l) - 1)
        if self.entails_ge(l):
            return self.add_ge(l - 1)
        if self.entails_ge(-l):
            return self.add_ge((-l) - 1)
        n = self.copy()
        try:
            n._unary(l, "ne")
        except Infeasible:
            return None
        if l not in n.ne and (-l) not in n.ne:
            n.ne = n.ne + (l,)
        return n

    def _ge(self, l):
        if not l.t:
            if l.c < 0:
                raise Infeasible
            return
        t, c = tighten(l.t, l.c)
        if len(t) == 1:
            s, a = t[0]
            lo, hi = self.bounds(s)
            if a > 0:
                v = -(c // a)
                # a*x + c >= 0 -> x >= ceil(-c/a)
                v = -((c) // a)
                if lo is None or v > lo:
                    self.bd[s] = (v, hi)
            else:
                v = c // (-a)
                if hi is None or v < hi:
                    self.bd[s] = (lo, v)
            lo, hi = self.bounds(s)
            if lo is not None and hi is not None:
                if lo > hi:
                    raise Infeasible
                if lo == hi and s not in self.subst:
                    self._eq(Lin(-lo, ((s, 1),)))
            return
        nt = tuple((s, -a) for s, a in t)
        old = self.ge.get(t)
        if old is None or c < old:
            self.ge[t] = c
        o = self.ge.get(nt)
        if o is not None:
            cc = self.ge[t]
            if cc + o < 0:
                raise Infeasible
            if cc + o == 0:
                del self.ge[t]
                del self.ge[nt]
                self._eq(Lin(cc, t))

    def _eq(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c != 0:
                raise Infeasible
            return
        g = 0
        for s, a in l.t:
            g = gcd(g, a)
        if l.c % g:
            raise Infeasible
        if g > 1:
            l = Lin(l.c // g, tuple((s, a // g) for s, a in l.t))
        # pick a unit-coefficient symbol; prefer derived ones and later ones
        best = None
        for s, a in l.t:
            if a in (1, -1):
                k = (SYMS[s].defn is not None and SYMS[s].defn[0] == "div", s)
                k = (0 if SYMS[s].defn is not None and SYMS[s].defn[0] == "div" else 1, s)
                if best is None or k > best[0]:
                    best = (k, s, a)
        if best is None:
            t = l.t
            self.ge[t] = min(self.ge.get(t, l.c), l.c)
            nt = tuple((s, -a) for s, a in t)
            self.ge[nt] = min(self.ge.get(nt, -l.c), -l.c)
            return
        k, s, a = best
        rest = Lin(l.c, tuple((x, y) for x, y in l.t if x != s))
        r = rest.scale(-1) if a == 1 else rest
        lo, hi = self.bounds(s)
        m = {s: r}
        for x in self.subst:
            v = self.subst[x]
            for y, z in v.t:
                if y == s:
                    self.subst[x] = v.sub(m)
                    break
        self.subst[s] = r
        # the bounds of s become facts about r
        todo = []
        if lo is not None:
            todo.append(r - lo)
        if hi is not None:
            todo.append(Lin(hi) - r)
        self.bd.pop(s, None)
        for t in list(self.ge):
            for x, y in t:
                if x == s:
                    c = self.ge.pop(t)
                    todo.append(Lin(c, t).sub(m))
                    break
        if self.ne:
            ne = []
            for q in self.ne:
                q2 = q.sub(m)
                if not q2.t:
                    if q2.c == 0:
                        raise Infeasible
                    continue
                ne.append(q2)
            self.ne = tuple(ne)
        vs = self.vs.pop(s, None)
        if vs is None and SYMS[s].values is not None:
            vs = frozenset(SYMS[s].values)
        for q in todo:
            self._ge(self.norm(q))
        if vs is not None:
            rr = self.norm(r)
            if not rr.t:
                if rr.c not in vs:
                    raise Infeasible
            elif len(rr.t) == 1:
                s2, a2 = rr.t[0]
                self._vs(s2, frozenset((v - rr.c) // a2 for v in vs if (v - rr.c) % a2 == 0))

    def _vs(self, s, allowed):
        cur = self.vs.get(s)
        if cur is None:
            lo, hi = self.bounds(s)
            if lo is not None and hi is not None and hi - lo < SMALL:
                cur = frozenset(range(lo, hi + 1))
        new = allowed if cur is None else cur & allowed
        if not new:
            raise Infeasible
        self.vs[s] = new
        lo, hi = min(new), max(new)
        b = self.bounds(s)
        if b[0] is None or lo > b[0] or b[1] is None or hi < b[1]:
            self.bd[s] = (lo, hi)
        if lo == hi:
            self._eq(self.norm(Lin(-lo, ((s, 1),))))

    def _unary(self, l, op):
        """Transfer a fact that is a function of one small-domain base symbol to its value set."""
        bs = lin_bases(l)
        if len(bs) != 1:
            return
        (s,) = bs
        r = self.subst.get(s)
        if r is not None and not r.t:
            return
        dom = self.vs.get(s)
        if dom is None:
            lo, hi = self.bounds(s)
            if lo is None or hi is None or hi - lo >= SMALL:
                return
            dom = range(lo, hi + 1)
        ok = set()
        for v in dom:
            if r is not None and evaluate(r, {s: v}) not in (None, v):
                continue
            x = evaluate(l, {s: v})
            if x is None or (x >= 0 if op == "ge" else x == 0 if op == "eq" else x != 0):
                ok.add(v)
        if not ok:
            raise Infeasible
        self._vs(s, frozenset(ok))

    # ------------------------------------------------------------ queries
    def entails_ge(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c >= 0
        lo, hi = self.rng(l)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        k = ("ge", l)
        r = self.cache.get(k)
        if r is None:
            t = self.ge.get(tighten(l.t, l.c)[0])
            if t is not None and t <= tighten(l.t, l.c)[1]:
                r = True
            else:
                r = self.infeasible([(-l) - 1])
                if not r and any(SYMS[s].defn is not None and SYMS[s].defn[0] in EVALUABLE for s, a in l.t):
                    r = self.enum_decides(l, op="ge")
            self.cache[k] = r
        return r

    def entails_eq(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c == 0
        if self.enum_decides(l):
            return True
        return self.entails_ge(l) and self.entails_ge(-l)

    def entails_ne(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c != 0
        if l in self.ne or (-l) in self.ne:
            return True
        lo, hi = self.rng(l)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return True
        k = ("ne", l)
        r = self.cache.get(k)
        if r is None:
            r = self.add_eq(l) is None
            self.cache[k] = r
        return r

    def enum_decides(self, l, limit=70000, op="eq"):
        """l == 0 (l >= 0) for every combination of its small-domain base symbols?"""
        bs = sorted(lin_bases(l))
        if not bs:
            return False
        if all(SYMS[s].defn is None or s in bs for s, a in l.t) and all(s in bs for s, a in l.t):
            return False
        doms = []
        n = 1
        for s in bs:
            if s in self.subst:
                r = self.subst[s]
                if not r.t:
                    doms.append([r.c])
                    continue
            d = self.vs.get(s)
            if d is None:
                lo, hi = self.bounds(s)
                if lo is None or hi is None or hi - lo >= SMALL:
                    return False
                d = range(lo, hi + 1)
            doms.append(list(d))
            n *= len(doms[-1])
            if n > limit:
                return False
        k = ("enum", op, l)
        r = self.cache.get(k)
        if r is None:
            r = self.counterexample(bs, doms, l, op) is None
            self.cache[k] = r
        return r

    def counterexample(self, bs, doms, l, op):
        """First combination of base values admitted by the store for which `l op 0` fails, or None."""
        f = sweep(bs, l, op, ())
        bad = f(*doms)
        if bad is None:
            return None
        cons = self.over(frozenset(bs))
        if not cons:
            return bad
        return sweep(bs, l, op, tuple(cons))(*doms)

    def over(self, bs):
        """The facts that are functions of the given base symbols only."""
        out = []
        for s, r in self.subst.items():
            if bases(s) <= bs and lin_bases(r) <= bs:
                out.append(("eq", r - Lin(0, ((s, 1),))))
        for t, c in self.ge.items():
            l = Lin(c, t)
            if lin_bases(l) <= bs:
                out.append(("ge", l))
        for l in self.ne:
            if lin_bases(l) <= bs:
                out.append(("ne", l))
        for s in self.bd:
            if SYMS[s].defn is not None and s not in bs and bases(s) <= bs:
                lo, hi = self.bd[s]
                m = Lin(0, ((s, 1),))
                if lo is not None:
                    out.append(("ge", m - lo))
                if hi is not None:
                    out.append(("ge", Lin(hi) - m))
        return out

    def gather(self, extra, focus=()):
        """Constraints connected to the given symbols."""
        idx = {}
        for t in self.ge:
            for s, a in t:
                idx.setdefault(s, []).append(t)
        cons = {}
        seen = set()
        work = []

        def put(l):
            if not l.t:
                if l.c < 0:
                    raise Infeasible
                return
            t, c = tighten(l.t, l.c)
            o = cons.get(t)
            if o is None or c < o:
                cons[t] = c
            for s, a in t:
                if s not in seen:
                    seen.add(s)
                    work.append(s)
        for l in extra:
            put(self.norm(l))
        for s in focus:
            for x in self.norm(Lin(0, ((s, 1),))).syms():
                if x not in seen:
                    seen.add(x)
                    work.append(x)
        while work:
            s = work.pop()
            for t in idx.get(s, ()):
                put(Lin(self.ge[t], t))
            for ax in axioms(s):
                put(self.norm(ax))
        # axioms of symbols that were substituted away but are defined over symbols seen
        for s in self.subst:
            d = SYMS[s].defn
            if d is not None and d[0] in ("div", "min"):
                ls = [self.norm(ax) for ax in axioms(s)]
                for l in ls:
                    if not l.t and l.c < 0:
                        raise Infeasible
                if any(x in seen for l in ls for x in l.syms()):
                    for l in ls:
                        put(l)
        while work:
            s = work.pop()
            for t in idx.get(s, ()):
                put(Lin(self.ge[t], t))
            for ax in axioms(s):
                put(self.norm(ax))
        for s in seen:
            lo, hi = self.bounds(s)
            if lo is not None:
                cons[((s, 1),)] = min(-lo, cons.get(((s, 1),), -lo))
            if hi is not None:
                cons[((s, -1),)] = min(hi, cons.get(((s, -1),), hi))
        return cons, seen

    def infeasible(self, extra, focus=(), depth=0):
        try:
            cons, seen = self.gather(extra, focus)
        except Infeasible:
            return True
        if fm_infeasible(cons):
            return True
        # disequalities
        if self.ne and depth < 3:
            for q in self.ne:
                if all(s in seen for s, a in q.t):
                    # infeasible if both sides are
                    a = dict(cons)
                    if not put_con(a, q - 1) or fm_infeasible(a):
                        b = dict(cons)
                        if not put_con(b, (-q) - 1) or fm_infeasible(b):
                            return True
                        # q <= -1 is implied: continue with it
                        cons = b
                    else:
                        b = dict(cons)
                        if not put_con(b, (-q) - 1) or fm_infeasible(b):
                            cons = a
        return False

    def model(self, extra=(), want=(), budget=4000):
        """An integer assignment {sym id: value} satisfying all facts and extra, or None."""
        m = self.model1(extra, want, budget)
        if m is not None:
            return m
        # quotients with few values (sign bits, carries) decide which numbers are worth a try
        syms = []
        for l in list(extra) + list(want):
            for s in self.norm(l).syms():
                d = SYMS[s].defn
                lo, hi = self.bounds(s)
                if d is not None and d[0] == "div" and s not in syms and lo is not None and hi is not None and 0 < hi - lo <= 3:
                    syms.append(s)
        for s in syms[:2]:
            lo, hi = self.bounds(s)
            for x in range(lo, hi + 1):
                t = self.add_eq(Lin(-x, ((s, 1),)))
                if t is not None:
                    m = t.model1(extra, want, min(budget, 1000))
                    if m is not None:
                        return m
        return None

    def model1(self, extra, want, budget):
        st = self
        for l in extra:
            st = st.add_ge(l)
            if st is None:
                return None
        for s, r in st.subst.items():
            vals = SYMS[s].values
            if vals is not None and r.t and len(vals) <= 70 and not (len(r.t) == 1 and st.vs.get(r.t[0][0])):
                # a symbol with a list of values was eliminated: try its values
                for x in sorted(vals):
                    t = st.add_eq(r - x)
                    if t is not None:
                        m = t.model1((), want, min(budget, 1000))
                        if m is not None:
                            return m
                return None
        focus = set()
        for t in st.ge:
            focus.update(s for s, a in t)
        for q in st.ne:
            focus.update(q.syms())
        focus.update(st.bd)
        focus.update(st.vs)
        for l in want:
            focus.update(st.norm(l).syms())
        for l in st.subst.values():
            focus.update(l.syms())
        try:
            cons, seen = st.gather([], sorted(focus))
        except Infeasible:
            return None
        order = fm_order(cons)
        if order is None:
            return None
        env = {}
        steps = [0]
        vars_ = [v for v, c in order][::-1]
        conss = {v: c for v, c in order}
        # symbols the definitions of others depend on come first
        first = []
        todo = list(seen) + [s for r in st.subst.values() for s, a in r.t] + [s for s in st.subst if SYMS[s].defn is not None]
        known = set()
        while todo:
            s = todo.pop()
            if s in known:
                continue
            known.add(s)
            for b in bases(s):
                if b == s:
                    continue
                r = st.subst.get(b)
                for x in ([b] if r is None else [y for y, a in r.t]):
                    todo.append(x)
                    if x not in first and bases(x) == {x}:
                        first.append(x)
        first.sort()
        rest = [s for s in sorted(seen | known) if s not in conss and s not in first and s not in st.subst]
        vars_ = first + rest + [v for v in vars_ if v not in first]
        narrow = set()
        for l in want:
            narrow |= {b for b in lin_bases(st.norm(l)) if st.bounds(b)[0] is not None and st.bounds(b)[1] is not None
                       and st.bounds(b)[1] - st.bounds(b)[0] < SMALL}
        if len(narrow) > 2:
            narrow = set()
        if narrow:
            budget *= 10
            vars_ = [v for v in vars_ if v not in narrow] + [v for v in vars_ if v in narrow]
            der = [v for v in vars_ if SYMS[v].defn is not None and bases(v) != {v}]
            vars_ = [v for v in vars_ if v not in der] + der

        def cand(v):
            lo, hi = st.bounds(v)
            for t, c in conss.get(v, ()):
                a = None
                r = c
                for s, k in t:
                    if s == v:
                        a = k
                    elif s not in env:
                        a = None
                        break
                    else:
                        r += k * env[s]
                if a is None:
                    continue
                if a > 0:
                    x = -(r // a)
                    lo = x if lo is None or x > lo else lo
                else:
                    x = r // (-a)
                    hi = x if hi is None or x < hi else hi
            if lo is not None and hi is not None and lo > hi:
                return
            S = SYMS[v]
            if v in narrow and st.vs.get(v) is None:
                yield from range(lo, hi + 1)
                return
            d = S.defn
            if d is not None and d[0] in EVALUABLE:
                x = eval_sym2(v, env, st)
                if x is not None:
                    if (lo is None or x >= lo) and (hi is None or x <= hi):
                        yield x
                    return
            vals = st.vs.get(v)
            if vals is None and S.values is not None:
                vals = S.values
            if vals is not None:
                for x in sorted(vals):
                    if (lo is None or x >= lo) and (hi is None or x <= hi):
                        yield x
                return
            out = []
            if lo is not None:
                out += [lo, lo + 1, lo + 2, lo + 3]
            if hi is not None:
                out += [hi, hi - 1]
            if lo is None and hi is None:
                out = [0, 1, -1]
            elif lo is not None and hi is not None:
                out.append((lo + hi) // 2)
                out += [lo + 7, lo + 15, lo + 16]
            done = set()
            for x in out:
                if x in done or (lo is not None and x < lo) or (hi is not None and x > hi):
                    continue
                done.add(x)
                yield x

        def check():
            for q in st.ne:
                v = q.c
                for s, a in q.t:
                    if s not in env:
                        return True
                    v += a * env[s]
                if v == 0:
                    return False
            for t, c in cons.items():
                v = c
                for s, a in t:
                    v += a * env[s]
                if v < 0:
                    return False
            # value lists of substituted symbols and definitions
            for s, r in st.subst.items():
                v = evaluate(r, env)
                if v is None:
                    continue
                S = SYMS[s]
                if S.values is not None and v not in S.values:
                    return False
            full = dict(env)
            for s, r in st.subst.items():
                v = evaluate(r, env)
                if v is not None:
                    full[s] = v
            for s in list(full):
                d = SYMS[s].defn
                if d is not None and d[0] in EVALUABLE:
                    f2 = dict(full)
                    x = f2.pop(s)
                    y = eval_sym(s, f2)
                    if y != x:
                        return False
            return True

        def rec(i):
            steps[0] += 1
            if steps[0] & 255 == 0 and DEADLINE[0] and time.time() > DEADLINE[0]:
                steps[0] = budget
            if steps[0] > budget:
                return False
            if i == len(vars_):
                return check()
            v = vars_[i]
            for x in cand(v):
                env[v] = x
                if rec(i + 1):
                    return True
                if steps[0] > budget:
                    break
            env.pop(v, None)
            return False
        if not rec(0):
            return None
        for s, r in st.subst.items():
            v = evaluate(r, env)
            if v is not None:
                env[s] = v
        return env


def eval_sym2(s, env, st):
    e = dict(env)
    for x, r in st.subst.items():
        if x not in e:
            ok = all(y in env for y, a in r.t)
            if ok:
                e[x] = r.c + sum(a * env[y] for y, a in r.t)
    e.pop(s, None)
    return eval_sym(s, e)


def put_con(cons, l):
    if not l.t:
        return l.c >= 0
    t, c = tighten(l.t, l.c)
    o = cons.get(t)
    if o is None or c < o:
        cons[t] = c
    return True


FM_LIMIT = 1500
STATS = {"fm": 0, "fm_giveup": 0}


def fm_infeasible(cons):
    STATS["fm"] += 1
    return fm_order(cons, True) is None


def fm_order(cons, only_test=False):
    """Eliminate all variables. None when infeasible, else [(var, constraints on var at elimination)].
    Gives up (feasible) when too large."""
    cons = dict(cons)
    for t, c in cons.items():
        if not t and c < 0:
            return None
    order = []
    # opposite pairs
    for t, c in cons.items():
        o = cons.get(tuple((s, -a) for s, a in t))
        if o is not None and c + o < 0:
            return None
    while cons:
        pos = {}
        neg = {}
        for t in cons:
            for s, a in t:
                if a > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        best = None
        for s in set(pos) | set(neg):
            p, n = pos.get(s, 0), neg.get(s, 0)
            k = p * n - p - n
            if best is None or k < best[0]:
                best = (k, s)
        if best is None:
            break
        v = best[1]
        P = []
        N = []
        rest = {}
        for t, c in cons.items():
            a = 0
            for s, k in t:
                if s == v:
                    a = k
                    break
            if a > 0:
                P.append((a, t, c))
            elif a < 0:
                N.append((-a, t, c))
            else:
                rest[t] = c
        order.append((v, [(t, c) for a, t, c in P] + [(t, c) for a, t, c in N]))
        for a, t1, c1 in P:
            for b, t2, c2 in N:
                g = gcd(a, b)
                x, y = b // g, a // g
                d = {}
                for s, k in t1:
                    if s != v:
                        d[s] = x * k
                for s, k in t2:
                    if s != v:
                        z = d.get(s, 0) + y * k
                        if z:
                            d[s] = z
                        else:
                            d.pop(s, None)
                c = x * c1 + y * c2
                if not d:
                    if c < 0:
                        return None
                    continue
                t, c = tighten(tuple(sorted(d.items())), c)
                o = rest.get(t)
                if o is None or c < o:
                    rest[t] = c
                    o = rest.get(tuple((s, -k) for s, k in t))
                    if o is not None and c + o < 0:
                        return None
        cons = rest
        if len(cons) > FM_LIMIT:
            STATS["fm_giveup"] += 1
            return order
    return order
