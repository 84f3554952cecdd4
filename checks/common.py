"""Glue between the abstract interpreter and the per-property reports."""
import os
import time
import traceback
from engine import modules, lin, absint
from engine.absint import Engine, IntV, PtrV, FnV, NULL, Undef, Unsupported, CondV, FltV, has_event
from engine.lin import Lin, L, ZERO, SYMS, fresh
from engine.report import AnalysisBroken

U64 = (1 << 64) - 1
PMAX = (1 << 63) - 1


def offsets(modname, exprs, extra=""):
    """{name: constant} evaluated by the compiler in the module's translation unit."""
    text = extra
    for n, e in exprs.items():
        text += "const unsigned long long verif_k_%s = (unsigned long long)(%s);\n" % (n, e)
    m = modules.module(modname, extra=text)
    out = {}
    for n in exprs:
        g = m.globals.get("verif_k_" + n)
        if g is None or g.init is None:
            raise AnalysisBroken("constant %s not found" % n)
        from engine import llvmir
        v = 0
        for off, size, o in llvmir.init_bytes(g.init, g.size):
            if o[0] == "i":
                v = o[2]
        out[n] = v
    return out


class Suite:
    """Runs drivers over entry functions and files what the engine finds under the report's property."""

    def __init__(self, rep, modname, classify, models=None, extra="", max_states=6000, passes="function(sroa)", apart=False):
        self.apart = apart       # every entry point in a process of its own
        self.rep = rep
        self.m = modules.module(modname, extra=extra, passes=passes)
        self.name = modname
        self.classify = classify
        if rep.arith:
            self.classify = lambda v, label: {rep.prop} if v.cls in ("ovf", "fpconv") or "div0:" in v.key else set()
        if rep.term:
            self.classify = lambda v, label: {rep.prop} if v.cls in ("term", "term step") else set()
        self.models = models or {}
        self.max_states = max_states

    def has(self, fn):
        F = self.m.functions.get(fn)
        return F is not None and not F.decl

    def run(self, label, driver, **kw):
        """driver(eng) performs the set-up, the call and the checks of the results."""
        if self.apart:
            self.rep.submit("%s:%s" % (self.name, label), lambda: self.one(label, driver, **kw))
        else:
            self.one(label, driver, **kw)

    def one(self, label, driver, **kw):
        lin.reset()
        eng = Engine(self.m, dict(self.models), max_states=self.max_states)
        eng.label = label
        if self.rep.arith:
            eng.check_nsw = True
        eng.check_term = self.rep.term
        rep = self.rep
        try:
            driver(eng, **kw)
        except Unsupported as e:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            rep.undecide("%s:%s:scope" % (self.name, label), "not analysable: %s" % e)
        except AnalysisBroken:
            if not any(rep.prop in self.classify(v, label) for v in eng.violations):
                raise
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            rep.undecide("%s:%s:scope" % (self.name, label), "not analysable: internal limit (%s: %s)" % (type(e).__name__, e))
        for v in eng.violations:
            if rep.prop in self.classify(v, label):
                rep.violate("%s:%s:%s" % (self.name, label, v.key), v.text)
        for v in eng.undecided:
            if v.cls == "engine" or rep.prop in self.classify(v, label):
                rep.undecide("%s:%s:%s" % (self.name, label, v.key), v.text)
        n = 0
        for cls, k in eng.proved.items():
            v = absint.Violation(cls, "", "")
            if rep.prop in self.classify(v, label):
                n += k
                rep.count("obligations of kind %s" % cls, k)
        if n:
            rep.ok("%s: %s, %d paths, %d obligations" % (self.name, label, eng.paths, n), n)
        rep.count("entry points")
        rep.count("abstract paths", eng.paths)
        rep.functions.update("%s:%s" % (self.name, f) for f in eng.functions)
        return eng


def u64(name, lo=0, hi=U64):
    return fresh(name, lo, hi)


def rd(eng, st, rid, off, ty="int", size=8):
    """Read a constant-offset field that must have one value. -> value"""
    class T:
        pass
    t = T()
    t.kind = ty
    t.width = 8 * size
    t.size = size
    r = eng.read(st, rid, st.mem[rid].content, L(off), size, t)
    if len(r) != 1:
        raise Unsupported("field read forks")
    v = eng.coerce(r[0][0], r[0][1], t)
    if isinstance(v, IntV) and ty == "ptr":
        v = eng.int_to_ptr(st, st.s.norm(v.l))
    return v


def must(eng, st, op, l, cls, key, text):
    """Post-condition; True when it holds."""
    s = st.copy()
    n = len(eng.violations) + len(eng.undecided)
    eng.require(s, op, L(l), cls, key, text)
    return len(eng.violations) + len(eng.undecided) == n


def bad(eng, st, cls, key, text, lins=(), extra=(), hard=True):
    eng.fail(st, cls, key, text, lins, extra, hard)


def same_value(eng, st, a, b):
    if a == b:
        return True
    if isinstance(a, IntV) and isinstance(b, IntV):
        return st.s.entails_eq(a.l - b.l)
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        return a.r == b.r and st.s.entails_eq(a.o - b.o)
    return False


def must_equal(eng, st, a, b, cls, key, text):
    """a == b for integer or pointer values."""
    if same_value(eng, st, a, b):
        eng.ok(cls)
        return True
    if isinstance(a, IntV) and isinstance(b, IntV):
        return must(eng, st, "eq", a.l - b.l, cls, key, "%s (found %r, expected %r)" % (text, st.s.norm(a.l), st.s.norm(b.l)))
    bad(eng, st, cls, key, "%s (found %r, expected %r)" % (text, a, b),
        hard=not isinstance(a, absint.ByteOf) and not isinstance(b, absint.ByteOf))
    return False


def same_bytes(eng, st, a, b, n, cls, key, text):
    """For every index i < n: byte i of a equals byte i of b. a, b: (rid, content, offset Lin)."""
    s = st.copy()
    i = fresh("i", 0, None)
    if not s.assume("ge", L(n) - i - 1):
        eng.ok(cls)
        return
    for s1, v in eng.read(s, a[0], a[1], s.s.norm(L(a[2]) + i), 1):
        for s2, w in eng.read(s1, b[0], b[1], s1.s.norm(L(b[2]) + i), 1):
            if isinstance(v, Undef) and isinstance(w, Undef):
                eng.ok(cls)
                continue
            if isinstance(v, Undef):
                bad(eng, s2, cls, key, "%s: byte at index i is uninitialized" % text, [i])
                continue
            must_equal(eng, s2, v, w, cls, key, "%s: byte at index i differs" % text)


def live_heap(st):
    return [r for r in st.mem.values() if r.kind == "heap" and r.alive]


def no_leak(eng, st, keep, key="leak", cls="leak"):
    """Every live heap block must be among the given region ids."""
    good = True
    for r in live_heap(st):
        if r.id not in keep and not (r.tag and r.tag[0] == "app"):
            bad(eng, st, cls, key + ":" + r.name.split(" ")[0], "%s is still allocated but no longer reachable from its owner" % r.name)
            good = False
    if good:
        eng.ok(cls)
    return good


def ret_int(st, v):
    """Signed Lin of an int result."""
    if isinstance(v, IntV):
        return v.l
    return None


def at_iteration(eng, st, j, strides=(1,)):
    """States in which, for every summarised loop on the path, the conditions of iteration j (j div stride) hold."""
    work = [st]
    for rec, k in st.loops:
        for m in strides:
            nxt = []
            for s in work:
                jj = s.s.norm(eng.div(s, s.s.norm(L(j)), m))
                if not (s.s.entails_ge(L(k) - jj - 1) and s.s.entails_ge(jj)):
                    nxt.append(s)
                    continue
                for (conds, vals, evs), res in [(x, y) for x in rec.cases for y in range(m)]:
                    c = s.copy()
                    if m > 1 and not c.assume("eq", s.s.norm(L(j)) - jj.scale(m) - res):
                        continue
                    if absint.Inst(eng, c, rec, jj).conds(conds):
                        nxt.append(c)
            work = nxt
    return work


def atoms_of(st, rid):
    """Offsets of the bytes of a region whose initial value the path depends on."""
    return list(st.atoms.get(rid, ()))


def canon(eng, st, l, known, free=()):
    """Rewrite a term: every subterm which is a function of one known byte (and the `free` symbols) and provably
    equals that byte's specification value is replaced by it. known: {byte symbol: specification term}."""
    l = st.s.norm(l)
    m = {}
    free = frozenset(free)

    def go(l):
        for s, a in l.t:
            if s in m:
                continue
            d = SYMS[s].defn
            if d is None or d[0] == "atom":
                continue
            b = lin.bases(s) - free
            if len(b) == 1 and d[0] in ("ite", "lookup") and next(iter(b)) in known:
                D = known[next(iter(b))]
                if D.t == ((s, 1),) and D.c == 0:
                    continue
                if all(z.s.entails_eq(x) for z, x in eng.resolve(st.copy(), Lin(0, ((s, 1),)) - D)):
                    m[s] = D
                    continue
            for x in d:
                if isinstance(x, Lin):
                    go(x)
    go(l)
    return absint.rewrite(eng, st, l, m)


def status(eng, st, v, what, fails):
    """int status -> [(state, failed)]"""
    if isinstance(v, Undef):
        bad(eng, st, "uninit", "ret", "%s returns an uninitialized value" % what)
        return []
    if isinstance(v, PtrV):
        if v.r is None:
            if st.s.entails_eq(v.o):
                return [(st, True)]
            raise Unsupported("null-based result")
        return [(st, False)]
    out = []
    for s, t in eng.branch(st, CondV("ne", v.l)):
        out.append((s, t))
    return out
