"""Abstract interpreter over LLVM IR: trace-partitioned states made of a linear-integer store, symbolic
region memory and event list. Loops are summarised by verified affine hypotheses (see Loop handling)."""
import itertools
import time
from . import llvmir, lin, terms
from .lin import Lin, L, Store, fresh, derived, SYMS, ZERO

M64 = 1 << 64


class Unsupported(Exception):
    """The analysed code is outside what the domain can express: verdict undecided."""


class Budget(Unsupported):
    pass


# ------------------------------------------------------------------ values

class IntV:
    __slots__ = ("w", "l")

    def __init__(self, w, l):
        self.w = w
        self.l = l if isinstance(l, Lin) else Lin(l)

    def __repr__(self):
        return "i%d %r" % (self.w, self.l)

    def __eq__(self, o):
        return o.__class__ is IntV and o.w == self.w and o.l == self.l

    def __hash__(self):
        return hash((self.w, self.l))


class PtrV:
    """Address: region id (None: the null address) plus byte offset."""
    __slots__ = ("r", "o")

    def __init__(self, r, o=ZERO):
        self.r = r
        self.o = o if isinstance(o, Lin) else Lin(o)

    def __repr__(self):
        return "&%s%s" % ("NULL" if self.r is None else "R%s" % (self.r,), "" if self.o == ZERO else "+%r" % self.o)

    def __eq__(self, o):
        return o.__class__ is PtrV and o.r == self.r and o.o == self.o

    def __hash__(self):
        return hash((self.r, self.o))


NULL = PtrV(None)


class FnV:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "fn " + self.name

    def __eq__(self, o):
        return o.__class__ is FnV and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class FltV:
    __slots__ = ("k", "t")

    def __init__(self, k, t):
        self.k = k
        self.t = t

    def __repr__(self):
        return "%s %r" % (self.k, self.t)

    def __eq__(self, o):
        return o.__class__ is FltV and o.k == self.k and o.t == self.t

    def __hash__(self):
        return hash((self.k, self.t))


class CondV:
    """i1: op is ge (l>=0), eq (l==0), ne (l!=0), or fc (opaque condition term l, polarity in pol)."""
    __slots__ = ("op", "l", "pol")

    def __init__(self, op, l, pol=True):
        self.op = op
        self.l = l
        self.pol = pol

    def __repr__(self):
        return "(%r %s 0)" % (self.l, {"ge": ">=", "eq": "==", "ne": "!="}.get(self.op, self.op))

    def neg(self):
        if self.op == "ge":
            return CondV("ge", (-self.l) - 1)
        if self.op == "eq":
            return CondV("ne", self.l)
        if self.op == "ne":
            return CondV("eq", self.l)
        return CondV(self.op, self.l, not self.pol)


class Undef:
    __slots__ = ("size", "why")

    def __init__(self, size=0, why=""):
        self.size = size
        self.why = why

    def __repr__(self):
        return "undef"


class PartU(Undef):
    """An integer of which the bits of `um` are undefined (built up piecewise by SROA); the others are those of l."""
    __slots__ = ("w", "l", "um")

    def __init__(self, w, l, um, why=""):
        self.size = (w + 7) // 8
        self.why = why
        self.w = w
        self.l = l
        self.um = um


def part(w, l, um, why=""):
    return PartU(w, l, um, why) if um else IntV(w, l)


class AggV:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class ByteOf:
    """One byte of a non-integer value."""
    __slots__ = ("v", "i")

    def __init__(self, v, i):
        self.v = v
        self.i = i

    def __eq__(self, o):
        return o.__class__ is ByteOf and o.v == self.v and o.i == self.i

    def __hash__(self):
        return hash((self.v, self.i))

    def __repr__(self):
        return "%r[%d]" % (self.v, self.i)


TRUE = IntV(1, 1)
FALSE = IntV(1, 0)


# ------------------------------------------------------------------ memory

class Content:
    """Persistent write log of a region."""
    __slots__ = ("k", "prev", "off", "len", "val", "src", "srcoff", "cells", "srcreg")

    def __init__(self, k, prev=None, **kw):
        self.k = k
        self.prev = prev
        for a, b in kw.items():
            setattr(self, a, b)


class Region:
    __slots__ = ("id", "kind", "name", "size", "content", "alive", "align", "writable", "lazy", "tag", "line")

    def copy(self):
        r = Region.__new__(Region)
        for a in Region.__slots__:
            setattr(r, a, getattr(self, a))
        return r


class Frame:
    __slots__ = ("fn", "env", "block", "idx", "prev", "ret", "depth")

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.env = dict(self.env)
        f.block = self.block
        f.idx = self.idx
        f.prev = self.prev
        f.ret = self.ret
        f.depth = self.depth
        return f


class State:
    __slots__ = ("s", "mem", "frames", "events", "trail", "pcl", "wl", "fc", "loops", "impr", "atoms", "retval", "x", "notes")

    def copy(self):
        n = State.__new__(State)
        n.s = self.s
        n.mem = dict(self.mem)
        n.frames = [f.copy() for f in self.frames]
        n.events = self.events
        n.trail = self.trail
        n.pcl = self.pcl
        n.wl = self.wl
        n.fc = self.fc
        n.loops = self.loops
        n.impr = self.impr
        n.atoms = self.atoms
        n.retval = self.retval
        n.x = self.x
        n.notes = self.notes
        return n

    # facts -----------------------------------------------------------
    def assume(self, op, l):
        """Add a fact in place; False when infeasible."""
        if op == "ge":
            n = self.s.add_ge(l)
        elif op == "eq":
            n = self.s.add_eq(l)
        else:
            n = self.s.add_ne(l)
        if n is None:
            return False
        if n is not self.s:
            self.s = n
            self.pcl = (self.pcl, (op, l))
        return True

    def rlist(self, head, stop=None):
        out = []
        while head is not stop and head is not None:
            out.append(head[1])
            head = head[0]
        out.reverse()
        return out

    def event(self, *e):
        self.events = (self.events, e)

    def all_events(self):
        return self.rlist(self.events)


class LoopRec:
    """Summary of one loop instance: for iterations 0..count-1 one of `cases` happened."""

    def __init__(self):
        self.k = None          # Lin of the iteration symbol
        self.ksym = None
        self.count = None
        self.cases = []        # [(conditions, {slot: value}, events)]
        self.writes = []       # [(rid, off Lin in k, size)]
        self.final = False
        self.fn = None
        self.line = 0
        self.vars = {}
        self.kmin = 0


class Violation:
    def __init__(self, cls, key, text, st=None):
        self.cls = cls
        self.key = key
        self.text = text
        self.allocfail = st is not None and has_event(st, "allocfail")


def has_event(st, kind):
    def scan(evs):
        for e in evs:
            if e[0] == kind:
                return True
            if e[0] == "loop" and any(scan(c[2]) for c in e[1].cases):
                return True
        return False
    return scan(st.all_events())


class Engine:
    def __init__(self, module, models=None, name="", max_states=4000):
        self.m = module
        self.models = models or {}
        self.name = name
        self.next_region = 1
        self.globals = {}
        self.max_states = max_states
        self.nstates = 0
        self.violations = []
        self.undecided = []
        self.proved = {}
        self.functions = set()
        self.root = ""
        self.paths = 0
        self.unroll_forks = 12
        self.tries = {}
        self.lazy_ite = False
        self.loop_hook = None
        self.check_term = False  # C43: every loop comes to an end
        self.probe = 0           # >0: hypothesis runs, obligations are not recorded
        self.cand = None         # collects candidate invariants in hypothesis runs
        self.shape = None
        self.loop_stack = []
        self.atexit = []
        self.noshare = 0         # >0: inside a loop hypothesis, states may be explored again
        self.tree_seen = {}
        self.recursion_ok = set()
        self.quiet_lines = set()

    # -------------------------------------------------------------- set-up
    def initial(self):
        st = State.__new__(State)
        st.s = Store()
        st.mem = {}
        st.frames = []
        st.events = None
        st.trail = None
        st.pcl = None
        st.wl = None
        st.fc = {}
        st.loops = ()
        st.impr = False
        st.atoms = {}
        st.retval = None
        st.x = {}
        st.notes = ()
        return st

    def region(self, st, name, size, base="undef", kind="heap", align=16, writable=True, lazy=None, data=None, tag=None):
        r = Region.__new__(Region)
        r.id = self.next_region
        self.next_region += 1
        r.kind = kind
        r.name = name
        r.size = L(size) if size is not None else None
        r.content = Content("base", val=base, src=data, off=r.id)
        r.alive = True
        r.align = align
        r.writable = writable
        r.lazy = lazy
        r.tag = tag
        r.line = 0
        st.mem[r.id] = r
        return r.id

    def mut(self, st, rid):
        r = st.mem[rid].copy()
        st.mem[rid] = r
        return r

    def global_region(self, st, name):
        rid = self.globals.get(name)
        if rid is None:
            g = self.m.globals[name]
            rid = ("g", name)
            self.globals[name] = rid
        if rid not in st.mem:
            g = self.m.globals[name]
            r = Region.__new__(Region)
            r.id = rid
            r.kind = "global"
            r.name = name
            r.size = Lin(g.size)
            cells = {}
            base = "zero"
            if g.init is None:
                base = "atoms"
            else:
                for off, size, o in llvmir.init_bytes(g.init, g.size):
                    if o[0] == "i":
                        cells[off] = (size, IntV(8 * size, o[2] & ((1 << (8 * size)) - 1)))
                    elif o[0] == "g":
                        cells[off] = (8, ("glob", o[1], o[2]))
                    elif o[0] == "fn":
                        cells[off] = (8, FnV(o[1]))
                    elif o[0] == "null":
                        cells[off] = (8, NULL)
                    elif o[0] == "f":
                        cells[off] = (size, FltV(o[1], ("fc", o[2])))
            r.content = Content("base", val=base, src=None, off=rid)
            if cells:
                r.content = Content("cells", r.content, cells=cells)
            r.alive = True
            r.align = 16
            r.writable = not g.const
            r.lazy = None
            r.tag = None
            r.line = 0
            st.mem[rid] = r
        return rid

    # -------------------------------------------------------------- reporting
    def where(self, st, line=None):
        if st.frames:
            f = st.frames[-1]
            b = f.fn.blocks[f.block]
            I = b.instrs[min(f.idx, len(b.instrs) - 1)]
            import os
            chain = "<-".join(x.fn.name for x in reversed(st.frames))
            return "%s:%s in %s" % (os.path.basename(I.file or f.fn.file or "?"), I.line or line, chain)
        return self.root

    def ok(self, cls, n=1):
        if not self.probe:
            self.proved[cls] = self.proved.get(cls, 0) + n

    def describe(self, st, model, terms=()):
        out = []
        if model:
            for s in sorted(model):
                S = SYMS[s]
                if S.defn is None and not S.name.startswith("#"):
                    out.append("%s=%d" % (S.name, model[s]))
        return ", ".join(out[:24])

    def path(self, st):
        return " -> ".join("%s" % x for x in st.rlist(st.trail)[-14:])

    def fail(self, st, cls, key, text, lins=(), extra=(), hard=True):
        """Obligation failed on this path: refuted when a concrete assignment of the path facts exists and nothing imprecise is involved."""
        if self.probe:
            return
        w = self.where(st)
        key = "%s:%s:%s%s" % (self.root, cls, key, ":af" if has_event(st, "allocfail") else "")
        if any(v.key == key for v in self.violations):
            return
        t = "%s: %s [%s]" % (w, text, self.root)
        why = None
        if st.s.infeasible([], focus=list(st.s.bd)):
            return
        if not hard:
            why = "imprecise"
        if st.impr:
            why = "path depends on an over-approximated value (%s)" % (st.impr,)
        m = None
        if why is None and self.tries.get(key, 0) >= 4:
            why = "no witness found"
        if why is None:
            for facts in (self.scenarios(st) if self.scenarios is not None else [[]]):
                m = st.s.model(list(extra) + facts, want=list(lins))
                if m is not None:
                    break
            if m is None:
                self.tries[key] = self.tries.get(key, 0) + 1
                why = "no witness found"
            else:
                imp = [SYMS[s].name for s in m if SYMS[s].impr]
                rel = set()
                for l in list(lins) + list(extra):
                    rel.update(st.s.norm(l).syms())
                if any(SYMS[s].impr for s in rel):
                    why = "depends on over-approximated %s" % ",".join(imp[:4])
                elif st.loops:
                    m = self.replay(st, extra, lins, m)
                    if m is None:
                        why = "not reproduced when the loop iterations are replayed"
        if why is None:
            self.violations.append(Violation(cls, key, t + "\n    witness: " + self.describe(st, m) + "\n    path: " + self.path(st), st))
        else:
            self.undecided.append(Violation(cls, key, t + " -- " + why, st))

    def incomplete(self, st, key, why):
        """Part of the behaviour was not followed to the end."""
        if not any(v.key == key for v in self.undecided):
            self.undecided.append(Violation("engine", key, why))

    def replay(self, st, extra, want, m):
        """Witness filter for states behind a loop summary: look for a number of iterations whose conditions, instantiated
        one iteration after the other, all hold. -> assignment or None"""
        base = st.copy()
        for l in extra:
            if not base.assume("ge", l):
                return None
        limit = [0, time.time() + 15]

        def loops(z, i):
            if i == len(st.loops):
                return z.s.model(extra, want=list(want))
            rec, k = st.loops[i]
            k = z.s.norm(L(k))
            if not rec.cases:
                return loops(z, i + 1)
            if not k.t:
                ks = [k.c]
            else:
                ks = [0, 1, 2, 3, 4, 5, 8, 9, 16, 17]
            if not k.t and k.c > 64 or k.t and not any(z.s.add_eq(k - K) is not None for K in ks):
                z = large(z, rec, k)
                return loops(z, i + 1) if z is not None else None
            for K in ks:
                y = z.copy()
                if not y.assume("eq", k - K):
                    continue
                acc = {}
                for slot, (v0, cur, nxt) in rec.vars.items():
                    c, i0 = lin_of(cur), lin_of(v0)
                    if c is not None and len(c.t) == 1 and c.t[0][1] == 1 and c.c == 0 and c.t[0][0] != rec.ksym and c.t[0][0] >= rec.local \
                            and i0 is not None and cur.__class__ is v0.__class__ and not rec.kmin:
                        acc[c.t[0][0]] = (i0, [lin_of(x) for x in nxt])
                r = iters(y, i, rec, K, rec.kmin, {s: x[0] for s, x in acc.items()}, acc)
                if r is not None:
                    return r
            return None

        rel = set()
        for l in list(extra) + list(want):
            rel |= lin.all_syms(base.s.norm(l))

        def large(z, rec, k):
            """Many iterations: evaluate the conditions at selected iterations, refine the assignment by those that fail."""
            for rnd in range(8):
                e = z.s.model(extra, want=list(want) + [k])
                if e is None:
                    return None
                K = lin.evaluate(k, e)
                if K is None:
                    return z
                pts = {0, 1, 2, K - 1, K - 2, K // 2}
                for v in list(e.values()) + [1 << n for n in range(4, 64)]:
                    if isinstance(v, int):
                        pts.update((v - 2, v - 1, v, v + 1))
                fails = None
                for j in sorted(pts, reverse=True):
                    if rec.kmin <= j < K:
                        env = dict(e)
                        env[rec.ksym] = j
                        if not any(plausible(conds, env) for conds, vals, evs in rec.cases):
                            fails = j
                            break
                if fails is None:
                    return z
                nxt = None
                for conds, vals, evs in rec.cases:
                    y = z.copy()
                    if y.assume("ge", k - fails - 1) and Inst(self, y, rec, L(fails)).conds(conds):
                        nxt = y
                        break
                if nxt is None:
                    return None
                z = nxt
            return None

        def plausible(conds, env):
            for op, l in conds:
                if op == "fc":
                    continue
                x = lin.evaluate(l, env)
                if x is not None and not (x >= 0 if op == "ge" else x == 0 if op == "eq" else x != 0):
                    return False
            return True

        def iters(z, i, rec, K, j, cur, acc):
            if j >= K:
                if not rec.kmin:
                    for s, v in cur.items():
                        if v is not None and (s in rel or not any(SYMS[t].defn is not None for t in v.syms())) \
                                and not z.assume("eq", Lin(0, ((s, 1),)) - v):
                            return None
                return loops(z, i + 1)
            for n, (conds, vals, evs) in enumerate(rec.cases):
                limit[0] += 1
                if limit[0] > 600 or time.time() > limit[1]:
                    return None
                y = z.copy()
                inst = Inst(self, y, rec, L(j))
                for s, v in cur.items():
                    if v is not None:
                        inst.memo[s] = v
                if not inst.conds(conds):
                    continue
                nx = {}
                for s in cur:
                    x = acc[s][1][n]
                    nx[s] = None if x is None or cur[s] is None else y.s.norm(inst.lin(x))
                r = iters(y, i, rec, K, j + 1, nx, acc)
                if r is not None:
                    return r
            return None

        try:
            return loops(base, 0)
        except (Unsupported, RecursionError):
            return m

    def require(self, st, op, l, cls, key, text):
        """Obligation: fact must hold. Returns False when the path ends (the fact cannot hold)."""
        s = st.s
        if op == "ge":
            good = s.entails_ge(l)
            neg = [(-l) - 1]
        elif op == "eq":
            good = s.entails_eq(l)
            neg = None
        else:
            good = s.entails_ne(l)
            neg = None
        if good:
            self.ok(cls)
            return True
        if self.cand is not None and op == "ge":
            self.cand.append(l)
        if not self.probe:
            if op == "ge":
                self.fail(st, cls, key, text, [l], neg)
            elif op == "eq":
                done = False
                for x in (l - 1, (-l) - 1):
                    if st.s.add_ge(x) is not None and not done:
                        n0 = len(self.violations)
                        self.fail(st, cls, key, text, [l], [x])
                        done = len(self.violations) > n0
            else:
                t = st.copy()
                if t.assume("eq", l):
                    self.fail(t, cls, key, text, [l])
        return st.assume(op, l)

    # -------------------------------------------------------------- integers
    def div(self, st, e, m):
        """floor(e / m) for constant m > 0."""
        if m == 1:
            return e
        s = st.s
        e = s.norm(e)
        if not e.t:
            return Lin(e.c // m)
        A = []
        R = []
        for x, a in e.t:
            q, r = divmod(a, m)
            if r == 0:
                A.append((x, q))
            else:
                # keep the remainder part small: choose symmetric split only when divisible
                R.append((x, a))
        cq, cr = divmod(e.c, m)
        if e.c < 0 and R:
            # a small negative constant: the term as it stands may be in range
            x = Lin(e.c, tuple(R))
            if s.entails_ge(x) and s.entails_ge(Lin(m - 1) - x):
                return Lin(0, tuple(A))
        A = Lin(cq, tuple(A))
        R = Lin(cr, tuple(R))
        if not R.t:
            return A
        lo, hi = s.rng(R)
        if lo is not None and hi is not None and lo // m == hi // m:
            return A + lo // m
        if s.entails_ge(R) and s.entails_ge(Lin(m - 1) - R):
            return A
        # other representatives of the quotient
        if lo is not None and hi is not None and hi // m - lo // m <= 2:
            for q in range(lo // m, hi // m + 1):
                if s.entails_ge(R - q * m) and s.entails_ge(Lin(q * m + m - 1) - R):
                    return A + q
        # floor((g*X + r)/(g*n)) = floor(X/n) for 0 <= r < g
        if len(R.t) > 1 or (R.t and R.c):
            from math import gcd
            big = sorted(R.t, key=lambda x: -abs(x[1]))
            g = m
            best = None
            for i in range(len(big)):
                g = gcd(g, big[i][1])
                if g == 1:
                    break
                cq, cr = divmod(R.c, g)
                small = Lin(cr, tuple(sorted(big[i + 1:])))
                a, b = s.rng(small)
                if a is not None and b is not None and a >= 0 and b < g:
                    best = (g, Lin(cq, tuple(sorted((x, k // g) for x, k in big[:i + 1]))))
                    break
            if best is not None:
                return A + self.div(st, best[1], m // best[0])
        # nested: floor((m*A' + r)/m) handled above; floor(floor(x/a)/b) = floor(x/(ab))
        if len(R.t) == 1 and R.t[0][1] == 1 and R.c == 0:
            d = SYMS[R.t[0][0]].defn
            if d is not None and d[0] == "div" and R.t[0][0] not in st.s.norm(d[1]).syms():
                return A + self.div(st, d[1], d[2] * m)
        glo, ghi = lin.grng(R)
        q = s.derive(("div", R, m), "#div", None if glo is None else glo // m, None if ghi is None else ghi // m,
                     None if lo is None else lo // m, None if hi is None else hi // m)
        return A + q

    def wrap(self, st, w, e):
        """e modulo 2^w."""
        m = 1 << w
        s = st.s
        e = s.norm(e)
        if not e.t:
            return Lin(e.c % m)
        lo, hi = s.rng(e)
        if lo is not None and hi is not None and lo // m == hi // m:
            return e - (lo // m) * m
        wrapped = any(a % m == 0 for x, a in e.t)
        if not wrapped and s.entails_ge(e) and s.entails_ge(Lin(m - 1) - e):
            return e
        # canonical: drop quotient terms of compatible moduli and reduce coefficients
        t = []
        c = e.c % m
        for x, a in e.t:
            d = SYMS[x].defn
            r = a % m
            if r:
                if a < 0 and -a <= m // 2 and r > m // 2:
                    r = a
                elif a > 0 and a < m:
                    r = a
                t.append((x, r))
        e2 = Lin(c if not (e.c < 0 and -e.c < m // 2) else e.c, tuple(t))
        if e2 != e:
            lo, hi = s.rng(e2)
            if lo is not None and hi is not None and lo // m == hi // m:
                return e2 - (lo // m) * m
            if s.entails_ge(e2) and s.entails_ge(Lin(m - 1) - e2):
                return e2
            if wrapped and s.entails_ge(e) and s.entails_ge(Lin(m - 1) - e):
                return e
            e = e2
        if e.c > m // 2 and e.t:
            x = e - m
            if s.entails_ge(x) and s.entails_ge(Lin(m - 1) - x):
                return x
        q = self.div(st, e, m)
        return e - q.scale(m)

    def signed(self, st, w, e):
        h = 1 << (w - 1)
        e = st.s.norm(e)
        if not e.t:
            return Lin(e.c - (1 << w) if e.c >= h else e.c)
        return e - self.div(st, e, h).scale(1 << w)

    def tz(self, l):
        """Number of trailing zero bits guaranteed."""
        n = 0
        x = l.c
        for s, a in l.t:
            x |= a
        if x == 0:
            return 64
        while not (x >> n) & 1:
            n += 1
        return n

    def and_const(self, st, w, e, c):
        c &= (1 << w) - 1
        if c == 0:
            return ZERO
        if c == (1 << w) - 1:
            return e
        runs = []
        i = 0
        while i < w:
            if (c >> i) & 1:
                j = i
                while j < w and (c >> j) & 1:
                    j += 1
                runs.append((i, j))
                i = j
            else:
                i += 1
        if len(runs) > 8:
            return None
        r = ZERO
        for i, j in runs:
            x = self.div(st, e, 1 << i)
            if j < w or True:
                lo, hi = st.s.rng(x)
                if not (lo is not None and hi is not None and 0 <= lo and hi < (1 << (j - i))):
                    x = x - self.div(st, x, 1 << (j - i)).scale(1 << (j - i))
            r = r + x.scale(1 << i)
        return st.s.norm(r)

    def brng(self, s, a, w):
        lo, hi = s.rng(a)
        if hi is None or hi >= 256:
            for n in (8, 16, 32):
                if n < w and (hi is None or hi >= 1 << n) and s.entails_ge(Lin((1 << n) - 1) - a):
                    return lo, (1 << n) - 1
        return lo, hi

    def bitop(self, st, op, w, a, b):
        s = st.s
        a, b = s.norm(a), s.norm(b)
        if not a.t and not b.t:
            return Lin(lin.BITOPS[op](a.c, b.c, w))
        if not a.t:
            a, b = b, a
        if not b.t:
            x = self.and_const(st, w, a, b.c)
            if x is not None:
                if op == "and":
                    return x
                if op == "or":
                    return s.norm(a + b - x)
                if op == "xor":
                    return s.norm(a + b - x.scale(2))
        if a == b:
            return a if op != "xor" else ZERO
        if op in ("or", "xor", "and"):
            for x, y in ((a, b), (b, a)):
                lo, hi = s.rng(y)
                if hi is not None and lo is not None and lo >= 0 and hi < (1 << self.tz(x)):
                    return s.norm(x + y) if op != "and" else ZERO
                k = self.tz(x)
                if k and s.entails_ge(y) and s.entails_ge(Lin((1 << k) - 1) - y):
                    return s.norm(x + y) if op != "and" else ZERO
        if repr(b) < repr(a):
            a, b = b, a
        la, lb = self.brng(s, a, w), self.brng(s, b, w)
        hi = (1 << w) - 1
        if la[1] is not None and lb[1] is not None:
            if op == "and":
                hi = min(la[1], lb[1])
            else:
                hi = (1 << max(la[1].bit_length(), lb[1].bit_length())) - 1
        return s.derive((op, w, a, b), "#" + op, 0, (1 << w) - 1, 0, hi)

    def part_binop(self, st, op, w, x, y):
        if op not in ("and", "or", "shl", "lshr"):
            return None
        if isinstance(y, Undef) and op in ("and", "or"):
            x, y = y, x
        if isinstance(y, Undef) or not isinstance(y, IntV) or w > 128:
            return None
        full = (1 << w) - 1
        l, um = (x.l, x.um) if isinstance(x, PartU) else (ZERO, full)
        c = st.s.norm(y.l)
        why = x.why
        if op == "or":
            if not isinstance(x, PartU):
                return None
            return part(w, st.s.norm(self.bitop(st, "or", w, l, c)), um, why)
        if c.t:
            return None
        if op == "and":
            return part(w, st.s.norm(self.bitop(st, "and", w, l, c)), um & c.c, why)
        if c.c >= w:
            return None
        if op == "shl":
            return part(w, st.s.norm(self.wrap(st, w, l.scale(1 << c.c))), (um << c.c) & full, why)
        return part(w, st.s.norm(self.div(st, l, 1 << c.c)), um >> c.c, why)

    def binop(self, st, op, w, x, y):
        """x, y: values. Returns list of (state, value)."""
        if isinstance(x, Undef) or isinstance(y, Undef):
            if op in ("and", "mul") and any(isinstance(v, IntV) and v.l == ZERO for v in (x, y)):
                return [(st, IntV(w, 0))]
            r = self.part_binop(st, op, w, x, y)
            if r is not None:
                return [(st, r)]
            return [(st, Undef((w + 7) // 8, "arithmetic"))]
        if isinstance(x, CondV) or isinstance(y, CondV):
            if w == 1 and op == "xor" and isinstance(y, IntV) and y.l.isc():
                return [(st, x.neg() if y.l.c else x)]
            if w == 1 and op == "xor" and isinstance(x, IntV) and x.l.isc():
                return [(st, y.neg() if x.l.c else y)]
            out = []
            for s1, a in self.concretize(st, x):
                for s2, b in self.concretize(s1, y):
                    out += self.binop(s2, op, w, a, b)
            return out
        if isinstance(x, PtrV) or isinstance(y, PtrV):
            return self.ptr_binop(st, op, w, x, y)
        if not isinstance(x, IntV) or not isinstance(y, IntV):
            return [(st, self.opaque(st, op, w, x, y))]
        a, b = x.l, y.l
        if op == "add":
            r = self.wrap(st, w, a + b)
        elif op == "sub":
            r = self.wrap(st, w, a - b)
        elif op == "mul":
            a, b = st.s.norm(a), st.s.norm(b)
            if not a.t:
                a, b = b, a
            if not b.t:
                c = b.c
                if c > 1 << (w - 1):
                    c -= 1 << w
                r = self.wrap(st, w, a.scale(c))
            else:
                if repr(b) < repr(a):
                    a, b = b, a
                la, lb = st.s.rng(a), st.s.rng(b)
                hi = (1 << w) - 1
                if la[1] is not None and lb[1] is not None and la[0] >= 0 and lb[0] >= 0:
                    hi = min(hi, la[1] * lb[1])
                r = st.s.derive(("mul", w, a, b), "#mul", 0, (1 << w) - 1, 0, hi)
        elif op in ("and", "or", "xor"):
            r = self.bitop(st, op, w, a, b)
        elif op in ("shl", "lshr", "ashr"):
            b = st.s.norm(b)
            if b.t:
                lo, hi = st.s.rng(b)
                if lo is not None and hi is not None and hi - lo <= 64:
                    out = []
                    for v in range(lo, hi + 1):
                        n = st.copy()
                        if n.assume("eq", b - v):
                            out += self.binop(n, op, w, x, IntV(w, v))
                    return out
                a = st.s.norm(a)
                if op == "ashr":
                    return [(st, self.opaque(st, op, w, x, y))]
                r = derived((op, w, a, b), "#" + op, 0, (1 << w) - 1)
                return [(st, IntV(w, r))]
            k = b.c
            if k >= w:
                return [(st, Undef((w + 7) // 8, "shift by %d" % k))]
            if op == "shl":
                r = self.wrap(st, w, a.scale(1 << k))
            elif op == "lshr":
                r = self.div(st, a, 1 << k)
            else:
                sg = self.div(st, self.signed(st, w, a), 1 << k)
                r = self.wrap(st, w, sg)
        elif op in ("udiv", "urem"):
            b = st.s.norm(b)
            if not b.t:
                if b.c == 0:
                    self.fail(st, "ub", "div0:%s" % self.where(st), "division by zero")
                    return []
                q = self.div(st, a, b.c)
                r = q if op == "udiv" else st.s.norm(a - q.scale(b.c))
            else:
                if not self.require(st, "ge", b - 1, "ub", "div0:%s" % self.where(st), "division by zero"):
                    return []
                a = st.s.norm(a)
                hi = st.s.rng(a if op == "udiv" else b)[1]
                r = st.s.derive((op, w, a, b), "#" + op, 0, (1 << w) - 1, 0, hi)
        elif op in ("sdiv", "srem"):
            b = st.s.norm(b)
            if b.t or b.c == 0 or b.c >= 1 << (w - 1):
                return [(st, self.opaque(st, op, w, x, y))]
            sa = self.signed(st, w, a)
            out = []
            for neg in (0, 1):
                n = st.copy()
                if not n.assume("ge", (-sa) - 1 if neg else sa):
                    continue
                if not neg:
                    q = self.div(n, sa, b.c)
                else:
                    q = -self.div(n, -sa, b.c)
                v = q if op == "sdiv" else sa - q.scale(b.c)
                out.append((n, IntV(w, self.wrap(n, w, v))))
            return out
        else:
            raise Unsupported("binop " + op)
        return [(st, IntV(w, st.s.norm(r)))]

    def opaque(self, st, op, w, *vals):
        key = ("op", op, w) + tuple(v.l if isinstance(v, IntV) else v for v in vals)
        return IntV(w, derived(key, "#" + op, 0, (1 << w) - 1))

    def ptr_binop(self, st, op, w, x, y):
        if op == "add":
            if isinstance(y, PtrV):
                x, y = y, x
            if isinstance(y, IntV):
                return [(st, PtrV(x.r, st.s.norm(x.o + self.signed(st, w, y.l))))]
        if op == "sub":
            if isinstance(x, PtrV) and isinstance(y, PtrV):
                if x.r == y.r:
                    return [(st, IntV(w, self.wrap(st, w, x.o - y.o)))]
            elif isinstance(x, PtrV) and isinstance(y, IntV):
                return [(st, PtrV(x.r, st.s.norm(x.o - self.signed(st, w, y.l))))]
        if op in ("and", "or", "xor"):
            if isinstance(y, PtrV):
                x, y = y, x
            if isinstance(x, PtrV) and isinstance(y, PtrV) and (x.r is None or y.r is None):
                # combining with a small integer stored as pointer
                if x.r is None:
                    x, y = y, x
                y = IntV(w, y.o)
            if isinstance(y, IntV):
                al = 1 << 40 if x.r is None else st.mem[x.r].align
                if x.r is None:
                    r = self.binop(st, op, w, IntV(w, x.o), y)
                    return [(s, PtrV(None, v.l)) if isinstance(v, IntV) else (s, v) for s, v in r]
                c = st.s.norm(y.l)
                low = None
                if not c.t:
                    cc = c.c
                    if cc >= 1 << (w - 1):
                        cc -= 1 << w
                    if op == "and" and cc < 0:
                        m = -cc
                        if m & (m - 1) == 0 and m <= al:
                            q = self.div(st, x.o, m)
                            return [(st, PtrV(x.r, q.scale(m)))]
                    if op == "and" and 0 <= cc < al:
                        mm = 1
                        while mm <= cc:
                            mm *= 2
                        lowbits = x.o - self.div(st, x.o, mm).scale(mm)
                        return [(st, IntV(w, self.and_const(st, w, lowbits, cc)))]
                lo, hi = st.s.rng(c)
                if lo is not None and lo >= 0 and hi is not None and hi < al and op in ("or", "xor"):
                    mm = 1
                    while mm <= hi:
                        mm *= 2
                    if mm <= al:
                        base = self.div(st, x.o, mm).scale(mm)
                        lowbits = st.s.norm(x.o - base)
                        v = self.bitop(st, op, w, lowbits, c)
                        return [(st, PtrV(x.r, st.s.norm(base + v)))]
        return [(st, self.opaque(st, op, w, x, y))]

    # -------------------------------------------------------------- conditions
    def icmp(self, st, pred, w, x, y):
        """-> list of (state, i1 value)"""
        if isinstance(x, Undef) or isinstance(y, Undef):
            return [(st, Undef(1, "comparison"))]
        if isinstance(x, CondV) or isinstance(y, CondV):
            out = []
            for s1, a in self.concretize(st, x):
                for s2, b in self.concretize(s1, y):
                    out += self.icmp(s2, pred, w, a, b)
            return out
        if isinstance(x, FnV) or isinstance(y, FnV):
            if pred in ("eq", "ne"):
                if isinstance(x, FnV) and isinstance(y, FnV):
                    e = x.name == y.name
                else:
                    e = False
                return [(st, TRUE if e == (pred == "eq") else FALSE)]
        if isinstance(x, PtrV) or isinstance(y, PtrV):
            def asp(v):
                return PtrV(None, v.l) if isinstance(v, IntV) else v
            if isinstance(x, IntV) and not (isinstance(y, PtrV)):
                pass
            x, y = asp(x), asp(y)
            if isinstance(x, PtrV) and isinstance(y, PtrV):
                if x.r == y.r:
                    d = x.o - y.o
                    if x.r is None:
                        return self.icmp(st, pred, w, IntV(w, x.o), IntV(w, y.o))
                    return [(st, self.cmp(st, pred, d))]
                for rid in (x.r, y.r):
                    if rid is not None and rid in st.mem and st.mem[rid].kind == "opaque":
                        return [(st, CondV("fc", ("ptreq", x, y) if repr(x) < repr(y) else ("ptreq", y, x), pred == "eq"))] \
                            if pred in ("eq", "ne") else [(st, self.opaquecond(pred, x, y))]
                if pred in ("eq", "ne"):
                    return [(st, FALSE if pred == "eq" else TRUE)]
                if x.r is None or y.r is None:
                    # compare with a (small) absolute address: regions lie above
                    z = x if x.r is None else y
                    if st.s.entails_eq(z.o):
                        g = x.r is not None        # x greater
                        return [(st, TRUE if g == (pred in ("ugt", "uge", "sgt", "sge")) else FALSE)]
                return [(st, self.opaquecond(pred, x, y))]
            return [(st, self.opaquecond(pred, x, y))]
        if not isinstance(x, IntV) or not isinstance(y, IntV):
            return [(st, self.opaquecond(pred, x, y))]
        a, b = x.l, y.l
        if pred in ("eq", "ne"):
            e = self.unsext(st, w, a, b)
            if e is not None:
                a, b = e
        if pred[0] == "s":
            a, b = self.signed(st, w, a), self.signed(st, w, b)
        return [(st, self.cmp(st, pred, a - b))]

    def unsext(self, st, w, a, b):
        """Equality of two sign-extended narrow values (or of one and a constant) is equality of the narrow values."""
        def split(l):
            l = st.s.norm(l)
            for s, k in l.t:
                d = SYMS[s].defn
                if d is not None and d[0] == "div" and d[2] & (d[2] - 1) == 0 and d[2] < 1 << (w - 1) and k == (1 << w) - 2 * d[2]:
                    if l - Lin(0, ((s, k),)) == d[1] or st.s.norm(l - Lin(0, ((s, k),))) == st.s.norm(d[1]):
                        return l - Lin(0, ((s, k),)), d[2]
            return None
        x, y = split(a), split(b)
        if x is not None and y is not None and x[1] == y[1]:
            return x[0], y[0]
        if x is None:
            x, y, a, b = y, x, b, a
        if x is not None:
            c = st.s.norm(b)
            if not c.t:
                h = x[1]
                if 0 <= c.c < h:
                    return x[0], c
                if c.c >= (1 << w) - h:
                    return x[0], c - ((1 << w) - 2 * h)
        return None

    def opaquecond(self, pred, x, y):
        return CondV("fc", ("cmp", pred, x, y), True)

    def cmp(self, st, pred, d):
        """condition on d = a - b"""
        p = pred[-2:]
        d = st.s.norm(d)
        if pred == "eq":
            c = CondV("eq", d)
        elif pred == "ne":
            c = CondV("ne", d)
        elif p == "gt":
            c = CondV("ge", d - 1)
        elif p == "ge":
            c = CondV("ge", d)
        elif p == "lt":
            c = CondV("ge", (-d) - 1)
        else:
            c = CondV("ge", -d)
        if not d.t:
            v = c.l.c
            t = v >= 0 if c.op == "ge" else v == 0 if c.op == "eq" else v != 0
            return TRUE if t else FALSE
        return c

    def concretize(self, st, v):
        """i1 condition -> IntV(1, 0/1) by forking; other values unchanged."""
        if not isinstance(v, CondV):
            return [(st, v)]
        out = []
        for s, t in self.branch(st, v):
            out.append((s, TRUE if t else FALSE))
        return out

    def branch(self, st, v):
        """-> list of (state, bool)"""
        if isinstance(v, IntV):
            l = st.s.norm(v.l)
            if not l.t:
                return [(st, bool(l.c & 1))]
            v = CondV("ne", l)
        if isinstance(v, Undef):
            self.fail(st, "uninit", "branch:%s" % self.where(st), "control flow depends on an uninitialized value (%s)" % v.why)
            return []
        if isinstance(v, CondV):
            if v.op == "fc":
                known = st.fc.get(v.l)
                if known is None and self.fc_decide is not None:
                    known = self.fc_decide(st, v.l)
                if known is not None:
                    return [(st, known == v.pol)]
                out = []
                for t in (True, False):
                    n = st.copy()
                    n.fc = dict(st.fc)
                    n.fc[v.l] = t == v.pol
                    n.pcl = (n.pcl, ("fc", (v.l, t == v.pol)))
                    out.append((n, t))
                return out
            s = st.s
            if self.lazy_ite and lin.find_ite(s.norm(v.l)) is not None:
                out = []
                for z, l in self.resolve(st, v.l):
                    out += self.branch(z, CondV(v.op, l))
                return out
            if v.op == "ge":
                if s.entails_ge(v.l):
                    return [(st, True)]
                if s.entails_ge((-v.l) - 1):
                    return [(st, False)]
            elif v.op == "eq":
                if s.entails_eq(v.l):
                    return [(st, True)]
                if s.entails_ne(v.l):
                    return [(st, False)]
            else:
                if s.entails_eq(v.l):
                    return [(st, False)]
                if s.entails_ne(v.l):
                    return [(st, True)]
            imp = lin.lin_impr(s.norm(v.l))
            out = []
            a = st.copy()
            if a.assume(v.op, v.l):
                out.append((a, True))
            b = st.copy()
            n = v.neg()
            if b.assume(n.op, n.l):
                out.append((b, False))
            if imp and len(out) == 2:
                nm = ",".join(SYMS[x].name for x, k in s.norm(v.l).t if SYMS[x].impr)
                for z, t in out:
                    z.impr = z.impr or "branch on " + nm
            return out
        raise Unsupported("branch on %r" % (v,))

    fc_decide = None

    # -------------------------------------------------------------- memory access
    def access(self, st, p, size, what, write=False, key=None):
        """Check an access of `size` (Lin) bytes at p. False when the path ends."""
        sz = L(size)
        k = key or self.where(st)
        if isinstance(p, Undef):
            self.fail(st, "uninit", "addr:" + k, "%s through an uninitialized pointer (%s)" % (what, p.why))
            return False
        if isinstance(p, IntV):
            p = PtrV(None, p.l)
        if not isinstance(p, PtrV):
            if isinstance(p, FnV):
                self.fail(st, "bounds", "addr:" + k, "%s through a function pointer" % what)
                return False
            raise Unsupported("access through %r" % (p,))
        if p.r is None:
            self.fail(st, "null", "null:" + k, "%s through a null pointer" % what)
            return False
        r = st.mem[p.r]
        if r.size is None:
            if r.kind == "opaque" or r.lazy is None:
                raise Unsupported("access to opaque object " + r.name)
        if not r.alive:
            self.fail(st, "uaf", "uaf:" + k, "%s of %s, which has been released" % (what, r.name))
            return False
        if write and not r.writable:
            self.fail(st, "const", "const:" + k, "%s modifies %s, which must not be written" % (what, r.name))
            return False
        if r.size is not None:
            if not self.require(st, "ge", p.o, "bounds", "low:" + k, "%s starts before %s: offset %r" % (what, r.name, p.o)):
                return False
            if not self.require(st, "ge", r.size - p.o - sz, "bounds", "high:" + k,
                                "%s beyond the end of %s: offset %r + %r bytes, size %r" % (what, r.name, st.s.norm(p.o), st.s.norm(sz), st.s.norm(r.size))):
                return False
        return True

    def load(self, st, p, ty):
        """-> list of (state, value)"""
        if isinstance(p, IntV):
            p = PtrV(None, p.l)
        if not self.access(st, p, ty.size, "read of %d bytes" % ty.size):
            return []
        out = []
        r = st.mem[p.r]
        for s, v in self.read(st, r.id, r.content, st.s.norm(p.o), ty.size, ty):
            v = self.coerce(s, v, ty)
            if isinstance(v, list):
                out += v
            else:
                out.append((s, v))
        return out

    def coerce(self, st, v, ty):
        if isinstance(v, tuple) and v and v[0] == "glob":
            return PtrV(self.global_region(st, v[1]), Lin(v[2]))
        if isinstance(v, Undef):
            return v
        if ty.kind == "ptr":
            if isinstance(v, IntV):
                l = st.s.norm(v.l)
                return self.int_to_ptr(st, l)
            return v
        if ty.kind == "int":
            if isinstance(v, PtrV) and v.r is None:
                return IntV(ty.width, v.o)
            if isinstance(v, FltV):
                return self.float_bits(st, v, ty.width)
            if isinstance(v, IntV) and v.w != ty.width:
                return IntV(ty.width, v.l)
            return v
        if ty.kind in ("double", "float"):
            if isinstance(v, IntV):
                return self.bits_float(st, v, ty.kind)
            return v
        return v

    def int_to_ptr(self, st, l):
        if len(l.t) == 1 and l.t[0][1] == 1:
            d = SYMS[l.t[0][0]].defn
            if d is not None and d[0] == "addr":
                return PtrV(d[1], d[2] + l.c)
        return PtrV(None, l)

    def float_bits(self, st, v, w):
        if v.t[0] == "fbits":
            return IntV(w, v.t[1])
        return IntV(w, derived(("bitsof", v.k, v.t), "#bits", 0, (1 << w) - 1))

    def bits_float(self, st, v, kind):
        l = st.s.norm(v.l)
        if len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1:
            d = SYMS[l.t[0][0]].defn
            if d is not None and d[0] == "bitsof" and d[1] == kind:
                return FltV(kind, d[2])
        return FltV(kind, ("fbits", l))

    # ---- reading through the write log
    def read(self, st, rid, ct, off, size, ty=None):
        """Read `size` (int) bytes at off from the log. -> list of (state, value)."""
        while True:
            k = ct.k
            if k == "base":
                return self.read_base(st, rid, ct, off, size, ty)
            if k == "cells":
                off = st.s.norm(off)
                if not off.t:
                    o = off.c
                    c = ct.cells.get(o)
                    if c is not None and c[0] == size:
                        return [(st, c[1])]
                    over = False
                    for x in ct.cells:
                        if x < o + size and o < x + ct.cells[x][0]:
                            over = True
                            break
                    if not over:
                        ct = ct.prev
                        continue
                    return self.read_mixed(st, rid, ct, o, size, ty)
                t = self.read_table(st, rid, ct, off, size)
                if t is not None:
                    return t
                res = self.split_cells(st, rid, ct, off, size, ty)
                if res is None:
                    ct = ct.prev
                    continue
                return res
            if k == "store":
                rel = self.relation(st, off, L(size), ct.off, L(ct.len))
                if rel == "disjoint":
                    ct = ct.prev
                    continue
                if rel == "equal" and size == ct.len:
                    return [(st, ct.val)]
                if rel == "inside":
                    d = st.s.norm(off - ct.off)
                    if not d.t:
                        return [(st, self.slice(st, ct.val, d.c, size))]
                if self.lazy_ite and isinstance(ct.val, IntV) and size == 1 and ct.len == 1:
                    r = self.ite_read(st, rid, ct, off, size, ty, [(ct.off, ct.val)])
                    if r is not None:
                        return r
                return self.fork_overlap(st, rid, ct, off, size, ct.off, L(ct.len), ty)
            if k == "fill":
                rel = self.relation(st, off, L(size), ct.off, ct.len)
                if rel == "disjoint":
                    ct = ct.prev
                    continue
                if rel in ("inside", "equal"):
                    return [(st, self.replicate(ct.val, size))]
                return self.fork_overlap(st, rid, ct, off, size, ct.off, ct.len, ty)
            if k == "copy":
                rel = self.relation(st, off, L(size), ct.off, ct.len)
                if rel == "disjoint":
                    ct = ct.prev
                    continue
                if rel in ("inside", "equal"):
                    d = st.s.norm(off - ct.off + ct.srcoff)
                    rid, ct, off = ct.srcreg, ct.src, d
                    continue
                return self.fork_overlap(st, rid, ct, off, size, ct.off, ct.len, ty)
            if k == "lwrite":
                return self.read_lwrite(st, rid, ct, off, size, ty)
            if k == "havoc":
                rel = "inside" if ct.len is None else self.relation(st, off, L(size), ct.off, ct.len)
                if rel == "disjoint":
                    ct = ct.prev
                    continue
                if rel in ("inside", "equal"):
                    off = st.s.norm(off)
                    s = derived(("havoc", ct.val, off, size), "#havoc", 0, (1 << (8 * size)) - 1, impr=True)
                    return [(st, IntV(8 * size, s))]
                return self.fork_overlap(st, rid, ct, off, size, ct.off, ct.len, ty)
            raise Unsupported("content " + k)

    def relation(self, st, o1, n1, o2, n2):
        """[o1,o1+n1) versus [o2,o2+n2)"""
        s = st.s
        d = s.norm(o1 - o2)
        if not d.t and not n1.t and not n2.t:
            if d.c + n1.c <= 0 or d.c >= n2.c:
                return "disjoint"
            if d.c >= 0 and d.c + n1.c <= n2.c:
                return "equal" if d.c == 0 and n1.c == n2.c else "inside"
            return "partial"
        if s.entails_ge(d) and s.entails_ge(n2 - d - n1):
            if not d.t and d.c == 0:
                return "equal"
            return "inside"
        if s.entails_ge(d - n2) or s.entails_ge(-d - n1):
            return "disjoint"
        return "partial"

    def fork_overlap(self, st, rid, ct, off, size, o2, n2, ty):
        """Split on how the read relates to the entry at hand."""
        out = []
        a = st.copy()
        if a.assume("ge", off + size - 0 - o2 - 0 if False else o2 - off - size):
            out += self.read(a, rid, ct.prev, off, size, ty)
        b = st.copy()
        if b.assume("ge", off - o2 - n2) and b.assume("ge", off + size - o2 - 1):
            out += self.read(b, rid, ct.prev, off, size, ty)
        c = st.copy()
        if c.assume("ge", off - o2) and c.assume("ge", o2 + n2 - off - size):
            if self.relation(c, off, L(size), o2, n2) == "partial":
                raise Unsupported("overlap not resolved")
            if ct.k == "store":
                if size == ct.len:
                    c.assume("eq", off - o2)
                    out += [(c, ct.val)]
                else:
                    for d in range(ct.len - size + 1):
                        e = c.copy()
                        if e.assume("eq", off - o2 - d):
                            out += [(e, self.slice(e, ct.val, d, size))]
            else:
                out += self.read(c, rid, ct, off, size, ty)
        if size > 1:
            # partial overlap
            d = st.copy()
            if d.assume("ge", off + size - o2 - 1) and d.assume("ge", o2 + n2 - off - 1):
                x = d.copy()
                y = d.copy()
                parts = []
                if x.assume("ge", o2 - off - 1):
                    parts.append(x)
                if y.assume("ge", off - o2) and y.assume("ge", off + size - o2 - n2 - 1):
                    parts.append(y)
                for z in parts:
                    out += self.read_bytes(z, rid, ct, off, size)
        return out

    def read_bytes(self, st, rid, ct, off, size):
        acc = [(st, [])]
        for i in range(size):
            nxt = []
            for s, vs in acc:
                for s2, v in self.read(s, rid, ct, s.s.norm(off + i), 1):
                    nxt.append((s2, vs + [v]))
            acc = nxt
            if len(acc) > 64:
                raise Unsupported("too many splits in a byte-wise read")
        return [(s, self.concat(s, vs)) for s, vs in acc]

    def concat(self, st, vs):
        if any(isinstance(v, Undef) for v in vs):
            return Undef(len(vs), "partly uninitialized")
        if all(isinstance(v, IntV) for v in vs):
            l = ZERO
            for i, v in enumerate(vs):
                l = l + v.l.scale(256 ** i)
            return IntV(8 * len(vs), st.s.norm(l))
        if all(isinstance(v, ByteOf) and v.v == vs[0].v and v.i == i for i, v in enumerate(vs)):
            return vs[0].v
        return self.opaque(st, "concat", 8 * len(vs), *vs)

    def slice(self, st, v, d, size):
        if isinstance(v, IntV):
            if d == 0 and size * 8 == v.w:
                return v
            x = self.div(st, v.l, 256 ** d)
            if d + size < v.w // 8:
                x = x - self.div(st, x, 256 ** size).scale(256 ** size)
            return IntV(8 * size, st.s.norm(x))
        if isinstance(v, Undef):
            return Undef(size, v.why)
        if isinstance(v, PtrV) and v.r is None:
            return self.slice(st, IntV(64, v.o), d, size)
        if isinstance(v, FltV):
            return self.slice(st, self.float_bits(st, v, 64 if v.k == "double" else 32), d, size)
        if size == 1:
            return ByteOf(v, d)
        return self.concat(st, [ByteOf(v, d + i) for i in range(size)])

    def replicate(self, v, size):
        if isinstance(v, IntV):
            l = ZERO
            for i in range(size):
                l = l + v.l.scale(256 ** i)
            return IntV(8 * size, l)
        return Undef(size, "fill with undefined")

    def read_mixed(self, st, rid, ct, o, size, ty):
        c = None
        for x, (n, v) in ct.cells.items():
            if x <= o and o + size <= x + n:
                if isinstance(v, tuple):
                    v = PtrV(self.global_region(st, v[1]), Lin(v[2]))
                return [(st, self.slice(st, v, o - x, size))]
        if size == 1:
            raise Unsupported("byte read")
        return self.read_bytes(st, rid, ct, Lin(o), size)

    def read_table(self, st, rid, ct, off, size):
        """Symbolic read of constant cells: a lookup symbol."""
        lo, hi = st.s.rng(off)
        r = st.mem.get(rid)
        if r is not None and r.size is not None:
            zl, zh = st.s.rng(r.size)
            if zh is not None:
                hi = zh - size if hi is None else min(hi, zh - size)
        if (lo is None or lo < 0) and st.s.entails_ge(off):
            lo = 0
        if ct.k == "cells" and hi is not None and lo is not None and lo <= hi <= lo + 4096 and off.t:
            # the cells at the end may be out of reach
            while hi > lo and self.const_read(ct, hi, size) is None and st.s.entails_ge(L(hi - 1) - off):
                hi -= 1
        if lo is None or hi is None or lo < 0 or hi - lo > 4096:
            return None
        g = 0
        from math import gcd
        for s, a in off.t:
            g = gcd(g, a)
        step = g
        base = off.c % step
        vals = []
        n0 = None
        o = base
        ntab = hi // step + 1 if True else 0
        if ntab > 4096:
            return None
        mn = mx = None
        o = base
        const = {}
        while o <= hi:
            if o >= lo:
                v = self.const_read(ct, o, size)
                if v is None:
                    return None
                vals.append(v)
                mn = v if mn is None else min(mn, v)
                mx = v if mx is None else max(mx, v)
            else:
                v = self.const_read(ct, o, size)
                vals.append(0 if v is None else v)
            o += step
        if mn is None:
            return None
        idx = Lin((off.c - base) // step, tuple((s, a // step) for s, a in off.t))
        if mn == mx:
            return [(st, IntV(8 * size, mn))]
        tid = tuple(vals)
        name = ("table", tid)
        if name not in lin.TABLES:
            lin.TABLES[name] = tid
        v = st.s.derive(("lookup", name, idx), "#lookup", min(vals), max(vals), mn, mx)
        return [(st, IntV(8 * size, v))]

    def const_read(self, ct, o, size):
        """Constant value at constant offset, or None."""
        while ct is not None:
            if ct.k == "cells":
                c = ct.cells.get(o)
                if c is not None and c[0] == size:
                    v = c[1]
                    return v.l.c if isinstance(v, IntV) and v.l.isc() else None
                for x in (ct.cells if len(ct.cells) < 64 else [y for y in range(o - 16, o + size) if y in ct.cells]):
                    if x < o + size and o < x + ct.cells[x][0]:
                        n, v = ct.cells[x]
                        if x <= o and o + size <= x + n and isinstance(v, IntV) and v.l.isc():
                            return (v.l.c >> (8 * (o - x))) & ((1 << (8 * size)) - 1)
                        # wide read over several cells
                        if isinstance(v, IntV) and v.l.isc():
                            bs = [self.const_read(ct, o + i, 1) for i in range(size)] if size > 1 else [None]
                            if all(b is not None for b in bs):
                                return sum(b << (8 * i) for i, b in enumerate(bs))
                        return None
                ct = ct.prev
            elif ct.k == "fill":
                if ct.off.isc() and ct.len.isc():
                    if ct.off.c <= o and o + size <= ct.off.c + ct.len.c:
                        if isinstance(ct.val, IntV) and ct.val.l.isc():
                            return sum(ct.val.l.c << (8 * i) for i in range(size))
                        return None
                    if o + size <= ct.off.c or o >= ct.off.c + ct.len.c:
                        ct = ct.prev
                        continue
                return None
            elif ct.k == "base":
                return 0 if ct.val == "zero" else None
            elif ct.k == "copy" and ct.off.isc() and ct.len.isc() and ct.srcoff.isc():
                if ct.off.c <= o and o + size <= ct.off.c + ct.len.c:
                    o = o - ct.off.c + ct.srcoff.c
                    ct = ct.src
                elif o + size <= ct.off.c or o >= ct.off.c + ct.len.c:
                    ct = ct.prev
                else:
                    return None
            else:
                return None
        return None

    def split_cells(self, st, rid, ct, off, size, ty):
        """Symbolic offset against constant cells. None: entirely outside."""
        hit = [(x, n) for x, (n, v) in ct.cells.items()
               if self.relation(st, off, L(size), L(x), L(n)) != "disjoint"]
        if not hit:
            return None
        if self.lazy_ite and size == 1 and all(n == 1 for x, n in hit):
            sym = [(L(x), ct.cells[x][1]) for x, n in sorted(hit) if not (isinstance(ct.cells[x][1], IntV) and ct.cells[x][1].l.isc())]
            r = self.ite_read(st, rid, ct, off, size, ty, sym, ct.prev if len(sym) == len(hit) else ct) if sym else None
            if r is not None:
                return r
        if len(hit) > 40:
            raise Unsupported("symbolic index over %d cells" % len(hit))
        out = []
        rest = st
        # outside of all, or exactly at one of the possible offsets
        lo = min(x for x, n in hit) - size + 1
        hi = max(x + n for x, n in hit) - 1
        for o in range(lo, hi + 1):
            e = st.copy()
            if e.assume("eq", off - o):
                out += self.read(e, rid, ct, Lin(o), size, ty)
        a = st.copy()
        if a.assume("ge", Lin(lo - 1) - off):
            out += self.read(a, rid, ct.prev, off, size, ty)
        b = st.copy()
        if b.assume("ge", off - hi - 1):
            out += self.read(b, rid, ct.prev, off, size, ty)
        return out

    def ite_read(self, st, rid, ct, off, size, ty, hits, rct=None):
        """A read that may hit one of few one-byte entries, as a conditional value instead of a split."""
        if len(hits) > 8 or not all(isinstance(v, IntV) for o, v in hits):
            return None
        rest = []
        a = st.copy()
        lo = [o.c for o, v in hits if not o.t]
        if len(lo) == len(hits):
            x, y = st.copy(), st.copy()
            if x.assume("ge", L(min(lo) - 1) - off):
                rest.append(x)
            if y.assume("ge", off - max(lo) - 1):
                rest.append(y)
            if max(lo) - min(lo) >= len(lo):
                return None
        elif a.assume("ne", off - hits[0][0]) and len(hits) == 1:
            rest.append(a)
        if len(rest) > 1:
            return None
        if rest:
            r = self.read(rest[0], rid, rct or ct.prev, off, size, ty)
            if len(r) != 1 or not isinstance(r[0][1], IntV):
                return None
            st.atoms = r[0][0].atoms
            v = r[0][1].l
        else:
            v = hits[-1][1].l
            hits = hits[:-1]
        for o, x in reversed(hits):
            v = self.mk_ite(st, st.s.norm(off - o), x.l, v)
        return [(st, IntV(8, v))]

    def mk_ite(self, st, c, a, b):
        if c.isc():
            return a if c.c == 0 else b
        if a == b:
            return a
        lo, hi = st.s.rng(a)
        x, y = st.s.rng(b)
        (glo, ghi), (gx, gy) = lin.grng(a), lin.grng(b)
        return st.s.derive(("ite", c, a, b), "#ite", None if glo is None or gx is None else min(glo, gx), None if ghi is None or gy is None else max(ghi, gy),
                           None if lo is None or x is None else min(lo, x), None if hi is None or y is None else max(hi, y))

    def resolve(self, st, l):
        """Case distinction over the conditional values a term depends on. -> [(state, term)]"""
        l = st.s.norm(l)
        s = lin.find_ite(l)
        if s is None:
            return [(st, l)]
        d = SYMS[s].defn
        out = []
        for op in ("eq", "ne"):
            t = st.copy()
            if st.s.enum_decides(st.s.norm(d[1]), op="ne" if op == "eq" else "eq"):
                continue
            if t.assume(op, d[1]):
                x = t.s.norm(d[2] if op == "eq" else d[3])
                if t.assume("eq", Lin(0, ((s, 1),)) - x):
                    out += self.resolve(t, rewrite(self, t, l, {s: x}))
        return out

    def read_base(self, st, rid, ct, off, size, ty):
        k = ct.val
        if k == "undef":
            return [(st, Undef(size, "uninitialized memory of %s" % (st.mem[rid].name if rid in st.mem else "?")))]
        if k == "zero":
            if ty is not None and ty.kind == "ptr":
                return [(st, NULL)]
            return [(st, IntV(8 * size, 0))]
        if k == "lazy":
            return ct.src.read(self, st, rid, off, size, ty)
        if k == "atoms":
            if size > 1:
                return self.read_bytes(st, rid, ct, off, size)
            return [(st, IntV(8, self.atom(st, rid, ct.off, off)))]
        if k == "cstr":
            ln = ct.src
            if size > 1:
                return self.read_bytes(st, rid, ct, off, size)
            out = []
            a = st.copy()
            if a.assume("ge", ln - off - 1):
                x = self.atom(a, rid, ct.off, off)
                if a.assume("ne", x):
                    out.append((a, IntV(8, x)))
            b = st.copy()
            if b.assume("eq", off - ln):
                out.append((b, IntV(8, 0)))
            c = st.copy()
            if c.assume("ge", off - ln - 1):
                out.append((c, IntV(8, self.atom(c, rid, ct.off, off))))
            return out
        raise Unsupported("base " + k)

    def atom(self, st, rid, cid, off):
        off = st.s.norm(off)
        key = ("atom", cid, off)
        known = st.atoms.get(cid, ())
        if off in known:
            return lin.DEFS[key]
        for o in known:
            if st.s.entails_eq(off - o):
                return lin.DEFS[("atom", cid, o)]
        d = dict(st.atoms)
        d[cid] = known + (off,)
        st.atoms = d
        name = st.mem[rid].name if rid in st.mem else "R%s" % (cid,)
        return derived(key, "%s[%r]" % (name, off), 0, 255)

    # ---- writing
    def store(self, st, p, size, v, what="write"):
        """False when the path ends."""
        if isinstance(p, IntV):
            p = PtrV(None, p.l)
        if not self.access(st, p, size, "%s of %d bytes" % (what, size), True):
            return False
        self.put(st, p.r, st.s.norm(p.o), size, v)
        return True

    def put(self, st, rid, off, size, v):
        r = self.mut(st, rid)
        st.wl = (st.wl, (rid, "store", off, size, v))
        if r.lazy is not None and r.lazy.write(self, st, rid, off, size, v):
            return
        r = st.mem[rid]
        if not off.t:
            o = off.c
            top = r.content
            if top.k == "cells":
                clash = False
                for x in (top.cells if len(top.cells) <= 32 else range(o - 16, o + size)):
                    c = top.cells.get(x)
                    if c is not None and x < o + size and o < x + c[0] and (x != o or c[0] != size):
                        clash = True
                        break
                if not clash:
                    cells = dict(top.cells)
                    cells[o] = (size, v)
                    r.content = Content("cells", top.prev, cells=cells)
                    return
            r.content = Content("cells", top, cells={o: (size, v)})
            return
        top = r.content
        if top.k == "store" and top.len == size and st.s.entails_eq(top.off - off):
            top = top.prev
        r.content = Content("store", top, off=off, len=size, val=v)

    def copy_mem(self, st, dst, src, n, what):
        """memcpy/memmove; n Lin. False when the path ends. Zero length touches nothing."""
        n = st.s.norm(n)
        if st.s.entails_eq(n):
            return [st]
        out = []
        z = st.copy()
        if not st.s.entails_ge(n - 1):
            if z.assume("eq", n):
                out.append(z)
            if not st.assume("ge", n - 1):
                return out
        if not self.access(st, src, n, what + " reading"):
            return out
        if not self.access(st, dst, n, what + " writing", True):
            return out
        n = st.s.norm(n)
        srcr = st.mem[src.r]
        r = self.mut(st, dst.r)
        so, do = st.s.norm(src.o), st.s.norm(dst.o)
        if what == "memcpy" and src.r == dst.r and self.relation(st, so, n, do, n) != "disjoint":
            d = st.s.norm(so - do)
            if d.isc() and d.c == 0:
                pass
            else:
                t = st.copy()
                if t.assume("ge", so + n - do - 1) and t.assume("ge", do + n - so - 1) and t.assume("ne", so - do):
                    self.fail(t, "bounds", "overlap:" + self.where(st), "memcpy() with overlapping source and destination", [so, do, n])
        st.wl = (st.wl, (dst.r, "copy", do, n, (src.r, so)))
        if r.lazy is not None or srcr.lazy is not None:
            h = r.lazy or srcr.lazy
            if h.copy(self, st, dst.r, do, src.r, so, n):
                out.append(st)
                return out
            r = st.mem[dst.r]
        r.content = Content("copy", r.content, off=do, len=n, src=srcr.content, srcoff=so, srcreg=src.r)
        out.append(st)
        return out

    def fill_mem(self, st, dst, v, n, what="memset"):
        n = st.s.norm(n)
        if st.s.entails_eq(n):
            return [st]
        out = []
        if not st.s.entails_ge(n - 1):
            z = st.copy()
            if z.assume("eq", n):
                out.append(z)
            if not st.assume("ge", n - 1):
                return out
        if not self.access(st, dst, n, what, True):
            return out
        n = st.s.norm(n)
        r = self.mut(st, dst.r)
        do = st.s.norm(dst.o)
        st.wl = (st.wl, (dst.r, "fill", do, n, v))
        if r.lazy is not None and r.lazy.fill(self, st, dst.r, do, n, v):
            out.append(st)
            return out
        r = st.mem[dst.r]
        r.content = Content("fill", r.content, off=do, len=n, val=v)
        out.append(st)
        return out

    # ---- loop writes
    def read_lwrite(self, st, rid, ct, off, size, ty):
        rec = ct.val
        slots = [(i, w) for i, w in enumerate(rec.writes) if w[0] == rid or w[0] == ct.off]
        # all slots have the same stride
        strides = set()
        k = rec.ksym
        info = []
        for i, (wr, woff, wsize) in slots:
            a = dict(woff.t).get(k, 0)
            base = woff.sub({k: ZERO})
            strides.add(a)
            info.append((i, base, a, wsize))
        if len(strides) != 1:
            raise Unsupported("loop writes with different strides")
        s = strides.pop()
        if s <= 0:
            raise Unsupported("loop writes going downwards")
        count = rec_count(st, ct)
        out = []
        base0 = info[0][1]
        # distances of the slots to the first one must be constant
        offs = []
        for i, b, a, n in info:
            d = st.s.norm(b - base0)
            if d.t:
                raise Unsupported("loop writes at unrelated offsets")
            offs.append((d.c, n, i))
        mn = min(d for d, n, i in offs)
        mx = max(d + n for d, n, i in offs)
        lo = base0 + mn
        total = count.scale(s) - s + (mx - mn)      # when count >= 1
        if size != 1 and not (all(n == size for d, n, i in offs)):
            return self.read_bytes(st, rid, ct, off, size)
        # before / after / none
        z = st.copy()
        if z.assume("ge", -count):
            out += self.read(z, rid, ct.prev, off, size, ty)
        if not st.assume("ge", count - 1):
            return out
        a = st.copy()
        if a.assume("ge", lo - off - size):
            out += self.read(a, rid, ct.prev, off, size, ty)
        b = st.copy()
        if b.assume("ge", off - lo - total):
            out += self.read(b, rid, ct.prev, off, size, ty)
        if not (st.assume("ge", off - lo) and st.assume("ge", lo + total - off - size)):
            return out
        d = st.s.norm(off - lo)
        if mx - mn > s:
            raise Unsupported("overlapping loop writes")
        j = self.div(st, d, s)
        res = st.s.norm(d - j.scale(s))
        rlo, rhi = st.s.rng(res)
        rlo = max(rlo, 0) if rlo is not None else 0
        rhi = min(rhi, s - 1) if rhi is not None else s - 1
        for rv in range(rlo, rhi + 1):
            c = st.copy()
            if not c.assume("eq", res - rv):
                continue
            slot = None
            for dd, n, i in offs:
                if dd - mn <= rv and rv + size <= dd - mn + n:
                    slot = (dd - mn, n, i)
            if slot is None:
                if any(dd - mn < rv + size and rv < dd - mn + n for dd, n, i in offs):
                    out += self.read_bytes(c, rid, ct, off, size)
                else:
                    out += self.read(c, rid, ct.prev, off, size, ty)
                continue
            out += self.read_slot(c, rec, slot[2], self.div(c, d, s), rv - slot[0], size, (rid, ct, off, ty, info))
        return out

    def read_slot(self, st, rec, slot, j, d, size, where):
        if not rec.cases:
            raise Unsupported("loop write read before it is known")
        out = []
        j = st.s.norm(j)
        for ci, (conds, vals, evs) in enumerate(rec.cases):
            v = vals[slot]
            c = st.copy()
            inst = Inst(self, c, rec, j)
            if not inst.conds(conds):
                continue
            if v is None:       # not written in this case
                if len(where[4]) > 1:
                    raise Unsupported("conditional loop writes over each other")
                out += self.read(c, where[0], where[1].prev, where[2], size, where[3])
                continue
            w = inst.value(v)
            out.append((c, self.slice(c, w, d, size) if not isinstance(w, (PtrV,)) or size != 8 else w))
        return out

    # -------------------------------------------------------------- operands
    def operand(self, st, o):
        k = o[0]
        if k == "l":
            try:
                return st.frames[-1].env[o[1]]
            except KeyError:
                raise Unsupported("value %s not available in %s" % (o[1], st.frames[-1].fn.name))
        if k == "i":
            return IntV(o[1], o[2] & ((1 << o[1]) - 1))
        if k == "null":
            return NULL
        if k == "g":
            return PtrV(self.global_region(st, o[1]), Lin(o[2]))
        if k == "fn":
            return FnV(o[1])
        if k == "f":
            return FltV(o[1], ("fc", o[2]))
        if k == "undef":
            return Undef(o[1].size, "undefined value")
        if k == "inttoptr":
            return PtrV(None, Lin(o[1]))
        if k == "zero":
            if o[1].kind in ("struct", "array"):
                n = len(o[1].fields) if o[1].kind == "struct" else o[1].count
                return AggV({i: IntV(64, 0) for i in range(n)})
            return IntV(8 * o[1].size, 0)
        raise Unsupported("operand %r" % (o,))

    # -------------------------------------------------------------- driving
    def call(self, st, name, args):
        """Analyse a call from the driver. -> list of (state, return value)"""
        self.root = name if not self.name else self.name + ":" + name
        F = self.m.functions.get(name)
        if F is None or F.decl:
            from .report import AnalysisBroken
            raise AnalysisBroken("function %s() not found" % name)
        self.tree_seen = {}
        n = st.copy()
        base = len(n.frames)
        self.push(n, F, args, None)
        out = []
        work, outs = [n], []
        if self.stopped:
            raise Budget(self.stopped)
        while work:
            try:
                self.explore(work, base + 1, None, outs)
                break
            except Unsupported as e:
                # the other paths are still worth checking
                self.cand = None
                if isinstance(e, Budget):
                    self.stopped = str(e)
                    self.max_states += 20000
                    work = []
                if not outs and not work:
                    raise
                self.incomplete(n, "scope", "not analysable: %s" % e)
        for o in outs:
            s = o[1]
            out.append((s, s.retval))
            self.paths += 1
            if has_event(s, "allocfail"):
                self.ok("noaf")     # the path was followed to its end without touching unallocated memory
        return out

    def push(self, st, F, args, ret):
        f = Frame.__new__(Frame)
        f.fn = F
        f.env = dict(zip(F.args, args))
        f.block = 0
        f.idx = 0
        f.prev = None
        f.ret = ret
        f.depth = len(st.frames) + 1
        st.frames.append(f)
        self.functions.add(F.name)
        if f.depth > 40:
            raise Unsupported("call depth")

    deadline = None

    stopped = None

    def explore(self, work, depth, loop, out=None):
        """Run states until they return from frame `depth` ('ret'), or, with a loop, take its back edge ('back') or leave it ('exit')."""
        if out is None:
            out = []
            work = list(work)
            if loop is not None and self.check_term:
                for st in reversed(work):
                    h = terms.Head(st, depth, loop)
                    n = len(out)
                    self.explore([st], depth, loop, out)
                    h.judge(self, out[n:])
                return out
        while work:
            st = work.pop()
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Budget("more than %d abstract states" % self.max_states)
            if lin.DEADLINE[0] and time.time() > lin.DEADLINE[0]:
                raise Budget("time limit")
            self.run(st, work, out, depth, loop)
        return out

    def run(self, st, work, out, depth, loop):
        """Execute one state until it forks, ends or reaches a boundary."""
        while True:
            f = st.frames[-1]
            b = f.fn.blocks[f.block]
            I = b.instrs[f.idx]
            op = I.op
            if op == "br":
                if len(I.succ) == 1:
                    r = self.edge(st, b.id, I.succ[0].id, depth, loop, out)
                    if r is None:
                        return
                    if r is True:
                        continue
                    work.extend(r)
                    return
                v = self.operand(st, I.ops[0])
                br = self.branch(st, v)
                for s, t in br:
                    if len(br) > 1:
                        s.trail = (s.trail, "%s%s" % (I.line, "T" if t else "F"))
                    r = self.edge(s, b.id, I.succ[0 if t else 1].id, depth, loop, out)
                    if r is None:
                        continue
                    if r is True:
                        work.append(s)
                    else:
                        work.extend(r)
                return
            if op == "switch":
                v = self.operand(st, I.ops[0])
                if isinstance(v, Undef):
                    self.fail(st, "uninit", "switch:" + self.where(st), "switch on an uninitialized value")
                    return
                groups = {}
                for c, s in zip(I.extra, I.succ[1:]):
                    groups.setdefault(s.id, []).append(c)
                if not isinstance(v, IntV):
                    raise Unsupported("switch on %r" % (v,))
                rest = st.copy()
                alive = True
                for c, s in zip(I.extra, I.succ[1:]):
                    n = rest.copy()
                    if n.assume("eq", v.l - c):
                        n.trail = (n.trail, "%scase %d" % (I.line, c))
                        r = self.edge(n, b.id, s.id, depth, loop, out)
                        if r is True:
                            work.append(n)
                        elif r:
                            work.extend(r)
                    if not rest.assume("ne", v.l - c):
                        alive = False
                        break
                if alive:
                    rest.trail = (rest.trail, "%sdefault" % I.line)
                    r = self.edge(rest, b.id, I.succ[0].id, depth, loop, out)
                    if r is True:
                        work.append(rest)
                    elif r:
                        work.extend(r)
                return
            if op == "ret":
                v = self.operand(st, I.ops[0]) if I.ops else None
                self.leave(st, f)
                st.frames.pop()
                if f.depth == depth and (loop is None):
                    st.retval = v
                    out.append(("ret", st))
                    return
                g = st.frames[-1]
                if f.ret is not None:
                    g.env[f.ret.id] = v
                g.idx += 1
                continue
            if op == "unreachable":
                return
            res = self.step(st, f, I)
            if res is True:
                f.idx += 1
                continue
            if res is False:
                return
            if res == "call":
                continue
            # list of states positioned after the instruction (values set)
            if len(res) == 1:
                st = res[0]
                st.frames[-1].idx += 1
                continue
            for s in res:
                s.frames[-1].idx += 1
                work.append(s)
            return

    def leave(self, st, f):
        """Locals of the frame die."""
        for i, v in list(f.env.items()):
            if isinstance(v, PtrV) and v.r is not None and isinstance(i, str):
                r = st.mem.get(v.r)
                if r is not None and r.kind == "alloca" and r.tag == (f.depth, i):
                    n = self.mut(st, v.r)
                    n.alive = False

    def edge(self, st, src, dst, depth, loop, out):
        """Take a CFG edge. True: continue; None: state consumed; list: replacement states."""
        f = st.frames[-1]
        F = f.fn
        if loop is not None and f.depth == depth:
            if dst == loop.header:
                self.phis(st, f, src, dst)
                out.append(("back", st))
                return None
            if dst not in loop.blocks:
                out.append(("exit", st, src, dst))
                return None
        self.phis(st, f, src, dst)
        L2 = llvmir.loops(F).get(dst)
        if L2 is not None and src not in L2.blocks:
            res = []
            for s, x, y in self.do_loop(st, L2):
                r = self.edge(s, x, y, depth, loop, out)
                if r is True:
                    res.append(s)
                elif r:
                    res.extend(r)
            return res
        return True

    def phis(self, st, f, src, dst):
        B = f.fn.blocks[dst]
        new = {}
        i = 0
        for I in B.instrs:
            if I.op != "phi":
                break
            for p, o in I.inc:
                if p == src:
                    new[I.id] = self.operand(st, o)
                    break
            i += 1
        f.env.update(new)
        f.prev = src
        f.block = dst
        f.idx = i
        return True

    # -------------------------------------------------------------- instructions
    def step(self, st, f, I):
        op = I.op
        env = f.env
        if op == "load":
            r = self.load(st, self.operand(st, I.ops[0]), I.ty)
            return self.results(r, I)
        if op == "store":
            v = self.operand(st, I.ops[0])
            p = self.operand(st, I.ops[1])
            ty = I.extra[0]
            if isinstance(v, CondV):
                out = []
                for s, b in self.concretize(st, v):
                    if self.store(s, p, ty.size, IntV(8 * ty.size, b.l)):
                        out.append(s)
                return out
            if ty.kind == "int" and isinstance(v, IntV) and v.w != 8 * ty.size:
                v = IntV(8 * ty.size, v.l)
            return self.store(st, p, ty.size, v)
        if op == "gep":
            base = self.operand(st, I.ops[0])
            off, var = I.gep
            if isinstance(base, IntV):
                base = PtrV(None, base.l)
            if isinstance(base, Undef):
                env[I.id] = base
                return True
            if not isinstance(base, PtrV):
                if off == 0 and not var:
                    env[I.id] = base
                    return True
                raise Unsupported("gep on %r" % (base,))
            o = base.o + off
            for x, scale, w in var:
                v = self.operand(st, x)
                if isinstance(v, Undef):
                    env[I.id] = v
                    return True
                if isinstance(v, PtrV) and v.r is None:
                    v = IntV(64, v.o)
                if not isinstance(v, IntV):
                    raise Unsupported("gep index %r" % (v,))
                o = o + self.signed(st, w, v.l).scale(scale)
            env[I.id] = PtrV(base.r, st.s.norm(o))
            return True
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            x, y = self.operand(st, I.ops[0]), self.operand(st, I.ops[1])
            if self.check_nsw and (I.nsw or op in ("shl", "lshr", "ashr")) and not self.no_overflow(st, op, I.ty.width, x, y):
                return []
            return self.results(self.binop(st, op, I.ty.width, x, y), I)
        if op == "icmp":
            w = I.extra.width if I.extra.kind == "int" else 64
            return self.results(self.icmp(st, I.pred, w, self.operand(st, I.ops[0]), self.operand(st, I.ops[1])), I)
        if op in ("zext", "sext", "trunc"):
            v = self.operand(st, I.ops[0])
            w = I.ty.width
            if isinstance(v, CondV):
                out = []
                for s, b in self.concretize(st, v):
                    x = b.l.c
                    s.frames[-1].env[I.id] = IntV(w, (1 << w) - 1 if x and op == "sext" else x)
                    out.append(s)
                return out
            if isinstance(v, PartU) and op == "trunc":
                env[I.id] = part(w, st.s.norm(self.wrap(st, w, v.l)), v.um & ((1 << w) - 1), v.why)
                return True
            if isinstance(v, PartU) and op == "zext":
                env[I.id] = PartU(w, v.l, v.um, v.why)
                return True
            if isinstance(v, Undef) and op == "zext":
                env[I.id] = PartU(w, ZERO, (1 << 8 * v.size) - 1 if v.size else (1 << w) - 1, v.why)
                return True
            if isinstance(v, Undef):
                env[I.id] = Undef((w + 7) // 8, v.why)
                return True
            if isinstance(v, PtrV):
                if op != "trunc":
                    env[I.id] = v
                    return True
                if v.r is None:
                    v = IntV(64, v.o)
                else:
                    al = st.mem[v.r].align
                    if w <= 64 and (1 << w) > al and w > 1:
                        # low bits of an address: only the part below the alignment is known
                        env[I.id] = IntV(w, derived(("lowaddr", v.r, st.s.norm(v.o), w), "#lowaddr", 0, (1 << w) - 1))
                        return True
                    v = IntV(64, v.o)
            if not isinstance(v, IntV):
                env[I.id] = self.opaque(st, op, w, v)
                return True
            if op == "zext":
                env[I.id] = IntV(w, v.l)
            elif op == "trunc":
                l = self.wrap(st, w, v.l)
                if w == 1:
                    l = st.s.norm(l)
                    env[I.id] = IntV(1, l) if not l.t else CondV("ne", l)
                else:
                    env[I.id] = IntV(w, l)
            else:
                w0 = v.w
                l = st.s.norm(v.l)
                sg = self.div(st, l, 1 << (w0 - 1))
                env[I.id] = IntV(w, st.s.norm(l + sg.scale((1 << w) - (1 << w0))))
            return True
        if op == "select":
            c = self.operand(st, I.ops[0])
            a, b = self.operand(st, I.ops[1]), self.operand(st, I.ops[2])
            out = []
            for s, t in self.branch(st, c):
                s.frames[-1].env[I.id] = a if t else b
                out.append(s)
            return out
        if op == "alloca":
            n = self.operand(st, I.ops[0])
            size = n.l.scale(I.extra.size)
            rid = self.region(st, "local '%s'" % I.id, size, kind="alloca", tag=(f.depth, I.id))
            env[I.id] = PtrV(rid)
            return True
        if op == "ptrtoint":
            v = self.operand(st, I.ops[0])
            if isinstance(v, PtrV) and v.r is None:
                v = IntV(I.ty.width, v.o)
            env[I.id] = v
            return True
        if op == "inttoptr":
            v = self.operand(st, I.ops[0])
            if isinstance(v, IntV):
                v = self.int_to_ptr(st, st.s.norm(v.l))
            env[I.id] = v
            return True
        if op in ("bitcast", "freeze"):
            v = self.operand(st, I.ops[0])
            if isinstance(v, FltV) and I.ty.kind == "int":
                v = self.float_bits(st, v, I.ty.width)
            elif isinstance(v, IntV) and I.ty.kind in ("float", "double"):
                v = self.bits_float(st, v, I.ty.kind)
            env[I.id] = v
            return True
        if op == "call":
            return self.do_call(st, f, I)
        if op in ("extractvalue",):
            v = self.operand(st, I.ops[0])
            if isinstance(v, AggV) and len(I.extra) == 1:
                env[I.id] = v.f.get(I.extra[0], Undef(8, "aggregate"))
                return True
            raise Unsupported("extractvalue")
        if op == "insertvalue":
            v = self.operand(st, I.ops[0])
            x = self.operand(st, I.ops[1])
            d = dict(v.f) if isinstance(v, AggV) else {}
            d[I.extra[0]] = x
            env[I.id] = AggV(d)
            return True
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg"):
            vs = [self.operand(st, o) for o in I.ops]
            if any(isinstance(v, Undef) for v in vs):
                env[I.id] = Undef(8, "arithmetic")
                return True
            if self.float_exact:
                from . import floats
                return self.results(floats.arith(self, st, op, I.ty.kind, vs), I)
            env[I.id] = self.fold_float(FltV(I.ty.kind, (op, I.ty.kind) + tuple(v.t for v in vs)))
            return True
        if op == "fcmp":
            vs = [self.operand(st, o) for o in I.ops]
            env[I.id] = self.fcmp(st, I.pred, vs[0], vs[1])
            return True
        if op in ("sitofp", "uitofp"):
            v = self.operand(st, I.ops[0])
            if isinstance(v, CondV):
                out = []
                for s, b in self.concretize(st, v):
                    s.frames[-1].env[I.id] = self.int_float(s, I.ty.kind, b.l if op == "uitofp" else -b.l)
                    out.append(s)
                return out
            if isinstance(v, Undef):
                env[I.id] = v
                return True
            l = self.signed(st, v.w, v.l) if op == "sitofp" else v.l
            env[I.id] = self.int_float(st, I.ty.kind, st.s.norm(l))
            return True
        if op in ("fptosi", "fptoui"):
            v = self.operand(st, I.ops[0])
            if isinstance(v, Undef):
                env[I.id] = v
                return True
            if self.float_exact:
                from . import floats
                return self.results(floats.to_int(self, st, op, I.ty.width, v), I)
            env[I.id] = IntV(I.ty.width, derived((op, I.ty.width, v.k, v.t), "#" + op, 0, (1 << I.ty.width) - 1))
            return True
        if op in ("fptrunc", "fpext"):
            v = self.operand(st, I.ops[0])
            if isinstance(v, Undef):
                env[I.id] = v
                return True
            if self.float_exact:
                from . import floats
                env[I.id] = floats.resize(self, st, op, I.ty.kind, v)
                return True
            env[I.id] = FltV(I.ty.kind, (op, I.ty.kind, v.t))
            return True
        if op == "atomicrmw":
            p, v = self.operand(st, I.ops[0]), self.operand(st, I.ops[1])
            return self.results(self.atomic(st, I, p, I.pred, v), I)
        if op == "cmpxchg":
            p, c, v = (self.operand(st, o) for o in I.ops[:3])
            out = []
            ty = I.extra[1]
            for s, old in (self.atomic(st, I, p, "load", None) if self.atomic_hook else self.load(st, p, ty)):
                for s2, t in self.icmp(s, "eq", ty.width, old, c):
                    for s3, eq in self.branch(s2, t):
                        r = AggV({0: old, 1: TRUE if eq else FALSE})
                        if not eq:
                            out.append((s3, r))
                        elif self.atomic_hook:
                            out += [(s4, r) for s4, _ in self.atomic(s3, I, p, "set", v)]
                        elif self.store(s3, p, ty.size, v):
                            out.append((s3, r))
            return self.results(out, I)
        raise Unsupported("instruction " + op)

    check_nsw = False
    scenarios = None         # facts a witness must meet besides those of the state: h(state) -> alternatives
    atomic_hook = None       # shared objects: h(eng, st, p, op, v, ty) -> [(state, old value)] or None

    def atomic(self, st, I, p, op, v):
        """Atomic read-modify-write. -> [(state, old value)]"""
        ty = I.extra[1]
        if op is None:
            raise Unsupported("atomic operation")
        if self.atomic_hook is not None:
            r = self.atomic_hook(self, st, p, op, v, ty)
            if r is not None:
                return r
        if op == "load":
            return self.load(st, p, ty)
        out = []
        for s, old in (self.load(st, p, ty) if op != "set" else [(st, None)]):
            for s2, new in ([(s, v)] if op in ("xchg", "set") else self.binop(s, op, ty.width, old, v)):
                if self.store(s2, p, ty.size, new):
                    out.append((s2, old))
        return out

    def no_overflow(self, st, op, w, x, y):
        """Signed arithmetic stays in range; False when the path ends."""
        if op in ("shl", "lshr", "ashr"):
            if not isinstance(y, IntV):
                return True
            return self.require(st, "ge", L(w - 1) - st.s.norm(y.l), "ovf", "ovf:shift:" + self.where(st), "shift by the operand's width or more")
        if not isinstance(x, IntV) or not isinstance(y, IntV):
            return True
        a, b = st.s.norm(self.signed(st, w, x.l)), st.s.norm(self.signed(st, w, y.l))
        if op == "mul":
            if a.t and b.t:
                return True
            r = a.scale(b.c) if not b.t else b.scale(a.c)
        else:
            r = a + b if op == "add" else a - b
        r = st.s.norm(r)
        k = "ovf:" + self.where(st)
        t = "signed %s overflows" % {"add": "addition", "sub": "subtraction", "mul": "multiplication"}[op]
        return (self.require(st, "ge", Lin((1 << (w - 1)) - 1) - r, "ovf", "hi:" + k, t)
                and self.require(st, "ge", r + (1 << (w - 1)), "ovf", "lo:" + k, t))

    def fold_float(self, v):
        return v

    float_exact = False      # numbers as exact terms, see floats.py

    def int_float(self, st, k, l):
        if self.float_exact:
            from . import floats
            return floats.from_int(self, st, k, l)
        return FltV(k, ("itofp", k, l))

    def fcmp(self, st, pred, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return Undef(1, "comparison")
        neg = {"une": "oeq", "uge": "olt", "ugt": "ole", "ule": "ogt", "ult": "oge", "ueq": "one", "uno": "ord"}
        pol = True
        if pred in neg:
            pred, pol = neg[pred], False
        x, y = a.t, b.t
        if pred in ("ogt", "oge"):
            x, y, pred = y, x, {"ogt": "olt", "oge": "ole"}[pred]
        if self.float_exact:
            from . import floats
            c = floats.compare(self, st, pred, FltV(a.k, x), FltV(a.k, y))
            if c is not None:
                return c if pol else (TRUE if c == FALSE else FALSE) if isinstance(c, IntV) else c.neg()
        if self.float_order:
            u, v = self.float_rank(st, a.k, x), self.float_rank(st, a.k, y)
            if pred == "ord":
                return TRUE if pol else FALSE
            c = CondV(*{"olt": ("ge", v - u - 1), "ole": ("ge", v - u), "oeq": ("eq", v - u), "one": ("ne", v - u)}[pred])
            return c if pol else c.neg()
        return CondV("fc", ("fcmp", pred, a.k, x, y), pol)

    float_order = False

    def float_rank(self, st, k, t):
        """Integer standing for a floating-point number other than NaN; only the order (and exact small integers) count."""
        if t[0] == "fc" and float(t[1]) == int(t[1]):
            return Lin(int(t[1]))
        if t[0] == "fneg":
            return -self.float_rank(st, k, t[2])
        if t[0] == "itofp":
            lo, hi = st.s.rng(t[2])
            if lo is not None and hi is not None and -(1 << 24) <= lo and hi <= 1 << 24:
                return t[2]
        return derived(("frank", k, t), "#rank", None, None)

    def results(self, r, I):
        out = []
        for s, v in r:
            s.frames[-1].env[I.id] = v
            out.append(s)
        return out

    # -------------------------------------------------------------- calls
    def do_call(self, st, f, I):
        cal = I.callee
        if cal[0] == "fn":
            name = cal[1]
        else:
            v = self.operand(st, cal)
            if isinstance(v, FnV):
                name = v.name
            elif isinstance(v, Undef):
                self.fail(st, "uninit", "call:" + self.where(st), "call through an uninitialized pointer")
                return False
            elif isinstance(v, PtrV) and v.r is None:
                self.fail(st, "null", "call:" + self.where(st), "call through a null function pointer")
                return False
            else:
                raise Unsupported("call through %r" % (v,))
        args = [self.operand(st, o) for o in I.ops]
        h = self.models.get(name)
        if h is None:
            from . import libc
            h = libc.MODELS.get(name)
            if h is None and name.startswith("llvm."):
                h = libc.intrinsic(name)
        if h is not None:
            r = h(self, st, args, I)
            if r is None:
                pass
            else:
                return self.results(r, I)
        F = self.m.functions.get(name)
        if F is None or F.decl:
            raise Unsupported("call of external function " + name)
        if any(x.fn is F for x in st.frames) and name not in self.recursion_ok:
            raise Unsupported("recursion in " + name)
        self.push(st, F, args, I)
        return "call"

    # -------------------------------------------------------------- loops
    def do_loop(self, st, loop):
        from . import loops
        return loops.summarise(self, st, loop)


def rec_count(st, ct):
    return st.s.norm(ct.len)


def rewrite(eng, st, l, m):
    """Replace symbols inside the definitions a term is built from."""
    memo = dict(m)

    def go(l):
        r = Lin(l.c)
        for s, a in l.t:
            r = r.add(sym(s), a)
        return st.s.norm(r)

    def sym(s):
        x = memo.get(s)
        if x is not None:
            return x
        S = SYMS[s]
        x = me = Lin(0, ((s, 1),))
        if S.defn is not None and S.defn[0] != "atom" and any(isinstance(a, Lin) for a in S.defn):
            key = tuple(go(a) if isinstance(a, Lin) else a for a in S.defn)
            if key != S.defn:
                x = build(eng, st, key, S)
        memo[s] = x
        return x
    return go(l)


def build(eng, st, key, S):
    """Term for a definition, folded when its arguments are known."""
    if key[0] == "div":
        return eng.div(st, key[1], key[2])
    if key[0] == "ite":
        return eng.mk_ite(st, key[1], key[2], key[3])
    if key[0] == "lookup" and key[2].isc() and 0 <= key[2].c < len(lin.TABLES[key[1]]):
        return Lin(lin.TABLES[key[1]][key[2].c])
    if key[0] in lin.BITOPS and key[2].isc() and key[3].isc():
        return Lin(lin.BITOPS[key[0]](key[2].c, key[3].c, key[1]))
    if key[0] in ("and", "or", "xor"):
        return eng.bitop(st, key[0], key[1], key[2], key[3])
    return derived(key, S.name, S.lo, S.hi, S.impr)


def lin_of(v):
    return v.l if isinstance(v, IntV) else v.o if isinstance(v, PtrV) else None


class Inst:
    """Instantiate loop-iteration expressions at iteration j."""

    def __init__(self, eng, st, rec, j):
        self.e = eng
        self.st = st
        self.rec = rec
        self.j = j
        self.memo = {}
        self.local = rec.local

    def lin(self, l):
        r = Lin(l.c)
        for s, a in l.t:
            r = r.add(self.sym(s), a)
        return self.st.s.norm(r)

    def sym(self, s):
        if s == self.rec.ksym:
            return self.j
        x = self.memo.get(s)
        if x is not None:
            return x
        S = SYMS[s]
        if s < self.local:
            x = Lin(0, ((s, 1),))         # created before the loop
        elif S.defn is not None and S.defn[0] == "atom":
            off = self.lin(S.defn[2])
            rid = S.defn[1]
            x = self.e.atom(self.st, rid, rid, off)
        elif S.defn is not None and S.defn[0] in ("div", "ite"):
            x = build(self.e, self.st, tuple(self.lin(a) if isinstance(a, Lin) else a for a in S.defn), S)
        elif S.defn is not None and any(isinstance(a, Lin) for a in S.defn):
            key = tuple(self.lin(a) if isinstance(a, Lin) else a for a in S.defn)
            if key[0] == "lookup" and key[2].isc() and 0 <= key[2].c < len(lin.TABLES[key[1]]):
                x = Lin(lin.TABLES[key[1]][key[2].c])
            elif key[0] in lin.BITOPS and key[2].isc() and key[3].isc():
                x = Lin(lin.BITOPS[key[0]](key[2].c, key[3].c, key[1]))
            else:
                x = derived(key, S.name, S.lo, S.hi, S.impr)
        else:
            x = derived(("at", s, self.j), S.name + "@", S.lo, S.hi, S.impr)
        self.memo[s] = x
        return x

    def term(self, t):
        if isinstance(t, Lin):
            return self.lin(t)
        if isinstance(t, tuple):
            return tuple(self.term(x) for x in t)
        if isinstance(t, (IntV, PtrV, FltV)):
            return self.value(t)
        return t

    def value(self, v):
        if isinstance(v, IntV):
            return IntV(v.w, self.lin(v.l))
        if isinstance(v, PtrV):
            return PtrV(v.r, self.lin(v.o))
        if isinstance(v, FltV):
            return FltV(v.k, self.term(v.t))
        return v

    def conds(self, cs):
        for op, l in cs:
            if op == "fc":
                t = self.term(l[0])
                known = self.st.fc.get(t)
                if known is None:
                    d = dict(self.st.fc)
                    d[t] = l[1]
                    self.st.fc = d
                elif known != l[1]:
                    return False
                continue
            if not self.st.assume(op, self.lin(l)):
                return False
        return True
