"""Do loops come to an end? A ranking for summarised loops, progress for walks over linked structures, and as refutations a state that
repeats itself and a start from which no way out can ever be taken."""
from . import lin, live, llvmir
from .lin import Lin, L, ZERO, SYMS


CONTROL = {}
KEEP = []


def control(F, loop):
    """(header phis the branches in the loop depend on, whether they depend on memory or calls)"""
    key = (id(F), loop.header)
    if key in CONTROL:
        return CONTROL[key]
    defs = {}
    work = []
    for b in loop.blocks:
        B = F.blocks[b]
        for I in B.instrs:
            if I.id is not None:
                defs[I.id] = (b, I)
            if I.op in ("br", "switch", "indirectbr", "invoke") and len(I.succ) > 1:
                work += live.uses(I)
    seen = set()
    phis = set()
    mem = False
    while work:
        x = work.pop()
        if x in seen or x not in defs:
            continue
        seen.add(x)
        b, I = defs[x]
        if I.op == "phi":
            if b == loop.header:
                phis.add(x)
            work += [o[1] for p, o in I.inc if o[0] == "l" and (b != loop.header or p in loop.blocks)]
        else:
            if I.op in ("load", "call", "atomicrmw", "cmpxchg", "alloca"):
                mem = True
            work += live.uses(I)
    CONTROL[key] = r = (phis, mem)
    KEEP.append(F)
    return r


class Head:
    """A state at a loop header, to be compared with what one iteration makes of it."""

    def __init__(self, st, depth, loop):
        f = st.frames[-1]
        self.loop = loop
        ids = [I.id for I in f.fn.blocks[loop.header].instrs if I.op == "phi"]
        used = live.at(f.fn, loop.header, len(ids))
        which, self.m = control(f.fn, loop)
        self.phis = {p: f.env.get(p) for p in ids if p in used and p in which}
        self.mem = {r: (R.content, R.alive) for r, R in st.mem.items()}
        self.events = st.events
        self.nframes = len(st.frames)

    def same(self, st):
        """Whether the state is the one at the header: None if not, otherwise the equalities it takes."""
        from .loops import same, slot_lin
        if len(st.frames) != self.nframes or self.m and st.events is not self.events:
            return None
        eqs = []
        env = st.frames[-1].env
        for p, v in self.phis.items():
            w = env.get(p)
            if w is None or v is None or w.__class__ is not v.__class__:
                return None
            if v == w:
                continue
            a, b = slot_lin(v), slot_lin(w)
            if a is None or b is None or getattr(v, "w", None) != getattr(w, "w", None) or getattr(v, "r", None) != getattr(w, "r", None):
                if same(st, v, w):
                    continue
                return None
            d = st.s.norm(b - a)
            if d.isc() and d.c:
                return None
            if d.t and not st.s.entails_eq(d):
                eqs.append(d)
        for r, (c, alive) in self.mem.items() if self.m else ():
            R = st.mem.get(r)
            if R is None or R.alive != alive or R.content is not c:
                return None
        if self.m and any(r not in self.mem and R.kind == "heap" for r, R in st.mem.items()):
            return None
        t = st.s
        for d in eqs:
            t = t.add_eq(d)
            if t is None:
                return None
        return eqs

    def judge(self, eng, outs):
        for o in outs:
            if o[0] != "back":
                continue
            eqs = self.same(o[1])
            if eqs is not None and not eng.probe:
                n = len(eng.undecided)
                eng.fail(o[1], "term", "term:spin:" + eng.where(o[1]), "an iteration of the loop leaves everything as it was: the loop never ends",
                         lins=[l for l in eqs], extra=[x for l in eqs for x in (l, -l)])
                if eqs:
                    del eng.undecided[n:]       # it need not come to that
                    eng.ok("term step")
            elif eqs is None:
                eng.ok("term step")


def finite(s, rec):
    S = SYMS[s]
    return s < rec.local or (S.lo is not None and S.hi is not None)


def bounded(eng, inst, b, k, H, rec):
    """Is the number of the iteration bounded by what stands before the loop?"""
    ks = rec.ksym
    cands = []
    for op, l in [x for x in b.rlist(b.pcl, inst.G.pcl) if x[0] in ("ge", "ne", "eq")] + [("ge", l) for l in H.inv]:
        l = b.s.norm(l)
        c = [a for s, a in l.t if s == ks]
        if not c:
            continue
        if not all(s == ks or finite(s, rec) for s in l.syms()):
            continue
        cands.append(l if c[0] < 0 else -l)
        if op == "ne":
            cands += [cands[-1] + 1, cands[-1] - 1]
    return any(b.s.entails_ge(l) for l in cands)


def slots(inst, H):
    for slot, v in inst.sym.items():
        yield slot, v, (H.phis.get(slot[1]) if slot[0] == "phi" else H.cells.get(slot[1:]))


def again(eng, inst, l, loop):
    """Back states of the generic iteration with l = 0."""
    from .loops import run
    G = inst.G.copy()
    if not G.assume("eq", l):
        return []
    return run(eng, G, len(G.frames), loop, True)[0]


def ranked(eng, inst, backs, k, H, rec, loop):
    """-> True when the loop provably ends."""
    from .loops import slot_lin, substitution, HEADER
    for slot, v, kd in slots(inst, H):
        if kd is not None and kd[0] == "aff" and kd[1] and slot_lin(v) is not None and not hasattr(v, "o"):
            return True         # a counter that provably never wraps
        if kd is not None and kd[0] == "geow" and not again(eng, inst, v.l, loop):
            return True         # doubled until it overflows to zero, and zero ends the loop
    left = [b for b in backs if not bounded(eng, inst, b, k, H, rec)]
    if not left:
        return True
    cands = []
    for slot, v, kd in slots(inst, H):
        l = slot_lin(v)
        if l is None or kd is None or kd[0] not in ("any", "anyint", "anyoff", "geo", "aff"):
            continue
        for x in (l, -l):
            cands.append((x, kd[0] in ("any", "anyint", "geo")))
    for b in left:
        for op, l in [x for x in b.rlist(b.pcl, inst.G.pcl) if x[0] in ("ge", "ne")]:
            l = inst.G.s.norm(l)
            if all(s < rec.local or s == rec.ksym or SYMS[s].name in HEADER for s in l.syms()):
                for x in (l, -l):
                    if not any(x == y for y, _ in cands):
                        cands.append((x, False))
    cands = cands[:24]
    while left:
        rest = None
        for f, free in cands:
            stay = []
            for b in left:
                g = f.sub(substitution(eng, inst, b, k))
                d = f - g
                if not b.s.entails_ge(d):
                    stay = None
                    break
                if not (b.s.entails_ge(d - 1) and (free or b.s.entails_ge(f))):
                    stay.append(b)
            if stay is not None and len(stay) < len(left):
                rest = stay
                break
        if rest is None:
            return False
        left = rest
    return True


def starts(eng, st, inst, backs, rec):
    """Assignments of what stands before the loop worth a try."""
    from .loops import slot_lin
    syms = []
    for b in backs:
        for x in b.rlist(b.pcl, st.pcl):
            if x[0] not in ("ge", "ne", "eq"):
                continue
            for s in st.s.norm(x[1]).syms():
                if s < rec.local and s not in syms:
                    syms.append(s)
    for v0 in inst.v0.values():
        l = slot_lin(v0)
        for s in st.s.norm(l).syms() if l is not None else ():
            if s < rec.local and s not in syms:
                syms.append(s)
    seen = []
    for s in syms[:6]:
        lo, hi = st.s.bounds(s)
        for x in (hi, lo):
            if x is None:
                continue
            for y in (x, x - 1 if x == hi else x + 1):
                t = st.s.add_eq(Lin(-y, ((s, 1),)))
                if t is None:
                    continue
                m = t.model(want=[Lin(0, ((z, 1),)) for z in syms])
                if m is not None:
                    seen.append({z: m[z] for z in syms if z in m})
    return seen[:12]


def endless(eng, st, inst, backs, H, rec, loop):
    """An assignment of what stands before the loop under which no way out is ever open."""
    from .loops import run
    if inst.G.impr and not st.impr:
        return None
    cases = [[]]
    for slot, v, kd in slots(inst, H):
        if kd is not None and kd[0] == "geow" and SYMS[v.l.t[0][0]].values is not None and cases == [[]]:
            cases = [[v.l - x] for x in sorted(SYMS[v.l.t[0][0]].values)]
    for m in starts(eng, st, inst, backs, rec):
        dead = True
        for S, more in ([(st, [])] if rec.kmin else []) + [(inst.G, x) for x in cases]:
            G = S.copy()
            if not all(G.assume("eq", l) for l in more):
                continue
            if not all(G.assume("eq", Lin(-x, ((z, 1),))) for z, x in m.items()):
                dead = S is not st
                continue
            try:
                b, e = run(eng, G, len(G.frames), loop, True)
            except Exception:
                return None
            if e or not b:
                dead = False
                break
        if dead:
            return m
    return None


def summarised(eng, st, loop, inst, backs, exits, k, H, rec):
    """Judge a loop after its summary is final."""
    if not backs:
        eng.ok("term")
        return
    if ranked(eng, inst, backs, k, H, rec, loop):
        eng.ok("term")
        return
    w = "%s line %d" % (rec.fn, rec.line)
    m = endless(eng, st, inst, backs, H, rec, loop)
    if m is not None:
        ex = []
        for z, x in m.items():
            ex += [Lin(-x, ((z, 1),)), Lin(x, ((z, -1),))]
        eng.fail(st, "term", "term:endless:" + w, "the loop in %s never ends" % w, extra=ex)
        return
    from .absint import Violation, Unsupported
    # the first iterations, exactly; more of them from single starts
    n0 = eng.nstates
    bad = len(eng.violations)
    for m in [None] + starts(eng, st, inst, backs, rec):
        S = st.copy()
        if m is not None and not all(S.assume("eq", Lin(-x, ((z, 1),))) for z, x in m.items()):
            continue
        cur = [S]
        try:
            for i in range(3 if m is None else 80):
                outs = eng.explore(cur, len(st.frames), loop)
                cur = [o[1] for o in outs if o[0] == "back"][:8]
                if not cur or m is not None and len(outs) > 1 or len(eng.violations) > bad:
                    break
        except Unsupported:
            pass
        if len(eng.violations) > bad:
            break
    eng.nstates = n0
    key = "%s:term:rank:%s" % (eng.root, w)
    if not eng.probe and not any(v.key == key for v in eng.undecided):
        eng.undecided.append(Violation("term", key, "the loop in %s is not shown to end" % w, st))
