"""Hash table shape domain: planes whose slots hold singly linked chains of nodes, both unfolded lazily.

Loops that walk a chain or visit the planes one after another are explored to a fixpoint; chains that were compared from end to end
without a match fold back into the mark "done" of their slot.  Loops that visit all slots of a plane are decided by one generic
iteration: whatever the slots hold, the iteration must move every node of the slot at hand to a slot where a lookup finds it (or destroy
it) and must not lose, duplicate or misplace any other node."""
from . import lin, walk
from .lin import Lin, L, ZERO, SYMS, fresh
from .absint import IntV, PtrV, Undef, Unsupported, Content, NULL

WIDTH = 60


class Slots:
    """Source of a plane: every slot holds an arbitrary chain (or nothing when the table is empty)."""
    kind = "plane"

    def __init__(self, tab, no):
        self.tab = tab
        self.no = no

    def read(self, eng, st, rid, off, size, ty):
        off = st.s.norm(off)
        if size != 8 or off.c % 8 or any(a % 8 for _, a in off.t):
            raise Unsupported("odd access to a slot")
        if self.tab.empty:
            return [(st, NULL)]
        out = []
        if self.tab.mod[self.no] is None:
            # hashes are numbers of 32 bits: slots beyond are never used
            a = st.copy()
            if a.assume("ge", off - (8 << 32)):
                remember(a, ("lz", rid, off), NULL)
                out.append((a, NULL))
            if not st.assume("ge", L((8 << 32) - 8) - off):
                return out
        for o in slots(st, rid):
            if st.s.entails_eq(off - o):
                return out + self.get(eng, st, rid, o)
            if st.s.entails_ne(off - o):
                continue
            a = st.copy()
            if a.assume("eq", off - o):
                out += self.get(eng, a, rid, o)
            if not st.assume("ne", off - o):
                return out
        return out + self.unfold(eng, st, rid, off, False)

    def get(self, eng, st, rid, o):
        v = st.x[("lz", rid, o)]
        if v == "done":
            return self.unfold(eng, st, rid, o, True)
        return [(st, v)]

    def unfold(self, eng, st, rid, off, done):
        a = st.copy()
        remember(a, ("lz", rid, off), NULL)
        n = self.tab.node(eng, st, done)
        remember(st, ("lz", rid, off), PtrV(n))
        return [(a, NULL), (st, PtrV(n))]


def remember(st, k, v):
    st.x = dict(st.x)
    if v is None:
        st.x.pop(k, None)
    else:
        st.x[k] = v


def slots(st, rid):
    """Offsets of the slots of a plane whose original content is known."""
    return [k[2] for k in st.x if isinstance(k, tuple) and k[0] == "lz" and k[1] == rid]


class Node(walk.Fields):
    def read(self, eng, st, rid, off, size, ty):
        if st.mem[rid].tag in SEGS:
            raise Unsupported("chain entered again after it was searched")
        return walk.Fields.read(self, eng, st, rid, off, size, ty)


SEGS = (("seg",), ("run",))


class Table:
    """What the domain knows about the table at hand (the same for all states)."""

    def __init__(self, nxt, nodesize, empty=False):
        self.nxt = nxt
        self.nodesize = nodesize
        self.empty = empty
        self.planes = []        # region ids
        self.mod = []           # slot index is hash mod this, None when it is the hash itself
        self.report = None      # f(eng, st, cls, key, text)

    def plane(self, eng, st, size):
        no = len(self.planes)
        r = eng.region(st, "plane %d" % no, L(size), base="lazy", data=Slots(self, no), kind="heap")
        self.planes.append(r)
        return r

    def node(self, eng, st, done=False):
        """A node nobody saw before. Tags: n not compared yet, eq has the key, ne compared, nd compared as well as everything behind it,
        seg one or more compared nodes, run one or more nodes that were passed over without comparing them."""
        def nxt(eng, st, rid):
            t = st.mem[rid].tag
            a = st.copy()
            return [(a, NULL), (st, PtrV(self.node(eng, st, t == ("nd",))))]
        F = Node("node", {self.nxt: (8, nxt)})
        return eng.region(st, "node", self.nodesize, base="lazy", data=F, kind="node", tag=("nd",) if done else ("n",))


# ------------------------------------------------------------------ chains of a state

def base_of(ct):
    while ct.k != "base":
        ct = ct.prev
    return ct


def old_chain(st, tab, v):
    """Nodes of an original chain. -> (rids, end) with end NULL (ended), ('tail', rid) (not read any further)"""
    out = []
    while isinstance(v, PtrV) and v.r is not None:
        out.append(v.r)
        n = st.x.get(("lz", v.r, tab.nxt))
        if n is None:
            return out, ("tail", v.r)
        v = n
    return out, NULL


def next_of(eng, st, tab, r):
    """Current link of a node: value, or None when it is still the original one and was not read."""
    R = st.mem[r]
    ct = R.content
    if ct.k == "base":
        return st.x.get(("lz", r, tab.nxt)) if ct.val == "lazy" else Undef(8, "link")
    if ct.k == "cells" and ct.prev.k == "base" and set(ct.cells) == {tab.nxt}:
        return ct.cells[tab.nxt][1]
    raise Unsupported("odd content of a node")


def new_chain(eng, st, tab, v, what):
    """Nodes of a chain as it is now. -> (rids, end) or None when it is broken (reported)."""
    out = []
    while True:
        if isinstance(v, IntV) and st.s.entails_eq(v.l):
            v = NULL
        if isinstance(v, Undef):
            tab.report(eng, st, "chain", "uninit", what + ": a link of a chain is uninitialized")
            return None
        if not isinstance(v, PtrV):
            raise Unsupported("odd link")
        if v.r is None:
            if not st.s.entails_eq(v.o):
                tab.report(eng, st, "chain", "odd", what + ": invalid link in a chain")
                return None
            return out, NULL
        R = st.mem.get(v.r)
        if R is None or not R.alive:
            tab.report(eng, st, "chain", "dangling", what + ": a chain refers to a node which is no longer there")
            return None
        if R.kind not in ("node", "key") or not st.s.entails_eq(v.o):
            tab.report(eng, st, "chain", "foreign", what + ": a chain refers to something which is no node (%s)" % R.name)
            return None
        if v.r in out:
            tab.report(eng, st, "chain", "cycle", what + ": a chain is cyclic")
            return None
        out.append(v.r)
        n = next_of(eng, st, tab, v.r)
        if n is None:
            return out, ("tail", v.r)
        v = n


def stored(st, rid):
    """Offsets of the slots of a plane that were written."""
    out = []
    ct = st.mem[rid].content
    while ct.k != "base":
        if ct.k == "store":
            out.append(ct.off)
        elif ct.k == "cells":
            out += [L(o) for o in ct.cells]
        else:
            raise Unsupported("odd write to a plane")
        ct = ct.prev
    return out


def current(eng, st, rid, off):
    """Current content of a slot. -> [(state, value)]"""
    class T:
        kind, width, size = "ptr", 64, 8
    out = []
    for s, v in eng.read(st.copy(), rid, st.mem[rid].content, off, 8, T):
        out.append((s, eng.coerce(s, v, T)))
    return out


def fits(eng, st, tab, a, i, b, j):
    """Every node found in slot i of plane a may be kept in slot j of plane b? True, False or None (unknown)."""
    if a == b:
        return st.s.entails_eq(i - j)
    A, B = tab.mod[a], tab.mod[b]
    if B is None:
        return st.s.entails_eq(i - j) if A is None else False
    if A is not None and A % B:
        return False
    q = st.s.norm(eng.div(st, st.s.norm(i), B))
    return st.s.entails_eq(i - q.scale(B) - j)


class Audit:
    def __init__(self):
        self.removed = []
        self.added = []      # (rid, plane, slot index Lin)


def audit(eng, st, tab, planes, what, drained=None):
    """Compare the chains of the given planes with the original ones. -> [(state, Audit)]; broken chains are reported and dropped.
    drained: (plane region, slot offsets) whose nodes must have gone elsewhere."""
    work = [(s, []) for s in unread(eng, st, tab)]
    for p in planes:
        R = st.mem[p]
        if not R.alive:
            continue
        offs = []
        for o in slots(st, p) + stored(st, p):
            if not any(st.s.entails_eq(o - x) for x in offs):
                offs.append(o)
        nxt = []
        for s, acc in work:
            todo = [(s, acc)]
            for o in offs:
                if drained is not None and p == drained[0] and any(s.s.entails_eq(o - x) for x in drained[1]):
                    continue
                t2 = []
                for z, a in todo:
                    d = z.x.get(("lz", p, o))
                    if d == "done" and not stored(z, p):
                        t2.append((z, a))
                        continue
                    for y, v in current(eng, z, p, o):
                        t2.append((y, a + [(p, o, v)]))
                todo = t2
            nxt += todo
        work = nxt
        if len(work) > 64:
            raise Unsupported("too many cases in the comparison of chains")
    out = []
    for s, cur in work:
        r = judge(eng, s, tab, planes, what, drained, cur)
        if r is not None:
            out.append((s, r))
    return out


def unread(eng, st, tab):
    """What slots that were overwritten without looking at them may have held. -> [state]"""
    out = [st]
    for p in tab.planes:
        if not st.mem[p].alive:
            continue
        src = base_of(st.mem[p].content).src
        for o in stored(st, p):
            nxt = []
            for s in out:
                if any(s.s.entails_eq(o - x) for x in slots(s, p)):
                    nxt.append(s)
                else:
                    nxt += [z for z, _ in src.read(eng, s.copy(), p, o, 8, None)]
            out = nxt
    return out


def judge(eng, st, tab, planes, what, drained, cur):
    where = {}
    ends = {}
    for p, o, v in cur:
        c = new_chain(eng, st, tab, v, what)
        if c is None:
            return None
        for r in c[0]:
            if r in where:
                tab.report(eng, st, "chain", "twice", what + ": a node is in two chains (or twice in one)")
                return None
            where[r] = (p, o)
        if c[0] and c[1] != NULL:
            ends[c[1][1]] = True
    A = Audit()
    orig = {}
    for p in tab.planes:
        if p not in st.mem:
            continue
        for o in slots(st, p):
            v = st.x[("lz", p, o)]
            if v == "done":
                if not st.mem[p].alive:
                    A.removed.append("chain")
                continue
            c, end = old_chain(st, tab, v)
            for r in c:
                orig[r] = (p, o)
            if c and end != NULL:
                t = end[1]
                if t not in ends and not (st.mem[t].content.k == "base" and t in where):
                    # whatever follows the last known node is no longer linked
                    A.removed.append(("tail", t))
    no = {p: i for i, p in enumerate(tab.planes)}
    for r, (p, o) in orig.items():
        w = where.get(r)
        if st.mem[r].tag in SEGS and (st.mem[r].content.k != "base" or not st.mem[r].alive):
            raise Unsupported("part of a chain changes after it was searched")
        if w is None:
            A.removed.append(r)
            continue
        i, j = st.s.norm(o).scale(1), w[1]
        if no[p] == no[w[0]] and st.s.entails_eq(o - w[1]):
            eng.ok("chain")
            continue
        f = fits(eng, st, tab, no[p], eighth(st, o), no[w[0]], eighth(st, w[1]))
        if f:
            eng.ok("chain")
        else:
            z = st.copy()
            z.assume("ne", wanted(eng, z, tab, no[p], o, no[w[0]]) - w[1])
            tab.report(eng, z, "slot", "misplaced", what + ": a node gets into a slot where it will not be found (plane %d, offset %r)" % (no[w[0]], st.s.norm(w[1])))
            return None
    for r, (p, o) in where.items():
        if r not in orig:
            A.added.append((r, no[p], eighth(st, o)))
    return A


def wanted(eng, st, tab, a, o, b):
    i = eighth(st, o)
    if a == b or tab.mod[b] is None:
        return L(o)
    q = st.s.norm(eng.div(st, st.s.norm(i), tab.mod[b]))
    return (i - q.scale(tab.mod[b])).scale(8)


def eighth(st, o):
    o = st.s.norm(o)
    return Lin(o.c // 8, tuple((s, a // 8) for s, a in o.t))


def forget(eng, st, tab, planes):
    """Any chain may be in any slot of these planes from now on."""
    st.x = {k: v for k, v in st.x.items() if not (isinstance(k, tuple) and k[0] == "lz" and k[1] in planes)}
    for p in planes:
        if st.mem[p].alive:
            R = eng.mut(st, p)
            R.content = Content("base", val="lazy", src=base_of(R.content).src, off=p)


# ------------------------------------------------------------------ folding what was searched

def references(st, roots):
    out = set()

    def val(v):
        if isinstance(v, PtrV) and v.r is not None:
            out.add(v.r)
    for v in roots:
        val(v)
    for rid, R in st.mem.items():
        if not R.alive:
            continue
        ct = R.content
        while ct.k != "base":
            if ct.k == "cells":
                for n, v in ct.cells.values():
                    val(v)
            elif ct.k == "store":
                val(ct.val)
            ct = ct.prev
            if ct is None:
                break
    return out


def fold(eng, st, tab, known, roots):
    """Forget the details of chains which were compared without a match."""
    refs = references(st, roots)
    changed = False
    x = st.x
    for p in tab.planes:
        if not st.mem[p].alive or st.mem[p].content.k != "base":
            continue
        for o in slots(st, p):
            v = x[("lz", p, o)]
            if v == "done":
                continue
            c, end = old_chain(st, tab, v)

            def plain(r):
                """Kind of a node nobody holds a pointer to: 1 compared, 2 passed over."""
                if r in known or r in refs or not st.mem[r].alive or st.mem[r].content.k != "base":
                    return 0
                return {("ne",): 1, ("nd",): 1, ("seg",): 1, ("n",): 2, ("run",): 2}.get(st.mem[r].tag, 0)
            if end == NULL and all(plain(r) == 1 for r in c):
                if not changed:
                    st = st.copy()
                    x = dict(x)
                    changed = True
                x[("lz", p, o)] = "done"
                for r in c:
                    x.pop(("lz", r, tab.nxt), None)
                    st.mem.pop(r)
                continue
            i = 0
            while i + 1 < len(c):
                a, b = c[i], c[i + 1]
                if plain(a) and plain(a) == plain(b) and ("lz", b, tab.nxt) in x:
                    if not changed:
                        st = st.copy()
                        x = dict(x)
                        changed = True
                    x[("lz", a, tab.nxt)] = x.pop(("lz", b, tab.nxt))
                    st.mem.pop(b)
                    eng.mut(st, a).tag = SEGS[plain(a) - 1]
                    c.pop(i + 1)
                else:
                    i += 1
    if changed:
        st.x = x
    return st


def facts(st, base, live):
    """Facts of a state that matter to later steps (those on symbols that no longer occur are left out)."""
    out = set()

    def keep(syms):
        return any(s < base or s in live for s in syms)
    S = st.s
    for s, l in S.subst.items():
        if keep([s] + list(l.syms())):
            out.add(("subst", s, l))
    for t, c in S.ge.items():
        if keep([s for s, _ in t]):
            out.add(("ge", t, c))
    for l in S.ne:
        y = l.syms() if isinstance(l, Lin) else [s for s, _ in l[0]]
        if keep(list(y)):
            out.add(("ne", repr(l)))
    for s, b in S.bd.items():
        if keep([s]):
            out.add(("bd", s, b))
    for s, v in S.vs.items():
        if keep([s]):
            out.add(("vs", s, repr(v)))
    return out


def symbols(k, out=None):
    """Symbols that occur in a canonical form."""
    out = set() if out is None else out
    if isinstance(k, Lin):
        for s in k.syms():
            out.add(s)
            out |= set(lin.bases(s))
    elif isinstance(k, tuple):
        for y in k:
            symbols(y, out)
    return out


class Seen:
    def __init__(self):
        self.d = {}

    def new(self, st, k, base):
        live = symbols(k)
        f = facts(st, base, live)
        for o in self.d.setdefault(k, []):
            if o <= f:
                return False
        self.d[k].append(f)
        return True


# ------------------------------------------------------------------ loops

def hook():
    from . import loops

    def go(eng, st, loop):
        tab = getattr(eng, "tab", None)
        if tab is None or not tab.planes:
            return None
        snap = loops.snapshot(eng)
        n0 = eng.nstates
        for way in (every_slot, search):
            eng.slot_loop = eng.chain_loop = False
            try:
                r = way(eng, st, loop, tab)
                if r is not None:
                    return r
            except Unsupported as e:
                if loops.DEBUG:
                    print("  %s gives up in %s: %s" % (way.__name__, st.frames[-1].fn.name, e))
                if eng.slot_loop or eng.chain_loop:
                    raise
            loops.restore(eng, snap)
            eng.nstates = n0
        return None
    return go


def header_phis(st, loop):
    F = st.frames[-1].fn
    return [I.id for I in F.blocks[loop.header].instrs if I.op == "phi"]


def search(eng, st, loop, tab):
    depth = len(st.frames)
    phis = header_phis(st, loop)
    known = set(st.mem)
    base = len(lin.SYMS)
    seen = Seen()
    exits = []
    cur = [st.copy()]
    first = True
    total = 0
    while cur:
        nxt = []
        for s in cur:
            env = s.frames[-1].env
            roots = [env.get(p) for p in phis]
            s = fold(eng, s, tab, known, roots)
            k = walk.canon(eng, s, roots, known)
            if seen.new(s, k, base):
                nxt.append(s)
        total += len(nxt)
        if len(nxt) > WIDTH or total > 400 + 40 * len(tab.planes):
            raise Unsupported("no fixpoint over the chains")
        cur = []
        for o in eng.explore(nxt, depth, loop):
            if o[0] == "back":
                cur.append(o[1])
            else:
                exits.append(o[1:])
        if first and all(s.x is st.x for s in cur) and all(e[0].x is st.x for e in exits):
            if not any(isinstance(v, PtrV) and v.r is not None and s.mem[v.r].kind in ("node", "key") for s in cur for v in step(s, phis)):
                return None
        first = False
        eng.chain_loop = True
    return merge(eng, exits, phis, known, base)


def merge(eng, exits, phis, known, base):
    return exits


def touched(st, z, tab):
    """Slots of planes read since st. -> {plane: [offset]}"""
    out = {}
    for k in z.x:
        if isinstance(k, tuple) and k[0] == "lz" and k[1] in tab.planes and k not in st.x:
            out.setdefault(k[1], []).append(k[2])
    return out


def step(z, phis):
    return [z.frames[-1].env.get(p) for p in phis]


def delta(a, b, st):
    """Constant difference b - a of two phi values, None when there is none."""
    if a == b:
        return 0
    if isinstance(a, IntV) and isinstance(b, IntV) and a.w == b.w:
        d = st.s.norm(b.l - a.l)
        if d.isc():
            c = d.c
            if abs(c) >= 1 << (a.w - 1):
                c -= (1 << a.w) if c > 0 else -(1 << a.w)
            return c
    if isinstance(a, PtrV) and isinstance(b, PtrV) and a.r == b.r and a.r is not None:
        d = st.s.norm(b.o - a.o)
        if d.isc():
            return d.c
    return None


def every_slot(eng, st, loop, tab):
    """Decide a loop over the slots of a plane by its generic iteration."""
    if tab.empty:
        return None
    from . import live
    from . import loops
    depth = len(st.frames)
    F = st.frames[-1].fn
    phis = header_phis(st, loop)
    snap = loops.snapshot(eng)
    # what one and the next iteration touch
    probe = st
    if any(slots(st, p) or stored(st, p) for p in tab.planes if st.mem[p].alive):
        probe = settle(eng, st.copy(), tab)
        if not probe:
            loops.restore(eng, snap)
            return None
        probe = probe[0]
    one = [o[1] for o in eng.explore([probe.copy()], depth, loop) if o[0] == "back"]
    if not one:
        return None
    used = live.at(F, loop.header, len(phis))
    phis = [p for p in phis if p in used]
    v0 = step(probe, phis)
    ds = None
    for z in one:
        d = [delta(a, b, z) for a, b in zip(v0, step(z, phis))]
        if ds is None:
            ds = d
        if d != ds or None in d:
            return None
    if not any(ds):
        return None
    t1 = [touched(probe, z, tab) for z in one]
    cands = []
    for p in tab.planes:
        if all(p in t for t in t1):
            cands.append(p)
    if not cands:
        return None
    two = [o[1] for o in eng.explore([one[0].copy()], depth, loop) if o[0] == "back"]
    if not two:
        return None
    t2 = [touched(one[0], z, tab) for z in two]
    src = []
    for p in cands:
        # slots looked at by every iteration: (offset in the first one, stride)
        prog = []
        for o in t1[0][p]:
            if not all(any(probe.s.norm(o - x) == ZERO for x in t[p]) for t in t1[1:]):
                continue
            for e in t2[0].get(p, []):
                d = two[0].s.norm(e - o)
                if d.isc() and abs(d.c) == 8 and not any(abs((o - y[0]).c) == 8 and (o - y[0]).isc() for y in prog):
                    prog.append((o, d.c))
                    break
        if prog:
            src.append((p, prog))
    if not src:
        return None
    loops.restore(eng, snap)
    src.sort(key=lambda z: -tab.planes.index(z[0]))
    err = None
    best = None
    eng.slot_loop = True
    for cand in src:
        loops.restore(eng, snap)
        try:
            r = generic(eng, st, loop, tab, phis, ds, cand)
        except Unsupported as e:
            err = e
            continue
        if len(eng.violations) == len(snap[0]) and len(eng.undecided) == len(snap[1]):
            return r
        if best is None:
            best = (r, loops.snapshot(eng))
    if best is None:
        raise err
    loops.restore(eng, best[1])
    return best[0]


def settle(eng, st, tab):
    """Judge what happened to the chains so far and forget it. -> [state]"""
    out = []
    for s, A in audit(eng, st, tab, tab.planes, eng.root + "()"):
        s = s.copy()
        remember(s, "removed", s.x.get("removed", ()) + tuple(A.removed))
        remember(s, "added", s.x.get("added", ()) + tuple(A.added))
        forget(eng, s, tab, tab.planes)
        out.append(s)
    return out


def generic(eng, st, loop, tab, phis, ds, cand):
    depth = len(st.frames)
    src, prog = cand
    exits = []
    for s0 in settle(eng, st.copy(), tab):
        # no iteration at all
        for o in eng.explore([s0.copy()], depth, loop):
            if o[0] == "exit":
                if touched(s0, o[1], tab):
                    raise Unsupported("loop over slots left in the middle")
                e = o[1].copy()
                exits.append((e,) + o[2:])
        h = s0.copy()
        k = fresh("iteration", 0, (1 << 62))
        env = h.frames[-1].env
        for p, d in zip(phis, ds):
            v = env[p]
            if d == 0:
                continue
            if isinstance(v, IntV):
                l = h.s.norm(v.l + k.scale(d))
                h.assume("ge", l)
                h.assume("ge", Lin((1 << v.w) - 1) - l)
                env[p] = IntV(v.w, l)
            else:
                env[p] = PtrV(v.r, h.s.norm(v.o + k.scale(d)))
        ok = [h.s.norm(L(o) + k.scale(c)) for o, c in prog]
        after = []
        for o in eng.explore([h.copy()], depth, loop):
            if o[0] == "exit":
                if touched(h, o[1], tab):
                    raise Unsupported("loop over slots left in the middle")
                continue
            after += contract(eng, h, o[1], tab, phis, ds, src, ok)
        seen = []
        for z in after:
            f = facts(z, 1 << 60, set(range(len(lin.SYMS))))
            if any(f == y for y in seen):
                continue
            seen.append(f)
            for o in eng.explore([z.copy()], depth, loop):
                if o[0] != "exit":
                    continue
                if touched(z, o[1], tab):
                    raise Unsupported("loop over slots left in the middle")
                e = o[1].copy()
                remember(e, ("drained", src), e.x.get(("drained", src), ()) + tuple((L(o), c, k + 1) for o, c in prog))
                exits.append((e,) + o[2:])
    return exits


def contract(eng, h, z, tab, phis, ds, src, ok):
    """Back state z of the generic iteration that started in h. -> [normalised state]"""
    what = eng.root + "()"
    v0, v1 = step(h, phis), step(z, phis)
    for a, b, d in zip(v0, v1, ds):
        if delta(a, b, z) != d:
            raise Unsupported("loop counter")
    for rid, R in h.mem.items():
        N = z.mem[rid]
        if rid in tab.planes:
            if R.alive != N.alive:
                raise Unsupported("plane released in a loop over slots")
            continue
        if N.content is not R.content or N.alive != R.alive:
            raise Unsupported("%s changes in a loop over slots" % R.name)
    if not all(any(z.s.entails_eq(o - x) for o in slots(z, src)) for x in ok):
        if not slots(z, src):
            tab.report(eng, z, "lost", "skip", what + ": a slot of the plane is passed over without looking at its nodes")
            return []
        raise Unsupported("slot at hand")
    out = []
    for y in complete(eng, z, tab):
        for x, A in audit(eng, y, tab, tab.planes, what, (src, ok)):
            lost = False
            for r in A.removed:
                if isinstance(r, int) and not x.mem[r].alive:
                    eng.ok("node")
                    continue
                tab.report(eng, x, "lost", "lost", what + ": a node of the table gets lost")
                lost = True
                break
            if lost:
                continue
            if A.added:
                raise Unsupported("nodes appear in a loop over slots")
            n = x.copy()
            forget(eng, n, tab, tab.planes)
            for r in [r for r in n.mem if r not in h.mem and n.mem[r].kind == "node"]:
                n.mem.pop(r)
            n.x = {k: v for k, v in n.x.items() if not (isinstance(k, tuple) and k[0] == "lz" and k[1] not in n.mem)}
            out.append(n)
    return out


def complete(eng, st, tab):
    """Read the links of destroyed nodes that nobody read. -> [state]"""
    out = []
    work = [st]
    while work:
        s = work.pop()
        t = None
        for r, R in s.mem.items():
            if R.kind == "node" and not R.alive and ("lz", r, tab.nxt) not in s.x and base_of(R.content).val == "lazy":
                t = r
                break
        if t is None:
            out.append(s)
            continue
        for z, v in base_of(s.mem[t].content).src.read(eng, s, t, Lin(tab.nxt), 8, None):
            work.append(z)
    return out
