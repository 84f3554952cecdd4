"""Loop summaries for the abstract interpreter: exact unrolling of loops whose trip count the state bounds,
otherwise a verified inductive hypothesis (affine / geometric / unknown slots, Houdini-style invariants)."""
import os
from . import lin, llvmir, terms
from .lin import Lin, L, ZERO, SYMS, fresh, derived
from .absint import (IntV, PtrV, FnV, FltV, CondV, Undef, AggV, NULL, Unsupported, Budget, Content, LoopRec)

MAXIT = 600
FORKS = 12
WIDTH = 24
DEBUG = os.environ.get("LOOPDEBUG")


def summarise(eng, st, loop):
    """st stands at the loop header, phis evaluated. -> list of (state, src block, dst block) leaving the loop."""
    hook = getattr(eng, "loop_hook", None)
    part = None
    if hook is not None:
        part = r = hook(eng, st, loop)
        if r is not None and not isinstance(r, Partial):
            return r
    eng.noshare += 1
    snap = snapshot(eng) if part is not None else None
    n0 = eng.nstates
    try:
        r = unroll(eng, st, loop)
        if r is not None:
            return r
        return symbolic(eng, st, loop)
    except Unsupported as e:
        if part is None:
            raise
        restore(eng, part.snap)
        eng.nstates = n0
        name = st.frames[-1].fn.name
        eng.incomplete(st, "loop:" + name, "loop in %s not followed to the end: %s" % (name, part.why))
        return part.exits
    finally:
        eng.noshare -= 1


class Partial:
    """Some states that leave the loop; the walk over its iterations was not finished."""

    def __init__(self, exits, snap, why):
        self.exits, self.snap, self.why = exits, snap, why


def snapshot(eng):
    return (list(eng.violations), list(eng.undecided), dict(eng.proved), {k: set(v) for k, v in eng.tree_seen.items()})


def restore(eng, s):
    eng.violations[:] = s[0]
    eng.undecided[:] = s[1]
    eng.proved.clear()
    eng.proved.update(s[2])
    eng.tree_seen = {k: set(v) for k, v in s[3].items()}


def header_line(st, loop):
    F = st.frames[-1].fn
    best = None
    for b in loop.blocks:
        for I in F.blocks[b].instrs:
            if I.line and (best is None or I.line < best):
                best = I.line
    return best or 0


def unroll(eng, st, loop):
    snap = snapshot(eng)
    n0 = eng.nstates
    depth = len(st.frames)
    exits = []
    cur = [st.copy()]
    forks = 0
    try:
        for it in range(MAXIT):
            outs = eng.explore(cur, depth, loop)
            cur = []
            ex = 0
            for o in outs:
                if o[0] == "back":
                    cur.append(o[1])
                else:
                    exits.append(o[1:])
                    ex += 1
            if not cur:
                return exits
            if len(cur) > 1 or ex:
                forks += 1
            if forks > eng.unroll_forks or len(cur) > WIDTH:
                break
            if eng.nstates - n0 > eng.max_states // 4:
                break
    except Unsupported as e:
        if DEBUG:
            print("  unroll gives up in %s: %s" % (st.frames[-1].fn.name, e))
    restore(eng, snap)
    eng.nstates = n0
    return None


class Hyp:
    def __init__(self):
        self.phis = {}      # id -> kind
        self.cells = {}     # (rid, off, size) -> kind
        self.lw = []        # (rid, off Lin(k), size)
        self.hv = {}        # rid -> reason: whole region unknown
        self.inv = []       # [(Lin)] ge facts over header symbols
        self.peel = []      # facts for k >= 1 (op, Lin)
        self.cases = []
        self.dropped = set()


def kind_of(v0, v1s, st):
    """Hypothesis for a slot with initial value v0 and values v1s after one iteration."""
    if all(v == v0 for v in v1s):
        return ("inv",)
    if isinstance(v0, IntV):
        ds = set()
        for v in v1s:
            if not isinstance(v, IntV):
                return ("any",)
            ds.add(st.s.norm(v.l - v0.l))
        if len(ds) == 1:
            d = ds.pop()
            if d.isc():
                c = d.c
                if abs(c) >= 1 << (v0.w - 1):
                    c = c - (1 << v0.w) if c > 0 else c + (1 << v0.w)
                return ("aff", c)
        if v0.l.isc() and v0.l.c > 0 and all(v.l == v0.l.scale(2) for v in v1s):
            return ("geo", 2)
        return ("any",)
    if isinstance(v0, PtrV) and v0.r is not None:
        ds = set()
        for v in v1s:
            if not isinstance(v, PtrV) or v.r != v0.r:
                return ("anyptr",)
            ds.add(st.s.norm(v.o - v0.o))
        if len(ds) == 1:
            d = ds.pop()
            if d.isc():
                return ("aff", d.c)
        return ("anyoff",)
    if isinstance(v0, FltV) or isinstance(v0, Undef):
        if all(isinstance(v, IntV) for v in v1s) and isinstance(v0, Undef):
            return ("anyint", v1s[0].w) if len({v.w for v in v1s}) == 1 else ("undef",)
        return ("undef",)
    return ("anyptr",)


def demote(kind, v0, vals, st):
    if kind[0] in ("inv", "aff"):
        if isinstance(v0, IntV):
            if v0.l.isc() and v0.l.c > 0 and kind[0] == "aff" and kind[1] == v0.l.c:
                return ("geo", 2)
            if kind[0] == "aff":
                return ("affw", kind[1])
            return ("any",)
        if isinstance(v0, PtrV):
            if v0.r is not None and all(isinstance(v, PtrV) and v.r == v0.r for v in vals):
                return ("anyoff",)
            return ("anyptr",)
        return ("undef",)
    if kind[0] == "geo":
        return ("geow", 2)
    if kind[0] in ("geow", "affw"):
        return ("any",)
    if kind[0] == "anyoff":
        return ("anyptr",)
    return kind


def same(st, a, b):
    if a == b:
        return True
    if isinstance(a, IntV) and isinstance(b, IntV) and a.w == b.w:
        return st.s.entails_eq(a.l - b.l)
    if isinstance(a, PtrV) and isinstance(b, PtrV) and a.r == b.r:
        return st.s.entails_eq(a.o - b.o)
    if isinstance(a, Undef) and isinstance(b, Undef):
        return True
    return False


class Instance:
    """One generic header state built from a hypothesis."""

    def __init__(self, eng, st, loop, H, rec, k, kmin):
        self.sym = {}       # slot -> header value
        self.v0 = {}
        self.prev = {}
        self.ok = True
        G = st.copy()
        self.G = G
        self.rec_memo = rec.memo
        f = G.frames[-1]
        if kmin and not G.assume("ge", k - kmin):
            self.ok = False
            return
        for i, kind in H.phis.items():
            v0 = st.frames[-1].env[i]
            f.env[i] = self.value(eng, G, ("phi", i), kind, v0, k, kmin)
        for key, kind in H.cells.items():
            rid, off, size = key
            v0 = H.cell0[key]
            v = self.value(eng, G, ("cell",) + key, kind, v0, k, kmin)
            wl = G.wl
            eng.put(G, rid, off, size, v)
            G.wl = wl
        for rid in H.hv:
            r = eng.mut(G, rid)
            r.content = Content("havoc", r.content, val=("loop", k.t[0][0], rid), off=ZERO, len=None)
        seen = {}
        for rid, off, size in H.lw:
            if rid not in seen and rid not in H.hv:
                seen[rid] = True
                r = eng.mut(G, rid)
                r.content = Content("lwrite", r.content, val=rec, len=k, off=rid)
        for l in H.inv:
            if not G.assume("ge", l):
                self.ok = False
                return
        if kmin:
            for op, l, geo in H.peel:
                if not G.assume(op, l.sub({s: self.prev[slot] for s, slot in geo})):
                    self.ok = False
                    return

    def value(self, eng, G, slot, kind, v0, k, kmin):
        self.v0[slot] = v0
        t = kind[0]
        if t == "inv":
            v = v0
        elif t == "aff":
            if isinstance(v0, IntV):
                v = IntV(v0.w, v0.l + k.scale(kind[1]))
                if not (G.assume("ge", v.l) and G.assume("ge", Lin((1 << v0.w) - 1) - v.l)):
                    self.ok = False
            else:
                v = PtrV(v0.r, v0.o + k.scale(kind[1]))
        elif t == "affw":
            v = IntV(v0.w, eng.wrap(G, v0.w, v0.l + k.scale(kind[1])))
        elif t == "geo":
            x0 = v0.l.c
            vals = [x0 << i for i in range(v0.w) if x0 << i < 1 << v0.w]
            if kmin:
                p = self.geo(("p", k, slot), x0, vals)
                v = IntV(v0.w, p.scale(2))
                G.assume("ge", Lin((1 << v0.w) - 1) - v.l)
                self.prev[slot] = p
            else:
                v = IntV(v0.w, self.geo(("h", k, slot), x0, vals))
        elif t == "geow":
            x0 = v0.l.c
            vals = [x0 << i for i in range(v0.w) if x0 << i < 1 << v0.w]
            if x0 & (x0 - 1) or True:
                y = x0
                while y:
                    y = y * 2 % (1 << v0.w)
                    if y not in vals:
                        vals.append(y)
            v = IntV(v0.w, self.geo(("w", k, slot), 0, vals))
        elif t in ("any", "anyint"):
            w = v0.w if t == "any" else kind[1]
            s = derived(("acc", k.t[0][0], slot), "#acc", 0, (1 << w) - 1)
            SYMS[s.t[0][0]].impr = True
            v = IntV(w, s)
        elif t == "anyoff":
            s = derived(("acc", k.t[0][0], slot), "#off", None, None)
            SYMS[s.t[0][0]].impr = True
            v = PtrV(v0.r, s)
        else:
            v = Undef(8, "loop-carried value")
            v = Unknown(slot)
        self.sym[slot] = v
        return v


    def geo(self, key, lo, vals):
        memo = self.rec_memo
        if key not in memo:
            memo[key] = fresh("#geo", lo, max(vals), values=vals)
        return memo[key]


class Unknown:
    """Loop-carried value outside the domain; any use is unsupported."""

    def __init__(self, slot):
        self.slot = slot

    def __repr__(self):
        return "unknown loop-carried value"


HEADER = ("#acc", "#geo", "#off")


def slot_lin(v):
    return v.l if isinstance(v, IntV) else v.o if isinstance(v, PtrV) else None


def substitution(eng, inst, b, k):
    """Map header symbols to their values after the iteration that ended in back state b."""
    m = {k.t[0][0]: k + 1}
    f = b.frames[-1]
    for slot, v in inst.sym.items():
        l = slot_lin(v)
        if l is None:
            continue
        own = [s for s in l.syms() if SYMS[s].name in HEADER and s not in m]
        if not own:
            continue
        if slot[0] == "phi":
            nv = f.env.get(slot[1])
        else:
            vs = eng.read(b.copy(), slot[1], b.mem[slot[1]].content, slot[2], slot[3])
            nv = vs[0][1] if len(vs) == 1 else None
        nl = None
        if nv is not None and nv.__class__ is v.__class__ and (isinstance(v, IntV) or nv.r == v.r):
            nl = slot_lin(nv)
        if slot in inst.prev:
            m[own[0]] = l if nl is not None else fresh("#lost", None, None)
        elif nl is not None and l.t == ((own[0], 1),) and l.c == 0:
            m[own[0]] = nl
        else:
            m[own[0]] = fresh("#lost", None, None)
    return m


def initial_subst(inst, k):
    m = {k.t[0][0]: ZERO}
    for slot, v in inst.sym.items():
        l = slot_lin(v)
        if l is None:
            continue
        own = [s for s in l.syms() if SYMS[s].name in HEADER and s not in m]
        if not own:
            continue
        v0 = inst.v0[slot]
        l0 = slot_lin(v0) if v0.__class__ is v.__class__ else None
        if l0 is not None and l.t == ((own[0], 1),) and l.c == 0:
            m[own[0]] = l0
        else:
            m[own[0]] = fresh("#lost", None, None)
    return m


def run(eng, G, depth, loop, probe):
    """-> backs, exits"""
    if probe:
        eng.probe += 1
    try:
        outs = eng.explore([G.copy()], depth, loop)
    finally:
        if probe:
            eng.probe -= 1
    return [o[1] for o in outs if o[0] == "back"], [o[1:] for o in outs if o[0] == "exit"]


def settle(eng, backs, phis):
    """Loop-carried integers computed before the test of an iteration: drop wrap-arounds the test excludes."""
    for b in backs:
        env = b.frames[-1].env
        for i in phis:
            v = env.get(i)
            if isinstance(v, IntV) and v.l.t:
                l = eng.wrap(b, v.w, v.l)
                if l != v.l:
                    env[i] = IntV(v.w, l)


def new_writes(b, G):
    return b.rlist(b.wl, G.wl)


def header_syms(inst, k, local):
    ok = {k.t[0][0]}
    for v in inst.sym.values():
        l = v.l if isinstance(v, IntV) else v.o if isinstance(v, PtrV) else None
        if l is not None:
            ok.update(l.syms())
    return ok


def expressible(l, hs, local):
    for s in l.syms():
        if s in hs:
            continue
        if s >= local:
            # derived from earlier symbols only?
            bs = lin.bases(s)
            if any(x >= local and x not in hs for x in bs):
                return False
            return False
    return True


def symbolic(eng, st, loop):
    depth = len(st.frames)
    F = st.frames[-1].fn
    B = F.blocks[loop.header]
    phis = [I.id for I in B.instrs if I.op == "phi"]
    snap = snapshot(eng)
    cand0 = eng.cand
    # first iteration, exactly
    eng.cand = None
    backs, exits = run(eng, st, depth, loop, True)
    settle(eng, backs, phis)
    if not backs:
        eng.cand = cand0
        b, e = run(eng, st, depth, loop, False)
        return e
    H = Hyp()
    if DEBUG:
        print('  first', F.name, [[b.frames[-1].env[i] for i in phis] for b in backs], [st.frames[-1].env[i] for i in phis])
    for i in phis:
        H.phis[i] = kind_of(st.frames[-1].env[i], [b.frames[-1].env[i] for b in backs], st)
    H.cell0 = {}
    rec = LoopRec()
    rec.local = len(SYMS)
    rec.memo = {}
    k = fresh("k%d" % header_line(st, loop), 0, None)
    rec.k = k
    rec.ksym = k.t[0][0]
    rec.fn = F.name
    rec.line = header_line(st, loop)
    rec.count = k
    rec.entry = st
    rec.header = loop.header
    ks = rec.ksym
    kmin = 0
    wl0 = st.wl
    rounds = 0
    first = True
    while True:
        rounds += 1
        if rounds > 40:
            eng.cand = cand0
            raise Unsupported("no stable loop hypothesis in " + F.name)
        inst = Instance(eng, st, loop, H, rec, k, kmin)
        if not inst.ok:
            # generic iteration unreachable under the hypothesis
            if kmin == 0:
                eng.cand = cand0
                raise Unsupported("inconsistent loop hypothesis in " + F.name)
            backs, exits = [], []
            break
        G = inst.G
        eng.cand = cands = []
        rec.writes = list(H.lw)
        rec.cases = H.cases
        backs, exits = run(eng, G, depth, loop, True)
        settle(eng, backs, phis)
        eng.cand = cand0
        if DEBUG:
            print("  round", rounds, F.name, "line", rec.line, "phis", H.phis, "cells", H.cells, "lw", H.lw, "hv", H.hv, "inv", H.inv, "peel", H.peel, "kmin", kmin,
                  "backs", len(backs), "exits", len(exits), "cand", len(cands))
        changed = False
        # slots
        for i in phis:
            kind = H.phis[i]
            v0 = st.frames[-1].env[i]
            vals = [b.frames[-1].env[i] for b in backs]
            good = True
            for b, v in zip(backs, vals):
                if kind[0] == "inv":
                    good = same(b, v, v0)
                elif kind[0] == "aff":
                    want = IntV(v0.w, v0.l + (k + 1).scale(kind[1])) if isinstance(v0, IntV) else PtrV(v0.r, v0.o + (k + 1).scale(kind[1]))
                    good = same(b, v, want)
                elif kind[0] == "affw":
                    good = isinstance(v, IntV) and b.s.entails_eq(v.l - eng.wrap(b, v.w, v0.l + (k + 1).scale(kind[1])))
                elif kind[0] == "geo":
                    cur = inst.sym[("phi", i)]
                    good = isinstance(v, IntV) and b.s.entails_eq(v.l - cur.l.scale(2))
                elif kind[0] == "geow":
                    cur = inst.sym[("phi", i)]
                    good = isinstance(v, IntV) and b.s.entails_eq(v.l - eng.wrap(b, v.w, cur.l.scale(2)))
                elif kind[0] == "any":
                    good = isinstance(v, IntV)
                elif kind[0] == "anyoff":
                    good = isinstance(v, PtrV) and v.r == v0.r
                if not good:
                    break
            if not good:
                nk = demote(kind, v0, vals, st)
                if DEBUG:
                    print("    demote", i, kind, "->", nk, vals)
                if nk == kind:
                    if kind[0] == "any":
                        nk = ("undef",)
                    else:
                        raise Unsupported("loop slot")
                H.phis[i] = nk
                changed = True
        # memory
        for b in backs:
            for e in new_writes(b, G):
                rid = e[0]
                if rid not in st.mem or rid in H.hv:
                    continue
                if e[1] == "store":
                    off, size = e[2], e[3]
                    if st.mem[rid].lazy is not None and st.mem[rid].lazy.absorbs(eng, st, rid, off, size):
                        continue
                    loc = [s for s in off.syms() if s >= rec.local]
                    if not loc:
                        key = (rid, off, size)
                        if key not in H.cells:
                            v0s = eng.read(st.copy(), rid, st.mem[rid].content, off, size)
                            if len(v0s) != 1:
                                H.hv[rid] = "write"
                            else:
                                v0 = v0s[0][1]
                                if isinstance(v0, tuple):
                                    v0 = PtrV(eng.global_region(st, v0[1]), Lin(v0[2]))
                                ov = [c for c in H.cells if c[0] == rid and c != key and eng.relation(st, c[1], L(c[2]), off, L(size)) != "disjoint"]
                                if ov:
                                    H.hv[rid] = "overlap"
                                else:
                                    H.cells[key] = ("inv",)
                                    H.cell0[key] = v0
                            changed = True
                    elif loc == [ks]:
                        if (rid, off, size) not in H.lw:
                            H.lw.append((rid, off, size))
                            changed = True
                    else:
                        H.hv[rid] = "offset"
                        changed = True
                else:
                    H.hv[rid] = e[1]
                    changed = True
        for key, kind in list(H.cells.items()):
            rid, off, size = key
            if rid in H.hv:
                del H.cells[key]
                changed = True
                continue
            v0 = H.cell0[key]
            vals = []
            for b in backs:
                vs = eng.read(b.copy(), rid, b.mem[rid].content, off, size)
                if len(vs) != 1:
                    vals = None
                    break
                v = vs[0][1]
                if isinstance(v, tuple):
                    v = PtrV(eng.global_region(st, v[1]), Lin(v[2]))
                vals.append((b, v))
            if vals is None:
                H.hv[rid] = "cell"
                changed = True
                continue
            good = True
            for b, v in vals:
                if kind[0] == "inv":
                    good = same(b, v, v0)
                elif kind[0] == "aff":
                    want = IntV(v0.w, v0.l + (k + 1).scale(kind[1])) if isinstance(v0, IntV) else PtrV(v0.r, v0.o + (k + 1).scale(kind[1]))
                    good = same(b, v, want)
                elif kind[0] == "affw":
                    good = isinstance(v, IntV) and b.s.entails_eq(v.l - eng.wrap(b, v.w, v0.l + (k + 1).scale(kind[1])))
                elif kind[0] in ("any",):
                    good = isinstance(v, IntV)
                elif kind[0] == "geo":
                    cur = inst.sym[("cell",) + key]
                    good = isinstance(v, IntV) and b.s.entails_eq(v.l - cur.l.scale(2))
                elif kind[0] == "anyoff":
                    good = isinstance(v, PtrV) and v.r == v0.r
                if not good:
                    break
            if not good:
                vs = [v for b, v in vals]
                if kind[0] == "inv":
                    nk = kind_of(v0, vs, st) if not any(s >= rec.local for v in vs for s in vsyms(v)) else demote(kind, v0, vs, st)
                    if nk == ("inv",):
                        nk = demote(kind, v0, vs, st)
                else:
                    nk = demote(kind, v0, vs, st)
                if nk == kind:
                    nk = ("undef",)
                H.cells[key] = nk
                changed = True
        for b in backs:
            for rid, r in G.mem.items():
                r2 = b.mem.get(rid)
                if r2 is not None and r.alive != r2.alive:
                    raise Unsupported("a block allocated before the loop is released in it (%s)" % F.name)
            for rid, r in b.mem.items():
                if rid not in G.mem and r.alive and r.kind == "heap" and r.lazy is None:
                    raise Unsupported("a loop iteration leaves an allocated block (%s)" % F.name)
        if changed:
            H.inv = []
            H.peel = []
            H.dropped = set()
            H.cases = []
            first = True
            continue
        # loop-written contents: the values per case
        cases = make_cases(eng, backs, G, H)
        if H.lw and repr(cases) != repr(H.cases):
            H.cases = cases
            if len(H.lw) and rounds < 30:
                # one more round with the values known, only needed when the loop reads what it wrote
                if reads_own(H, eng):
                    continue
        # invariants
        hs = header_syms(inst, k, rec.local)
        bad = [l for l in H.inv if not all(b.s.entails_ge(l.sub(substitution(eng, inst, b, k))) for b in backs)]
        if bad:
            if DEBUG:
                print("    dropping", bad)
            H.inv = [l for l in H.inv if l not in bad]
            H.dropped.update(bad)
            continue
        new = []
        # kinds with intrinsic range facts
        for slot, v in inst.sym.items():
            kd = H.phis.get(slot[1]) if slot[0] == "phi" else H.cells.get(slot[1:])
            if kd and kd[0] == "any" and isinstance(inst.v0[slot], IntV):
                new.append(v.l - inst.v0[slot].l)
                new.append(inst.v0[slot].l - v.l)
                new.append(inst.v0[slot].l + k - v.l)
            if kd and kd[0] == "anyoff":
                new.append(v.o - inst.v0[slot].o)
                new.append(inst.v0[slot].o - v.o)
                new.append(inst.v0[slot].o + k - v.o)
        new += [l for l in cands]
        # guards
        common = None
        for b in backs:
            fs = [x for x in b.rlist(b.pcl, G.pcl) if x[0] in ("ge", "ne", "eq")]
            keys = {(op, G.s.norm(l)) for op, l in fs}
            common = keys if common is None else common & keys
            for op, l in fs:
                l = G.s.norm(l)
                if op == "ne":
                    for x in (l, -l):
                        sh = x.sub({ks: k - 1})
                        new += [x, x - 1, sh, sh - 1]
        peel = []
        for op, l in sorted(common or (), key=repr):
            if op == "ge":
                new.append(l)
                sh = l.sub({ks: k - 1})
                new.append(sh)
            if kmin:
                continue
            geo = {}
            good = True
            for x in l.syms():
                if x == ks or x < rec.local:
                    continue
                for slot, v in inst.sym.items():
                    if isinstance(v, IntV) and v.l.t == ((x, 1),) and SYMS[x].name == "#geo":
                        geo[x] = slot
                good = good and x in geo
            if good:
                peel.append((op, l.sub({ks: k - 1}), tuple(geo.items())))
        m0 = initial_subst(inst, k)
        added = False
        for l in new:
            l = st.s.norm(l)
            if l in H.inv or l in H.dropped or l.isc():
                continue
            if not expressible(l, hs, rec.local):
                continue
            if G.s.entails_ge(l):
                continue
            if st.s.entails_ge(l.sub(m0)):
                H.inv.append(l)
                added = True
            else:
                H.dropped.add(l)
        if added:
            continue
        if first:
            first = False
            # facts known only from the second iteration on
            need = [p for p in peel if p[2] or not entailed(G, p[0], p[1])] if kmin == 0 else []
            if need:
                H.peel = need
                kmin = 1
                continue
        break
    # final run
    restore(eng, snap)
    eng.cand = cand0
    res = []
    rec.final = True
    rec.kmin = kmin
    if kmin:
        b, e = run(eng, st, depth, loop, False)
        res += e
    if inst.ok:
        fill(eng, rec, inst, backs, H)
        loops0 = inst.G.loops
        inst.G.loops = loops0 + ((rec, k),)
        backs, exits = run(eng, inst.G, depth, loop, False)
        settle(eng, backs, phis)
        fill(eng, rec, inst, backs, H)
        rec.inst = inst
        for s, src, dst in exits:
            res.append((s, src, dst))
        if eng.check_term and not eng.probe:
            terms.summarised(eng, st, loop, inst, backs, res, k, H, rec)
        evs = any(c[2] for c in rec.cases)
        for s, src, dst in exits:
            if evs:
                tail = s.rlist(s.events, inst.G.events)
                s.events = (inst.G.events, ("loop", rec, k))
                for e in tail:
                    s.events = (s.events, e)
            for rid, off, size in H.lw:
                s.wl = (s.wl, (rid, "lwrite", off, size, rec))
            for rid, off, size in H.cells:
                s.wl = (s.wl, (rid, "store", off, size, None))
            for rid in H.hv:
                s.wl = (s.wl, (rid, "havoc", ZERO, None, None))
    return res


def fill(eng, rec, inst, backs, H):
    rec.cases = make_cases(eng, backs, inst.G, H)
    rec.vars = {}
    for slot, v in inst.sym.items():
        nxt = []
        for b in backs:
            if slot[0] == "phi":
                nxt.append(b.frames[-1].env[slot[1]])
            else:
                vs = eng.read(b.copy(), slot[1], b.mem[slot[1]].content, slot[2], slot[3])
                nxt.append(vs[0][1] if len(vs) == 1 else None)
        rec.vars[slot] = (inst.v0[slot], v, nxt)


def vsyms(v):
    if isinstance(v, IntV):
        return v.l.syms()
    if isinstance(v, PtrV):
        return v.o.syms()
    return ()


def entailed(G, op, l):
    if op == "ge":
        return G.s.entails_ge(l)
    if op == "eq":
        return G.s.entails_eq(l)
    return G.s.entails_ne(l)


def reads_own(H, eng):
    return False


def make_cases(eng, backs, G, H):
    cases = []
    for b in backs:
        conds = [x for x in b.rlist(b.pcl, G.pcl)]
        evs = b.rlist(b.events, G.events)
        vals = []
        ws = new_writes(b, G)
        for rid, off, size in H.lw:
            v = None
            for e in ws:
                if e[0] == rid and e[1] == "store" and e[2] == off and e[3] == size:
                    v = e[4]
            vals.append(v)
        cases.append((conds, vals, evs))
    return cases
