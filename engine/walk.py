"""Loops over linked structures that the state unfolds lazily: the loop is explored until every state that arrives at its
header repeats an earlier one up to the names of nodes (a fixpoint over canonical forms of the reachable structure)."""
from . import lin
from .lin import Lin
from .absint import IntV, PtrV, FnV, FltV, Undef, AggV, CondV, ByteOf, Unsupported, Content, NULL

LIMIT = 14
WIDTH = 40


class Fields:
    """Source of a lazily created region: {offset: (size, make(eng, st, rid) -> [(state, value)])}; other bytes are arbitrary."""

    def __init__(self, kind, fields):
        self.kind = kind
        self.fields = fields

    def read(self, eng, st, rid, off, size, ty):
        off = st.s.norm(off)
        if not off.t:
            k = ("lz", rid, off.c)
            v = st.x.get(k)
            f = self.fields.get(off.c)
            if v is not None and f[0] == size:
                return [(st, v)]
            if f is not None and f[0] == size:
                out = []
                for s, v in f[1](eng, st, rid):
                    s.x = dict(s.x)
                    s.x[k] = v
                    out.append((s, v))
                return out
            for o, (n, _) in self.fields.items():
                if o < off.c + size and off.c < o + n:
                    if n > size and o <= off.c and off.c + size <= o + n:
                        res = []
                        for s, v in self.read(eng, st, rid, Lin(o), n, None):
                            res.append((s, eng.slice(s, v, off.c - o, size)))
                        return res
                    raise Unsupported("odd access to a field of a %s" % self.kind)
        else:
            for o, (n, _) in self.fields.items():
                if eng.relation(st, off, Lin(size), Lin(o), Lin(n)) != "disjoint":
                    raise Unsupported("access to a %s at a variable offset" % self.kind)
        if size > 1:
            return eng.read_bytes(st, rid, Content("base", val="lazy", src=self, off=rid), off, size)
        return [(st, IntV(8, eng.atom(st, rid, rid, off)))]


def canon(eng, st, roots, known, skip=()):
    """Canonical form of the structure reachable from the values `roots` and from the regions `known`."""
    num = {}
    queue = []

    def reg(r):
        if r in num:
            return num[r]
        if r in known:
            num[r] = ("k", r)
        else:
            num[r] = ("n", sum(1 for x in num.values() if x[0] == "n"))
        queue.append(r)
        return num[r]

    def val(v):
        if isinstance(v, PtrV):
            if v.r is None:
                return ("null", st.s.norm(v.o))
            return ("p", reg(v.r), st.s.norm(v.o))
        if isinstance(v, IntV):
            return ("i", v.w, lin_(v.l))
        if isinstance(v, FnV):
            return ("f", v.name)
        if isinstance(v, Undef):
            return ("u", v.size)
        if isinstance(v, FltV):
            return ("flt", v.k, v.t)
        if isinstance(v, CondV):
            return ("c", v.op, lin_(v.l))
        if isinstance(v, ByteOf):
            return ("b", val(v.v), v.i)
        if isinstance(v, AggV):
            return ("agg", tuple(sorted((i, val(x)) for i, x in v.f.items())))
        return ("?", v)

    def lin_(l):
        return st.s.norm(l)

    def content(ct):
        out = []
        while ct is not None:
            k = ct.k
            if k == "cells":
                for o in sorted(ct.cells):
                    out.append((o, ct.cells[o][0], val(ct.cells[o][1])))
            elif k == "base":
                # the identity of untouched content
                b = ct.off
                out.append(("base", ct.val if isinstance(ct.val, str) else id(ct.val),
                            getattr(ct.src, "kind", None), reg(b) if b in st.mem else b))
            elif k == "store":
                out.append(("store", st.s.norm(ct.off), ct.len, val(ct.val)))
            else:
                out.append(("log", id(ct)))
                keep.append(ct)
                break
            ct = ct.prev
        return tuple(out)

    keep = eng.__dict__.setdefault("canon_keep", [])
    out = [tuple(val(v) for v in roots)]
    for r in sorted(known, key=repr):
        if r in st.mem:
            reg(r)
    body = []
    i = 0
    lazies = {}
    for k, v in st.x.items():
        if isinstance(k, tuple) and k[0] == "lz":
            lazies.setdefault(k[1], []).append((k[2], v))
    while i < len(queue):
        r = queue[i]
        i += 1
        R = st.mem.get(r)
        if R is None:
            body.append((num[r], "gone"))
            continue
        if not R.alive:
            body.append((num[r], "dead"))
            continue
        body.append((num[r], R.kind, None if R.size is None or num[r][0] == "n" else st.s.norm(R.size), content(R.content),
                     tuple((o, val(v)) for o, v in sorted(lazies.get(r, ()), key=lambda z: (isinstance(z[0], Lin), repr(z[0]) if isinstance(z[0], Lin) else z[0]))), R.tag))
    # live blocks nobody refers to
    lost = sorted({repr((R.kind, R.tag)) for r, R in st.mem.items() if r not in num and R.alive and R.kind in ("heap", "node")})
    out.append(tuple(body))
    out.append(tuple(lost))
    return tuple(out)


def hook(limit=LIMIT):
    from . import loops

    def go(eng, st, loop):
        snap = loops.snapshot(eng)
        n0 = eng.nstates
        depth = len(st.frames)
        F = st.frames[-1].fn
        phis = [I.id for I in F.blocks[loop.header].instrs if I.op == "phi"]
        known = set(st.mem)
        seen = set()
        exits = []
        cur = [st.copy()]
        first = True
        try:
            for it in range(limit):
                nxt = []
                for s in cur:
                    env = s.frames[-1].env
                    k = canon(eng, s, [env.get(p) for p in phis], known)
                    if k in seen:
                        continue
                    seen.add(k)
                    nxt.append(s)
                if not nxt:
                    eng.walked = getattr(eng, "walked", 0) + 1
                    return exits
                if len(nxt) > WIDTH:
                    break
                cur = []
                for o in eng.explore([s.copy() for s in nxt], depth, loop):
                    if o[0] == "back":
                        cur.append(o[1])
                    else:
                        exits.append(o[1:])
                if first and all(s.x is st.x for s in cur) and all(e[0].x is st.x for e in exits):
                    break       # nothing was unfolded: not a walk over a linked structure
                first = False
        except Unsupported as e:
            if loops.DEBUG:
                print("  walk gives up in %s: %s" % (F.name, e))
        if loops.DEBUG:
            print("  no walk fixpoint in", F.name, len(cur))
        loops.restore(eng, snap)
        eng.nstates = n0
        return None
    return go


def complete(eng, st):
    """Unfold the owned fields of regions that were released or overwritten before anybody read them. -> [state]"""
    out = []
    work = [st]
    while work:
        s = work.pop()
        todo = None
        for rid, R in s.mem.items():
            base = R.content
            over = set()
            while base is not None and base.k != "base":
                if base.k == "cells":
                    over |= set(base.cells)
                else:
                    over = None
                    break
                base = base.prev
            if over is None:
                b = R.content
                while b is not None and b.k != "base":
                    b = b.prev
                base = b
            if base is None or base.val != "lazy" or not isinstance(base.src, Fields) or base.off != rid:
                continue
            for o, (n, mk) in base.src.fields.items():
                if n == 8 and ("lz", rid, o) not in s.x and (not R.alive or over is None or o in over):
                    todo = (rid, o, base.src)
                    break
            if todo:
                break
        if todo is None:
            out.append(s)
            continue
        rid, o, src = todo
        for z, v in src.read(eng, s, rid, Lin(o), 8, None):
            work.append(z)
    return out
