"""Shape domain for binary search trees (red-black or plain), path arrays and the loops that walk them.

A state knows a few nodes explicitly; everything else is summarised by
  * tokens: a child that nobody has read yet stands for an arbitrary (red-black) subtree of known black height;
  * segments: a run of ancestors/descendants on one path (an arbitrary one-hole tree), possibly listed in a path array.
Reading through a token or a segment unfolds it by case distinction. At loop heads unmodified nodes are folded back, valid
modified subtrees are rebased, and the loop is explored until every state repeats an earlier one (a fixpoint over canonical
forms). The in-order sequence of the original tree is a word over explicit nodes, tokens and segment sides, so it can be
compared with the sequence of the resulting tree whatever the shapes are."""
import os
from . import lin, live
from .lin import Lin, L, fresh, SYMS
from .absint import (IntV, PtrV, FnV, FltV, CondV, Undef, AggV, Unsupported, Budget, Content, NULL)

BLACK, RED, DAMAGED = 0, 1, 7
DEBUG = os.environ.get("LOOPDEBUG")
WIDTH = 400


class Node:
    __slots__ = ("color", "kid", "h", "depth", "some")

    def __init__(self, color, kid, h, depth, some=(False, False)):
        self.some = some        # unread children known not to be null
        self.color = color
        self.kid = kid
        self.h = h
        self.depth = depth

    def withkid(self, d, v):
        k = list(self.kid)
        k[d] = v
        return Node(self.color, tuple(k), self.h, self.depth, self.some)


class Seg:
    __slots__ = ("top", "len", "hole", "hh", "ht", "dirs", "ordered", "arr", "start", "depth", "topc", "holered")

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def but(self, **kw):
        s = Seg(**{k: getattr(self, k) for k in Seg.__slots__})
        for k, v in kw.items():
            setattr(s, k, v)
        return s


def depth_bound(node_size, bits=64):
    """Most nodes on one path of a red-black tree that fits into the address space: m <= 2 log2(n + 1), n nodes of node_size bytes."""
    n = (1 << bits) // node_size
    m = 0
    while (1 << (m + 1)) <= (n + 1) ** 2:
        m += 1
    return m


class Tree:
    """The original (last agreed) tree of a state."""

    def __init__(self, layout):
        self.layout = layout
        self.nodes = {}
        self.segs = {}
        self.root = NULL
        self.facts = {}
        self.goal = ("same",)
        self.balanced = True
        self.D = layout.D
        self.rootcell = None
        self.keyed = False
        self.dropped = False
        self.base = None
        self.basemem = frozenset()
        self.watermark = 0
        self.extra = ()
        self.outside = frozenset()
        self.basepcl = None
        self.baseatoms = {}
        self.unknown = None     # entries of a path array that the driver describes

    def copy(self):
        t = Tree.__new__(Tree)
        t.__dict__.update(self.__dict__)
        t.nodes = dict(self.nodes)
        t.segs = dict(self.segs)
        t.facts = dict(self.facts)
        return t

    def freeze(self, eng, st):
        """The driver's objects and facts so far survive folding."""
        self.base = st.s
        self.basemem = frozenset(st.mem)
        self.watermark = len(SYMS)
        self.basepcl = st.pcl
        self.baseatoms = st.atoms

    def bytop(self, rid):
        for sid, s in self.segs.items():
            if s.top == rid:
                return sid
        return None


def T(st):
    return st.x["T"]


def edit(st):
    t = st.x["T"].copy()
    st.x = dict(st.x)
    st.x["T"] = t
    return t


def paths(st, rid):
    return st.x.get(("path", rid), ())


def setpath(st, rid, entries):
    st.x = dict(st.x)
    st.x[("path", rid)] = tuple(entries)


def newnode(eng, st, t):
    return t.layout.region(eng, st)


SID = [0]


def newsid():
    SID[0] += 1
    return SID[0]


# ------------------------------------------------------------------ unfolding

def kid(eng, st, rid, d):
    """Original child of an explicit node. -> [(state, PtrV or NULL)]"""
    t = T(st)
    n = t.nodes[rid]
    v = n.kid[d]
    if v is not None:
        return [(st, v)]
    out = []
    s = st.copy()
    if not n.some[d] and (not t.balanced or s.assume("eq", n.h[d])):
        e = edit(s)
        e.nodes[rid] = n.withkid(d, NULL)
        out.append((s, NULL))
    for c in (BLACK, RED):
        if t.balanced and c == RED and n.color == RED:
            continue
        s = st.copy()
        dep = n.depth + 1
        h = n.h[d]
        if t.balanced:
            if c == BLACK:
                if not s.assume("ge", h - 1):
                    continue
                h = h - 1
            if not s.assume("ge", Lin(t.D - 1) - dep):
                continue
        e = edit(s)
        r = newnode(eng, s, e)
        e.nodes[r] = Node(c, (None, None), (h, h), dep)
        e.nodes[rid] = n.withkid(d, PtrV(r))
        out.append((s, PtrV(r)))
    return out


def unfold_bottom(eng, st, sid):
    """Make the last node of a segment explicit. -> [(state, rid)]"""
    t = T(st)
    g = t.segs[sid]
    out = []
    for one in (True, False):
        s0 = st.copy()
        if not (s0.assume("eq", g.len - 1) if one else s0.assume("ge", g.len - 2)):
            continue
        for c in (BLACK, RED):
            if c == RED and (g.holered or (one and RED not in g.topc)) and t.balanced:
                continue
            if c == BLACK and one and BLACK not in g.topc and t.balanced:
                continue
            for d in sorted(g.dirs):
                s = s0.copy()
                e = edit(s)
                hp = g.hh + (1 if c == BLACK else 0)
                kids = [None, None]
                kids[d] = g.hole
                dep = g.depth + g.len - 1
                if one:
                    p = g.top
                    if t.balanced and not s.assume("eq", hp - g.ht):
                        continue
                    del e.segs[sid]
                    new = None
                else:
                    p = newnode(eng, s, e)
                    if t.balanced and not s.assume("ge", g.ht - hp):
                        continue
                    new = newsid()
                    e.segs[new] = g.but(len=g.len - 1, hole=PtrV(p), hh=hp, holered=(c == RED))
                    del e.segs[sid]
                e.nodes[p] = Node(c, tuple(kids), (g.hh, g.hh), s.s.norm(dep))
                if g.ordered:
                    e.facts[p] = -1 if d == 0 else 1
                if g.arr is not None:
                    ent = []
                    for x in paths(s, g.arr):
                        if x[1] == "seg" and x[2] == sid:
                            if new is not None:
                                ent.append((x[0], "seg", new))
                            ent.append((s.s.norm(g.start + g.len - 1), "val", PtrV(p)))
                        else:
                            ent.append(x)
                    setpath(s, g.arr, ent)
                out.append((s, p))
    return out


def unfold_top(eng, st, sid):
    """Make the first node of a segment explicit (it keeps its region). -> [state]"""
    t = T(st)
    g = t.segs[sid]
    out = []
    for one in (True, False):
        s0 = st.copy()
        if not (s0.assume("eq", g.len - 1) if one else s0.assume("ge", g.len - 2)):
            continue
        for c in (BLACK, RED):
            if t.balanced and (c not in g.topc or (c == RED and one and g.holered)):
                continue
            for d in sorted(g.dirs):
                s = s0.copy()
                e = edit(s)
                h = g.ht - (1 if c == BLACK else 0)
                kids = [None, None]
                if one:
                    if t.balanced and not s.assume("eq", h - g.hh):
                        continue
                    kids[d] = g.hole
                    new = None
                else:
                    if t.balanced and not s.assume("ge", h - g.hh):
                        continue
                    r = newnode(eng, s, e)
                    kids[d] = PtrV(r)
                    new = newsid()
                    e.segs[new] = g.but(top=r, len=g.len - 1, ht=h, start=None if g.start is None else g.start + 1,
                                        depth=g.depth + 1, topc=frozenset((BLACK,)) if c == RED else frozenset((BLACK, RED)))
                del e.segs[sid]
                e.nodes[g.top] = Node(c, tuple(kids), (h, h), g.depth)
                if g.ordered:
                    e.facts[g.top] = -1 if d == 0 else 1
                if g.arr is not None:
                    ent = []
                    for x in paths(s, g.arr):
                        if x[1] == "seg" and x[2] == sid:
                            ent.append((x[0], "val", PtrV(g.top)))
                            if new is not None:
                                ent.append((s.s.norm(x[0] + 1), "seg", new))
                        else:
                            ent.append(x)
                    setpath(s, g.arr, ent)
                out.append(s)
    return out


def explicit(eng, st, rid):
    """States in which the node is explicit."""
    t = T(st)
    if rid in t.nodes:
        return [st]
    sid = t.bytop(rid)
    if sid is not None:
        return unfold_top(eng, st, sid)
    raise Unsupported("access to a node whose place in the tree is no longer known")


class PathSrc:
    """Initial content of a path array after folding."""
    kind = "path"

    def read(self, eng, st, rid, off, size, ty):
        if size != 8:
            raise Unsupported("partial access to a path array")
        idx = eng.div(st, st.s.norm(off), 8)
        if not st.s.entails_eq(idx.scale(8) - off):
            raise Unsupported("misaligned access to a path array")
        return self.at(eng, st, rid, idx, 0)

    def at(self, eng, st, rid, idx, lvl):
        if lvl > 6:
            raise Unsupported("access deep inside a path")
        for start, k, ref in paths(st, rid):
            if k == "val":
                d = st.s.norm(idx - start)
                if st.s.entails_eq(d):
                    return [(st, ref)]
                if not st.s.entails_ne(d):
                    out = []
                    a = st.copy()
                    if a.assume("eq", d):
                        out += self.at(eng, a, rid, idx, lvl + 1)
                    a = st.copy()
                    if a.assume("ne", d):
                        out += self.at(eng, a, rid, idx, lvl + 1)
                    return out
                continue
            g = T(st).segs[ref]
            if st.s.entails_ge(start - idx - 1) or st.s.entails_ge(idx - start - g.len):
                continue
            if st.s.entails_eq(idx - start):
                return [(st, PtrV(g.top))]
            out = []
            if not (st.s.entails_ge(idx - start) and st.s.entails_ge(start + g.len - 1 - idx)):
                # inside or outside
                a = st.copy()
                if a.assume("ge", start - idx - 1):
                    out += self.at(eng, a, rid, idx, lvl + 1)
                a = st.copy()
                if a.assume("ge", idx - start - g.len):
                    out += self.at(eng, a, rid, idx, lvl + 1)
                a = st.copy()
                if a.assume("ge", idx - start) and a.assume("ge", start + g.len - 1 - idx):
                    out += self.at(eng, a, rid, idx, lvl + 1)
                return out
            for s, p in unfold_bottom(eng, st, ref):
                out += self.at(eng, s, rid, idx, lvl + 1)
            return out
        if T(st).unknown is not None:
            return T(st).unknown(eng, st, rid, idx)
        if T(st).dropped:
            raise Unsupported("access to a path entry that is no longer known (%r in %r)" % (idx, paths(st, rid)))
        return [(st, Undef(8, "a path entry that was never written"))]


PATH = PathSrc()


# ------------------------------------------------------------------ current structure

def peek(st, rid, off, size):
    """Value last stored at a constant offset, or None when the field still has its original content."""
    ct = st.mem[rid].content
    while ct.k == "cells":
        c = ct.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        for o, (n, _) in ct.cells.items():
            if o < off + size and off < o + n:
                raise Unsupported("mixed field of a tree node")
        ct = ct.prev
    if ct.k != "base":
        raise Unsupported("tree node content")
    return None


def current(eng, st, rid):
    """(color, left, right): a child is a value, or None when it is still the unread original one."""
    return T(st).layout.current(eng, st, rid, T(st).nodes[rid])


def root(eng, st):
    t = T(st)
    v = peek(st, t.rootcell[0], t.rootcell[1], 8)
    if v is None:
        return t.root
    if isinstance(v, IntV):
        v = PtrV(None, v.l)
    if not isinstance(v, PtrV):
        raise Unsupported("root pointer")
    return v


def isnull(st, v):
    return v.r is None and st.s.entails_eq(v.o)


def original(t):
    """In-order word of the original tree."""
    out = []

    def go(v):
        if v.r is None:
            return
        n = t.nodes.get(v.r)
        if n is None:
            sid = t.bytop(v.r)
            if sid is None:
                raise Unsupported("lost part of the tree")
            if 1 in t.segs[sid].dirs:
                out.append(("A", sid))
            go(t.segs[sid].hole)
            if 0 in t.segs[sid].dirs:
                out.append(("B", sid))
            return
        if n.kid[0] is None:
            out.append(("t", v.r, 0))
        else:
            go(n.kid[0])
        out.append(("n", v.r))
        if n.kid[1] is None:
            out.append(("t", v.r, 1))
        else:
            go(n.kid[1])
    go(t.root)
    return out


class Broken(Exception):
    """The current structure is not a tree: text"""


def actual(eng, st, v=None):
    """In-order word of the current tree. Raises Broken."""
    t = T(st)
    out = []
    seen = set()

    def go(v):
        if isinstance(v, Undef):
            raise Broken("a link is uninitialized")
        if isinstance(v, IntV):
            v = PtrV(None, v.l)
        if not isinstance(v, PtrV):
            raise Unsupported("tree link")
        if v.r is None:
            if not st.s.entails_eq(v.o):
                raise Broken("a link is neither null nor a node")
            return
        if st.s.norm(v.o) != Lin(0):
            raise Broken("a link does not point to a node")
        if v.r in seen:
            raise Broken("a node is linked twice")
        seen.add(v.r)
        if v.r in t.nodes:
            if not st.mem[v.r].alive:
                raise Broken("a link points to a released node")
            c, l, r = current(eng, st, v.r)
            out.append(("t", v.r, 0)) if l is None else go(l)
            out.append(("n", v.r))
            out.append(("t", v.r, 1)) if r is None else go(r)
            return
        sid = t.bytop(v.r)
        if sid is None:
            if v.r in st.mem and not st.mem[v.r].alive:
                raise Broken("a link points to a released node")
            if v.r in st.mem and st.mem[v.r].kind == "node":
                raise Unsupported("link to a node that is no longer known")
            raise Broken("a link points to something that is not a node of the tree")
        if t.layout.touched(st, v.r):
            raise Unsupported("write to a summarised node")
        if 1 in t.segs[sid].dirs:
            out.append(("A", sid))
        go(t.segs[sid].hole)
        if 0 in t.segs[sid].dirs:
            out.append(("B", sid))
    go(root(eng, st) if v is None else v)
    return out


def height(eng, st, v, top=None, problems=None, parentred=False, lenient=()):
    """Black height of the current subtree; problems collects (kind, text). Raises Broken/Unsupported."""
    t = T(st)
    if isinstance(v, IntV):
        v = PtrV(None, v.l)
    if not isinstance(v, PtrV):
        raise Broken("a link is uninitialized")
    if v.r is None:
        return Lin(0)
    if v.r in t.nodes:
        c, l, r = current(eng, st, v.r)
        if c == DAMAGED:
            raise Broken("the type flags of a key are damaged")
        if c not in (BLACK, RED):
            raise Unsupported("colour")
        n = t.nodes[v.r]
        if parentred and c == RED:
            problems.append(("red", v.r, "a red node has a red child"))
        hs = []
        for d, x in ((0, l), (1, r)):
            if x is None:
                if c == RED and n.color == BLACK:
                    # the unread child may be red
                    s = st.copy()
                    problems.append(("red", v.r, "a red node may have a red child")) 
                hs.append(n.h[d])
            else:
                hs.append(height(eng, st, x, None, problems, c == RED))
        if not st.s.entails_eq(hs[0] - hs[1]):
            problems.append(("height", v.r, "the two subtrees of a node have different black heights (%r and %r)" % (st.s.norm(hs[0]), st.s.norm(hs[1]))))
        return hs[0] + (1 if c == BLACK else 0)
    sid = t.bytop(v.r)
    if sid is None:
        raise Unsupported("unknown part of the tree")
    g = t.segs[sid]
    if parentred and RED in g.topc:
        problems.append(("red", v.r, "a red node may have a red child"))
    # the hole must hold what the segment expects
    h = height(eng, st, g.hole, None, problems, False)
    if not st.s.entails_eq(h - g.hh):
        problems.append(("height", v.r, "a subtree has black height %r where its parent needs %r" % (st.s.norm(h), st.s.norm(g.hh))))
    x = g.hole
    if x.r is not None and not g.holered:
        c = current(eng, st, x.r)[0] if x.r in t.nodes else (RED if RED in t.segs[t.bytop(x.r)].topc else BLACK)
        if c == RED:
            problems.append(("red", x.r, "a red node may have a red parent"))
    return g.ht


def valid(eng, st):
    """-> list of problems of the current tree as a red-black tree."""
    problems = []
    v = root(eng, st)
    t = T(st)
    if isinstance(v, PtrV) and v.r is not None and v.r in t.nodes:
        if current(eng, st, v.r)[0] == RED:
            problems.append(("root", v.r, "the root is red"))
    elif isinstance(v, PtrV) and v.r is not None:
        sid = t.bytop(v.r)
        if sid is not None and RED in t.segs[sid].topc:
            problems.append(("root", v.r, "the root may be red"))
    height(eng, st, v, None, problems)
    return problems


# ------------------------------------------------------------------ order of keys

def sides(t, word):
    """For each position of the word: 1 when the item is known to be below the key (it ends with such a node for a segment), -1 above, 0 equal."""
    out = []
    for w in word:
        if w[0] == "n":
            out.append(t.facts.get(w[1]))
        elif w[0] in ("A", "B") and t.segs[w[1]].ordered:
            out.append(1 if w[0] == "A" else -1)
        else:
            out.append(None)
    return out


def implied(st, rid):
    """Sign of cmp(key, node) that follows from the order of the tree, or None."""
    t = T(st)
    f = t.facts.get(rid)
    if f is not None:
        return f
    w = original(t)
    try:
        i = w.index(("n", rid))
    except ValueError:
        return None
    sd = sides(t, w)
    for j in range(i + 1, len(w)):
        if sd[j] in (1, 0):
            return 1
    for j in range(i):
        if sd[j] in (-1, 0):
            return -1
    return None


def lineage(t, rid):
    """Items from the root down to a node of the original tree: [("n"/"s", ref, depth)] or None."""
    def go(v, depth):
        if v is None or v.r is None:
            return None
        if v.r in t.nodes:
            me = [("n", v.r, depth)]
            if v.r == rid:
                return me
            for x in t.nodes[v.r].kid:
                y = go(x, depth + 1)
                if y is not None:
                    return me + y
            return None
        sid = t.bytop(v.r)
        y = go(t.segs[sid].hole, depth + t.segs[sid].len)
        return None if y is None else [("s", sid, depth)] + y
    return go(t.root, Lin(0))


def frontier(t):
    """The last node of the search path whose comparison with the key is known."""
    v = t.root
    last = None
    while v is not None and v.r is not None:
        if v.r in t.nodes:
            f = t.facts.get(v.r)
            if f is None:
                return last
            last = v.r
            if f == 0:
                return last
            v = t.nodes[v.r].kid[0 if f < 0 else 1]
            continue
        g = t.segs[t.bytop(v.r)]
        if not g.ordered:
            return last
        v = g.hole
    return last


def gap(t, word, at=None):
    """Positions of the word at which the key belongs: everything before is below it, everything after above."""
    sd = sides(t, word)
    # an empty A/B side says nothing wrong; None items are unknown
    out = []
    for i in range(len(word) + 1):
        lo = i == 0 or sd[i - 1] == 1
        hi = i == len(word) or sd[i] == -1
        if lo and hi:
            out.append(i)
    return out


def compare(eng, st, a, b, key):
    """Model of the order: a and b are pointers, one of them the key. -> [(state, sign of (a ? b))]"""
    if a == b:
        return [(st, 0)]
    flip = 1
    if isinstance(b, PtrV) and b.r == key.r and not (isinstance(a, PtrV) and a.r == key.r):
        a, b = b, a
        flip = -1
    if not (isinstance(a, PtrV) and a.r == key.r) or not isinstance(b, PtrV) or b.r is None:
        raise Unsupported("comparison of other nodes than the key with a node of the tree")
    out = []
    for s in explicit(eng, st, b.r):
        f = implied(s, b.r)
        for c in ((f,) if f is not None else (-1, 0, 1)):
            z = s.copy()
            t = edit(z)
            t.facts[b.r] = c
            out.append((z, c * flip))
    return out


# ------------------------------------------------------------------ folding

class NoFold(Exception):
    pass


def goal_holds(eng, st):
    """Does the current tree hold exactly the nodes it should, in order? -> new goal or None"""
    t = T(st)
    try:
        now = actual(eng, st)
        was = original(t)
    except Broken:
        return None
    g = t.goal
    if g[0] == "same":
        return g if now == was else None
    if g[0] == "insert":
        n = ("n", g[1])
        if now == was:
            return g
        if n in now and [x for x in now if x != n] == was:
            i = now.index(n)
            if i in gap(t, was):
                return ("inserted", g[1])
        return None
    if g[0] == "inserted":
        return g if now == was else None
    if g[0] == "remove":
        if now == was:
            return g
        z = [r for r, f in t.facts.items() if f == 0]
        if len(z) == 1 and now == [x for x in was if x != ("n", z[0])]:
            return ("removed", z[0])
        return None
    if g[0] == "removed":
        return g if now == was else None
    return None


def merged(st, rid):
    """({offset: (size, value)}, base) of a region, or NoFold."""
    ct = st.mem[rid].content
    out = {}
    while ct.k == "cells":
        for o, (n, v) in ct.cells.items():
            if o in out:
                if out[o][0] != n:
                    raise NoFold("overlapping cells")
                continue
            for p, (m, _) in out.items():
                if p < o + n and o < p + m:
                    raise NoFold("overlapping cells")
            out[o] = (n, v)
        ct = ct.prev
    if ct.k != "base":
        raise NoFold("content of %s" % st.mem[rid].name)
    return out, ct


def written(st, rid):
    """The stores at places the loop cannot change, for memory that is neither a node nor a path array: [(offset, size, value)], newest first; or NoFold"""
    t = T(st)
    R = st.mem[rid]
    if rid not in t.basemem or R.kind in ("alloca", "node") or is_array(st, rid):
        raise NoFold("content of %s" % R.name)
    out = []
    ct = R.content
    while ct.k != "base":
        if ct.k == "store":
            out.append((st.s.norm(ct.off), ct.len, ct.val))
        elif ct.k == "cells":
            out += [(Lin(o), n, v) for o, (n, v) in sorted(ct.cells.items())]
        else:
            raise NoFold("content of %s" % R.name)
        ct = ct.prev
    for o, n, _ in out:
        if not isinstance(n, int) or any(k >= t.watermark for k, _ in o.t):
            raise NoFold("content of %s" % R.name)
    return out, ct


def is_array(st, rid):
    if ("path", rid) in st.x:
        return True
    R = st.mem[rid]
    if R.size is None or R.kind == "node":
        return False
    n = st.s.norm(R.size)
    return not n.t and n.c >= 128


def array_entries(eng, st, rid):
    """(entries [(index, "val"/"seg", ref)] sorted, other cells {off: (size, value)}); NoFold when they are not a path."""
    t = T(st)
    ents = []
    cells = {}
    ct = st.mem[rid].content

    def covered(idx):
        for i, _, _ in ents:
            d = st.s.norm(i - idx)
            if st.s.entails_eq(d):
                return True
            if not st.s.entails_ne(d):
                raise NoFold("path entries that may coincide (%r, %r)" % (st.s.norm(i), st.s.norm(idx)))
        return False
    while ct.k != "base":
        if ct.k == "store" or ct.k == "cells":
            items = [(ct.off, ct.len, ct.val)] if ct.k == "store" else [(Lin(o), n, v) for o, (n, v) in ct.cells.items()]
            for off, n, v in items:
                if n == 8 and isinstance(v, PtrV) and (v.r is None or st.mem[v.r].kind == "node"):
                    idx = st.s.norm(eng.div(st, st.s.norm(off), 8))
                    if not st.s.entails_eq(idx.scale(8) - off):
                        raise NoFold("misaligned path entry")
                    if not covered(idx):
                        ents.append((idx, "val", v))
                else:
                    if off.t:
                        raise NoFold("other content in a path array")
                    if off.c not in cells:
                        cells[off.c] = (n, v)
        else:
            raise NoFold("path array content " + ct.k)
        ct = ct.prev
    n = st.mem[rid].size
    for start, k, ref in paths(st, rid):
        if k == "val":
            if not covered(start):
                ents.append((start, k, ref))
        else:
            g = t.segs.get(ref)
            if g is None:
                continue
            for i, k2, _ in ents:
                if k2 == "val" and not (st.s.entails_ge(start - i - 1) or st.s.entails_ge(i - start - g.len)):
                    raise NoFold("overwritten path segment")
            ents.append((start, k, ref))
    # sort by index
    out = []
    for e in ents:
        i = 0
        while i < len(out):
            if st.s.entails_ge(out[i][0] - e[0]):
                break
            if not st.s.entails_ge(e[0] - out[i][0]):
                raise NoFold("unordered path entries")
            i += 1
        out.insert(i, e)
    return out, cells, ct


def liveenv(st):
    """Restrict every frame to the values that may still be used."""
    for k, f in enumerate(st.frames):
        b = f.fn.blocks[f.block]
        idx = f.idx
        ids = live.at(f.fn, f.block, idx + (1 if k < len(st.frames) - 1 else 0))
        if k < len(st.frames) - 1:
            ids.discard(b.instrs[idx].id)
        f.env = {i: v for i, v in f.env.items() if i in ids or
                 False}
        f.liveids = ids


def fold(eng, st, near=False):
    """-> (folded state, key)"""
    st = st.copy()
    t = edit(st)
    ids = []
    for k, f in enumerate(st.frames):
        b = f.fn.blocks[f.block]
        last = k == len(st.frames) - 1
        s = live.at(f.fn, f.block, f.idx + (0 if last else 1))
        if not last:
            s.discard(b.instrs[f.idx].id)
        ids.append(s)
        f.env = {i: v for i, v in f.env.items() if i in s or
                 (isinstance(v, PtrV) and v.r is not None and v.r in st.mem and st.mem[v.r].kind == "alloca" and not v.o.t and not v.o.c)}
    # ---- rebase
    if not same_structure(eng, st):
        g = goal_holds(eng, st)
        if DEBUG and g is None:
            try:
                print("   not rebased: now", actual(eng, st), "was", original(t))
            except Broken as e:
                print("   not rebased:", e, "root", root(eng, st), {r: (t.nodes[r].color, current(eng, st, r)) for r in t.nodes if dirty(eng, st, r)})
        if g is not None:
            rebase(eng, st, g)
            t = T(st)
    clean = {r for r in t.nodes if r not in t.outside and not dirty(eng, st, r)}
    # ---- arrays
    arrays = {}
    dead = {v.r for f in st.frames for v in f.env.values() if 0}
    alive = alive_regions(st)
    for rid in alive:
        if is_array(st, rid):
            e, c, base = array_entries(eng, st, rid)
            if e or ("path", rid) in st.x:
                arrays[rid] = (e, c, base)
    # ---- pins and live integers
    pins = set()
    ints = []
    ptrs = []
    exempt = t.goal[1] if t.goal[0] == "inserted" else None

    def see(v):
        if isinstance(v, PtrV) and v.r is not None:
            if v.r != exempt and (v.r in t.nodes or t.bytop(v.r) is not None):
                pins.add(v.r)
            if v.r in arrays:
                ptrs.append(v)
        elif isinstance(v, IntV) and v.w >= 16:
            ints.append(v.l)
        elif isinstance(v, AggV):
            for x in v.f.values():
                see(x)
    for f, s in zip(st.frames, ids):
        for i in s:
            if i in f.env:
                see(f.env[i])
    rr = root(eng, st)
    for rid in alive:
        if st.mem[rid].kind == "node":
            continue
        if rid in arrays:
            for o, (n, v) in arrays[rid][1].items():
                see(v)
            continue
        try:
            cells, _ = merged(st, rid)
        except NoFold:
            if st.mem[rid].kind == "alloca":
                raise
            if rid in t.basemem:
                for o, n, v in written(st, rid)[0]:
                    see(v)
            continue
        for o, (n, v) in cells.items():
            if t.rootcell == (rid, o):
                continue
            see(v)
    for x in t.extra:
        if x in t.nodes:
            pins.add(x)
    kept = set(pins) | {r for r in t.nodes if r not in clean}
    if t.keyed:
        x = frontier(t)
        if x is not None:
            kept.add(x)
    # entries right below a live index stay explicit
    bases = [Lin(0)] + [st.s.norm(eng.div(st, st.s.norm(p.o), 8)) for p in ptrs if st.s.norm(p.o).t or st.s.norm(p.o).c]
    where = {}
    def current_entry(i):
        return any(st.s.entails_eq(v + b - e - i) for v in ints + [Lin(0)] for b in bases for e in ((1, 0) if near else (1,)))
    for a, (ents, _, _) in arrays.items():
        last = None
        for i, k, ref in ents:
            if k == "val" and ref.r is not None:
                where.setdefault(ref.r, []).append((a, i))
                if current_entry(i):
                    kept.add(ref.r)
            elif k == "val" and last is not None and st.s.entails_eq(last[0] + 1 - i) and current_entry(i):
                # an empty place: the node above tells which one
                kept.add(last[1])
            last = (i, ref.r) if k == "val" and ref.r is not None else None
    # ---- tree of the explicit nodes (original = current for clean nodes)
    need = {}

    def needs(v):
        if v is None or v.r is None:
            return False
        if v.r in t.nodes:
            n = t.nodes[v.r]
            a = [needs(x) for x in n.kid]
            need[v.r] = v.r in kept or any(a)
            return need[v.r]
        sid = t.bytop(v.r)
        if sid is None:
            raise NoFold("lost node")
        a = needs(t.segs[sid].hole)
        need[v.r] = a
        return True      # segments are never forgotten once they carry a kept node or an array
    needs(t.root)
    # ---- fold
    drop = set()
    gone_entries = [False]
    chain_of = {}        # new sid -> list of (array entry keys) consumed

    def forget(v, parent_red):
        """Height of a clean subtree that becomes a token, or None when it has to stay explicit."""
        if v is None:
            return None
        if v.r is None:
            return Lin(0), ()
        if v.r not in t.nodes or v.r not in clean:
            return None
        n = t.nodes[v.r]
        if t.balanced and parent_red and n.color == RED:
            return None
        hs = []
        rs = [v.r]
        for d in (0, 1):
            if n.kid[d] is None:
                hs.append(n.h[d])
            else:
                x = forget(n.kid[d], n.color == RED)
                if x is None:
                    return None
                hs.append(x[0])
                rs += x[1]
        if t.balanced and not st.s.entails_eq(hs[0] - hs[1]):
            return None
        return hs[0] + (1 if n.color == BLACK else 0), rs

    def item(v):
        """Chain element starting at v: (kind, first rid, next value, dir set, ...) or None"""
        if v.r in t.nodes:
            n = t.nodes[v.r]
            if v.r in kept or v.r not in clean:
                return None
            nd = [x is not None and x.r is not None and needs_(x) for x in n.kid]
            if nd[0] == nd[1]:
                return None
            d = 0 if nd[0] else 1
            o = 1 - d
            if n.kid[o] is None:
                ho = n.h[o]
                rs = ()
            else:
                f = forget(n.kid[o], n.color == RED)
                if f is None:
                    return None
                ho, rs = f
            w = where.get(v.r, [])
            if len(w) > 1:
                return None
            f = t.facts.get(v.r)
            return dict(kind="n", rid=v.r, next=n.kid[d], dirs=frozenset((d,)), len=Lin(1), ordered=(f == (-1 if d == 0 else 1)),
                        arr=w[0] if w else None, hh=ho, ht=ho + (1 if n.color == BLACK else 0), color=n.color, drop=rs, depth=n.depth)
        sid = t.bytop(v.r)
        g = t.segs[sid]
        return dict(kind="s", rid=v.r, sid=sid, next=g.hole, dirs=g.dirs, len=g.len, ordered=g.ordered,
                    arr=(g.arr, g.start) if g.arr is not None else None, hh=g.hh, ht=g.ht, color=None, topc=g.topc, holered=g.holered, drop=(),
                    depth=g.depth)

    def needs_(v):
        if v.r in t.nodes:
            return need.get(v.r, False)
        return True

    def topred(v):
        """May the top of v be red?"""
        if v.r is None:
            return False
        if v.r in t.nodes:
            return t.nodes[v.r].color == RED
        return RED in t.segs[t.bytop(v.r)].topc

    consumed = {}       # rid of a chain node -> new sid

    def process(v, parent):
        """Fold below v (already known to stay). parent: colour of the node above or None for the root."""
        while v is not None and v.r is not None:
            x = item(v)
            if x is None:
                break
            chain = [x]
            bad = False
            if x["kind"] == "n":
                tc = frozenset((BLACK,)) if (parent == RED or parent is None) else frozenset((BLACK, RED))
                if t.balanced and x["color"] not in tc:
                    bad = True
            else:
                tc = x["topc"]
            while True:
                nx = x["next"]
                if nx is None or nx.r is None:
                    break
                y = item(nx)
                if y is None or y["rid"] in pins:
                    break
                # compatible?
                if t.balanced:
                    if x["color"] == RED and topred(nx):
                        break
                    if x["kind"] == "s" and topred(nx) and not x["holered"]:
                        break
                    if not st.s.entails_eq(y["ht"] - x["hh"]):
                        break
                if (x["arr"] is None) != (y["arr"] is None):
                    break
                if x["arr"] is not None and (x["arr"][0] != y["arr"][0] or not st.s.entails_eq(y["arr"][1] - x["arr"][1] - x["len"])):
                    break
                if x["ordered"] != y["ordered"] and t.keyed:
                    break
                chain.append(y)
                x = y
            if bad or (len(chain) == 1):
                if chain[0]["kind"] == "n":
                    # a single node: stays explicit
                    break_here = chain[0]["rid"]
                    tidy(break_here)
                    c = t.nodes[break_here].color
                    if bad:
                        v = x["next"] if len(chain) == 1 else t.nodes[break_here].kid[max(chain[0]["dirs"])]
                    else:
                        v = chain[0]["next"]
                    parent = c
                    continue
                parent = BLACK if t.segs[chain[0]["sid"]].holered else RED
                parent = BLACK
                v = chain[0]["next"]
                continue
            sid = newsid()
            last = chain[-1]
            first = chain[0]
            hole = last["next"]
            tot = Lin(0)
            for y in chain:
                tot = tot + y["len"]
            hr = topred(hole) and (last["kind"] == "s" and last["holered"] or last["kind"] == "n" and last["color"] == BLACK)
            g = Seg(top=first["rid"], len=tot, hole=hole, hh=last["hh"], ht=first["ht"], dirs=frozenset().union(*[y["dirs"] for y in chain]),
                    ordered=all(y["ordered"] for y in chain), arr=first["arr"][0] if first["arr"] else None,
                    start=first["arr"][1] if first["arr"] else None, depth=first["depth"], topc=tc, holered=bool(hr))
            for y in chain:
                if y["kind"] == "n":
                    consumed[y["rid"]] = sid
                    del t.nodes[y["rid"]]
                    t.facts.pop(y["rid"], None)
                else:
                    consumed[("seg", y["sid"])] = sid
                    del t.segs[y["sid"]]
                drop.update(y["drop"])
            t.segs[sid] = g
            v = hole
            parent = BLACK
        if v is None or v.r is None or v.r not in t.nodes:
            return
        n = t.nodes[v.r]
        tidy(v.r)
        n = t.nodes[v.r]
        for x in n.kid:
            if x is not None and x.r is not None:
                process(x, n.color)

    def tidy(rid):
        """Turn the children of an explicit node that nobody needs into tokens."""
        n = t.nodes[rid]
        if rid not in clean:
            return
        for d in (0, 1):
            x = n.kid[d]
            if x is None or (x.r is not None and needs_(x)):
                continue
            if x.r is None and (not t.balanced or rid in kept or t.facts.get(rid) == (-1, 1)[d]):
                continue
            f = forget(x, n.color == RED)
            if f is None:
                continue
            k = list(n.kid)
            h = list(n.h)
            k[d] = None
            h[d] = f[0]
            drop.update(f[1])
            some = list(n.some)
            some[d] = rid in kept and x.r is not None and not (t.balanced and st.s.entails_ge(f[0] - 1))
            n = Node(n.color, tuple(k), tuple(h), n.depth, tuple(some))
            t.nodes[rid] = n
    process(t.root, None)
    for r in drop:
        t.nodes.pop(r, None)
        t.facts.pop(r, None)
    # ---- arrays: new tables
    newent = {}
    for a, (ents, cells, base) in arrays.items():
        out = []
        for i, k, ref in ents:
            if k == "seg":
                sid = consumed.get(("seg", ref), ref)
            elif ref.r is not None and ref.r in consumed:
                sid = consumed[ref.r]
            elif ref.r is not None and ref.r not in t.nodes:
                if ref.r in drop:
                    t.dropped = True
                    continue
                out.append([i, "val", ref])
                continue
            elif ref.r is None and not current_entry(i):
                t.dropped = True
                continue
            else:
                out.append([i, "val", ref])
                continue
            if out and out[-1][1] == "seg" and out[-1][2] == sid:
                continue
            out.append([i, "seg", sid])
        newent[a] = out
    return rename(eng, st, ids, arrays, newent, alive)


def alive_regions(st):
    t = T(st)
    return [r for r, R in st.mem.items() if R.alive and R.kind not in ("global", "opaque") and
            (R.kind == "alloca" or r in t.basemem or R.kind in ("heap", "node") and r in t.nodes)]


def dirty(eng, st, rid):
    t = T(st)
    n = t.nodes[rid]
    c, l, r = current(eng, st, rid)
    if c != n.color:
        return True
    for d, x in ((0, l), (1, r)):
        o = n.kid[d]
        if x is None and o is None:
            continue
        if x is None or o is None or x.r != o.r:
            return True
        if x.r is None and not st.s.entails_eq(x.o):
            return True
    return False


def same_structure(eng, st):
    t = T(st)
    v = root(eng, st)
    if v.r != t.root.r:
        return False
    return not any(dirty(eng, st, r) for r in t.nodes if r not in t.outside)


def rebase(eng, st, goal):
    """The current tree becomes the original one."""
    t = edit(st)
    t.goal = goal
    v0 = root(eng, st)
    new = {}
    deep = set()
    for a in [r for r in st.mem if is_array(st, r)]:
        try:
            ents, _, _ = array_entries(eng, st, a)
        except NoFold:
            continue
        for i, k, ref in ents:
            if k == "val" and ref.r is not None:
                deep.add(ref.r)

    def go(v, depth):
        if v.r is None:
            return Lin(0), False
        if v.r in t.nodes:
            n = t.nodes[v.r]
            c, l, r = current(eng, st, v.r)
            hs = [None, None]
            foc = [False, False]
            for d, x in ((0, l), (1, r)):
                if x is None:
                    hs[d] = n.h[d]
                else:
                    hs[d], foc[d] = go(x, depth + 1)
            h = list(hs)
            if v.r in deep and not foc[0] and not foc[1]:
                dlt = st.s.norm(hs[0] - hs[1])
                if not dlt.t and dlt.c:
                    h = [hs[0] if dlt.c > 0 else hs[1]] * 2
            # the subtree on the path may be wrong by one: the other one tells
            for d in (0, 1):
                if foc[d] and not foc[1 - d]:
                    h[d] = hs[1 - d]
            new[v.r] = Node(c, (l, r), tuple(h), depth, n.some)
            return h[0] + (1 if c == BLACK else 0), foc[0] or foc[1] or v.r in deep
        sid = t.bytop(v.r)
        g = t.segs[sid]
        t.segs[sid] = g.but(depth=depth)
        _, foc = go(g.hole, depth + g.len)
        x = g.hole
        if x.r is not None and x.r in t.nodes:
            t.segs[sid] = t.segs[sid].but(holered=g.holered and current(eng, st, x.r)[0] == RED)
        return g.ht, True
    go(v0, Lin(0))
    t.outside = t.outside - set(new)
    for r in list(t.nodes):
        if r not in new and r not in t.outside:
            t.layout.detach(eng, st, r, t.nodes[r])
            del t.nodes[r]
            t.facts.pop(r, None)
    for r, n in new.items():
        t.nodes[r] = n
        t.layout.reset(eng, st, r)
    t.facts = {}
    for sid in list(t.segs):
        t.segs[sid] = t.segs[sid].but(ordered=False)
    t.keyed = False
    t.root = v0


def rename(eng, st, ids, arrays, newent, alive):
    """Give lengths, heights and indices fresh names; forget all other facts gathered since the driver's initial state."""
    t = T(st)
    old = st.s
    base = t.base.copy()
    syms = [0]

    def sym(name, lo, hi):
        syms[0] += 1
        return fresh(name, lo, hi)
    # visiting order: from the root, then detached explicit nodes
    order = []

    def visit(v):
        if v is None or v.r is None:
            return
        if v.r in t.nodes:
            order.append(("n", v.r))
            for x in t.nodes[v.r].kid:
                visit(x)
            return
        sid = t.bytop(v.r)
        if sid is None:
            raise NoFold("lost node")
        order.append(("s", sid))
        visit(t.segs[sid].hole)
    visit(t.root)
    for r in t.nodes:
        if ("n", r) not in order and r not in t.outside:
            raise NoFold("node outside the tree")
    # lengths
    newlen = {}
    for k, x in order:
        if k == "s":
            g = t.segs[x]
            n = old.norm(g.len)
            lo, hi = old.rng(n)
            own = n.t and all(y < t.watermark for y, _ in n.t)
            newlen[x] = n if own or not n.t and n.c == 1 else sym("len", 1, t.D if t.balanced else None)
    # heights: what is linked through shared levels keeps its relations, the two ends of a segment become independent
    hs = []

    def levels(v, comp):
        if v is None:
            return
        if v.r is None:
            hs.append((None, comp, Lin(0)))
            return
        if v.r in t.nodes:
            n = t.nodes[v.r]
            for d in (0, 1):
                hs.append((("n", v.r, d), comp, old.norm(n.h[d])))
            for x in n.kid:
                levels(x, comp)
            return
        sid = t.bytop(v.r)
        g = t.segs[sid]
        hs.append((("s", sid, "ht"), comp, old.norm(g.ht)))
        hs.append((("s", sid, "hh"), sid, old.norm(g.hh)))
        levels(g.hole, sid)
    levels(t.root, None)
    newh = {}
    if t.balanced:
        groups = {}
        for who, c, h in hs:
            groups.setdefault((c, h.t), []).append(h.c)
        gm = {}
        for who, c, h in hs:
            k = (c, h.t)
            if k not in gm:
                m = min(groups[k])
                if not h.t and m == 0:
                    gm[k] = (0, Lin(0))
                else:
                    lo = 1 if not h.t else old.rng(Lin(m, h.t))[0]
                    gm[k] = (m, sym("h", 1 if lo is not None and lo >= 1 else 0, 200))
            m, x = gm[k]
            newh[who] = x + (h.c - m)
    # depths and indices
    bounds = []         # (old, new) pairs
    depth = {}

    def place(v, d):
        if v is None or v.r is None:
            return
        if v.r in t.nodes:
            depth[("n", v.r)] = d
            for x in t.nodes[v.r].kid:
                place(x, d + 1)
            return
        sid = t.bytop(v.r)
        depth[("s", sid)] = d
        place(t.segs[sid].hole, d + newlen[sid])
    place(t.root, Lin(0))
    starts = {}
    tables = {}
    for a in sorted(newent, key=repr):
        pos = None
        prev_end = None
        tab = []
        for i, k, ref in newent[a]:
            if pos is None or not old.entails_eq(i - prev_end):
                p = old.norm(i)
                if p.t:
                    # a run that starts at an unknown index: relate it to the depth of the node when they agree
                    q = p if all(y < t.watermark for y, _ in p.t) else None
                    if q is not None:
                        pass
                    elif k == "val" and ref.r is not None and ("n", ref.r) in depth and old.entails_eq(t.nodes[ref.r].depth - i):
                        q = depth[("n", ref.r)]
                    elif k == "seg" and old.entails_eq(t.segs[ref].depth - i):
                        q = depth[("s", ref)]
                    if q is None:
                        for o, n in bounds:
                            dlt = old.norm(p - o)
                            if not dlt.t and -3 <= dlt.c <= 3:
                                q = n + dlt.c
                                break
                    if q is None:
                        if k == "val":
                            t.dropped = True
                            continue
                        raise NoFold("path run at an unknown index")
                    pos = q
                elif any(x[0] == "seg" for x in ()):
                    pos = p
                else:
                    pos = p
            bounds.append((i, pos))
            tab.append((pos, k, ref))
            if k == "seg":
                g = t.segs[ref]
                starts[ref] = (a, pos)
                prev_end = i + g.len
                pos = pos + newlen[ref]
            else:
                prev_end = i + 1
                pos = pos + 1
            bounds.append((prev_end, pos))
        tables[a] = tab
    bounds = [(old.norm(o), n) for o, n in bounds]
    starts_at = []
    for f, live_ids in zip(st.frames, ids):
        for i, v in f.env.items():
            if i in live_ids and isinstance(v, PtrV) and v.r in arrays:
                b = old.norm(eng.div(st, old.norm(v.o), 8))
                if b != Lin(0) and b not in starts_at:
                    starts_at.append(b)

    def mapint(l, w):
        l = old.norm(l)
        if not l.t:
            if l.c >= 2:
                for o, n in bounds:
                    if o == l and n.t:
                        return n
                # counted from a place inside a path array
                for b in starts_at:
                    for o, n in bounds:
                        if old.norm(o - b - l.c) == Lin(0):
                            for o2, n2 in bounds:
                                d = old.norm(b - o2)
                                if not d.t and -2 <= d.c <= 2 and (n - n2 - d.c).t:
                                    return n - n2 - d.c
            return l
        if all(s < t.watermark for s, _ in l.t):
            return l
        for c in (0, -1, 1, -2, 2):
            for o, n in bounds:
                d = old.norm(l - o)
                if not d.t and d.c == c:
                    return n + c
        for o, n in bounds:
            for o2, n2 in bounds:
                if o is not o2:
                    d = old.norm(l - o + o2)
                    if not d.t and -1 <= d.c <= 1:
                        return n - n2 + d.c
        lo, hi = old.rng(l)
        full = (1 << w) - 1 if w else None
        return sym("v", 0 if lo is None or (w and lo < 0) else lo, full if hi is None or (w and hi > full) else hi)
    memo = {}

    def mapv(v):
        if isinstance(v, IntV):
            k = (v.w, old.norm(v.l))
            if k not in memo:
                memo[k] = IntV(v.w, mapint(v.l, v.w))
            return memo[k]
        if isinstance(v, PtrV):
            o = old.norm(v.o)
            if v.r in arrays:
                if not o.t and o.c < 16:
                    return v
                near = []
                for b, n in bounds:
                    d = old.norm(o - b.scale(8))
                    if not d.t and -16 <= d.c <= 16:
                        near.append((abs(d.c), not n.t, d.c, n))
                if near:
                    _, _, c, n = min(near, key=lambda x: x[:3])
                    return PtrV(v.r, n.scale(8) + c)
                if not o.t or all(s < t.watermark for s, _ in o.t):
                    return v
                raise NoFold("pointer into a path array")
            if not o.t:
                return PtrV(v.r, o)
            if all(s < t.watermark for s, _ in o.t):
                return PtrV(v.r, o)
            raise NoFold("symbolic pointer")
        if isinstance(v, CondV):
            if v.op in ("ge", "eq", "ne"):
                l = old.norm(v.l)
                ent = {"ge": (old.entails_ge(l), old.entails_ge(-l - 1)), "eq": (old.entails_eq(l), old.entails_ne(l)),
                       "ne": (old.entails_ne(l), old.entails_eq(l))}[v.op]
                if ent[0]:
                    return IntV(1, 1)
                if ent[1]:
                    return IntV(1, 0)
            return CondV("ne", sym("c", 0, 1))
        if isinstance(v, (FnV, Undef)):
            return v
        raise NoFold("live value %r" % (v,))
    # ---- rebuild
    keys = []
    num = {}
    nodekeys = []
    snum = {}

    def rk(s):
        S = SYMS[s]
        if s < t.watermark:
            return ("d", s)
        if s not in snum:
            snum[s] = (len(snum), S.lo, S.hi)
        return ("s",) + snum[s]

    def lk(l):
        return (l.c, tuple(sorted(((rk(s), a) for s, a in l.t), key=repr)))

    def reg(r):
        if r is None:
            return None
        if r in num:
            return num[r]
        if r in t.basemem or isinstance(r, tuple):
            return ("k", r)
        num[r] = len(num)
        return num[r]

    def vk(v):
        if v is None:
            return "tok"
        if isinstance(v, IntV):
            return ("i", v.w, lk(v.l))
        if isinstance(v, PtrV):
            return ("p", reg(v.r), lk(v.o))
        if isinstance(v, FnV):
            return ("f", v.name)
        if isinstance(v, Undef):
            return ("u",)
        if isinstance(v, CondV):
            return ("c", v.op, lk(v.l))
        return ("?", id(v))
    for f, s in zip(st.frames, ids):
        f.env = {i: (mapv(v) if i in s else v) for i, v in f.env.items()}
    newnodes = {r: t.nodes[r] for r in t.outside if r in t.nodes}
    for k, x in order:
        if k == "n":
            n = t.nodes[x]
            newnodes[x] = Node(n.color, n.kid, (newh.get(("n", x, 0), n.h[0]), newh.get(("n", x, 1), n.h[1])), depth[("n", x)], n.some)
    newsegs = {}
    ns = base
    for k, x in order:
        if k == "s":
            g = t.segs[x]
            a = starts.get(x)
            newsegs[x] = g.but(len=newlen[x], hh=newh.get(("s", x, "hh"), g.hh), ht=newh.get(("s", x, "ht"), g.ht), depth=depth[("s", x)],
                               arr=a[0] if a else None, start=a[1] if a else None)
            if t.balanced:
                ns = ns.add_ge(newsegs[x].ht - newsegs[x].hh)
                if ns is None:
                    raise NoFold("contradictory heights")
    if t.balanced:
        for k, x in order:
            d = depth[(k, x)] + (newlen[x] - 1 if k == "s" else 0)
            if d.t:
                ns = ns.add_ge(Lin(t.D - 1) - d)
                if ns is None:
                    raise NoFold("contradictory depths")
    t = edit(st)
    t.nodes = newnodes
    t.segs = newsegs
    # regions
    for a, tab in tables.items():
        R = eng.mut(st, a)
        ct = Content("base", val="lazy", src=PATH, off=a)
        cells = {o: (n, mapv(v)) for o, (n, v) in arrays[a][1].items()}
        R.content = Content("cells", ct, cells=cells) if cells else ct
        setpath(st, a, tab)
    for r in alive:
        if r in tables or r in t.nodes or st.mem[r].kind == "node":
            continue
        if is_array(st, r) and st.mem[r].content.k == "base":
            continue
        try:
            cells, b = merged(st, r)
        except NoFold:
            w, b = written(st, r)
            for o, n, v in reversed(w):
                b = Content("store", b, off=o, len=n, val=mapv(v))
            eng.mut(st, r).content = b
            continue
        if cells:
            R = eng.mut(st, r)
            R.content = Content("cells", b, cells={o: (n, mapv(v)) for o, (n, v) in cells.items()})
    st.s = ns
    st.pcl = t.basepcl
    st.atoms = t.baseatoms
    # ---- key
    key = []
    for f, s in zip(st.frames, ids):
        key.append((f.fn.name, f.block, f.idx))
        for i in sorted(s, key=repr):
            if i in f.env:
                key.append((i, vk(f.env[i])))
    key.append(("root", vk(t.root)))
    for k, x in order:
        if k == "n":
            n = t.nodes[x]
            key.append(("n", reg(x), n.color, n.some, vk(n.kid[0]), vk(n.kid[1]), lk(n.h[0]), lk(n.h[1]), lk(n.depth), t.facts.get(x)))
            key.append(t.layout.key(eng, st, x, vk))
        else:
            g = t.segs[x]
            key.append(("s", reg(g.top), lk(g.len), vk(g.hole), lk(g.hh), lk(g.ht), tuple(sorted(g.dirs)), g.ordered,
                        g.arr if g.arr is None else reg(g.arr), tuple(sorted(g.topc)), g.holered))
            num[("seg", x)] = reg(g.top)
    limbo = [r for r in num if isinstance(r, int) and r in st.mem and st.mem[r].kind == "node" and r not in t.nodes and t.bytop(r) is None]
    for r in limbo:
        cells, b = merged(st, r)
        key.append(("limbo", reg(r), st.mem[r].alive, tuple((o, cells[o][0], vk(cells[o][1])) for o in sorted(cells))))
    for r in alive:
        if r in t.nodes and r not in t.outside or st.mem[r].kind == "node" and r not in t.basemem:
            continue
        if r in tables:
            key.append(("arr", reg(r), tuple((lk(i), k, vk(v) if k == "val" else num[("seg", v)]) for i, k, v in tables[r])))
            cells = st.mem[r].content.cells if st.mem[r].content.k == "cells" else {}
        else:
            if is_array(st, r) and st.mem[r].content.k == "base":
                continue
            try:
                cells, b = merged(st, r)
            except NoFold:
                key.append(("w", reg(r), tuple((lk(o), n, vk(v)) for o, n, v in written(st, r)[0])))
                continue
        key.append(("r", reg(r), tuple((o, cells[o][0], vk(cells[o][1])) for o in sorted(cells))))
    g = t.goal
    key.append(("goal",) + tuple(reg(x) if i and isinstance(x, int) else x for i, x in enumerate(g)))
    key.append((t.keyed, t.dropped, tuple(reg(x) for x in t.extra)))
    more = st.x.get("Tkey")
    if more is not None:
        key.append(more(eng, st, vk))
    return st, tuple(key)


# ------------------------------------------------------------------ loops

ROUNDS = 4


def shallow(eng, st, loop, depth):
    """The states that leave the loop within its first iterations, nothing abstracted."""
    exits = []
    cur = [st.copy()]
    limit = eng.max_states
    try:
        for i in range(ROUNDS):
            nxt = []
            for s in cur:
                eng.max_states = min(limit, eng.nstates + 300)
                try:
                    outs = eng.explore([s], depth, loop)
                except Unsupported as e:
                    continue
                for o in outs:
                    if o[0] == "back":
                        nxt.append(o[1])
                    else:
                        exits.append(o[1:])
            cur = nxt[:24]
    finally:
        eng.max_states = limit
    return exits[:60]


def hook():
    from . import loops

    def go(eng, st, loop):
        if "T" not in st.x or not concerned(st):
            return None
        depth = len(st.frames)
        F = st.frames[-1].fn
        gave = eng.__dict__.setdefault("gave_up", {})
        site = (F.name, loop.header)
        snap = loops.snapshot(eng)
        n0 = eng.nstates
        tried = gave.setdefault(site, [])
        while len(tried) < 2:
            r = walk(eng, st, loop, len(tried) == 1)
            if not isinstance(r, str):
                return r
            loops.restore(eng, snap)
            eng.nstates = n0
            tried.append(r)
            eng.tree_note = r
            if loops.DEBUG:
                print("  tree walk gives up in %s: %s" % (F.name, r))
        exits = shallow(eng, st, loop, depth)
        if loops.DEBUG:
            print("  %d exits kept" % len(exits))
        if not exits:
            return None
        part = loops.snapshot(eng)
        loops.restore(eng, snap)
        return loops.Partial(exits, part, tried[0])

    def walk(eng, st, loop, near):
        """All iterations. -> list of exits, or why not"""
        n0 = eng.nstates
        depth = len(st.frames)
        F = st.frames[-1].fn
        share = not getattr(eng, "noshare", 0)
        where = (tuple((f.fn.name, f.block, f.idx) for f in st.frames[:-1]), F.name, loop.header, near)
        local = set()
        exits = []
        cur = [st.copy()]
        count = 0
        limit = eng.max_states
        eng.max_states = n0 + (limit - n0) // 2
        try:
            while cur:
                nxt = []
                for s in cur:
                    try:
                        z, k = fold(eng, s, near)
                    except NoFold as e:
                        if loops.DEBUG:
                            print("   NoFold", e, show(s), s.frames[-1].env, [(k, v) for k, v in s.x.items() if k != "T"])
                        return "tree state at a loop: %s" % e
                    seen = eng.tree_seen.setdefault(where, set()) if share else local
                    if k in seen:
                        continue
                    seen.add(k)
                    if loops.DEBUG:
                        print("   KEY", k) if loops.DEBUG == "2" else None
                        print("   tree state", F.name, show(z), [(i, z.frames[-1].env.get(i)) for i in z.frames[-1].env])
                    nxt.append(z)
                count += len(nxt)
                if count > WIDTH:
                    return "too many tree states in a loop of " + F.name
                cur = []
                for o in eng.explore(nxt, depth, loop):
                    if o[0] == "back":
                        cur.append(o[1])
                    else:
                        exits.append(o[1:])
            eng.walked = getattr(eng, "walked", 0) + 1
            return exits
        except Unsupported as e:
            return str(e)
        finally:
            eng.max_states = limit
    return go


def concerned(st):
    """Does the current frame still use a pointer to a node, a path array or the tree?"""
    t = T(st)
    f = st.frames[-1]
    for i in live.at(f.fn, f.block, f.idx):
        v = f.env.get(i)
        if isinstance(v, PtrV) and v.r is not None and v.r in st.mem:
            if st.mem[v.r].kind == "node" or v.r == t.rootcell[0] or is_array(st, v.r):
                return True
    return False


def show(st):
    t = T(st)

    def go(v, some=False):
        if v is None:
            return "+" if some else "*"
        if v.r is None:
            return "-"
        if v.r in t.nodes:
            n = t.nodes[v.r]
            return "%s%s%s(%s[%r] %s[%r])" % ("bR"[n.color], v.r, {None: "", 1: ">", -1: "<", 0: "="}[t.facts.get(v.r)],
                                              go(n.kid[0], n.some[0]), st.s.norm(n.h[0]), go(n.kid[1], n.some[1]), st.s.norm(n.h[1]))
        sid = t.bytop(v.r)
        if sid is None:
            return "?%s" % v.r
        g = t.segs[sid]
        return "seg%s{%r%s%s hh=%r}:%s" % (g.top, st.s.norm(g.len), "".join("LR"[d] for d in sorted(g.dirs)), "o" if g.ordered else "", st.s.norm(g.hh), go(g.hole))
    return go(t.root) + " %s" % (t.goal,)


# ------------------------------------------------------------------ layouts

class RBLayout:
    """RBTREE_NODE: left link with the colour in its lowest bit, right link."""

    def __init__(self, left, right, size):
        self.left, self.right, self.size = left, right, size
        self.D = depth_bound(size)
        self.kind = "rbnode"

    def region(self, eng, st, name="node"):
        r = eng.region(st, name, self.size, base="lazy", kind="node", data=self)
        return r

    def read(self, eng, st, rid, off, size, ty):
        off = st.s.norm(off)
        if off.t:
            raise Unsupported("access to a tree node at a variable offset")
        if off.c not in (self.left, self.right) or size != 8:
            raise Unsupported("odd access to a tree node")
        out = []
        for s in explicit(eng, st, rid):
            for z, v in kid(eng, s, rid, 0 if off.c == self.left else 1):
                if off.c == self.left:
                    v = PtrV(v.r, Lin(T(z).nodes[rid].color))
                out.append((z, v))
        return out

    def current(self, eng, st, rid, n):
        v = peek(st, rid, self.left, 8)
        w = peek(st, rid, self.right, 8)
        c, l, r = n.color, n.kid[0], n.kid[1]
        if c is None:
            l = r = Undef(8, "a link that was never written")
        if v is not None:
            if isinstance(v, IntV):
                v = PtrV(None, v.l)
            if isinstance(v, PtrV):
                o = st.s.norm(v.o)
                c = 0 if st.s.entails_eq(o) else 1 if st.s.entails_eq(o - 1) else None
                l = PtrV(v.r) if c is not None else v
            else:
                l = v
        if w is not None:
            r = PtrV(None, w.l) if isinstance(w, IntV) else w
        return c, l, r

    def touched(self, st, rid):
        return st.mem[rid].content.k != "base"

    def reset(self, eng, st, rid):
        R = eng.mut(st, rid)
        R.content = Content("base", val="lazy", src=self, off=rid)

    def detach(self, eng, st, rid, n):
        pass

    def key(self, eng, st, rid, vk):
        if rid in T(st).outside:
            return ()
        if st.mem[rid].content.k == "base":
            return ()
        cells, b = merged(st, rid)
        return tuple((o, cells[o][0], vk(cells[o][1])) for o in sorted(cells))


class DictLayout:
    """Node of a dictionary: key (colour in the type byte), value, two plain links, and in ordered dictionaries two list links."""

    def __init__(self, K, order, flags):
        self.left, self.right = K["n_left"], K["n_right"]
        self.prev, self.next = K["n_prev"], K["n_next"]
        self.size = K["n"] if order else K["n_short"]
        self.D = depth_bound(self.size)
        self.flags = flags
        self.redbit = K["red"]
        self.kind = "dictnode"
        self.fields = {0: 1, self.left: 8, self.right: 8}

    def region(self, eng, st, name="node"):
        return eng.region(st, name, self.size, base="lazy", kind="node", data=self)

    def byte(self, st, rid, color):
        return (st.x.get(("flags", rid), self.flags) & ~self.redbit) | (self.redbit if color == RED else 0)

    def read(self, eng, st, rid, off, size, ty):
        off = st.s.norm(off)
        if off.t:
            raise Unsupported("access to a tree node at a variable offset")
        o = off.c
        if o == 0 and size == 1:
            return [(s, IntV(8, self.byte(s, rid, T(s).nodes[rid].color))) for s in explicit(eng, st, rid)]
        if o in (self.left, self.right) and size == 8:
            return [x for s in explicit(eng, st, rid) for x in kid(eng, s, rid, 0 if o == self.left else 1)]
        if o in (self.prev, self.next) and size == 8:
            return self.neighbour(eng, st, rid, o)
        if o == 0 or self.left < o + size and o < self.right + 8 or o + size > self.prev:
            raise Unsupported("odd access to a tree node")
        if size > 1:
            return eng.read_bytes(st, rid, Content("base", val="lazy", src=self, off=rid), off, size)
        return [(st, IntV(8, eng.atom(st, rid, rid, off)))]

    def doomed(self, st):
        t = T(st)
        z = {r for r, f in t.facts.items() if f == 0}
        if t.goal[0] == "removed":
            z.add(t.goal[1])
        return z

    def neighbour(self, eng, st, rid, o):
        if ("fresh", rid) in st.x:
            return [(st, Undef(8, "a link that was never written"))]
        k = ("lz", rid, o)
        v = st.x.get(k)
        if v is None:
            w = st.x.get("prev" if o == self.prev else "next")
            if w is not None and rid in self.doomed(st):
                v = w
            else:
                v = PtrV(eng.region(st, "another item in the list", self.size, base="atoms", kind="object", tag=("shadow",)))
            st = st.copy()
            st.x = dict(st.x)
            st.x[k] = v
        return [(st, v)]

    def current(self, eng, st, rid, n):
        c, l, r = n.color, n.kid[0], n.kid[1]
        if c is None:
            b = st.mem[rid].content
            while b.k == "cells":
                b = b.prev
            l = r = NULL if b.k == "base" and b.val == "zero" else Undef(8, "a link that was never written")
        b = peek(st, rid, 0, 1)
        if b is not None:
            l0 = st.s.norm(b.l) if isinstance(b, IntV) else None
            if l0 is None or l0.t:
                c = DAMAGED
            else:
                c = RED if l0.c & self.redbit else BLACK
                if l0.c != self.byte(st, rid, c):
                    c = DAMAGED
        v = peek(st, rid, self.left, 8)
        w = peek(st, rid, self.right, 8)
        if v is not None:
            l = PtrV(None, v.l) if isinstance(v, IntV) else v
        if w is not None:
            r = PtrV(None, w.l) if isinstance(w, IntV) else w
        return c, l, r

    def touched(self, st, rid):
        return any(peek(st, rid, o, n) is not None for o, n in self.fields.items())

    def others(self, st, rid):
        cells, b = merged(st, rid)
        return {o: c for o, c in cells.items() if o not in self.fields}

    def reset(self, eng, st, rid):
        cells = self.others(st, rid)
        R = eng.mut(st, rid)
        ct = Content("base", val="lazy", src=self, off=rid)
        R.content = Content("cells", ct, cells=cells) if cells else ct

    def detach(self, eng, st, rid, n):
        """The node leaves the tree: its colour stays readable."""
        if st.mem[rid].alive:
            c = current(eng, st, rid)[0]
            if c in (BLACK, RED) and peek(st, rid, 0, 1) is None:
                eng.put(st, rid, L(0), 1, IntV(8, self.byte(st, rid, c)))

    def key(self, eng, st, rid, vk):
        if st.mem[rid].content.k == "base":
            return (("fresh", rid) in st.x,)
        cells, b = merged(st, rid)
        return (("fresh", rid) in st.x,) + tuple((o, cells[o][0], vk(cells[o][1])) for o in sorted(cells))
