"""The intrusive red-black tree (C10 - C13)."""
from .common import *
from engine import trees
from engine.trees import T, Tree, Node, Seg, RBLayout, BLACK, RED


def on_path(v):
    """Is the bounds obligation about storage for a path: a local array or the cursor?"""
    return not v.text or "local '" in v.text or "cursor" in v.text


def classify_for(pid):
    def classify(v, label):
        if v.cls in ("leak", "free"):
            return {"C06"}
        if v.cls == "bounds" and on_path(v):
            return {pid, "C41"}
        return {pid}
    return classify


class Driver:
    def __init__(self, rep, pid):
        ex = {"node": "sizeof(RBTREE_NODE)", "lc": "__builtin_offsetof(RBTREE_NODE, lc)", "r": "__builtin_offsetof(RBTREE_NODE, r)",
              "tree": "sizeof(RBTREE)", "root": "__builtin_offsetof(RBTREE, root)", "cur": "sizeof(RBTREE_CURSOR)",
              "stack": "__builtin_offsetof(RBTREE_CURSOR, stack)", "n": "__builtin_offsetof(RBTREE_CURSOR, n)",
              "cap": "sizeof(((RBTREE_CURSOR*)0)->stack) / sizeof(((RBTREE_CURSOR*)0)->stack[0])"}
        self.c = offsets("rbtree", ex)
        self.s = Suite(rep, "rbtree", classify_for(pid), max_states=200000)

    def start(self, eng, cursor=False, key=False):
        """-> state with the driver's objects; the tree is added afterwards."""
        eng.loop_hook = trees.hook()
        eng.models["app:cmp"] = self.m_cmp
        st = eng.initial()
        c = self.c
        self.lay = RBLayout(c["lc"], c["r"], c["node"])
        t = Tree(self.lay)
        st.x = {"T": t}
        self.tree = eng.region(st, "*tree", c["tree"], base="atoms", kind="object")
        t.rootcell = (self.tree, c["root"])
        self.key = eng.region(st, "*key" if key else "*node", c["node"], base="atoms", kind="object" if key else "node")
        if not key:
            t.outside = frozenset((self.key,))
            t.nodes[self.key] = Node(None, (trees.NULL, trees.NULL), (Lin(0), Lin(0)), Lin(0))
        self.cur = None
        if cursor:
            self.cur = eng.region(st, "*cursor", c["cur"], base="undef", kind="object")
        t.keyed = True
        return st

    def roots(self, eng, st, root_too=True):
        """The empty tree and the tree with an arbitrary black root."""
        out = []
        T(st).freeze(eng, st)
        for kind in ("empty", "node"):
            s = st.copy()
            t = trees.edit(s)
            if kind == "empty":
                t.root = NULL
            else:
                r = self.lay.region(eng, s, "root")
                h = fresh("h", 0, 200)
                t.nodes[r] = Node(BLACK, (None, None), (h, h), Lin(0))
                t.root = PtrV(r)
            eng.put(s, self.tree, L(self.c["root"]), 8, t.root)
            out.append((kind, s))
        return out

    def m_cmp(self, eng, st, args, I):
        t = T(st)
        out = []
        if len(args) != 2:
            raise Unsupported("comparator arguments")
        for s, c in trees.compare(eng, st, args[0], args[1], PtrV(self.key)):
            if c == 0:
                out.append((s, IntV(32, 0)))
            elif c < 0:
                out.append((s, IntV(32, fresh("cmp", 1 << 31, (1 << 32) - 1))))
            else:
                out.append((s, IntV(32, fresh("cmp", 1, (1 << 31) - 1))))
        return out

    def positions(self, eng, st):
        """The cursor at an arbitrary node of an arbitrary tree. -> [(node, state)]"""
        out = []
        for deep in (False, True):
            for col in (BLACK, RED):
                if not deep and col == RED:
                    continue
                s = st.copy()
                t = trees.edit(s)
                x = self.lay.region(eng, s, "position")
                h = fresh("h", 0, 200)
                lst = Lin(0)
                ents = []
                t.freeze(eng, s)
                if deep:
                    lst = fresh("len", 1, t.D - 1)
                    top = self.lay.region(eng, s, "root")
                    ht = fresh("ht", 0, 200)
                    own = h + (1 if col == BLACK else 0)
                    if not s.assume("ge", ht - own):
                        continue
                    sid = trees.newsid()
                    t.segs[sid] = Seg(top=top, len=lst, hole=PtrV(x), hh=own, ht=ht, dirs=frozenset((0, 1)), ordered=False, arr=self.cur,
                                      start=Lin(0), depth=Lin(0), topc=frozenset((BLACK,)), holered=(col == RED))
                    t.root = PtrV(top)
                    ents.append((Lin(0), "seg", sid))
                else:
                    t.root = PtrV(x)
                ents.append((lst, "val", PtrV(x)))
                t.nodes[x] = Node(col, (None, None), (h, h), lst)
                t.extra = (x,)
                R = eng.mut(s, self.cur)
                R.content = trees.Content("base", val="lazy", src=trees.PATH, off=self.cur)
                trees.setpath(s, self.cur, ents)
                eng.put(s, self.tree, L(self.c["root"]), 8, t.root)
                eng.put(s, self.cur, L(self.c["n"]), 4, IntV(32, lst + 1))
                t.base = s.s if not deep else t.base
                out.append((x, s))
        return out

    def cursor_n(self, eng, q):
        try:
            v = trees.array_entries(eng, q, self.cur)[1].get(self.c["n"], (4, None))[1]
        except trees.NoFold as e:
            raise Unsupported("cursor: %s" % e)
        return v.l if isinstance(v, IntV) else None

    def cursor_empty(self, eng, q, name):
        n = self.cursor_n(eng, q)
        if n is None or not q.s.entails_eq(n):
            bad(eng, q, "cursor", "reset", "%s() does not leave the cursor pointing nowhere" % name)
        else:
            eng.ok("cursor")

    def cursor_at(self, eng, q, rid, name):
        """The cursor holds exactly the path from the root to the node."""
        t = T(q)
        line = trees.lineage(t, rid)
        n = self.cursor_n(eng, q)
        if line is None:
            raise Unsupported("place of the node is not known")
        if n is None or not q.s.entails_eq(n - line[-1][2] - 1):
            bad(eng, q, "cursor", "count", "the cursor does not stand at the node after %s(): %s entries, the node is at depth %r"
                % (name, None if n is None else q.s.norm(n), q.s.norm(line[-1][2])))
            return
        try:
            ents, _, _ = trees.array_entries(eng, q, self.cur)
        except trees.NoFold as e:
            raise Unsupported("cursor: %s" % e)
        for k, ref, dep in line:
            for i, k2, r2 in ents:
                if k == "n" and k2 == "val" and q.s.entails_eq(i - dep):
                    if r2 != PtrV(ref):
                        bad(eng, q, "cursor", "entry", "the cursor does not hold the path to its node after %s()" % name)
                    break
                if k == "s" and k2 == "seg" and r2 == ref and q.s.entails_eq(i - dep):
                    break
            else:
                bad(eng, q, "cursor", "entry", "the cursor does not hold the path to its node after %s()" % name)
                return
        eng.ok("cursor")

    # ------------------------------------------------------------ checks of results
    def words(self, eng, q, what):
        """(current word, original word) or None after reporting."""
        try:
            return trees.actual(eng, q), trees.original(T(q))
        except trees.Broken as e:
            bad(eng, q, "tree", "structure", "%s: %s (%s)" % (what, e, trees.show(q)))
            return None

    def balanced(self, eng, q, what):
        try:
            ps = trees.valid(eng, q)
        except trees.Broken as e:
            bad(eng, q, "tree", "structure", "%s: %s" % (what, e))
            return
        for k, r, text in ps:
            bad(eng, q, "balance", k, "%s: %s afterwards" % (what, text))
        if not ps:
            eng.ok("balance")

    def untouched(self, eng, q, what):
        t = T(q)
        if trees.same_structure(eng, q):
            eng.ok("tree")
        else:
            bad(eng, q, "tree", "changed", "%s changes the tree" % what)


def zero(t):
    return [r for r, f in t.facts.items() if f == 0]


INSERT = "rbtree_insert() on every tree: nodes kept, order, black root, no red-red, equal black heights, duplicates refused without change"
RULES = {
    "C10": INSERT,
    "C11": "rbtree_remove() on every tree: exactly the matching node leaves, the others keep their order, red-black rules hold; absent key changes nothing",
    "C12": "lookups, head, tail, next, prev and current against the in-order sequence and the ancestors of the node, for every tree and position",
    "C13": "rbtree_fini_step() on every (also unbalanced) tree: the returned node leaves, all others stay reachable, null only for the empty tree",
}


def c10(rep):
    rep.rule(RULES["C10"])
    d = Driver(rep, "C10")

    def insert(eng):
        st = d.start(eng)
        T(st).goal = ("insert", d.key)
        for kind, s0 in d.roots(eng, st):
            for q, v in eng.call(s0, "rbtree_insert", [PtrV(d.tree), PtrV(d.key), FnV("app:cmp")]):
                for z, failed in status(eng, q, v, "rbtree_insert()", 0):
                    inserted(d, eng, z, v, failed)
    d.s.run("rbtree_insert", insert)


def inserted(d, eng, q, v, failed):
    t = T(q)
    w = d.words(eng, q, "rbtree_insert()")
    if w is None:
        return
    now, was = w
    n = ("n", d.key)
    if zero(t):
        if not failed:
            bad(eng, q, "tree", "dup", "rbtree_insert() reports success although an equal node is in the tree")
        d.untouched(eng, q, "a refused rbtree_insert()")
        return
    if failed:
        bad(eng, q, "tree", "refused", "rbtree_insert() reports failure although no equal node is in the tree")
        return
    must_equal(eng, q, v, IntV(32, 0), "tree", "ret", "rbtree_insert() does not return 0")
    if t.goal[0] == "inserted":
        if now != was:
            bad(eng, q, "tree", "order", "rbtree_insert(): nodes are lost or out of order")
        else:
            eng.ok("tree")
    elif n not in now:
        bad(eng, q, "tree", "lost", "rbtree_insert() reports success but the new node is not in the tree")
    elif [x for x in now if x != n] != was:
        bad(eng, q, "tree", "order", "rbtree_insert(): nodes are lost or out of order (%s -> %s)" % (was, now))
    elif now.index(n) not in trees.gap(t, was):
        bad(eng, q, "tree", "place", "rbtree_insert() puts the new node at a place that does not fit the order")
    else:
        eng.ok("tree")
    d.balanced(eng, q, "rbtree_insert()")


def c11(rep):
    rep.rule(RULES["C11"])
    d = Driver(rep, "C11")

    def remove(eng):
        st = d.start(eng, key=True)
        T(st).goal = ("remove", None)
        for kind, s0 in d.roots(eng, st):
            for q, v in eng.call(s0, "rbtree_remove", [PtrV(d.tree), PtrV(d.key), FnV("app:cmp")]):
                removed(d, eng, q, v)
    d.s.run("rbtree_remove", remove)


def removed(d, eng, q, v):
    t = T(q)
    what = "rbtree_remove()"
    w = d.words(eng, q, what)
    if w is None:
        return
    now, was = w
    z = [t.goal[1]] if t.goal[0] == "removed" else zero(t)
    if isinstance(v, IntV):
        v = PtrV(None, v.l)
    if not isinstance(v, PtrV):
        bad(eng, q, "tree", "ret", "%s returns an uninitialized value" % what)
        return
    if trees.isnull(q, v):
        if z:
            bad(eng, q, "tree", "missed", "%s returns null although a node equal to the key is in the tree" % what)
            return
        if not trees.gap(t, was):
            bad(eng, q, "tree", "search", "%s gives up before the whole search path was followed" % what)
        d.untouched(eng, q, "%s of an absent key" % what)
        return
    if not z or v != PtrV(z[0]):
        bad(eng, q, "tree", "wrong", "%s returns something else than the node equal to the key" % what)
        return
    if t.goal[0] != "removed":
        was = [x for x in was if x != ("n", z[0])]
    if now != was:
        if ("n", z[0]) in now:
            bad(eng, q, "tree", "kept", "the node returned by %s is still in the tree" % what)
        else:
            bad(eng, q, "tree", "order", "%s: other nodes are lost or out of order (%s -> %s)" % (what, was, now))
    else:
        eng.ok("tree")
    d.balanced(eng, q, what)


# ------------------------------------------------------------------ C12

def c12(rep):
    rep.rule(RULES["C12"])
    d = Driver(rep, "C12")

    def lookup(eng, ex):
        name = "rbtree_lookup_ex" if ex else "rbtree_lookup"
        st = d.start(eng, key=True, cursor=ex)
        for kind, s0 in d.roots(eng, st):
            for q, v in eng.call(s0, name, [PtrV(d.tree), PtrV(d.key), FnV("app:cmp")] + ([PtrV(d.cur)] if ex else [])):
                t = T(q)
                z = zero(t)
                v = pointer(eng, q, v, name)
                if v is None:
                    continue
                d.untouched(eng, q, name + "()")
                if trees.isnull(q, v):
                    if z:
                        bad(eng, q, "tree", "missed", "%s() returns null although a node equal to the key is in the tree" % name)
                    elif not trees.gap(t, trees.original(t)):
                        bad(eng, q, "tree", "search", "%s() gives up before the whole search path was followed" % name)
                    else:
                        eng.ok("tree")
                    if ex:
                        d.cursor_empty(eng, q, name)
                elif not z or v != PtrV(z[0]):
                    bad(eng, q, "tree", "wrong", "%s() returns something else than the node equal to the key" % name)
                else:
                    eng.ok("tree")
                    if ex:
                        d.cursor_at(eng, q, z[0], name)
    d.s.run("rbtree_lookup", lookup, ex=False)
    d.s.run("rbtree_lookup_ex", lookup, ex=True)

    def ends(eng, name, last):
        st = d.start(eng, key=True, cursor=True)
        for kind, s0 in d.roots(eng, st):
            for q, v in eng.call(s0, name, [PtrV(d.tree), PtrV(d.cur)]):
                v = pointer(eng, q, v, name)
                if v is None:
                    continue
                d.untouched(eng, q, name + "()")
                t = T(q)
                w = trees.original(t)
                if trees.isnull(q, v):
                    if w:
                        bad(eng, q, "tree", "null", "%s() returns null for a tree that is not empty" % name)
                    else:
                        eng.ok("tree")
                elif not w or w[-1 if last else 0] != ("n", v.r) or v != PtrV(v.r):
                    bad(eng, q, "tree", "end", "%s() does not return the %s node" % (name, "last" if last else "first"))
                else:
                    eng.ok("tree")
                    d.cursor_at(eng, q, v.r, name)
    d.s.run("rbtree_head", ends, name="rbtree_head", last=False)
    d.s.run("rbtree_tail", ends, name="rbtree_tail", last=True)

    def step(eng, name, way):
        st = d.start(eng, key=True, cursor=True)
        for x, s0 in d.positions(eng, st):
            for q, v in eng.call(s0, name, [PtrV(d.cur)]):
                v = pointer(eng, q, v, name)
                if v is None:
                    continue
                d.untouched(eng, q, name + "()")
                t = T(q)
                w = trees.original(t)
                at = w.index(("n", x))
                nb = w[at + way] if 0 <= at + way < len(w) else None
                if way == 0:
                    nb = ("n", x)
                if trees.isnull(q, v):
                    if nb is not None:
                        bad(eng, q, "tree", "null", "%s() returns null although there is such a node (%s)" % (name, trees.show(q)))
                        continue
                    eng.ok("tree")
                    d.cursor_at(eng, q, x, name)
                elif nb is None or nb != ("n", v.r) or v != PtrV(v.r):
                    bad(eng, q, "tree", "step", "%s() does not return the neighbour in order (%s)" % (name, trees.show(q)))
                else:
                    eng.ok("tree")
                    d.cursor_at(eng, q, v.r, name)
    d.s.run("rbtree_next", step, name="rbtree_next", way=1)
    d.s.run("rbtree_prev", step, name="rbtree_prev", way=-1)
    d.s.run("rbtree_current", step, name="rbtree_current", way=0)

    def nowhere(eng, name):
        """A cursor pointing to nowhere."""
        st = d.start(eng, key=True, cursor=True)
        T(st).freeze(eng, st)
        eng.put(st, d.cur, L(d.c["n"]), 4, IntV(32, 0))
        for q, v in eng.call(st, name, [PtrV(d.cur)]):
            v = pointer(eng, q, v, name)
            if v is None:
                continue
            if not trees.isnull(q, v):
                bad(eng, q, "tree", "nowhere", "%s() of a cursor that points nowhere returns a node" % name)
            else:
                eng.ok("tree")
            d.cursor_empty(eng, q, name)
    for name in ("rbtree_next", "rbtree_prev", "rbtree_current"):
        d.s.run(name + ":nowhere", nowhere, name=name)


def pointer(eng, q, v, name):
    if isinstance(v, IntV):
        v = PtrV(None, v.l)
    if not isinstance(v, PtrV):
        bad(eng, q, "tree", "ret", "%s() returns an uninitialized value" % name)
        return None
    return v


# ------------------------------------------------------------------ C13

def c13(rep):
    rep.rule(RULES["C13"])
    d = Driver(rep, "C13")

    def step(eng):
        st = d.start(eng, key=True)
        T(st).balanced = False
        for kind, s0 in d.roots(eng, st):
            for q, v in eng.call(s0, "rbtree_fini_step", [PtrV(d.tree)]):
                name = "rbtree_fini_step"
                v = pointer(eng, q, v, name)
                if v is None:
                    continue
                w = d.words(eng, q, name + "()")
                if w is None:
                    continue
                now, was = w
                if trees.isnull(q, v):
                    if was:
                        bad(eng, q, "tree", "null", "%s() returns null for a tree that is not empty" % name)
                    elif now:
                        bad(eng, q, "tree", "rest", "%s() returns null but the tree is not empty" % name)
                    else:
                        eng.ok("tree")
                    continue
                n = ("n", v.r)
                t = T(q)
                if v != PtrV(v.r) or (n not in was and v.r not in t.nodes):
                    bad(eng, q, "tree", "wrong", "%s() returns something that is not a node of the tree" % name)
                elif n in now:
                    bad(eng, q, "tree", "kept", "the node returned by %s() is still in the tree" % name)
                else:
                    rest = list(was)
                    if n in rest:
                        rest.remove(n)
                    if sorted(map(repr, rest)) != sorted(map(repr, now)):
                        bad(eng, q, "tree", "lost", "%s(): other nodes are lost (%s -> %s)" % (name, was, now))
                    else:
                        eng.ok("tree")
    d.s.run("rbtree_fini_step", step)
