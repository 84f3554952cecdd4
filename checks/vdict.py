"""Dictionary values: ordered map on a red-black tree (C17), insertion order (C18), walks and listings (C19)."""
from .common import *
from engine import trees, libc, walk
from engine.trees import T, Tree, Node, DictLayout, BLACK, RED
from engine.absint import Content
from .rbtree import on_path
from .values import vconst, new_value, init_value, NUM, operands

NEXTTO = {"C17": "C17", "C18": "C18"}


def classify(v, label):
    p = set()
    if v.cls in ("uaf", "free", "leak", "C17/finalize"):
        p.add("C06")
    if v.cls == "noaf" or v.allocfail:
        p.add("C05")
    if v.cls in ("bounds", "null", "uaf", "uninit", "free", "leak", "call", "const"):
        if "_walk_" in label or "_keys_" in label:
            p.add("C19")
        elif "value_fini" in label or "clean" in label:
            p.add("C17")
        else:
            p |= {"C18"} if "ordered" in label else {"C17"}
            if "ordered" not in label:
                p.add("C18") if v.cls == "bounds" else None
    elif v.cls != "noaf":
        p.add(v.cls.split("/")[0])
    if v.cls == "bounds" and on_path(v):
        p.add("C41")
    return p


def dconst():
    K = vconst()
    K.update(offsets("value", {
        "n_left": "OFFSETOF(RBTREE, left)", "n_right": "OFFSETOF(RBTREE, right)", "n_prev": "OFFSETOF(RBTREE, order_prev)",
        "n_next": "OFFSETOF(RBTREE, order_next)", "n_value": "OFFSETOF(RBTREE, value)", "n_key": "OFFSETOF(RBTREE, key)",
        "n": "sizeof(RBTREE)", "n_short": "OFFSETOF(RBTREE, order_prev)", "d": "sizeof(DICT)", "d_root": "OFFSETOF(DICT, root)",
        "d_size": "OFFSETOF(DICT, size)", "d_head": "OFFSETOF(DICT, order_head)", "d_tail": "OFFSETOF(DICT, order_tail)",
        "d_cmp": "OFFSETOF(DICT, cmp_func)", "red": "HAS_REDCOLOR", "malloced": "IS_MALLOCED"}))
    if K["n_key"] != 0:
        raise AnalysisBroken("key of a dictionary node")
    return K


VARIANTS = {
    "plain": dict(cmp=False, order=False, heapkeys=True),
    "ordered": dict(cmp=False, order=True, heapkeys=False),
    "custom": dict(cmp=True, order=False, heapkeys=False),
    "custom ordered": dict(cmp=True, order=True, heapkeys=True),
}
ENDS = [(", item inside the list", (False, False)), (", first item", (True, False)), (", last item", (False, True)), (", only item", (True, True))]
NEG = ((1 << 31), (1 << 32) - 1)
POS = (1, (1 << 31) - 1)


class Dict:
    """A dictionary value in an arbitrary valid state."""

    def __init__(self, K, cmp, order, heapkeys, nullkey=False, cstr=False, ends=None):
        self.ends = ends        # (is first, is last) of the item to be removed; None: both
        self.K, self.cmp, self.order = K, cmp, order
        self.flags = K["t_STRING"] | (K["malloced"] if heapkeys else 0)
        self.lay = DictLayout(K, order, self.flags)
        self.nullkey = nullkey
        self.cstr = cstr or nullkey

    def start(self, eng):
        K = self.K
        eng.loop_hook = trees.hook()
        st = eng.initial()
        self.v = eng.region(st, "*v", K["value"], base="undef", kind="object")
        if self.cmp or self.order:
            r = eng.call(st, "value_init_dict_ex", [PtrV(self.v), FnV("app:cmp") if self.cmp else NULL, IntV(32, 1 if self.order else 0)])
        else:
            r = eng.call(st, "value_init_dict", [PtrV(self.v)])
        ss = [s for s, _ in r if not has_event(s, "allocfail")]
        if len(ss) != 1:
            raise Unsupported("initialization of a dictionary has %d outcomes" % len(ss))
        st = ss[0]
        own = live_heap(st)
        if own:
            d = own[0]
            if len(own) != 1 or d.size.t or d.size.c < K["d_head"]:
                raise Unsupported("dictionary representation")
            self.d = (d.id, 0)
            d = eng.mut(st, d.id)
            d.kind = "object"
            d.name = "the dictionary"
            p = rd(eng, st, self.v, 8, "ptr")
            if p != PtrV(d.id):
                raise Unsupported("dictionary representation")
        else:
            raise Unsupported("dictionary representation")
        self.full = not (d.size.c < K["d"])
        st.x = {"T": Tree(self.lay), "heap0": 0}
        t = T(st)
        t.rootcell = (self.d[0], K["d_root"])
        t.keyed = True
        st.events = None
        self.klen = fresh("key_len", 0, PMAX // 4) if not self.nullkey else ZERO
        if self.cstr:
            self.key = eng.region(st, "key text", L(self.klen) + 1, base="cstr", kind="object", data=L(self.klen))
        else:
            self.key = eng.region(st, "key text", L(self.klen), base="atoms", kind="object")
        if self.order:
            mk = lambda n: eng.region(st, n, K["n"], base="lazy", kind="object", tag=("shadow",), data=walk.Fields("list neighbour", {
                K["n_prev"]: (8, self.mk_far), K["n_next"]: (8, self.mk_far)}))
            self.P, self.N, self.H, self.L = mk("previous item in the list"), mk("next item in the list"), mk("first item in the list"), mk("last item in the list")
        eng.models.update({"app:cmp": self.m_cmp, "memcmp": self.m_memcmp, "bcmp": self.m_memcmp, "value_string": self.m_string,
                           "value_string_length": self.m_length, "value_init_string_": self.m_init, "value_fini": self.m_fini,
                           "malloc": self.m_malloc, "calloc": self.m_calloc, "free": self.m_free})
        t.goal = ("insert", None)
        st.x["Tkey"] = self.extra_key
        return st

    def extra_key(self, eng, st, vk):
        return (st.x.get("case"), tuple(sorted((repr(vk(PtrV(k[1]))), v) for k, v in st.x.items() if isinstance(k, tuple) and k[0] == "fini")),
                has_event(st, "allocfail"))

    def mk_far(self, eng, st, rid):
        raise Unsupported("list link of a neighbour")

    def states(self, eng, removing=False):
        """-> [(label, state)]"""
        K = self.K
        st = self.start(eng)
        some = fresh("size", 1, PMAX)
        T(st).freeze(eng, st)
        if removing:
            T(st).goal = ("remove", None)
        out = []
        cases = [("empty", None, None)]
        if self.order and removing:
            first, last = self.ends
            cases += [("node", NULL if first else PtrV(self.P), NULL if last else PtrV(self.N))]
        else:
            cases += [("node", None, None)]
        for case, p, n in cases:
            s = st.copy()
            t = trees.edit(s)
            s.x = dict(s.x)
            s.x["case"] = (case, repr(p), repr(n))
            if case == "empty":
                t.root = NULL
                size = ZERO
            else:
                r = self.lay.region(eng, s, "root")
                h = fresh("h", 0, 200)
                t.nodes[r] = Node(BLACK, (None, None), (h, h), Lin(0))
                t.root = PtrV(r)
                size = some
            s.x["size"] = size
            cells = {K["d_root"]: (8, t.root), K["d_size"]: (8, IntV(64, size))}
            R = eng.mut(s, self.d[0])
            if self.full:
                cells[K["d_cmp"]] = (8, FnV("app:cmp") if self.cmp else NULL)
                if self.order and case == "node":
                    s.x["prev"], s.x["next"] = p, n
                    if removing:
                        base = Content("base", val="lazy", src=walk.Fields("dictionary", {K["d_head"]: (8, self.mk_end("H")), K["d_tail"]: (8, self.mk_end("L"))}), off=self.d[0])
                    else:
                        base = Content("base", val="undef", off=self.d[0])
                        cells[K["d_head"]] = (8, PtrV(self.H))
                        cells[K["d_tail"]] = (8, PtrV(self.L))
                else:
                    base = Content("base", val="undef", off=self.d[0])
                    cells[K["d_head"]] = cells[K["d_tail"]] = (8, NULL)
            else:
                base = Content("base", val="undef", off=self.d[0])
            R.content = Content("cells", base, cells=cells)
            out.append((case, s))
        return out

    def mk_end(self, which):
        """The first (last) item: the one to be removed when it has no predecessor (successor), else its neighbour or another item."""
        def mk(eng, st, rid):
            nb = st.x["prev" if which == "H" else "next"]
            if nb.r is not None:
                return [(st.copy(), nb), (st.copy(), PtrV(getattr(self, which)))]
            z = [T(st).goal[1]] if T(st).goal[0] == "removed" else zero(T(st))
            if not z:
                raise Unsupported("list ends of the dictionary are read before the item was found")
            return [(st, PtrV(z[0]))]
        return mk

    # ------------------------------------------------------------ models
    def text(self, eng, st, r):
        x = st.x.get(("txt", r))
        if x is None:
            n = fresh("node_key_len", 0, PMAX // 4)
            x = (eng.region(st, "text of a key", n, base="atoms", kind="text", tag=("text", r)), n)
            st.x = dict(st.x)
            st.x[("txt", r)] = x
        return x

    def keyof(self, eng, st, p, what):
        """Node whose key the pointer designates, or None when it is something else."""
        if not isinstance(p, PtrV) or p.r is None or p.r not in st.mem or st.mem[p.r].kind != "node":
            return None
        if not eng.access(st, p, self.K["value"], what):
            return False
        if not st.s.entails_eq(p.o):
            raise Unsupported(what + " of something else than the key of a node")
        return p.r

    def m_string(self, eng, st, args, I):
        r = self.keyof(eng, st, args[0], "reading the key")
        if r is None:
            return None
        return [] if r is False else [(st, PtrV(self.text(eng, st, r)[0]))]

    def m_length(self, eng, st, args, I):
        r = self.keyof(eng, st, args[0], "reading the key")
        if r is None:
            return None
        return [] if r is False else [(st, IntV(64, self.text(eng, st, r)[1]))]

    def side(self, st, p):
        if isinstance(p, PtrV) and p.r is not None and st.s.entails_eq(p.o):
            if p.r == self.key:
                return "key"
            g = st.mem[p.r].tag
            if g and g[0] == "text":
                return g[1]
        if self.nullkey and isinstance(p, PtrV) and p.r is None:
            return "key"
        return None

    def m_cmp(self, eng, st, args, I):
        if len(args) != 4:
            raise Unsupported("comparator arguments")
        a, b = self.side(st, args[0]), self.side(st, args[2])
        if a is None or b is None or (a == "key") == (b == "key"):
            raise Unsupported("comparator called on something else than the key and the key of a node")
        for x, l in ((a, args[1]), (b, args[3])):
            n = self.klen if x == "key" else self.text(eng, st, x)[1]
            if not isinstance(l, IntV) or not must(eng, st, "eq", l.l - n, "C17/cmp", "length", "the comparator gets a wrong length"):
                return []
        K = PtrV("key")
        out = []
        for s, c in trees.compare(eng, st, K if a == "key" else PtrV(a), K if b == "key" else PtrV(b), K):
            out.append((s, IntV(32, 0) if c == 0 else IntV(32, fresh("cmp", *(NEG if c < 0 else POS)))))
        return out

    def m_memcmp(self, eng, st, args, I):
        a, b = self.side(st, args[0]), self.side(st, args[1])
        if a is None or b is None or (a == "key") == (b == "key"):
            return libc.m_memcmp(eng, st, args, I)
        n = st.s.norm(libc.as_lin(args[2]))
        out = []
        node = b if a == "key" else a
        ln = self.text(eng, st, node)[1]
        if not st.s.entails_eq(n):
            for p in args[:2]:
                if p.r is None:
                    continue
                if not eng.access(st, p, n, "memcmp reading"):
                    return []
        K = PtrV("key")
        if self.cmp:
            # the order is the application's; the bytes only tell whether the keys are the same
            y = st.copy()
            if y.assume("eq", n - self.klen) and y.assume("eq", n - ln):
                out += [(s, IntV(32, 0)) for s, c in trees.compare(eng, y, K if a == "key" else PtrV(a), K if b == "key" else PtrV(b), K) if c == 0]
            y = st.copy()
            if not y.s.entails_eq(n - self.klen) or not y.s.entails_eq(n - ln):
                out.append((y, IntV(32, 0)))
            out += [(st.copy(), IntV(32, fresh("memcmp", *r))) for r in (NEG, POS)]
            return out
        for s, c in trees.compare(eng, st, K if a == "key" else PtrV(a), K if b == "key" else PtrV(b), K):
            k = c if a == "key" else -c         # key ? node
            for whole in (True, False):
                for z in self.minimum(s, n, ln, whole):
                    if c != 0:
                        y = z.copy()
                        if y.assume("ge", n - 1):
                            out.append((y, IntV(32, fresh("cmp", *(NEG if c < 0 else POS)))))
                    y = z.copy()
                    if not whole or y.assume("eq" if k == 0 else "ge", self.klen - ln if k == 0 else (self.klen - ln - 1 if k > 0 else L(ln) - self.klen - 1)):
                        out.append((y, IntV(32, 0)))
        return out

    def minimum(self, st, n, ln, whole):
        """States in which n is (not) the length of the shorter text."""
        out = []
        for short, other in ((L(self.klen), L(ln)), (L(ln), L(self.klen))):
            s = st.copy()
            strict = 1 if short == L(ln) else 0
            if s.assume("ge", other - short - strict) and s.assume("eq" if whole else "ge", n - short if whole else short - n - 1):
                out.append(s)
        return out

    def m_init(self, eng, st, args, I):
        r = self.keyof(eng, st, args[0], "initializing the key")
        if r is None:
            return None
        if r is False:
            return []
        a = args[1]
        if self.nullkey:
            ok = isinstance(a, PtrV)
        else:
            ok = isinstance(a, PtrV) and a.r == self.key and st.s.entails_eq(a.o)
        if not ok or not isinstance(args[2], IntV):
            bad(eng, st, "C17/key", "text", "the new item gets another key than the given one")
            return []
        if not must(eng, st, "eq", args[2].l - self.klen, "C17/key", "length", "the new item gets a key of another length"):
            return []
        out = []
        for heap in (False, True):
            s = st.copy()
            f = self.K["t_STRING"] | (self.K["malloced"] if heap else 0)
            eng.put(s, r, ZERO, 1, IntV(8, f))
            s.x = dict(s.x)
            s.x[("flags", r)] = f
            s.x[("key", r)] = True
            out.append((s, IntV(32, 0)))
        s = st.copy()
        s.event("allocfail", L(self.klen))
        eng.put(s, r, ZERO, 1, IntV(8, self.K["t_NULL"]))
        out.append((s, IntV(32, (1 << 32) - 1)))
        return out

    def m_fini(self, eng, st, args, I):
        p = args[0]
        if not isinstance(p, PtrV) or p.r is None or p.r not in st.mem or st.mem[p.r].kind != "node":
            return None
        if not eng.access(st, p, self.K["value"], "finalizing"):
            return []
        o = st.s.norm(p.o)
        if o.t or o.c not in (0, self.K["n_value"]):
            raise Unsupported("finalizing a part of a node")
        k = ("fini", p.r, o.c)
        if k in st.x:
            bad(eng, st, "free", "twice:" + eng.where(st), "finalizes the same %s twice" % ("key" if o.c == 0 else "value"))
            return []
        s = st.copy()
        s.x = dict(s.x)
        s.x[k] = True
        return [(s, None)]

    def m_malloc(self, eng, st, args, I, base="undef"):
        n = st.s.norm(libc.as_lin(args[0]))
        if n.t or n.c < self.K["n_short"]:
            return libc.new_block(eng, st, n, base, "malloc", I)
        out = []
        f = st.copy()
        f.event("allocfail", n)
        out.append((f, NULL))
        t = trees.edit(st)
        r = eng.region(st, "the new node", n, base=base, kind="node", data=self.lay)
        t.nodes[r] = Node(None, (None, None), (ZERO, ZERO), ZERO)
        t.outside = t.outside | {r}
        t.goal = ("insert", r)
        st.x["new"] = r
        st.x[("fresh", r)] = True
        out.append((st, PtrV(r)))
        return out

    def m_calloc(self, eng, st, args, I):
        a, b = st.s.norm(libc.as_lin(args[0])), st.s.norm(libc.as_lin(args[1]))
        if a.t or b.t:
            return libc.m_calloc(eng, st, args, I)
        return self.m_malloc(eng, st, [IntV(64, a.c * b.c)], I, "zero")

    def m_free(self, eng, st, args, I):
        p = libc.as_ptr(args[0])
        if not isinstance(p, PtrV) or p.r is None or st.mem[p.r].kind != "node":
            return libc.m_free(eng, st, args, I)
        w = eng.where(st)
        R = st.mem[p.r]
        if not R.alive:
            bad(eng, st, "free", "free:" + w, "a node is released twice")
            return []
        if not eng.require(st, "eq", p.o, "free", "interior:" + w, "free() of an address inside a node"):
            return []
        new = p.r == st.x.get("new")
        if not new or st.x.get(("key", p.r)):
            for o, what in ((0, "key"), (self.K["n_value"], "value")):
                if ("fini", p.r, o) not in st.x and not (new and o):
                    bad(eng, st, "leak", "fini:" + w, "a node is released without finalizing its %s" % what)
        # what the node looked like stays known to the analysis
        eng.mut(st, p.r).alive = False
        st.event("free", p.r)
        return [(st, None)]

    # ------------------------------------------------------------ results
    def words(self, eng, q, what):
        try:
            return trees.actual(eng, q), trees.original(T(q))
        except trees.Broken as e:
            bad(eng, q, "C17/tree", "structure", "%s: %s (%s)" % (what, e, trees.show(q)))
            return None

    def balanced(self, eng, q, what):
        try:
            ps = trees.valid(eng, q)
        except trees.Broken as e:
            bad(eng, q, "C17/tree", "structure", "%s: %s" % (what, e))
            return
        for k, r, text in ps:
            bad(eng, q, "C17/balance", k, "%s: %s afterwards" % (what, text))
        if not ps:
            eng.ok("C17/balance")

    def size_is(self, eng, q, delta, what):
        v = trees.peek(q, self.d[0], self.K["d_size"], 8)
        if not isinstance(v, IntV):
            bad(eng, q, "C17/size", "odd", "%s leaves no number as item count" % what)
            return
        must(eng, q, "eq", v.l - q.x["size"] - delta, "C17/size", "size", "%s: the item count does not match (%r, expected %r)"
             % (what, q.s.norm(v.l), q.s.norm(L(q.x["size"]) + delta)))

    def unchanged(self, eng, q, what):
        if not trees.same_structure(eng, q):
            bad(eng, q, "C17/tree", "changed", "%s changes the tree" % what)
        else:
            eng.ok("C17/tree")
        self.size_is(eng, q, 0, what)
        self.list_is(eng, q, {}, what)
        self.dead_is(eng, q, (), what)

    def dead_is(self, eng, q, allowed, what):
        for r, R in q.mem.items():
            if R.kind == "node" and r not in allowed:
                if not R.alive:
                    bad(eng, q, "C17/finalize", "free", "%s releases another node" % what)
                for o in (0, self.K["n_value"]):
                    if ("fini", r, o) in q.x:
                        bad(eng, q, "C17/finalize", "fini", "%s finalizes the %s of another item" % (what, "value" if o else "key"))
        for r, R in q.mem.items():
            if R.kind == "heap" and R.alive:
                bad(eng, q, "leak", "heap", "%s leaves %s behind" % (what, R.name))
        eng.ok("C17/finalize")

    def cell(self, q, rid, off):
        return trees.peek(q, rid, off, 8)

    def list_is(self, eng, q, want, what, nodes=()):
        """Exactly the given list links have changed. want: {(region or "d", offset): value}"""
        K = self.K
        if not self.order:
            return
        got = {}
        for r, R in q.mem.items():
            if R.tag == ("shadow",) or r in nodes:
                for o in ((K["n_prev"], K["n_next"])):
                    v = self.cell(q, r, o)
                    if v is not None:
                        got[(r, o)] = v
            if R.tag == ("shadow",):
                cells, _ = trees.merged(q, r)
                if set(cells) - {K["n_prev"], K["n_next"]}:
                    bad(eng, q, "C18/order", "write", "%s writes to an item it should not touch" % what)
            if R.kind == "node" and r not in nodes and R.alive:
                if any(self.cell(q, r, o) is not None for o in (K["n_prev"], K["n_next"])):
                    bad(eng, q, "C18/order", "other", "%s changes the list links of another item" % what)
                    return
        first = {}
        for o in (K["d_head"], K["d_tail"]):
            v = self.cell(q, self.d[0], o)
            b = q.x.get(("end", o))
            if v is not None:
                got[("d", o)] = v
        for k, w in want.items():
            v = got.pop(k, None)
            if isinstance(v, IntV):
                v = PtrV(None, v.l)
            if v is None or not (v == w or isinstance(v, PtrV) and v.r == w.r and q.s.entails_eq(v.o - w.o)):
                nm = {K["d_head"]: "the first item", K["d_tail"]: "the last item"}.get(k[1], "?") if k[0] == "d" else \
                    "the link of %s to its %s" % (q.mem[k[0]].name, "predecessor" if k[1] == K["n_prev"] else "successor")
                bad(eng, q, "C18/order", "link", "%s: %s in insertion order is wrong (%r, expected %r)" % (what, nm, v, w), hard=not isinstance(v, absint.ByteOf))
                return
        for k, v in got.items():
            was = q.x.get("d0", {}).get(k[1]) if k[0] == "d" else None
            if was is not None and v == was:
                continue
            bad(eng, q, "C18/order", "extra", "%s changes a link of the insertion order it should keep (%r)" % (what, v))
            return
        eng.ok("C18/order")


def zero(t):
    return [r for r, f in t.facts.items() if f == 0]


def returned(eng, q, v, name):
    if isinstance(v, IntV):
        v = PtrV(None, v.l)
    if not isinstance(v, PtrV):
        bad(eng, q, "uninit", "ret", "%s returns an uninitialized value" % name)
        return None
    return v


def args_of(d):
    return [PtrV(d.v), NULL if d.nullkey else PtrV(d.key)] + ([] if d.cstr else [IntV(64, d.klen)])


def keep0(d, q):
    """Remember the list ends the dictionary started with."""
    if d.order:
        q.x = dict(q.x)
        q.x["d0"] = {o: trees.peek(q, d.d[0], o, 8) for o in (d.K["d_head"], d.K["d_tail"])}


def get(eng, d, name="value_dict_get_"):
    for case, s0 in d.states(eng):
        keep0(d, s0)
        for q, v in eng.call(s0, name, args_of(d)):
            v = returned(eng, q, v, name + "()")
            if v is None:
                continue
            t = T(q)
            z = zero(t)
            d.unchanged(eng, q, name + "()")
            if trees.isnull(q, v):
                if z:
                    bad(eng, q, "C17/map", "missed", "%s() returns null although the key is in the dictionary" % name)
                elif not trees.gap(t, trees.original(t)):
                    bad(eng, q, "C17/map", "search", "%s() gives up before the whole search path was followed" % name)
                else:
                    eng.ok("C17/map")
            elif not z or v.r != z[0] or not q.s.entails_eq(v.o - d.K["n_value"]):
                bad(eng, q, "C17/map", "wrong", "%s() returns something else than the value of the item with the key" % name)
            else:
                eng.ok("C17/map")


def add(eng, d, name):
    what = name + "()"
    K = d.K
    for case, s0 in d.states(eng):
        keep0(d, s0)
        for q, v in eng.call(s0, name, args_of(d)):
            v = returned(eng, q, v, what)
            if v is None:
                continue
            t = T(q)
            new = q.x.get("new")
            z = zero(t)
            if z:
                d.unchanged(eng, q, what + " of a key which is in the dictionary")
                if new is not None:
                    bad(eng, q, "leak", "new", what + " allocates a node although the key is in the dictionary") if q.mem[new].alive else None
                if name.startswith("value_dict_add"):
                    if not trees.isnull(q, v):
                        bad(eng, q, "C17/map", "dup", what + " of a key which is in the dictionary does not return null")
                    else:
                        eng.ok("C17/map")
                elif v.r != z[0] or not q.s.entails_eq(v.o - K["n_value"]):
                    bad(eng, q, "C17/map", "existing", what + " does not return the value of the item which is in the dictionary")
                else:
                    eng.ok("C17/map")
                continue
            if trees.isnull(q, v):
                if not has_event(q, "allocfail"):
                    bad(eng, q, "C17/map", "refused", what + " of a new key fails although nothing went wrong")
                if not trees.same_structure(eng, q) or (new is not None and q.mem[new].alive):
                    bad(eng, q, "noaf", "changed", what + " which failed leaves the dictionary changed or a node behind")
                    if q.mem[new].alive if new is not None else False:
                        bad(eng, q, "leak", "node", what + " which failed leaves a node behind")
                else:
                    eng.ok("noaf")
                d.size_is(eng, q, 0, what + " which failed")
                d.list_is(eng, q, {}, what + " which failed")
                continue
            if has_event(q, "allocfail"):
                bad(eng, q, "noaf", "claims", what + " claims success although its memory could not be allocated")
                continue
            if new is None or v.r != new or not q.s.entails_eq(v.o - K["n_value"]):
                bad(eng, q, "C17/map", "ret", what + " does not return the value of the new item")
                continue
            if not q.x.get(("key", new)):
                bad(eng, q, "C17/key", "none", what + ": the new item has no key")
                continue
            w = d.words(eng, q, what)
            if w is None:
                continue
            now, was = w
            n = ("n", new)
            if t.goal[0] == "inserted":
                if now != was:
                    bad(eng, q, "C17/tree", "order", what + ": items are lost or out of order")
                else:
                    eng.ok("C17/tree")
            elif n not in now:
                bad(eng, q, "C17/tree", "lost", what + " reports success but the new item is not in the tree")
            elif [x for x in now if x != n] != was:
                bad(eng, q, "C17/tree", "order", "%s: items are lost or out of order (%s -> %s)" % (what, was, now))
            elif now.index(n) not in trees.gap(t, was):
                bad(eng, q, "C17/tree", "place", what + " puts the new item at a place that does not fit the order")
            else:
                eng.ok("C17/tree")
            d.balanced(eng, q, what)
            d.size_is(eng, q, 1, what)
            d.dead_is(eng, q, (), what)
            if d.order:
                tail = NULL if case == "empty" else PtrV(d.L)
                want = {(new, K["n_prev"]): tail, (new, K["n_next"]): NULL, ("d", K["d_tail"]): PtrV(new)}
                if case == "empty":
                    want[("d", K["d_head"])] = PtrV(new)
                else:
                    want[(d.L, K["n_next"])] = PtrV(new)
                d.list_is(eng, q, want, what, (new,))
            for y, k in eng.call(q.copy(), "value_type", [v]):
                must_equal(eng, y, k, IntV(32, K["t_NULL"]), "C17/new", "null", what + ": the new value is not null")
            for y, k in eng.call(q.copy(), "value_is_new", [v]):
                if isinstance(k, IntV):
                    must(eng, y, "ne", k.l, "C17/new", "new", what + ": the new value is not marked as new")


def remove(eng, d, name="value_dict_remove_"):
    what = name + "()"
    K = d.K
    for case, s0 in d.states(eng, True):
        keep0(d, s0)
        for q0, v in eng.call(s0, name, args_of(d)):
            for q, failed in status(eng, q0, v, what, None):
                t = T(q)
                w = d.words(eng, q, what)
                if w is None:
                    continue
                now, was = w
                z = [t.goal[1]] if t.goal[0] == "removed" else zero(t)
                if failed:
                    if z:
                        bad(eng, q, "C17/map", "missed", what + " fails although the key is in the dictionary")
                        continue
                    if not trees.gap(t, was):
                        bad(eng, q, "C17/map", "search", what + " gives up before the whole search path was followed")
                    d.unchanged(eng, q, what + " of an absent key")
                    continue
                if not z:
                    bad(eng, q, "C17/map", "phantom", what + " reports success although the key is not in the dictionary")
                    continue
                x = z[0]
                if t.goal[0] != "removed":
                    was = [y for y in was if y != ("n", x)]
                if now != was:
                    if ("n", x) in now:
                        bad(eng, q, "C17/tree", "kept", "the item removed by %s is still in the tree" % what)
                    else:
                        bad(eng, q, "C17/tree", "order", "%s: other items are lost or out of order (%s -> %s)" % (what, was, now))
                else:
                    eng.ok("C17/tree")
                d.balanced(eng, q, what)
                d.size_is(eng, q, -1, what)
                if q.mem[x].alive:
                    bad(eng, q, "leak", "node", what + " does not release the removed node")
                d.dead_is(eng, q, (x,), what)
                if d.order:
                    p, n = q.x["prev"], q.x["next"]
                    want = {}
                    want[("d", K["d_head"]) if p.r is None else (d.P, K["n_next"])] = n
                    want[("d", K["d_tail"]) if n.r is None else (d.N, K["n_prev"])] = p
                    d.list_is(eng, q, want, what)


def run(s, K, variants, part="all"):
    for vn in reversed(list(variants)):
        for how, ends in ENDS if VARIANTS[vn]["order"] else [("", None)]:
            s.run("value_dict_remove_ (%s%s)" % (vn, how), lambda eng: remove(eng, Dict(K, ends=ends, **VARIANTS[vn])))
    for vn in variants:
        mk = lambda: Dict(K, **VARIANTS[vn])
        s.run("value_dict_get_ (%s)" % vn, lambda eng: get(eng, mk()))
        s.run("value_dict_add_ (%s)" % vn, lambda eng: add(eng, mk(), "value_dict_add_"))
        s.run("value_dict_get_or_add_ (%s)" % vn, lambda eng: add(eng, mk(), "value_dict_get_or_add_"))
    n = 4 * len(variants)
    if "plain" in variants:
        for what, kw in (("C string", dict(cstr=True)), ("null key", dict(nullkey=True))):
            mk2 = lambda: Dict(K, **dict(VARIANTS["plain"], **kw))
            s.run("value_dict_get (plain, %s)" % what, lambda eng: get(eng, mk2(), "value_dict_get"))
            s.run("value_dict_add (plain, %s)" % what, lambda eng: add(eng, mk2(), "value_dict_add"))
            s.run("value_dict_get_or_add (plain, %s)" % what, lambda eng: add(eng, mk2(), "value_dict_get_or_add"))
            s.run("value_dict_remove (plain, %s)" % what, lambda eng: remove(eng, mk2(), "value_dict_remove"))
        for k in ["null", "bool"] + NUM + ["string", "longstring", "array", "pointer"]:
            s.run("dictionary operations on %s (plain)" % k, lambda eng: other(eng, K, k))
        n += 8 + 12
    return n


def other(eng, K, k):
    """Operations on a value which is no dictionary: refused without any change."""
    st0 = eng.initial()
    starts = []
    if k == "pointer":
        starts = [(st0, NULL, None)]
    else:
        rid = new_value(eng, st0, K)
        for _, s0, x in operands(eng, st0, k):
            starts += [(z, PtrV(rid), rid) for z in init_value(eng, s0, K, k, rid, x)]
    for st, v, rid in starts:
        n = u64("key_len", 0, PMAX)
        key = [PtrV(eng.region(st, "key text", n, base="atoms", kind="object")), IntV(64, n)]
        for fn, args in (("get_", key), ("add_", key), ("get_or_add_", key), ("remove_", key), ("size", []), ("flags", []), ("clean", [])):
            for q, r in eng.call(st.copy(), "value_dict_" + fn, [v] + args):
                what = "value_dict_%s() of a %s value" % (fn, k)
                if fn in ("get_", "add_", "get_or_add_"):
                    must_equal(eng, q, r, NULL, "C17/other", "ret", what + ": not refused")
                elif fn == "remove_":
                    must_equal(eng, q, r, IntV(32, (1 << 32) - 1), "C17/other", "ret", what + ": not refused")
                elif fn != "clean":
                    must_equal(eng, q, r, IntV(64 if fn == "size" else 32, 0), "C17/other", "ret", what + ": not zero")
                for r0 in list(st.mem.values()):
                    if r0.kind != "alloca" and (q.mem[r0.id].content is not r0.content or not q.mem[r0.id].alive):
                        bad(eng, q, "C17/other", "write", what + " changes it", hard=False)
                eng.ok("C17/other")
        never = lambda eng, st, args, I: bad(eng, st, "C19/visit", "other", "a walk of a %s value calls the callback" % k) or [(st, IntV(32, u32("ret")))]
        eng.models["app:visit"] = never
        for fn in ("walk_sorted", "walk_ordered", "keys_sorted", "keys_ordered"):
            s = st.copy()
            room = u64("buffer_size", 0, PMAX // 8)
            buf = eng.region(s, "buffer", L(room).scale(8), base="undef", kind="object")
            args = [PtrV(buf), IntV(64, room)] if fn[0] == "k" else [FnV("app:visit"), PtrV(eng.region(s, "ctx", 1, base="atoms", kind="object"))]
            for q, r in eng.call(s.copy(), "value_dict_" + fn, [v] + args):
                what = "value_dict_%s() of a %s value" % (fn, k)
                must_equal(eng, q, r, IntV(64, 0) if fn[0] == "k" else IntV(32, (1 << 32) - 1), "C19/return", "other", what + ": not refused")
                for r0 in list(s.mem.values()):
                    if r0.kind != "alloca" and (q.mem[r0.id].content is not r0.content or not q.mem[r0.id].alive):
                        bad(eng, q, "C19/walk", "write", what + " changes something", hard=False)


RULE = ("each operation on an arbitrary valid dictionary: the tree is a red-black zipper (search path of unbounded length, summarised subtrees), the loops are walked to a fixpoint; key bytes, "
        "lengths and comparison results are arbitrary, the comparison of two keys being one symbol per pair of keys")


def suites(rep, variants=None):
    """Everything about dictionaries that allocates or releases memory."""
    K = dconst()
    s = Suite(rep, "value", classify, passes="function(mem2reg)", max_states=1000000, apart=True)
    run(s, K, variants or VARIANTS)
    walks(s, K, ["plain", "ordered"], CLEANS)


def c17(rep):
    rep.rule(RULE + "; which key is found, which item is added or removed, in-order sequence, red-black rules, item count, key text and the new value are compared with the ordered map")
    rep.assume("the comparator is a total order of keys; initializing and finalizing of keys and values inside nodes is represented by the public functions' contracts (C22, C23, C06); tree paths within the bound of C41")
    K = dconst()
    s = Suite(rep, "value", classify, passes="function(mem2reg)", max_states=1000000, apart=True)
    n = run(s, K, VARIANTS)
    n += walks(s, K, ["plain", "ordered", "custom", "custom ordered"], CLEANS)
    rep.need("entry points", n)


def c18(rep):
    rep.rule(RULE + "; the links of the insertion order are those of a doubly linked list whose neighbours are generic items, and are compared with appending and unlinking")
    rep.assume("as for C17; the insertion order of a valid dictionary is a doubly linked list of exactly its items")
    K = dconst()
    s = Suite(rep, "value", classify, passes="function(mem2reg)", max_states=1000000, apart=True)
    n = run(s, K, VARIANTS)
    n += walks(s, K, ["plain", "ordered"], [w for w in WALKS if w[1].endswith("_ordered")] + CLEANS)
    rep.need("entry points", n)


# ------------------------------------------------------------------ C19

class Walk:
    """One generic iteration of the main loop of a walk: the stack holds the nodes still to be visited, the topmost first, each followed
    by its right subtree. Holds initially (leftmost path of the root) and must hold again after each iteration; the iteration must have
    visited exactly the topmost node."""

    def __init__(self, d, kind, fn):
        self.d, self.kind, self.fn = d, kind, fn        # kind: "walk", "keys", "clean"
        self.arrivals = []
        self.generic_done = {}
        self.ordered = fn.endswith("_ordered")

    def what(self):
        return self.fn + "()"

    def install(self, eng):
        inner = trees.hook()
        eng.models["app:visit"] = self.m_visit

        def go(eng, st, loop):
            if "generic" in st.x or not self.outer(eng, st, loop):
                return inner(eng, st, loop)
            return self.ordered_loop(eng, st, loop) if self.ordered else self.sorted_loop(eng, st, loop)
        eng.loop_hook = go

    def outer(self, eng, st, loop):
        from engine import llvmir
        F = st.frames[-1].fn
        if any(l is not loop and l.header in loop.blocks for l in llvmir.loops(F).values() if l is not None):
            return True
        for b in loop.blocks:
            for I in F.blocks[b].instrs:
                if I.op in ("call", "invoke") and not (I.callee[0] == "fn" and I.callee[1].startswith("llvm.")):
                    return True
        return self.ordered

    def start(self, eng):
        """-> states"""
        d, K = self.d, self.d.K
        st = d.start(eng)
        t = T(st)
        t.goal = ("same",)
        t.keyed = False
        self.k = fresh("stacked", 2, t.D)
        self.delta = fresh("depth", 1, t.D - 1)
        self.n = fresh("listed", 0, PMAX // 8)
        self.room = fresh("buffer_size", 0, PMAX // 8)
        self.ans = fresh("answer", 1, (1 << 32) - 1)
        self.size = fresh("size", 1, PMAX)
        self.ctx = eng.region(st, "ctx", 1, base="atoms", kind="object")
        self.buf = eng.region(st, "buffer", L(self.room).scale(8), base="undef", kind="object") if self.kind == "keys" else None
        if self.ordered:
            f = walk.Fields("list item", {K["n_prev"]: (8, self.mk_any), K["n_next"]: (8, self.mk_next)})
            self.X = eng.region(st, "current item", K["n"], base="lazy", kind="object", data=f)
            self.Y = eng.region(st, "next item", K["n"], base="atoms", kind="object")
        t.freeze(eng, st)
        self.inner_key = st.x["Tkey"]
        st.x["Tkey"] = lambda eng, st, vk: (d.extra_key(eng, st, vk), st.x.get("generic"), repr(st.x.get("visits")), st.x.get("case"))
        out = []
        for case in ("empty", "node"):
            s = st.copy()
            t = trees.edit(s)
            s.x = dict(s.x)
            s.x["case"] = case
            s.x["visits"] = ()
            if case == "empty":
                t.root = NULL
                size = ZERO
            else:
                r = d.lay.region(eng, s, "root")
                h = fresh("h", 0, 200)
                t.nodes[r] = Node(BLACK, (None, None), (h, h), Lin(0))
                t.root = PtrV(r)
                size = self.size
            cells = {K["d_root"]: (8, t.root), K["d_size"]: (8, IntV(64, size))}
            if d.full:
                cells[K["d_cmp"]] = (8, FnV("app:cmp") if d.cmp else NULL)
                if d.order and case == "node":
                    cells[K["d_head"]], cells[K["d_tail"]] = (8, PtrV(d.H)), (8, PtrV(d.L))
                else:
                    cells[K["d_head"]] = cells[K["d_tail"]] = (8, NULL)
            R = eng.mut(s, d.d[0])
            R.content = Content("cells", Content("base", val="undef", off=d.d[0]), cells=cells)
            s.x["before"] = tuple((r, s.mem[r].content) for r in (d.d[0], d.v))
            out.append((case, s))
        return out

    def mk_any(self, eng, st, rid):
        return [(st, PtrV(self.d.P))]

    def mk_next(self, eng, st, rid):
        a = st.copy()
        return [(a, NULL), (st, PtrV(self.Y))]

    def m_visit(self, eng, st, args, I):
        out = []
        for r in (ZERO, L(self.ans)):
            s = st.copy()
            s.x = dict(s.x)
            s.x["visits"] = s.x["visits"] + ((tuple(args), r),)
            out.append((s, IntV(32, r)))
        return out

    # ---- phis of the loop header
    def header(self, st, loop):
        from engine import live
        f = st.frames[-1]
        ids = live.at(f.fn, f.block, f.idx)
        return {I.id: f.env[I.id] for I in f.fn.blocks[loop.header].instrs if I.op == "phi" and I.id in ids and I.id in f.env}

    def stack(self, st):
        a = [r for r, R in st.mem.items() if R.alive and R.kind == "alloca" and trees.is_array(st, r)]
        if len(a) != 1:
            raise Unsupported("stack of the walk")
        return a[0]

    def pushed(self, eng, st, a, start, v):
        """The entries of the stack from `start` on are the leftmost path of v. -> index behind it or None"""
        t = T(st)
        try:
            ents, cells, _ = trees.array_entries(eng, st, a)
        except trees.NoFold as e:
            raise Unsupported("stack of the walk: %s" % e)
        pos = L(start)
        what = self.what()

        def find(k, ref):
            for i, k2, r2 in ents:
                if k == k2 and st.s.entails_eq(i - pos):
                    return r2 == ref
            return False
        while True:
            if v is None:
                bad(eng, st, "C19/walk", "skipped", what + ": a subtree is not visited")
                return None
            if v.r is None:
                return st.s.norm(pos)
            if v.r in t.nodes:
                if not find("val", PtrV(v.r)):
                    bad(eng, st, "C19/walk", "lost", what + ": a node is not kept for a later visit")
                    return None
                pos = pos + 1
                v = t.nodes[v.r].kid[0]
                continue
            sid = t.bytop(v.r)
            if sid is None:
                raise Unsupported("lost node")
            g = t.segs[sid]
            if g.dirs != frozenset((0,)) or not find("seg", sid):
                bad(eng, st, "C19/walk", "lost", what + ": nodes are not kept for a later visit")
                return None
            pos = pos + g.len
            v = g.hole

    def classify(self, st, vals, m):
        """{phi: (role, constant)}"""
        out = {}
        t = T(st)
        for p, v in vals.items():
            if isinstance(v, IntV):
                c = st.s.norm(v.l - m)
                l = st.s.norm(v.l)
                if not c.t:
                    out[p] = ("count", c.c, v.w)
                elif not l.t:
                    out[p] = ("const", l.c, v.w)
                elif all(s < t.watermark for s, _ in l.t):
                    out[p] = ("keep", v, 0)
                else:
                    raise Unsupported("loop variable of the walk")
            elif isinstance(v, PtrV) and v.r is not None and st.mem[v.r].kind == "alloca" and trees.is_array(st, v.r):
                c = st.s.norm(v.o - m.scale(8))
                o = st.s.norm(v.o)
                if not c.t:
                    out[p] = ("stack", c.c, v.r)
                elif not o.t:
                    out[p] = ("keep", v, 0)
                else:
                    raise Unsupported("loop variable of the walk")
            elif isinstance(v, PtrV) and self.buf is not None and v.r == self.buf and not st.s.norm(v.o).t:
                out[p] = ("buffer", st.s.norm(v.o).c, 0)
            elif isinstance(v, PtrV) and (v.r is None or v.r in t.basemem and st.mem[v.r].kind != "node"):
                out[p] = ("keep", v, 0)
            elif isinstance(v, (Undef, FnV)):
                out[p] = ("keep", v, 0)
            else:
                raise Unsupported("loop variable of the walk")
        return out

    def value(self, role, count, n):
        k, c, x = role
        if k == "count":
            return IntV(x, L(count) + c)
        if k == "stack":
            return PtrV(x, L(count).scale(8) + c)
        if k == "const":
            return IntV(x, c)
        if k == "counter":
            return IntV(x, L(n) + c)
        if k == "answer":
            return IntV(x, self.answer)
        if k == "buffer":
            return PtrV(self.buf, L(c))
        if k == "bufptr":
            return PtrV(self.buf, L(n).scale(8) + c)
        return c

    def sorted_loop(self, eng, st, loop):
        t = T(st)
        a = self.stack(st)
        if not trees.same_structure(eng, st):
            raise Unsupported("tree changed before the walk")
        m = self.pushed(eng, st, a, ZERO, t.root)
        if m is None:
            return []
        vals = self.header(st, loop)
        self.arrivals.append((st, m, vals, loop))
        if not m.t:
            return []
        roles = self.classify(st, vals, m)
        key = tuple(sorted(roles.items(), key=repr))
        if repr(key) in self.generic_done:
            return []
        self.generic_done[repr(key)] = roles
        return self.iterate(eng, st, loop, roles, lambda s: self.bodies(eng, s, a))

    def iterate(self, eng, st, loop, roles, bodies, second=False):
        """All iterations from the generic states; the loop variables that count along are found by a first trial."""
        from engine import loops
        depth = len(st.frames)
        snap = loops.snapshot(eng)
        candidates = [p for p, r in roles.items() if r[0] in ("const", "buffer")]
        self.zero = any(st.s.entails_eq(m) for st, m, _, _ in self.arrivals)
        if candidates:
            moved = {}
            for s, X, count in bodies(st):
                if X is None:
                    continue
                self.enter(eng, s, roles, count)
                if not self.space(eng, s, True):
                    continue
                for o in eng.explore([s], depth, loop):
                    if o[0] != "back":
                        continue
                    now = self.header(o[1], loop)
                    for p in candidates:
                        v, r = now.get(p), roles[p]
                        if self.kind == "keys" and isinstance(v, IntV) and r[0] == "const" and o[1].s.entails_eq(v.l - r[1] - 1):
                            moved.setdefault(p, set()).add("counter")
                        elif self.kind == "keys" and isinstance(v, PtrV) and r[0] == "buffer" and o[1].s.entails_eq(v.o - r[1] - 8):
                            moved.setdefault(p, set()).add("bufptr")
                        elif self.kind == "walk" and isinstance(v, IntV) and r[0] == "const" and r[1] == 0 and len(o[1].x["visits"]) == 1 \
                                and o[1].s.entails_eq(v.l - o[1].x["visits"][0][1]):
                            moved.setdefault(p, set()).add("answer")
                        else:
                            moved.setdefault(p, set()).add(None)
            loops.restore(eng, snap)
            roles = dict(roles)
            for p, x in moved.items():
                if len(x) == 1 and None not in x:
                    r = roles[p]
                    roles[p] = (next(iter(x)),) + r[1:]
        self.roles = roles
        exits = []
        answer = any(r[0] == "answer" for r in roles.values())
        todo = [b for b in bodies(st) if b[1] is not None] + [b for b in bodies(st) if b[1] is None]
        if answer:
            todo += [(b[0].copy(),) + b[1:] + (True,) for b in todo]
        for s, X, count, *stopped in todo:
            if X is None and not self.zero:
                continue
            self.enter(eng, s, roles, count)
            if stopped:
                # the callback has just asked to stop
                r = L(self.ans)
                s.x["generic"] = (s.x["generic"], "stopped")
                for p, x in roles.items():
                    if x[0] == "answer":
                        s.frames[-1].env[p] = IntV(x[2], r)
            both = [s, s.copy()] if self.kind == "keys" else [s]
            both = [y for y, more in zip(both, (True, False)) if self.kind != "keys" or self.space(eng, y, more)]
            for o in eng.explore(both, depth, loop):
                z = o[1]
                if stopped:
                    if o[0] == "back" or self.visited_any(z):
                        bad(eng, z, "C19/stop", "goes on", self.what() + " goes on although the callback asked to stop")
                    else:
                        z.x = dict(z.x)
                        z.x["end"] = ("stopped", r)
                        exits.append(o[1:])
                elif o[0] == "back":
                    self.again(eng, z, loop, roles, X, answer)
                else:
                    exits += [(y,) + o[2:] for y in self.leaving(eng, z, X)]
        return exits

    def space(self, eng, s, more):
        """The array has room for another entry, or is full: a fact that survives the abstraction of the loops below."""
        if not s.assume("ge" if more else "eq", L(self.room) - self.n - (1 if more else 0)):
            return False
        s.x = dict(s.x)
        s.x["generic"] = (s.x["generic"], more)
        trees.edit(s).base = s.s
        return True

    def enter(self, eng, s, roles, count):
        f = s.frames[-1]
        self.answer = 0
        for p, r in roles.items():
            f.env[p] = self.value(r, count, self.n)
        s.x = dict(s.x)
        s.x["generic"] = s.x.get("generic") or True
        s.x["visits"] = ()
        if self.buf is not None:
            R = eng.mut(s, self.buf)
            R.content = Content("base", val="undef", off=self.buf)

    def bodies(self, eng, st, a):
        """Generic states: nothing left, the root alone, or a deep node. -> [(state, node, count)]"""
        d = self.d
        out = []
        for case, col in (("none", BLACK), ("root", BLACK), ("deep", BLACK), ("deep", RED)):
            s = st.copy()
            t = trees.edit(s)
            t.nodes, t.segs, t.facts = {}, {}, {}
            s.s = T(st).base.copy()
            s.pcl, s.atoms = T(st).basepcl, T(st).baseatoms
            t.unknown = self.other_entry
            ents = []
            x = None
            count = ZERO
            if case == "none":
                # every item has been visited
                t.root = NULL
            else:
                x = d.lay.region(eng, s, "current node")
                h = self.hs if hasattr(self, "hs") else fresh("h", 0, 200)
                dep = ZERO
                count = L(1)
                if case == "deep":
                    dep = L(self.delta)
                    count = L(self.k)
                    for one in (False,):
                        if not s.assume("ge", dep - count + 1):
                            raise Unsupported("stack bound")
                    top = d.lay.region(eng, s, "root")
                    ht = fresh("ht", 0, 200)
                    own = L(h) + (1 if col == BLACK else 0)
                    if not s.assume("ge", L(ht) - own):
                        continue
                    t.segs[trees.newsid()] = trees.Seg(top=top, len=dep, hole=PtrV(x), hh=own, ht=L(ht), dirs=frozenset((0, 1)), ordered=False,
                                                       arr=None, start=None, depth=ZERO, topc=frozenset((BLACK,)), holered=(col == RED))
                    t.root = PtrV(top)
                else:
                    t.root = PtrV(x)
                t.nodes[x] = Node(col, (None, None), (L(h), L(h)), dep)
                t.extra = (x,)
                ents = [(count - 1, "val", PtrV(x))]
            R = eng.mut(s, a)
            R.content = Content("base", val="lazy", src=trees.PATH, off=a)
            trees.setpath(s, a, ents)
            s.x["generic"] = (case, col, count)
            s.x["X"] = x
            s.x["count"] = count
            eng.put(s, d.d[0], L(d.K["d_root"]), 8, t.root)
            s.x["before"] = tuple((r, s.mem[r].content if r == d.d[0] else ct) for r, ct in s.x["before"])
            t.freeze(eng, s)
            out.append((s, x, count))
            if case == "deep":
                # a deep node may be the only one on the stack
                s2 = s.copy()
                e = trees.edit(s2)
                c1 = L(1)
                s2.x["generic"] = (case, col, c1)
                s2.x["count"] = c1
                trees.setpath(s2, a, [(ZERO, "val", PtrV(x))])
                e.freeze(eng, s2)
                out.append((s2, x, c1))
        return out

    def other_entry(self, eng, st, rid, idx):
        n = st.x["count"]
        out = []
        s = st.copy()
        if s.assume("ge", idx - n):
            out.append((s, Undef(8, "an entry above the top of the stack")))
        s = st.copy()
        if s.assume("ge", n - 2 - idx):
            out.append((s, PtrV(eng.region(s, "node deeper in the stack", self.d.K["n"], base="atoms", kind="object"))))
        if not out:
            raise Unsupported("entry of the stack")
        return out

    def visited(self, eng, z):
        """-> list of (key pointer, value pointer or None)"""
        if self.kind == "walk":
            out = []
            for args, r in z.x["visits"]:
                if len(args) != 3:
                    raise Unsupported("callback arguments")
                if args[2] != PtrV(self.ctx):
                    bad(eng, z, "C19/visit", "ctx", self.what() + " does not pass the context to the callback")
                out.append((args[0], args[1]))
            return out
        if self.kind == "keys":
            out = []
            ct = z.mem[self.buf].content
            while ct.k != "base":
                if ct.k == "cells":
                    for o, (n, v) in ct.cells.items():
                        out.append((L(o), n, v))
                elif ct.k == "store":
                    out.append((ct.off, ct.len, ct.val))
                else:
                    raise Unsupported("writes to the buffer")
                ct = ct.prev
            res = []
            for o, n, v in out:
                must(eng, z, "eq", o - L(self.n).scale(8), "C19/visit", "slot", self.what() + " writes to another place of the array than the next free one")
                res.append((v, None))
            return res
        out = []
        for r, R in z.mem.items():
            if R.kind == "node":
                a, b = ("fini", r, 0) in z.x, ("fini", r, self.d.K["n_value"]) in z.x
                if a or b or not R.alive:
                    if not (a and b):
                        bad(eng, z, "C17/finalize", "half", self.what() + " does not finalize both key and value of an item")
                    if R.alive:
                        bad(eng, z, "leak", "kept", self.what() + " does not release a node")
                    out.append((PtrV(r), None))
        return out

    def one_visit(self, eng, z, X):
        vs = self.visited(eng, z)
        if len(vs) != 1:
            bad(eng, z, "C19/visit", "count", "%s visits %d items in one step instead of one" % (self.what(), len(vs)))
            return False
        k, v = vs[0]
        if k != PtrV(X) or v is not None and v != PtrV(X, L(self.d.K["n_value"])):
            bad(eng, z, "C19/visit", "which", "%s does not visit the next item in order (%r, %r)" % (self.what(), k, v))
            return False
        eng.ok("C19/visit")
        return True

    def again(self, eng, z, loop, roles, X, answer):
        what = self.what()
        if X is None:
            bad(eng, z, "C19/walk", "end", what + " goes on after the last item")
            return
        if not self.one_visit(eng, z, X):
            return
        if self.kind == "walk" and not answer:
            s = z.copy()
            if s.assume("ne", L(z.x["visits"][0][1])):
                bad(eng, s, "C19/stop", "goes on", what + " goes on although the callback asked to stop")
        if self.ordered:
            nx = z.x.get(("lz", self.X, self.d.K["n_next"]))
            if nx is None:
                bad(eng, z, "C19/walk", "next", what + " does not follow the insertion order")
                return
            if nx.r is None:
                self.zero = True
            self.answer = z.x["visits"][0][1] if self.kind == "walk" else 0
            self.next_ok(eng, z, loop, roles, nx)
            return
        t = T(z)
        m = self.pushed(eng, z, self.stack(z), z.x["count"] - 1, t.nodes[X].kid[1])
        if m is None:
            return
        if z.copy().assume("eq", m):
            self.zero = True
        now = self.header(z, loop)
        self.answer = z.x["visits"][0][1] if self.kind == "walk" else 0
        for p, r in roles.items():
            if p in now:
                self.same(eng, z, now[p], self.value(r, m, L(self.n) + 1), p)
        if any(r[0] in ("counter", "bufptr") for r in roles.values()):
            must(eng, z, "ge", L(self.room) - self.n - 1, "C19/visit", "room", what + " lists more entries than there is room for")
        eng.ok("C19/walk")

    def same(self, eng, z, v, w, p):
        if isinstance(w, (Undef, FnV)):
            return
        if isinstance(v, Undef) or isinstance(v, IntV) != isinstance(w, IntV):
            bad(eng, z, "C19/walk", "var", "%s: the loop variables do not match the work done" % self.what())
            return
        if isinstance(v, PtrV) and v.r != w.r:
            if v.r is None or w.r is None or True:
                bad(eng, z, "C19/walk", "var", "%s: the loop variables do not match the work done (%r, expected %r)" % (self.what(), v, w))
            return
        d = (v.l - w.l) if isinstance(v, IntV) else (v.o - w.o)
        must(eng, z, "eq", d, "C19/walk", "var", "%s: the loop variables do not match the work done" % self.what())

    def exhausted(self, eng, z, X):
        """Is nothing left to be visited after X?"""
        if self.ordered:
            nx = z.x.get(("lz", self.X, self.d.K["n_next"]))
            return nx is not None and nx.r is None
        v = T(z).nodes[X].kid[1]
        if v is None:
            return False
        m = self.pushed(eng, z, self.stack(z), z.x["count"] - 1, v)
        return m is not None and z.s.entails_eq(m)

    def leaving(self, eng, z, X):
        """Check the reason for which the loop ends; note what has to be returned. -> states"""
        what = self.what()

        def end(s, *e):
            s.x = dict(s.x)
            s.x["end"] = e
            return s
        if X is None:
            if self.visited(eng, z):
                bad(eng, z, "C19/visit", "after", what + " visits something after the last item")
                return []
            return [end(z, "all", L(self.n))]
        n = L(self.n)
        out = []
        if not self.visited(eng, z):
            if self.kind != "keys":
                bad(eng, z, "C19/walk", "early", what + " ends before all items have been visited")
            elif must(eng, z, "ge", n - self.room, "C19/walk", "early", what + " ends although there are more items and more room"):
                out.append(end(z, "full", n))
            return out
        if not self.one_visit(eng, z, X):
            return []
        if self.kind == "walk":
            r = z.x["visits"][0][1]
            s = z.copy()
            if s.assume("ne", L(r)):
                out.append(end(s, "stopped", r))
            if not z.assume("eq", L(r)):
                return out
            if not self.exhausted(eng, z, X):
                bad(eng, z, "C19/stop", "stops", what + " stops although the callback did not ask for it")
            else:
                out.append(end(z, "all", n + 1))
            return out
        if self.exhausted(eng, z, X):
            return [end(z, "all", n + 1)]
        if self.kind == "keys":
            if must(eng, z, "ge", n + 1 - self.room, "C19/walk", "early", what + " ends although there are more items and more room"):
                out.append(end(z, "full", n + 1))
        else:
            bad(eng, z, "C19/walk", "early", what + " ends before all items have been released")
        return out

    # ---- insertion order
    def ordered_loop(self, eng, st, loop):
        d = self.d
        vals = self.header(st, loop)
        roles = {}
        t = T(st)
        for p, v in vals.items():
            if isinstance(v, PtrV) and v.r == d.H and st.s.entails_eq(v.o):
                roles[p] = ("item", None, 0)
            elif isinstance(v, PtrV) and v.r in tuple(getattr(d, x) for x in "HLPN" if hasattr(d, x)) and st.s.entails_eq(v.o):
                roles[p] = ("other item", None, 0)
            elif isinstance(v, IntV) and not st.s.norm(v.l).t:
                roles[p] = ("const", st.s.norm(v.l).c, v.w)
            elif isinstance(v, PtrV) and self.buf is not None and v.r == self.buf and not st.s.norm(v.o).t:
                roles[p] = ("buffer", st.s.norm(v.o).c, 0)
            elif isinstance(v, (Undef, FnV)) or isinstance(v, PtrV) and (v.r is None or v.r in t.basemem):
                roles[p] = ("keep", v, 0)
            elif isinstance(v, IntV) and all(s < t.watermark for s, _ in st.s.norm(v.l).t):
                roles[p] = ("keep", v, 0)
            else:
                raise Unsupported("loop variable of the walk")
        items = [p for p, r in roles.items() if r[0] == "item"]
        self.zero = False
        if st.x["case"] == "empty":
            # nothing to visit: the loop ends at once
            exits = []
            s = st.copy()
            s.x = dict(s.x)
            s.x["generic"] = "empty"
            for o in eng.explore([s], len(st.frames), loop):
                z = o[1]
                z.x = dict(z.x)
                if o[0] == "back" or self.visited(eng, z):
                    bad(eng, z, "C19/visit", "empty", self.what() + " visits something in an empty dictionary")
                else:
                    z.x["end"] = ("all", ZERO)
                    exits.append(o[1:])
            return exits
        if len(items) != 1:
            if not items and (any(r[0] == "other item" for r in roles.values()) or not any(isinstance(v, PtrV) and v.r is not None for v in vals.values())):
                bad(eng, st, "C19/walk", "head", self.what() + " does not start with the first item")
                return []
            raise Unsupported("loop variables of the walk in insertion order")
        self.item = items[0]

        def bodies(st):
            out = []
            for X in (None, self.X):
                s = st.copy()
                s.x = dict(s.x)
                s.s = t.base.copy()
                s.pcl, s.atoms = t.basepcl, t.baseatoms
                s.frames[-1].env[self.item] = NULL if X is None else PtrV(X)
                s.x["generic"] = repr(X)
                s.x["X"] = X
                out.append((s, X, ZERO))
            return out
        rest = {p: r for p, r in roles.items() if p != self.item}
        self.arrivals = []
        return self.iterate(eng, st, loop, rest, bodies)

    def next_ok(self, eng, z, loop, roles, nx):
        now = self.header(z, loop)
        v = now.get(self.item)
        if isinstance(v, IntV):
            v = PtrV(None, v.l)
        if not isinstance(v, PtrV) or v.r != nx.r or not z.s.entails_eq(v.o - nx.o):
            bad(eng, z, "C19/walk", "next", self.what() + " does not follow the insertion order")
            return
        for p, r in roles.items():
            if p in now:
                self.same(eng, z, now[p], self.value(r, ZERO, L(self.n) + 1), p)
        if any(r[0] in ("counter", "bufptr") for r in roles.values()):
            must(eng, z, "ge", L(self.room) - self.n - 1, "C19/visit", "room", self.what() + " lists more entries than there is room for")
        eng.ok("C19/walk")

    # ---- driver
    def run(self, eng):
        d, K = self.d, self.d.K
        what = self.what()
        starts = self.start(eng)
        self.install(eng)
        for case, s0 in starts:
            args = [PtrV(d.v)]
            if self.fn == "value_fini":
                eng.mut(s0, d.d[0]).kind = "heap"
            if self.kind == "walk":
                args += [FnV("app:visit"), PtrV(self.ctx)]
            elif self.kind == "keys":
                args += [PtrV(self.buf), IntV(64, self.room)]
            for q, v in eng.call(s0, self.fn, args):
                self.result(eng, q, v, case)
        # the first iteration starts with what the generic one assumes
        if not self.ordered:
            self.answer = 0
            for st, m, vals, loop in self.arrivals:
                for p, v in vals.items():
                    r = self.roles.get(p) if hasattr(self, "roles") else None
                    if r is None:
                        continue
                    w = self.value(r, m, ZERO)
                    self.same(eng, st, v, w, p)
                    eng.ok("C19/walk")
            if not self.generic_done:
                raise Unsupported("main loop of the walk not recognized")

    def result(self, eng, q, v, case):
        d, K = self.d, self.d.K
        what = self.what()
        end = q.x.get("end")
        if self.kind != "clean":
            if not trees.same_structure(eng, q) and "generic" not in q.x:
                bad(eng, q, "C19/walk", "changes", what + " changes the tree")
            if not all(self.kept(q, r, ct) for r, ct in q.x["before"]):
                bad(eng, q, "C19/walk", "changes", what + " changes the dictionary")
        if self.ordered and not d.order:
            want = IntV(32, (1 << 32) - 1) if self.kind == "walk" else IntV(64, 0)
            must_equal(eng, q, v, want, "C19/return", "refused", what + " of a dictionary without insertion order is not refused")
            if self.visited_any(q):
                bad(eng, q, "C19/visit", "refused", what + " of a dictionary without insertion order visits something")
            return
        if end is None:
            # no loop was entered
            if self.visited_any(q):
                bad(eng, q, "C19/visit", "outside", what + " visits something outside its loop", hard=False)
            elif self.kind == "keys":
                if case != "empty":
                    must(eng, q, "eq", L(self.room), "C19/walk", "none", what + " lists nothing although there are items and room")
                must_equal(eng, q, v, IntV(64, 0), "C19/return", "none", what + ": wrong count")
            elif case != "empty":
                bad(eng, q, "C19/walk", "none", what + " visits nothing although there are items")
            elif self.kind == "walk":
                must_equal(eng, q, v, IntV(32, 0), "C19/return", "none", what + " of an empty dictionary does not return zero")
            else:
                self.cleaned(eng, q)
            return
        if self.kind == "walk":
            w = IntV(32, 0) if end[0] == "all" else IntV(32, L(end[1]))
            must_equal(eng, q, v, w, "C19/return", end[0], what + (" does not return zero after the last item" if end[0] == "all" else
                                                                  " does not return what the callback returned"))
        elif self.kind == "keys":
            must_equal(eng, q, v, IntV(64, end[1]), "C19/return", end[0], what + " does not return the number of listed keys")
        else:
            self.cleaned(eng, q)

    def kept(self, q, rid, ct):
        """The fields of a region still hold what they did."""
        now = q.mem[rid].content
        if now is ct:
            return True

        def cells(ct):
            out = {}
            while ct.k == "cells":
                for o, c in ct.cells.items():
                    out.setdefault(o, c)
                ct = ct.prev
            return out, ct.k == "base"
        a, fa = cells(ct)
        b, fb = cells(now)
        if not (fa and fb):
            raise Unsupported("content of the dictionary")
        return set(a) == set(b) and all(a[o][0] == b[o][0] and (a[o][1] == b[o][1] or type(a[o][1]) is type(b[o][1]) and same_value(None, q, a[o][1], b[o][1])) for o in a)

    def visited_any(self, q):
        if self.kind == "walk":
            return bool(q.x["visits"])
        if self.kind == "keys":
            return q.mem[self.buf].content.k != "base"
        return False

    def cleaned(self, eng, q):
        d, K = self.d, self.d.K
        what = self.what()
        if self.fn == "value_fini":
            if q.mem[d.d[0]].alive:
                bad(eng, q, "leak", "dict", what + " of a dictionary does not release the dictionary")
            else:
                eng.ok("leak")
            for y, t in eng.call(q.copy(), "value_type", [PtrV(d.v)]):
                must_equal(eng, y, t, IntV(32, K["t_NULL"]), "C17/clean", "null", what + " of a dictionary does not leave a null value")
            return
        want = [("d_root", NULL), ("d_size", IntV(64, 0))]
        if d.order:
            want += [("d_head", NULL), ("d_tail", NULL)]
        for f, w in want:
            v = rd(eng, q, d.d[0], K[f], "ptr" if isinstance(w, PtrV) else "int")
            if isinstance(v, PtrV) and isinstance(w, IntV) and v.r is None:
                v = IntV(64, v.o)
            must_equal(eng, q, v, w, "C17/clean", f, what + " does not leave an empty dictionary")
            if f in ("d_head", "d_tail"):
                must_equal(eng, q, v, w, "C18/order", f, what + " does not forget the insertion order")
        if d.cmp:
            v = rd(eng, q, d.d[0], K["d_cmp"], "ptr")
            if v != FnV("app:cmp"):
                bad(eng, q, "C17/clean", "cmp", what + " loses the comparator")
        if not self.kept(q, *q.x["before"][1]):
            for r, w in zip(eng.call(q.copy(), "value_type", [PtrV(d.v)]), [K["t_DICT"]]):
                must_equal(eng, r[0], r[1], IntV(32, w), "C17/clean", "type", what + " changes the type")
            for y, fl in eng.call(q.copy(), "value_dict_flags", [PtrV(d.v)]):
                must_equal(eng, y, fl, IntV(32, 1 if d.order else 0), "C17/clean", "flags", what + " changes the flags of the dictionary")


CLEANS = [("clean", "value_dict_clean"), ("clean", "value_fini")]
WALKS = [("walk", "value_dict_walk_sorted"), ("keys", "value_dict_keys_sorted"), ("walk", "value_dict_walk_ordered"), ("keys", "value_dict_keys_ordered")]


def walks(s, K, variants, which):
    n = 0
    for vn in variants:
        for kind, fn in which:
            s.run("%s (%s)" % (fn, vn), lambda eng: Walk(Dict(K, **VARIANTS[vn]), kind, fn).run(eng))
            n += 1
    return n


def c19(rep):
    rep.rule("loop contract of the walk: the stack holds the items still to come, each followed by its right subtree; holds on entry, one iteration on a generic stack of any depth visits exactly the "
             "topmost item and keeps it; in insertion order: one iteration on a generic item visits it and goes on to its successor; exits and results compared per case (done, stopped, full)")
    rep.assume("the callback does not change the dictionary; tree paths within the bound of C41")
    K = dconst()
    s = Suite(rep, "value", classify, passes="function(mem2reg)", max_states=1000000, apart=True)
    n = walks(s, K, ["plain", "ordered", "custom", "custom ordered"], WALKS)
    for k in ["null", "bool"] + NUM + ["string", "longstring", "array", "pointer"]:
        s.run("dictionary operations on %s (plain)" % k, lambda eng: other(eng, K, k))
    rep.need("entry points", n + 10)
