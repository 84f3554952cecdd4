"""LIST, SLIST and QLIST (C14)."""
from .common import *

EXTRA = """
struct verif_ln { int a; char b[7]; LIST_NODE l; SLIST_NODE s; QLIST_NODE q; };
struct verif_ln* verif_list_data(LIST_NODE* p) { return LIST_DATA(p, struct verif_ln, l); }
struct verif_ln* verif_slist_data(SLIST_NODE* p) { return SLIST_DATA(p, struct verif_ln, s); }
struct verif_ln* verif_qlist_data(QLIST_NODE* p) { return QLIST_DATA(p, struct verif_ln, q); }
"""

KINDS = {"list": ("LIST", True, False), "slist": ("SLIST", False, False), "qlist": ("QLIST", False, True)}


def classify(v, label):
    if v.cls in ("leak", "free"):
        return {"C06"}
    return {"C14"}


class Ring:
    """A list with explicit nodes; between two of them there may be a gap, i.e. one or more further nodes which the
    operation is not expected to touch (an access makes the analysis undecided)."""

    def __init__(self, D, eng, st, kind, n, gaps):
        self.D, self.eng, self.kind = D, eng, kind
        self.o = D.off[kind]
        self.back, self.tail = KINDS[kind][1:]
        o = self.o
        self.list = eng.region(st, "*list", o["sizeof"], base="atoms", kind="object")
        self.addr = {0: (self.list, o["main"])}
        for i in range(1, n + 1):
            self.addr[i] = (eng.region(st, "node%d" % i, o["node"] + 16, base="atoms", kind="object"), 8)
        self.seq = list(range(n + 1))
        self.gap = {}
        for i in gaps:
            self.gap[i] = eng.region(st, "nodes after node%d" % i, None, kind="opaque")
        for k, i in enumerate(self.seq):
            j = self.seq[(k + 1) % len(self.seq)]
            eng.put(st, self.addr[i][0], L(self.addr[i][1] + o["n"]), 8, self.ahead(i, j))
            if self.back:
                eng.put(st, self.addr[j][0], L(self.addr[j][1] + o["p"]), 8, self.behind(i, j))
        if self.tail:
            eng.put(st, self.list, L(o["tail"]), 8, self.ptr(self.seq[-1]))

    def ptr(self, i):
        return PtrV(self.addr[i][0], Lin(self.addr[i][1]))

    def ahead(self, i, j):
        return PtrV(self.gap[i], Lin(0)) if i in self.gap else self.ptr(j)

    def behind(self, i, j):
        return PtrV(self.gap[i], Lin(64)) if i in self.gap else self.ptr(i)

    def new(self, st):
        i = max(self.addr) + 1
        self.addr[i] = (self.eng.region(st, "new node", self.o["node"] + 16, base="atoms", kind="object"), 8)
        return i

    def check(self, st, seq, what):
        """The list is exactly seq (sentinel first)."""
        e, o = self.eng, self.o

        def name(v):
            for i, (r, k) in self.addr.items():
                if isinstance(v, PtrV) and v.r == r and v.o == Lin(k):
                    return "the list itself" if i == 0 else e_name(st, r)
            if isinstance(v, PtrV) and v.r in st.mem:
                return st.mem[v.r].name
            return repr(v)

        def e_name(st, r):
            return st.mem[r].name
        for k, i in enumerate(seq):
            j = seq[(k + 1) % len(seq)]
            for on, fld, exp, at in (("n", "forward", self.ahead(i, j), i), ("p", "backward", self.behind(i, j), j)):
                if on == "p" and not self.back:
                    continue
                v = rd(e, st, self.addr[at][0], self.addr[at][1] + o[on], "ptr")
                if same_value(e, st, v, exp):
                    e.ok("link")
                else:
                    bad(e, st, "link", "%s" % fld, "%s: the %s link of %s points to %s, expected %s" %
                        (what, fld, name(self.ptr(at)), name(v), name(exp)), hard=self.firm(v))
                    return
        if self.tail:
            v = rd(e, st, self.list, o["tail"], "ptr")
            if same_value(e, st, v, self.ptr(seq[-1])):
                e.ok("link")
            else:
                bad(e, st, "link", "tail", "%s: the tail pointer is %s, expected %s" % (what, name(v), name(self.ptr(seq[-1]))), hard=self.firm(v))

    def firm(self, v):
        return isinstance(v, (PtrV, Undef)) or isinstance(v, IntV)


class Driver:
    def __init__(self, rep):
        ex = {}
        for k, (T, back, tail) in KINDS.items():
            ex[k + "_sizeof"] = "sizeof(%s)" % T
            ex[k + "_node"] = "sizeof(%s_NODE)" % T
            ex[k + "_main"] = "__builtin_offsetof(%s, main)" % T
            ex[k + "_n"] = "__builtin_offsetof(%s_NODE, n)" % T
            if back:
                ex[k + "_p"] = "__builtin_offsetof(%s_NODE, p)" % T
            if tail:
                ex[k + "_tail"] = "__builtin_offsetof(%s, tail)" % T
        ex["ln_l"] = "__builtin_offsetof(struct verif_ln, l)"
        ex["ln_s"] = "__builtin_offsetof(struct verif_ln, s)"
        ex["ln_q"] = "__builtin_offsetof(struct verif_ln, q)"
        ex["ln_size"] = "sizeof(struct verif_ln)"
        c = offsets("list", ex, extra=EXTRA)
        self.c = c
        self.off = {k: {n[len(k) + 1:]: v for n, v in c.items() if n.startswith(k + "_")} for k in KINDS}
        self.s = Suite(rep, "list", classify, extra=EXTRA)

    def shapes(self, full):
        """(number of explicit nodes, gaps, positions to use)"""
        for n in range(0, 6 if full else 5):
            yield n, (), None
        # longer lists: gaps away from the sentinel and from the position
        for n in range(3, 9):
            yield n, None, "far"

    def each(self, kind, label, fn, positions, full=True):
        """fn(eng, st, ring, i): i is a position index in the ring (0: the list itself)."""
        for n, gaps, far in self.shapes(full):
            for i in positions(n):
                if far:
                    # pos and its neighbours, the sentinel and its neighbours stay explicit
                    g = tuple(k for k in range(1, n) if k not in (i, i - 1) and k != 0)
                    g = tuple(k for k in g if not (k in (0,) or (k + 1) % (n + 1) == 0 or k == i or k + 1 == i))
                    if not g:
                        continue
                    cases = [g] if len(g) == 1 else [g, g[:1], g[-1:]]
                else:
                    cases = [()]
                for gs in cases:
                    def drv(eng):
                        st = eng.initial()
                        r = Ring(self, eng, st, kind, n, gs)
                        fn(eng, st, r, i)
                    self.s.run("%s (%d nodes%s, position %d)" % (label, n, "+" if gs else "", i), drv)

    def kind(self, kind):
        s = self.s
        P = kind + "_"
        back, tail = KINDS[kind][1:]

        def init(eng):
            st = eng.initial()
            r = Ring(self, eng, st, kind, 0, ())
            reg = eng.mut(st, r.list)
            reg.content = absint.Content("base", val="undef", src=None, off=r.list)
            for q, v in eng.call(st, P + "init", [r.ptr(0)]):
                r.check(q, [0], P + "init()")
        s.run(P + "init", init)

        every = lambda n: range(0, n + 1)
        nodes = lambda n: range(1, n + 1)
        once = lambda n: [0]

        def insert(fn, where):
            def go(eng, st, r, i):
                x = r.new(st)
                args = [r.ptr(0)]
                if where in ("after", "before"):
                    args.append(r.ptr(i))
                args.append(r.ptr(x))
                at = {"after": i + 1, "before": i if i else len(r.seq), "append": len(r.seq), "prepend": 1}[where]
                seq = r.seq[:at] + [x] + r.seq[at:]
                for q, v in eng.call(st, fn, args):
                    r.check(q, seq, fn + "()")
            return go
        for w in ("after", "before"):
            if s.has(P + "insert_" + w) or (w == "after" or back):
                self.each(kind, P + "insert_" + w, insert(P + "insert_" + w, w), every)
        if kind != "slist":
            self.each(kind, P + "append", insert(P + "append", "append"), once)
        self.each(kind, P + "prepend", insert(P + "prepend", "prepend"), once)

        def remove(fn, how):
            def go(eng, st, r, i):
                args = [r.ptr(0)]
                if how == "node":
                    if not back:
                        args.append(r.ptr(i - 1))
                    args.append(r.ptr(i))
                if how == "head":
                    i = 1
                if how == "tail":
                    i = r.seq[-1]
                seq = [x for x in r.seq if x != i]
                for q, v in eng.call(st, fn, args):
                    r.check(q, seq, fn + "()")
            return go
        self.each(kind, P + "remove", remove(P + "remove", "node"), nodes)
        first = lambda n: [1] if n else []
        last = lambda n: [n] if n else []
        self.each(kind, P + "remove_head", remove(P + "remove_head", "head"), first)
        if back:
            self.each(kind, P + "remove_tail", remove(P + "remove_tail", "tail"), last)

        def query(fn, on, exp):
            def go(eng, st, r, i):
                for q, v in eng.call(st, fn, [r.ptr(i if on == "node" else 0)]):
                    n = len(r.seq)
                    w = {"next": lambda: r.ahead(i, r.seq[(i + 1) % n]), "prev": lambda: r.behind(r.seq[i - 1], i),
                         "head": lambda: r.ahead(0, r.seq[1 % n]), "tail": lambda: r.ptr(r.seq[-1]), "end": lambda: r.ptr(0),
                         "empty": None}[exp]
                    if w is None:
                        for z, t in status(eng, q, v, fn + "()", 0):
                            if t == (n == 1):
                                eng.ok("link")
                            else:
                                bad(eng, z, "link", "ret", fn + "() reports a wrong answer")
                    else:
                        must_equal(eng, q, v, w(), "link", "ret", fn + "() returns a wrong node")
                    r.check(q, r.seq, fn + "()")
            return go
        self.each(kind, P + "is_empty", query(P + "is_empty", "list", "empty"), once)
        self.each(kind, P + "head", query(P + "head", "list", "head"), once)
        self.each(kind, P + "end", query(P + "end", "list", "end"), once)
        self.each(kind, P + "next", query(P + "next", "node", "next"), nodes)
        if back:
            self.each(kind, P + "prev", query(P + "prev", "node", "prev"), nodes)
        if back or tail:
            self.each(kind, P + "tail", query(P + "tail", "list", "tail"), once)

    def data(self):
        for k, m in (("list", "l"), ("slist", "s"), ("qlist", "q")):
            def drv(eng):
                st = eng.initial()
                r = eng.region(st, "*item", self.c["ln_size"], base="atoms", kind="object")
                for q, v in eng.call(st, "verif_%s_data" % k, [PtrV(r, Lin(self.c["ln_" + m]))]):
                    must_equal(eng, q, v, PtrV(r), "link", "data", "%s_DATA() does not give the structure holding the node" % k.upper())
            self.s.run(k.upper() + "_DATA", drv)


def c14(rep):
    rep.rule("each list operation is interpreted abstractly on every list shape of up to five nodes and, for longer lists, on shapes whose "
             "nodes away from the ends and from the position are summarised by segments; for every position (all aliasings of the "
             "neighbours, the list head included) the resulting links are compared with the intended sequence in both directions")
    rep.assume("node_where, node_prev and node belong to the list (or are the list head where documented); a new node is in no list")
    d = Driver(rep)
    for k in KINDS:
        d.kind(k)
    d.data()
    rep.need("entry points", 300)
