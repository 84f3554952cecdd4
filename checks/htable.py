"""Hash table: lookup, insertion and removal (C15), memory and disposal (C16), allocation failures and ownership (C05, C06)."""
from .common import *
from engine import chains, libc

NMAX = 54


def classify(v, label):
    p = set()
    if v.cls in ("uaf", "free", "leak"):
        p |= {"C06", "C16"}
    if v.cls in ("bounds", "null", "uninit", "ub", "const", "memory", "dtor"):
        p.add("C16")
    if v.cls in ("find", "count", "slot"):
        p.add("C15")
    if v.cls in ("chain", "lost", "node"):
        p |= {"C15", "C16"} if "htable_fini" in label else {"C15"}
    if v.cls == "noaf" or v.allocfail:
        p.add("C05")
    return p


def report(eng, st, cls, key, text):
    bad(eng, st, cls, key, text)


class Tab:
    """A table with n planes in an arbitrary valid state."""

    def __init__(self, D, eng, n):
        self.D, self.eng, self.n = D, eng, n
        o = D.off
        self.st = st = eng.initial()
        self.rid = eng.region(st, "*htable", o["sizeof"], kind="object")
        self.tab = eng.tab = chains.Table(o["next"], o["node"])
        self.tab.report = report
        eng.loop_hook = chains.hook()
        self.h = fresh("hash(key)", 0, (1 << 32) - 1)
        self.key = eng.region(st, "*key", o["node"], base="undef", kind="key")
        self.size = ZERO if n == 0 else u64("n", 1, PMAX)
        if n == 0:
            eng.put(st, self.rid, L(o["planes"]), 8, NULL)
            self.arr = None
        else:
            cap = u64("bytes(planes)", 8 * n, PMAX)
            self.arr = eng.region(st, "planes array", cap, base="undef", kind="heap")
            for k in range(n):
                r = self.tab.plane(eng, st, D.bytes[k])
                self.tab.mod.append(D.mod[k] if k < len(D.mod) else None)
                eng.put(st, self.arr, L(8 * k), 8, PtrV(r))
            eng.put(st, self.rid, L(o["planes"]), 8, PtrV(self.arr))
        eng.put(st, self.rid, L(o["n_planes"]), 4, IntV(32, n))
        eng.put(st, self.rid, L(o["n"]), 8, IntV(64, self.size))
        eng.models.update({"app:cmp": self.cmp, "app:hash": self.hash, "app:dtor": self.dtor})

    # ---- functions of the application
    def cmp(self, eng, st, args, I):
        a, b = args
        node = None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, PtrV) and x.r == self.key and st.s.entails_eq(x.o):
                node = y
        if node is None:
            bad(eng, st, "find", "cmp", "the comparator is not called with the key")
            return []
        if not isinstance(node, PtrV) or node.r is None or not st.s.entails_eq(node.o) or st.mem[node.r].kind not in ("node", "key"):
            if isinstance(node, PtrV) and node.r is not None and st.mem[node.r].kind == "opaque":
                raise Unsupported("comparison with an unknown object")
            bad(eng, st, "find", "cmparg", "the comparator is called with something which is no node")
            return []
        if not st.mem[node.r].alive:
            bad(eng, st, "uaf", "cmpdead", "the comparator is called with a node that was destroyed")
            return []
        out = []
        t = st.mem[node.r].tag
        if t == ("n",):
            z = st.copy()
            z.event("equal", node.r)
            eng.mut(z, node.r).tag = ("eq",)
            out.append((z, IntV(32, 0)))
        elif t == ("eq",):
            return [(st, IntV(32, 0))]
        elif t in chains.SEGS:
            raise Unsupported("comparison of a node that was searched already")
        elif t not in (("ne",), ("nd",)):
            raise Unsupported("comparison of the key with itself")
        r = fresh("cmp", 0, (1 << 32) - 1)
        st.assume("ne", r)
        if t == ("n",):
            eng.mut(st, node.r).tag = ("ne",)
        out.append((st, IntV(32, r)))
        return out

    def hash(self, eng, st, args, I):
        a = args[0]
        if not isinstance(a, PtrV) or a.r != self.key or not st.s.entails_eq(a.o):
            if isinstance(a, PtrV) and a.r in st.mem and st.mem[a.r].kind == "node":
                if not st.mem[a.r].alive:
                    bad(eng, st, "uaf", "hashdead", "the hash function is called with a node that was destroyed")
                    return []
                raise Unsupported("hash of another node")
            bad(eng, st, "find", "hash", "the hash function is not called with the key")
            return []
        return [(st, IntV(32, self.h))]

    def dtor(self, eng, st, args, I):
        a = args[0]
        if not isinstance(a, PtrV) or a.r is None or not st.s.entails_eq(a.o) or st.mem[a.r].kind != "node":
            bad(eng, st, "dtor", "arg", "the destructor is called with something which is no node of the table", hard=not isinstance(a, PtrV) or a.r is None or st.mem[a.r].kind != "opaque")
            return []
        if not st.mem[a.r].alive:
            bad(eng, st, "dtor", "twice", "the destructor is called twice for a node")
            return []
        if st.mem[a.r].tag in chains.SEGS:
            raise Unsupported("destruction of nodes that were passed over")
        eng.ok("dtor")
        R = eng.mut(st, a.r)
        R.alive = False
        return [(st, None)]

    # ---- results
    def fields(self, st):
        o, e = self.D.off, self.eng
        return (rd(e, st, self.rid, o["planes"], "ptr"), rd(e, st, self.rid, o["n_planes"], size=4), rd(e, st, self.rid, o["n"]))

    def index(self, st, k):
        """Slot offset of the key in plane k."""
        m = self.tab.mod[k]
        if m is None:
            return self.h.scale(8)
        return st.s.norm(self.h - self.eng.div(st, self.h, m).scale(m)).scale(8)

    def after(self, st, what, want, dn):
        """Structure after an operation on a live table. -> [(state, planes, removed, added)]"""
        e, o = self.eng, self.D.off
        pl, np, n = self.fields(st)
        for v, w in ((pl, "planes"), (np, "number of planes"), (n, "number of nodes")):
            if isinstance(v, Undef):
                bad(e, st, "memory", "field", "%s leaves the %s uninitialized" % (what, w))
                return []
        if not isinstance(pl, PtrV) or not isinstance(np, IntV) or not isinstance(n, IntV):
            raise Unsupported("odd field")
        npc = st.s.norm(np.l)
        if npc.t:
            raise Unsupported("number of planes unknown")
        npc = npc.c
        keep = set()
        planes = []
        if pl.r is None:
            if npc:
                bad(e, st, "memory", "noplanes", "%s leaves %d planes but no storage" % (what, npc))
                return []
        else:
            R = st.mem[pl.r]
            if not R.alive:
                bad(e, st, "uaf", "planes", "%s leaves the table pointing to released memory" % what)
                return []
            keep.add(pl.r)
            if not must(e, st, "ge", R.size - 8 * npc, "memory", "planes", "%s: the array of planes is too small" % what):
                return []
            for k in range(npc):
                v = rd(e, st, pl.r, 8 * k, "ptr")
                if isinstance(v, Undef):
                    bad(e, st, "memory", "plane", "%s leaves an uninitialized plane" % what)
                    return []
                if not isinstance(v, PtrV):
                    raise Unsupported("odd plane")
                if v.r is None or not st.s.entails_eq(v.o):
                    bad(e, st, "memory", "plane", "%s leaves an invalid plane" % what)
                    return []
                if not st.mem[v.r].alive:
                    bad(e, st, "uaf", "plane", "%s leaves a plane that was released" % what)
                    return []
                planes.append(v.r)
                keep.add(v.r)
        if len(set(planes)) != len(planes):
            bad(e, st, "chain", "same", "%s leaves the same plane twice in the table" % what)
            return []
        no_leak(e, st, keep)
        # planes: old ones at their place, new ones empty and of the right size
        for k, r in enumerate(planes):
            if r in self.tab.planes:
                if self.tab.planes.index(r) != k:
                    bad(e, st, "slot", "order", "%s moves a plane to another place" % what)
                    return []
            elif not self.fresh_plane(st, k, r, what):
                return []
        must(e, st, "eq", n.l - self.size - dn, "count", "n", "%s: the number of nodes is %r, expected %r" % (what, st.s.norm(n.l), st.s.norm(self.size + dn)))
        if not planes:
            z = st.copy()
            if z.assume("ge", n.l - 1):
                bad(e, z, "chain", "noplanes", "%s leaves no planes although there are nodes" % what)
        out = []
        for s, A in chains.audit(e, st, self.tab, self.tab.planes, what):
            removed = list(s.x.get("removed", ())) + A.removed
            added = list(s.x.get("added", ())) + A.added
            # a new plane may hold the new node
            for k, r in enumerate(planes):
                if r not in self.tab.planes:
                    for off in self.offs(s, r):
                        for z, v in chains.current(e, s, r, off):
                            s = z
                            c = chains.new_chain(e, s, self.tab, v, what)
                            if c:
                                added += [(x, k, chains.eighth(s, off)) for x in c[0]]
            known = len(self.all_nodes(s))
            s = s.copy()
            if not s.assume("ge", self.size - known):
                continue
            # every old plane that is gone must have been emptied
            good = True
            for k, p in enumerate(self.tab.planes):
                if p in planes:
                    continue
                if not self.emptied(s, k, p, planes, what):
                    good = False
            if good:
                out.append((s, planes, removed, added))
        return out

    def all_nodes(self, st):
        out = set()
        for k, v in st.x.items():
            if isinstance(k, tuple) and k[0] == "lz" and isinstance(v, PtrV) and v.r is not None:
                out.add(v.r)
        out |= {r for r in st.x.get("removed", ()) if isinstance(r, int)}
        return out

    def fresh_plane(self, st, k, r, what):
        e = self.eng
        R = st.mem[r]
        if R.kind != "heap":
            raise Unsupported("odd plane")
        want = self.D.mod[k] if k < len(self.D.mod) and self.D.mod[k] is not None else None
        if want is None:
            want = (1 << 32)
        if k < len(self.D.mod) or self.D.learned:
            if not must(e, st, "ge", R.size - 8 * want, "memory", "size", "%s: plane %d has %r bytes, its slots need %d" % (what, k, st.s.norm(R.size), 8 * want)):
                return False
        # all slots empty but for the written one: an arbitrary aligned slot
        i = fresh("slot", 0, None)
        z = st.copy()
        z.assume("ge", L(want) - i - 1)
        offs = [o for o in self.offs(z, r)]
        for o in offs:
            z.assume("ne", i.scale(8) - o)

        class T:
            kind, width, size = "ptr", 64, 8
        for y, v in e.read(z, r, z.mem[r].content, i.scale(8), 8, T):
            v = e.coerce(y, v, T)
            if any(y.s.entails_eq(i.scale(8) - o) for o in offs):
                continue
            if isinstance(v, Undef):
                bad(e, y, "memory", "init", "%s leaves slots of the new plane uninitialized" % what, [i])
                return False
            must_equal(e, y, v, NULL, "memory", "init", "%s leaves something in slots of the new plane" % what)
        return True

    def offs(self, st, r):
        out = []
        ct = st.mem[r].content
        while ct.k in ("store", "cells"):
            out += [ct.off] if ct.k == "store" else [L(o) for o in ct.cells]
            ct = ct.prev
        return out

    def emptied(self, st, k, p, planes, what):
        e = self.eng
        if not planes and self.size is not None:
            return True      # judged by the node count
        cov = st.x.get(("drained", p), ())
        want = self.tab.mod[k] if self.tab.mod[k] is not None else 1 << 32
        cur = ZERO
        left = list(cov)
        more = True
        while more:
            more = False
            for c in left:
                o0, s, K = c
                lo, hi = (o0, o0 + L(K).scale(8)) if s > 0 else (o0 + 8 - L(K).scale(8), o0 + 8)
                if st.s.entails_ge(cur - lo) and st.s.entails_ge(hi - cur):
                    cur = hi
                    left.remove(c)
                    more = True
                    break
        return must(e, st, "ge", cur - 8 * want, "lost", "plane", "%s drops plane %d although only the slots below %r (of %d) were moved" % (what, k, st.s.norm(cur), want))

    def searched(self, st, what):
        """The key is not in the table: every plane was searched."""
        e = self.eng
        for k, p in enumerate(self.tab.planes):
            o = self.index(st, k)
            m = [x for x in chains.slots(st, p) if st.s.entails_eq(x - o)]
            v = st.x[("lz", p, m[0])] if m else None
            if v is None:
                bad(e, st, "find", "plane", "%s without searching the slot of the key in plane %d" % (what, k))
                return False
            if v == "done":
                e.ok("find")
                continue
            c, end = chains.old_chain(st, self.tab, v)
            if end != NULL and st.mem[end[1]].tag != ("nd",):
                bad(e, st, "find", "chain", "%s without searching the whole chain of plane %d" % (what, k))
                return False
            for r in c:
                if st.mem[r].tag not in (("ne",), ("nd",), ("seg",)):
                    bad(e, st, "find", "node", "%s without comparing every node of the chain in plane %d" % (what, k))
                    return False
            e.ok("find")
        return True


class Driver:
    def __init__(self, rep, most=None):
        self.rep = rep
        self.most = most     # tables with more planes are left out (None: none is)
        self.off = offsets("htable", {"planes": "__builtin_offsetof(HTABLE, planes)", "n_planes": "__builtin_offsetof(HTABLE, n_planes)",
                                      "n": "__builtin_offsetof(HTABLE, n)", "sizeof": "sizeof(HTABLE)",
                                      "next": "__builtin_offsetof(HTABLE_NODE, next)", "node": "sizeof(HTABLE_NODE)"})
        self.s = Suite(rep, "htable", classify, passes="function(mem2reg)", max_states=200000, apart=True)
        self.bytes = []      # size of plane k as htable_insert() allocates it
        self.mod = []        # slot of a hash in plane k: hash mod this
        self.learned = False
        self.learn()

    def learn(self):
        """Sizes of the planes from the growth of the table, slot function from the lookup."""
        err = []

        class Quiet:
            prop = None

        def grow(k):
            lin.reset()
            eng = absint.Engine(self.s.m, {}, max_states=20000)
            t = Tab(self, eng, k)
            for q, r in eng.call(t.st, "htable_insert_unsafe", [PtrV(t.rid), PtrV(t.key), FnV("app:cmp"), FnV("app:hash")]):
                pl, np, n = t.fields(q)
                if not (isinstance(np, IntV) and q.s.entails_eq(np.l - (k + 1)) and isinstance(pl, PtrV) and pl.r is not None):
                    continue
                v = rd(eng, q, pl.r, 8 * k, "ptr")
                if isinstance(v, PtrV) and v.r is not None:
                    z = q.s.norm(q.mem[v.r].size)
                    if not z.t:
                        return z.c
            return None

        def slot(k):
            lin.reset()
            eng = absint.Engine(self.s.m, {}, max_states=20000)
            t = Tab(self, eng, k + 1)
            p = t.tab.planes[k]
            for q, r in eng.call(t.st, "htable_lookup", [PtrV(t.rid), PtrV(t.key), FnV("app:cmp"), FnV("app:hash")]):
                for o in chains.slots(q, p):
                    o = q.s.norm(o)
                    if o == t.h.scale(8):
                        return None
                    d = q.s.norm(o - t.h.scale(8))
                    if len(d.t) == 1 and d.c == 0 and d.t[0][1] < 0 and d.t[0][1] % 8 == 0:
                        m = -d.t[0][1] // 8
                        if d.t == L(eng.div(q, t.h, m)).scale(-8 * m).t:
                            return m
                    raise Unsupported("slot function %r" % o)
            raise Unsupported("slot function not found")
        for k in range(NMAX if self.most is None else self.most + 1):
            z = None
            try:
                z = grow(k)
                if z is None:
                    break
                self.bytes.append(z)
                self.mod.append(slot(k))
            except Unsupported as e:
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
                if z is not None:
                    self.bytes.pop()
                err.append(str(e))
                break
        self.learned = True
        if not self.bytes:
            self.rep.undecide("htable:planes", "size of the planes not found (%s)" % (err[0] if err else "htable_insert() never allocates a plane"))
        elif err:
            self.rep.undecide("htable:planes", "tables with more than %d planes not analysable: %s" % (len(self.bytes), err[0]))
        for k in range(len(self.bytes)):
            m = self.mod[k] if self.mod[k] is not None else (1 << 32)
            if self.bytes[k] < 8 * m:
                self.rep.count("planes too small")

    def counts(self):
        n = len(self.bytes)
        if self.most is not None:
            return range(min(n, self.most) + 1)
        if self.rep.tier != "quick":
            return range(n + 1)
        wide = [k for k, m in enumerate(self.mod) if m is None][:1]
        return sorted({k for k in [0, 1, 2, 3, 4, 7] + [w + d for w in wide for d in (0, 1, 2)] + [n] if k <= n})

    # ------------------------------------------------------------------ operations
    def run(self):
        s = self.s

        def init(eng):
            t = Tab(self, eng, 0)
            r = eng.region(t.st, "*htable", self.off["sizeof"], kind="object")
            for q, _ in eng.call(t.st, "htable_init", [PtrV(r)]):
                t.rid = r
                pl, np, n = t.fields(q)
                must_equal(eng, q, pl, NULL, "memory", "planes", "htable_init() does not start without planes")
                must_equal(eng, q, np, IntV(32, 0), "memory", "n_planes", "htable_init() does not start without planes")
                must_equal(eng, q, n, IntV(64, 0), "count", "n", "htable_init() does not start empty")
        s.run("htable_init", init)
        for n in self.counts():
            for op in ("lookup", "insert", "insert_unsafe", "remove", "fini", "fini without destructor", "is_empty"):
                s.run("htable_%s (%d planes)" % (op, n), lambda eng: self.op(eng, op, n))

    def op(self, eng, op, n):
        t = Tab(self, eng, n)
        st = t.st
        T, K, C, H = PtrV(t.rid), PtrV(t.key), FnV("app:cmp"), FnV("app:hash")
        if op == "is_empty":
            for q, r in eng.call(st, "htable_is_empty", [T]):
                for z, empty in [(z, not f) for z, f in status(eng, q, r, "htable_is_empty()", None)]:
                    must(eng, z, "ge" if empty else "eq", t.size - 1 if empty else t.size, "count", "empty", "htable_is_empty() is wrong")
            return
        if op == "lookup":
            for q, r in eng.call(st, "htable_lookup", [T, K, C, H]):
                what = "htable_lookup()"
                if self.found(eng, t, q, r, what):
                    self.same(eng, t, q, what)
            return
        if op.startswith("insert"):
            what = "htable_%s()" % op
            for q, r in eng.call(st, "htable_" + op, [T, K, C, H]):
                for z, failed in status(eng, q, r, what, None):
                    eq = self.equal(z)
                    if failed:
                        if eq is None and not has_event(z, "allocfail"):
                            bad(eng, z, "find", "spurious", what + " fails although the key is not present and nothing went wrong")
                            continue
                        if op == "insert_unsafe" and eq is not None and not has_event(z, "allocfail"):
                            bad(eng, z, "find", "spurious", what + " fails although nothing went wrong")
                            continue
                        self.same(eng, t, z, what + " which failed")
                        continue
                    if op == "insert":
                        if eq is not None:
                            bad(eng, z, "find", "present", what + " accepts a key that is present")
                            continue
                        if n and not t.searched(z, what + " accepts a key"):
                            continue
                    for y, planes, removed, added in t.after(z, what, None, 1):
                        if removed:
                            bad(eng, y, "lost", "lost", what + ": nodes get lost")
                        elif [a[0] for a in added] != [t.key]:
                            bad(eng, y, "lost", "added", what + ": the new node is not linked (once) into the table")
                        else:
                            _, k, i = added[0]
                            m = self.mod[k] if k < len(self.mod) else "?"
                            if m == "?":
                                eng.ok("slot")
                                continue
                            w = t.h if m is None else y.s.norm(t.h - eng.div(y, t.h, m).scale(m))
                            must(eng, y, "eq", i - w, "slot", "slot", what + " puts the node into a slot where it will not be found (slot %r of plane %d)" % (y.s.norm(i), k))
            return
        if op == "remove":
            what = "htable_remove()"
            for q, r in eng.call(st, "htable_remove", [T, K, C, H]):
                if isinstance(r, PtrV) and r.r is None:
                    if self.found(eng, t, q, r, what):
                        self.same(eng, t, q, what)
                    continue
                if not self.found(eng, t, q, r, what):
                    continue
                for y, planes, removed, added in t.after(q, what, None, -1):
                    if added:
                        bad(eng, y, "lost", "added", what + ": nodes appear in the table")
                    elif [x for x in removed if isinstance(x, int)] != [r.r] or (removed != [r.r] and not y.s.entails_eq(t.size - 1)):
                        bad(eng, y, "lost", "lost", what + ": exactly the node with the key should leave the table" if r.r in removed else what + " leaves the node in the table")
                    else:
                        eng.ok("node")
            return
        what = "htable_fini()"
        d = FnV("app:dtor") if op == "fini" else NULL
        for q, r in eng.call(st, "htable_fini", [T, d]):
            pl, np, nn = t.fields(q)
            must_equal(eng, q, pl, NULL, "memory", "planes", what + " leaves a reference to the planes")
            must_equal(eng, q, np, IntV(32, 0), "memory", "n_planes", what + " leaves planes")
            must_equal(eng, q, nn, IntV(64, 0), "count", "n", what + " does not leave an empty table")
            no_leak(eng, q, set())
            if op == "fini":
                for k, p in enumerate(t.tab.planes):
                    t.emptied(q, k, p, [0], what)
                for y in chains.complete(eng, q, t.tab):
                    for k, v in y.x.items():
                        if isinstance(k, tuple) and k[0] == "lz" and isinstance(v, PtrV) and v.r is not None and y.mem[v.r].alive:
                            bad(eng, y, "dtor", "missed", what + ": a node is not destroyed")

    def equal(self, st):
        for e in st.all_events():
            if e[0] == "equal":
                return e[1]
        return None

    def found(self, eng, t, q, r, what):
        if isinstance(r, Undef):
            bad(eng, q, "find", "uninit", what + " returns an uninitialized value")
            return False
        if isinstance(r, IntV) and q.s.entails_eq(r.l):
            r = NULL
        if not isinstance(r, PtrV):
            raise Unsupported("odd result")
        eq = self.equal(q)
        if r.r is None:
            if not q.s.entails_eq(r.o):
                bad(eng, q, "find", "odd", what + " returns an invalid pointer")
                return False
            if eq is not None:
                bad(eng, q, "find", "missed", what + " returns null although the node was found")
                return False
            return t.n == 0 or t.searched(q, what + " returns null")
        if eq is None or r.r != eq or not q.s.entails_eq(r.o):
            bad(eng, q, "find", "other", what + " returns something else than the node with the key")
            return False
        eng.ok("find")
        return True

    def same(self, eng, t, st, what):
        for y, planes, removed, added in t.after(st, what, None, 0):
            if removed or added:
                bad(eng, y, "lost", "changed", what + " changes the content of the table")
            elif len(planes) < t.n:
                bad(eng, y, "lost", "planes", what + " drops planes")
            else:
                eng.ok("node")


def rules(rep):
    rep.rule("every operation is interpreted on a table with each possible number of planes (as many as can be allocated at all), every slot holding an arbitrary chain, any number of nodes, any hash value "
             "and comparator results; loops over a chain or over the planes are explored to a fixpoint, loops over all slots of a plane are decided by one generic iteration; the chains before and after are compared")
    rep.assume("the application's hash and comparator functions are consistent, the same for all calls, and do not touch the table")


def c15(rep):
    rules(rep)
    Driver(rep).run()
    rep.need("entry points", 8)


def c16(rep):
    rules(rep)
    Driver(rep).run()
    rep.need("entry points", 8)
