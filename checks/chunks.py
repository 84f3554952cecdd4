"""Chunk allocator (C32) and its part of C05, C06."""
from .common import *
from engine import walk

EXTRA = """
const MEMCHUNK verif_mc_zero = MEMCHUNK_INITIALIZER(0);
const MEMCHUNK verif_mc_100 = MEMCHUNK_INITIALIZER(100);
const MEMCHUNK verif_mc_expr = MEMCHUNK_INITIALIZER(0 ? 7 : 96);
"""


def classify(v, label):
    p = set()
    if v.cls in ("bounds", "null", "uninit", "ub", "const", "inv", "block", "fail", "init", "content"):
        p.add("C32")
    if v.cls in ("uaf", "free", "leak", "link"):
        p |= {"C06", "C32"}
    if v.cls == "noaf":
        p |= {"C05"}
    if v.allocfail:
        p.add("C05")
    return p


class Driver:
    def __init__(self, rep):
        self.off = offsets("memchunk", {
            "head": "__builtin_offsetof(MEMCHUNK, head)", "bs": "__builtin_offsetof(MEMCHUNK, block_size)",
            "free": "__builtin_offsetof(MEMCHUNK, free_off)", "sizeof": "sizeof(MEMCHUNK)",
            "hdr": "sizeof(struct MEMCHUNK_BLOCK)", "next": "__builtin_offsetof(struct MEMCHUNK_BLOCK, next)",
            "default": "MEMCHUNK_DEFAULT_BLOCK_SIZE"}, extra=EXTRA)
        self.s = Suite(rep, "memchunk", classify, extra=EXTRA)

    def chain(self, n=0):
        """Field source of a block further down the list."""
        def nxt(eng, st, rid):
            return [(st.copy(), NULL), (st, PtrV(self.block(eng, st)))]
        return walk.Fields("block", {self.off["next"]: (8, nxt)})

    def block(self, eng, st, size=None, name="block"):
        if size is None:
            size = u64("bytes(block)", self.off["hdr"], PMAX)
        return eng.region(st, name, size, base="lazy", data=self.chain(), kind="heap")

    def chunk(self, eng, st, kind):
        o = self.off
        c = eng.region(st, "*chunk", o["sizeof"], kind="object")
        bs = u64("block_size", 1)
        fo = u64("free_off")
        st.assume("ge", bs - fo)
        head = None
        if kind == "none":
            eng.put(st, c, L(o["head"]), 8, NULL)
        else:
            if kind == "standard":
                st.assume("ge", L(PMAX - o["hdr"]) - bs)
                n = bs + o["hdr"]
            else:
                n = u64("big", 0, PMAX - o["hdr"]) + o["hdr"]
                st.assume("eq", fo - bs)
            head = self.block(eng, st, n, "head block")
            eng.put(st, c, L(o["head"]), 8, PtrV(head))
        eng.put(st, c, L(o["bs"]), 8, IntV(64, bs))
        eng.put(st, c, L(o["free"]), 8, IntV(64, fo))
        return c, head, bs, fo

    def reach(self, eng, st, c, what):
        """Blocks in the list; [(state, [rid])]"""
        o = self.off
        out = []
        work = [(st, rd(eng, st, c, o["head"], "ptr"), [])]
        while work:
            s, v, seen = work.pop()
            if isinstance(v, Undef):
                bad(eng, s, "link", "uninit", what + ": a link of the block list is uninitialized")
                continue
            if not isinstance(v, PtrV):
                bad(eng, s, "link", "odd", what + ": odd link in the block list", hard=False)
                continue
            if v.r is None:
                must(eng, s, "eq", v.o, "link", "link", what + ": invalid link in the block list")
                out.append((s, seen))
                continue
            R = s.mem[v.r]
            if not R.alive:
                bad(eng, s, "uaf", "dangling", what + ": the block list refers to a released block")
                continue
            if v.r in seen:
                bad(eng, s, "link", "cycle", what + ": the block list is cyclic")
                continue
            if R.kind != "heap" or not s.s.entails_eq(v.o):
                bad(eng, s, "link", "foreign", what + ": the block list refers to something else than a block")
                continue
            seen = seen + [v.r]
            if R.content.k == "base" and R.content.val == "lazy" and ("lz", v.r, o["next"]) not in s.x:
                out.append((s, seen))       # untouched rest
                continue
            class T:
                kind, width, size = "ptr", 64, 8
            for s2, w in eng.read(s, v.r, R.content, L(o["next"]), 8, T):
                work.append((s2, eng.coerce(s2, w, T), seen))
        return out

    def run(self):
        o = self.off
        s = self.s

        def init(eng):
            st = eng.initial()
            c = eng.region(st, "*chunk", o["sizeof"], kind="object")
            n = u64("block_size")
            for q, v in eng.call(st, "memchunk_init", [PtrV(c), IntV(64, n)]):
                h, b, f = (rd(eng, q, c, o["head"], "ptr"), rd(eng, q, c, o["bs"]), rd(eng, q, c, o["free"]))
                must_equal(eng, q, h, NULL, "init", "head", "memchunk_init() does not start with an empty block list")
                for x, w in ((b, "block size"), (f, "free offset")):
                    if not isinstance(x, IntV):
                        bad(eng, q, "init", w, "memchunk_init() leaves the %s uninitialized" % w)
                        return
                a = q.copy()
                if a.assume("eq", n):
                    must(eng, a, "eq", b.l - o["default"], "init", "default", "memchunk_init(0) does not use the default block size")
                if q.assume("ge", n - 1):
                    must(eng, q, "eq", b.l - n, "init", "size", "memchunk_init() does not use the requested block size")
                must(eng, q, "ge", b.l - f.l, "init", "free", "memchunk_init(): free offset beyond the block")
        s.run("memchunk_init", init)

        def inits(eng):
            st = eng.initial()
            for g, n in (("verif_mc_zero", o["default"]), ("verif_mc_100", 100), ("verif_mc_expr", 96)):
                r = eng.global_region(st, g)
                must_equal(eng, st, rd(eng, st, r, o["head"], "ptr"), NULL, "init", g, "MEMCHUNK_INITIALIZER: block list not empty")
                must_equal(eng, st, rd(eng, st, r, o["bs"]), IntV(64, n), "init", g, "MEMCHUNK_INITIALIZER: wrong block size")
                f = rd(eng, st, r, o["free"])
                must(eng, st, "ge", L(n) - f.l, "init", g + "f", "MEMCHUNK_INITIALIZER: free offset beyond the block")
        s.run("MEMCHUNK_INITIALIZER", inits)

        for kind in ("none", "standard", "dedicated"):
            def alloc(eng):
                st = eng.initial()
                c, head, bs, fo = self.chunk(eng, st, kind)
                n = u64("size")
                old = set(st.mem)
                oldct = st.mem[head].content if head is not None else None
                what = "memchunk_alloc()"
                for q, v in eng.call(st, "memchunk_alloc", [PtrV(c), IntV(64, n)]):
                    for q, blocks in [x for z in walk.complete(eng, q) for x in self.reach(eng, z, c, what)]:
                        self.after(eng, q, v, n, c, head, oldct, bs, fo, blocks, what)
            s.run("memchunk_alloc (%s)" % {"none": "no block", "standard": "ordinary head block", "dedicated": "big head block"}[kind], alloc)

            def fini(eng):
                eng.loop_hook = walk.hook()
                st = eng.initial()
                c, head, bs, fo = self.chunk(eng, st, kind)
                for q, v in eng.call(st, "memchunk_fini", [PtrV(c)]):
                    for z in walk.complete(eng, q):
                        no_leak(eng, z, set())
            s.run("memchunk_fini (%s)" % kind, fini)

    def after(self, eng, q, v, n, c, head, oldct, bs, fo, blocks, what):
        o = self.off
        bs2, fo2 = rd(eng, q, c, o["bs"]), rd(eng, q, c, o["free"])
        if not isinstance(bs2, IntV) or not isinstance(fo2, IntV):
            bad(eng, q, "inv", "fields", what + " leaves a field uninitialized")
            return
        must(eng, q, "eq", bs2.l - bs, "inv", "bs", what + " changes the block size")
        no_leak(eng, q, set(blocks))
        # everything handed out before
        if head is not None:
            same_bytes(eng, q, (head, q.mem[head].content, o["hdr"]), (head, oldct, o["hdr"]), fo, "content", "kept",
                       what + " writes into memory handed out before")
        if isinstance(v, Undef):
            bad(eng, q, "uninit", "ret", what + " returns an uninitialized value")
            return
        new = [b for b in blocks if b != head and not (q.mem[b].content.k == "base" and q.mem[b].content.val == "lazy")]
        for b in new:
            pass
        H = blocks[0] if blocks else None
        if H is not None:
            # what is left of the head block is inside it and was not handed out
            for z in self.when(q, bs - fo2.l - 1):
                must(eng, z, "ge", z.mem[H].size - o["hdr"] - bs, "inv", "head", what + ": the free space of the head block lies outside it")
                if H == head:
                    must(eng, z, "ge", fo2.l - fo, "inv", "reuse", what + ": memory handed out before becomes free again")
        must(eng, q, "ge", bs - fo2.l, "inv", "free", what + ": free offset beyond the block size")
        if isinstance(v, PtrV) and v.r is None:
            must(eng, q, "eq", v.o, "block", "invalid", what + " returns an invalid address")
            if has_event(q, "allocfail"):
                eng.ok("noaf")
            else:
                z = q.copy()
                if z.assume("ge", L(PMAX - 64) - n) and z.assume("ge", L(PMAX - 64) - bs):
                    bad(eng, z, "fail", "spurious", what + " fails although nothing went wrong", [n, bs])
            return
        if not isinstance(v, PtrV):
            bad(eng, q, "block", "odd", what + " returns an odd value", hard=False)
            return
        if not q.assume("ge", n - 1):
            return
        if v.r not in blocks:
            bad(eng, q, "block", "foreign", what + " returns memory which does not belong to the chunk: " + q.mem[v.r].name)
            return
        must(eng, q, "ge", v.o - o["hdr"], "block", "low", what + ": the returned block overlaps the bookkeeping of the chunk")
        must(eng, q, "ge", q.mem[v.r].size - v.o - n, "block", "high", what + ": the returned block ends beyond the memory of the chunk")
        if v.r == head:
            must(eng, q, "ge", v.o - o["hdr"] - fo, "block", "overlap", what + ": the returned block overlaps memory handed out before")
        if v.r == H:
            for z in self.when(q, bs - fo2.l - 1):
                must(eng, z, "ge", fo2.l + o["hdr"] - v.o - n, "block", "taken", what + ": the returned block stays marked as free")
        elif head is not None and v.r != head and v.r in blocks[1:] and v.r not in new:
            bad(eng, q, "block", "old", what + " returns memory of an older block")

    def when(self, q, l):
        z = q.copy()
        return [z] if z.assume("ge", l) else []


def c32(rep):
    rep.rule("memchunk_alloc() interpreted from every valid chunk state (no block, ordinary head block with any free offset, head block dedicated to a "
             "big request, any list behind it), for every block size and request: the result lies in a live block of the chunk behind its header and behind "
             "everything handed out before, the remaining free space is disjoint from it, all blocks stay reachable exactly once; memchunk_fini() walks "
             "an arbitrary block list (fixpoint over canonical list states) and releases each block exactly once")
    rep.assume("blocks are at most PTRDIFF_MAX bytes; requests of zero bytes need not give a usable address")
    Driver(rep).run()
    rep.need("entry points", 8)
