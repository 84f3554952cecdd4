"""Paths into value hierarchies (C24, and the part of C25 about path building).

The main loop of the lookup is decided by a contract: at its head the position is somewhere in the path and the current value is the one
that the components in front of it lead to. One iteration is analysed for every shape of the next component (segments of arbitrary length
with bytes of known classes) and every type of the current value."""
from .common import *
from engine import loops
from engine.absint import Content
from .values import vconst

SLASH, OPEN, CLOSE, PLUS, MINUS = (ord(c) for c in "/[]+-")
WORD = [(1, 255, (SLASH, OPEN))]
DIGIT = [(48, 57, ())]
ITEMS = PMAX // 16


def less(sets, *drop):
    """A set of bytes without the ranges (lo, hi)."""
    for lo, hi in drop:
        out = []
        for a, b, e in sets:
            for x, y in ((a, min(b, lo - 1)), (max(a, hi + 1), b)):
                if x <= y:
                    out.append((x, y, tuple(z for z in e if x <= z <= y)))
        sets = out
    return sets


def one(c):
    return (L(1), c)


class Segments:
    """Source of a path: consecutive runs of bytes; (length, byte or set of bytes)."""

    def __init__(self, segs):
        self.segs = [(L(n), c) for n, c in segs]
        self.at = []
        o = L(0)
        for n, _ in self.segs:
            self.at.append(o)
            o = o + n
        self.size = o

    def read(self, eng, st, rid, off, size, ty):
        if size != 1:
            raise Unsupported("wide read of the path")
        out = []
        near = []
        for (n, c), a in zip(self.segs, self.at):
            s = st.copy()
            if not (s.assume("ge", off - a) and s.assume("ge", a + n - 1 - off)):
                continue
            near.append(a + n)
            if isinstance(c, int):
                out.append((s, IntV(8, c)))
                continue
            for lo, hi, exc in c:
                z = s.copy()
                x = eng.atom(z, rid, rid, off)
                if z.assume("ge", x - lo) and z.assume("ge", L(hi) - x) and all(z.assume("ne", x - e) for e in exc):
                    out.append((z, IntV(8, x)))
        if eng.cand is not None and len(near) > 1:
            for b in near[:-1]:
                eng.cand.append(st.s.norm(b - off))
        return out


class Shape:
    """One class of components. kind: end, bad, name, append, index."""

    def __init__(self, name, kind, token, sign=0, digits=None, zero=True):
        self.name, self.kind, self.sign, self.digits = name, kind, sign, digits
        self.p = fresh("position", 0, PMAX // 4)
        self.slashes = fresh("slashes", 0, PMAX // 4)
        segs = [(self.p, WORD + [(SLASH, SLASH, ()), (OPEN, OPEN, ())]), (self.slashes, SLASH)] + token
        n = L(0)
        for k, _ in token:
            n = n + k
        self.beg = L(self.p) + self.slashes
        self.len = n
        self.end = self.beg + n
        if kind != "end":
            segs.append(one(0) if zero else (L(1), [(SLASH, SLASH, ()), (OPEN, OPEN, ())]))
            if not zero:
                segs += [(fresh("rest", 0, PMAX // 4), [(1, 255, ())]), one(0)]
        self.zero = zero
        self.src = Segments(segs)
        self.label = name + ("" if kind == "end" else " at the end of the path" if zero else " followed by more")


def shapes():
    yield Shape("no component", "end", [one(0)])
    word = lambda n, lo=0: fresh(n, lo, PMAX // 4)
    nodigit = less(WORD, (48, 57))
    nosign = less(nodigit, (PLUS, PLUS), (MINUS, MINUS))
    for zero in (True, False):
        yield Shape("a name", "name", [(word("name length", 1), WORD)], zero=zero)
        yield Shape("'['", "bad", [one(OPEN)], zero=zero)
        yield Shape("'[' without ']' at the end", "bad", [one(OPEN), (word("length"), WORD), (L(1), less(WORD, (CLOSE, CLOSE)))], zero=zero)
        yield Shape("'[]'", "append", [one(OPEN), one(CLOSE)], zero=zero)
        for sign, sg in (("", 0), ("+", 1), ("-", -1)):
            pre = [one(OPEN)] + ([one(ord(sign))] if sign else [])
            n = word("number of digits", 1)
            yield Shape("'[%s' digits ']'" % sign, "index", pre + [(n, DIGIT), one(CLOSE)], sign=sg, digits=n, zero=zero)
            if sign:
                yield Shape("'[%s]'" % sign, "bad", pre + [one(CLOSE)], zero=zero)
            yield Shape("'[%s' junk ']'" % sign, "bad", pre + [(L(1), nodigit if sign else less(nosign, (CLOSE, CLOSE))), (word("length"), WORD), one(CLOSE)], zero=zero)
            if not sign:
                yield Shape("'[]' junk ']'", "bad", pre + [one(CLOSE), (word("length"), WORD), one(CLOSE)], zero=zero)
            n = word("number of digits", 1)
            yield Shape("'[%s' digits junk ']'" % sign, "bad", pre + [(n, DIGIT), (L(1), nodigit), (word("length"), WORD), one(CLOSE)], digits=n, zero=zero)


class Path:
    def __init__(self, K, build, null):
        self.K, self.build, self.null = K, build, null
        self.fn = "value_build_path" if build else "value_path"
        self.what = self.fn + "()"
        self.arrived = 0

    # ---- models of the functions called: they act on the current value, whose type is open until it matters
    def models(self):
        M = {}
        for n in ("type", "is_new", "is_compatible", "array_size", "array_get", "array_get_all", "array_append", "array_insert", "dict_get", "dict_get_", "dict_add", "dict_add_", "dict_get_or_add",
                  "dict_get_or_add_", "init_null", "init_bool", "init_array", "init_dict", "init_dict_ex", "fini", "array_clean", "dict_clean", "array_remove", "array_remove_range", "dict_remove", "dict_remove_",
                  "dict_size", "dict_flags"):
            M["value_" + n] = lambda eng, st, args, I, n=n: self.model(eng, st, n, args)
        return M

    def kinds(self, st, v):
        if not isinstance(v, PtrV):
            raise Unsupported("argument of a value function")
        if v.r is None:
            return [(st, "none")]
        if v.r != self.C or v.o.t or v.o.c:
            raise Unsupported("operation on another value")
        if st.x["kind"] != "?":
            return [(st, st.x["kind"])]
        out = []
        for k in ("new", "null", "array", "dict", "other"):
            s = st.copy()
            s.x = dict(s.x)
            s.x["kind"] = k
            s.x["size"] = L(self.size) if k == "array" else ZERO
            out.append((s, k))
        return out

    def changes(self, eng, st, name):
        """The call adds something or changes the hierarchy."""
        if not self.build:
            bad(eng, st, "C24/plain", "changes", "%s calls value_%s(), which may change the hierarchy" % (self.what, name))

    def item(self, eng, st, tag):
        s = st.copy()
        s.x = dict(s.x)
        r = eng.region(s, "item", self.K["value"], base="lazy", kind="object", data=Closed())
        s.x["items"] = s.x["items"] + ((r, tag),)
        return [(s, PtrV(r))]

    def fails(self, st, ret):
        s = st.copy()
        s.x = dict(s.x)
        s.x["failed"] = True
        return [(s, ret)]

    def model(self, eng, st, n, args):
        K = self.K
        out = []
        for s, k in self.kinds(st, args[0]):
            if n == "type":
                if k == "other":
                    t = fresh("type", 0, 15)
                    if all(s.assume("ne", L(t) - K["t_" + x]) for x in ("NULL", "ARRAY", "DICT")):
                        out.append((s, IntV(32, L(t))))
                    continue
                out.append((s, IntV(32, K["t_" + {"new": "NULL", "null": "NULL", "none": "NULL", "array": "ARRAY", "dict": "DICT"}[k]])))
            elif n == "is_new":
                out.append((s, IntV(32, 1 if k == "new" else 0)))
            elif n == "array_size":
                out.append((s, IntV(64, s.x["size"] if k == "array" else ZERO)))
            elif n == "array_get":
                i = args[1].l
                if k != "array":
                    out.append((s, NULL))
                    continue
                z = s.copy()
                if z.assume("ge", s.x["size"] - i - 1):
                    out += self.item(eng, z, ("array", i))
                if s.assume("ge", L(i) - s.x["size"]):
                    out.append((s, NULL))
            elif n in ("array_append", "array_insert"):
                self.changes(eng, s, n)
                if k != "array":
                    out.append((s, NULL))
                    continue
                out += self.fails(s, NULL)
                z = s.copy()
                if n == "array_insert":
                    if not z.assume("ge", s.x["size"] - args[1].l):
                        continue
                for y, p in self.item(eng, z, ("new", args[1].l if n == "array_insert" else s.x["size"])):
                    y.x["size"] = s.x["size"] + 1
                    out.append((y, p))
            elif n in ("dict_get_", "dict_add_", "dict_get_or_add_"):
                p, ln = args[1], args[2]
                if not isinstance(p, PtrV) or p.r != self.P:
                    raise Unsupported("key of a lookup")
                key = (s.s.norm(p.o), s.s.norm(ln.l))
                if n != "dict_get_":
                    self.changes(eng, s, n)
                if k != "dict":
                    out.append((s, NULL))
                    continue
                known = [a for o, l, a in s.x["keys"] if s.s.entails_eq(o - key[0]) and s.s.entails_eq(l - key[1])]
                for there in [known[-1]] if known else (True, False):
                    z = s.copy()
                    z.x = dict(z.x)
                    z.x["keys"] = z.x["keys"] + (key + (there,),)
                    if there and n != "dict_add_":
                        out += self.item(eng, z, ("dict",) + key)
                    elif there or n == "dict_get_":
                        out.append((z, NULL))
                    else:
                        out += self.fails(z, NULL)
                        out += self.item(eng, z, ("dict",) + key)
                        out[-1][0].x["keys"] = s.x["keys"] + (key + (True,),)
            elif n in ("init_array", "init_dict", "init_dict_ex"):
                self.changes(eng, s, n)
                if k == "none":
                    out.append((s, IntV(32, (1 << 32) - 1)))
                    continue
                if k != "new":
                    bad(eng, s, "C25/path", "overwrite", "%s initializes a value that is not marked as new (%s)" % (self.what, {"null": "an explicit null", "other": "a value of another type"}.get(k, "an " + k)))
                else:
                    eng.ok("C25/path")
                out += self.fails(s, IntV(32, (1 << 32) - 1))
                z = s.copy()
                z.x = dict(z.x)
                z.x["kind"] = "array" if n == "init_array" else "dict"
                z.x["size"] = ZERO
                z.x["keys"] = ()
                z.x["fresh"] = True
                out.append((z, IntV(32, 0)))
            else:
                raise Unsupported("value_%s() in a path lookup" % n)
        if n in ("dict_get_", "dict_get_or_add_", "dict_add_"):
            # in a container that was just made nothing can be found
            out = [(s, p) for s, p in out if not (s.x.get("fresh") and n == "dict_get_" and p != NULL)]
        return out

    # ---- the main loop
    def run(self, eng):
        K = self.K
        eng.models.update(self.models())
        eng.loop_hook = self.hook
        eng.scenarios = self.scenarios
        st = eng.initial()
        self.size = fresh("array size", 0, ITEMS)
        self.len = fresh("path length", 0, PMAX // 2)
        self.P = eng.region(st, "path", self.len + 1, base="cstr", data=L(self.len), kind="caller")
        self.C = eng.region(st, "current value", K["value"], base="lazy", kind="object", data=Closed())
        self.V = NULL if self.null else PtrV(self.C)
        st.x = dict(st.x)
        st.x.update({"kind": "?", "size": ZERO, "keys": (), "items": (), "failed": False, "shape": None, "null": self.null, "num": None, "fresh": False})
        self.st0 = st.copy()
        for q, r in eng.call(st, self.fn, [self.V, PtrV(self.P)]):
            if not isinstance(r, PtrV):
                bad(eng, q, "C24/result", "odd", "%s returns an odd value" % self.what, hard=isinstance(r, Undef))
                continue
            if q.x["shape"] is None:
                if self.null and r == NULL:
                    eng.ok("C24/result")
                    continue
                if r == self.V and self.first_zero(eng, q):
                    eng.ok("C24/result")
                    continue
                raise Unsupported("a path resolved before the main loop")
            self.judge(eng, q, r, None)
        if not self.arrived and not self.null:
            raise Unsupported("no main loop")

    def first_zero(self, eng, q):
        return all(isinstance(v, IntV) and y.s.entails_eq(v.l) for y, v in eng.read(q.copy(), self.P, q.mem[self.P].content, ZERO, 1))

    def scenarios(self, st):
        """A number of j digits is less than 10^j."""
        num = st.x.get("num")
        if num is None or not L(num[0]).t:
            return [[]]
        return [[L(num[1]) - k, Lin(10 ** k - 1) - num[0]] for k in (20, 1, 5, 10, 15, 18, 19)]

    def slots(self, eng, st, loop):
        """{slot: value}: phis of the header and local variables in memory."""
        f = st.frames[-1]
        out = {}
        for I in f.fn.blocks[loop.header].instrs:
            if I.op == "phi" and I.id in f.env:
                out[("phi", I.id)] = f.env[I.id]
        for r, R in st.mem.items():
            if R.alive and R.kind == "alloca":
                ct = R.content
                seen = set()
                while ct.k == "cells":
                    for o, (n, v) in ct.cells.items():
                        if o not in seen:
                            seen.add(o)
                            out[("cell", r, o, n)] = v
                    ct = ct.prev
                if ct.k != "base":
                    raise Unsupported("local variables of the lookup")
        return out

    def put(self, eng, st, slot, v):
        if slot[0] == "phi":
            st.frames[-1].env[slot[1]] = v
        else:
            eng.put(st, slot[1], L(slot[2]), slot[3], v)

    def hook(self, eng, st, loop):
        if st.x.get("shape") is None:
            sl = self.slots(eng, st, loop)
            pos = [k for k, v in sl.items() if isinstance(v, PtrV) and v.r == self.P and not v.o.t and not v.o.c]
            cur = [k for k, v in sl.items() if v == self.V and (not self.null or k[0] == "cell" or self.pointer_phi(st, loop, k))]
            num = [k for k, v in sl.items() if isinstance(v, IntV) and not v.l.t and not v.l.c and v.w == 64]
            if not cur or not pos and not num:
                return None
            return self.main(eng, st, loop, sl, pos or num, cur)
        if st.x["shape"].digits is not None and st.x["num"] is None:
            return self.number(eng, st, loop)
        return None

    def pointer_phi(self, st, loop, k):
        I = [I for I in st.frames[-1].fn.blocks[loop.header].instrs if I.op == "phi" and I.id == k[1]][0]
        return getattr(I.ty, "kind", None) == "ptr"

    def main(self, eng, st, loop, sl, pos, cur):
        self.arrived += 1
        depth = len(st.frames)
        if st.x["kind"] != "?" or st.x["items"]:
            raise Unsupported("operations in front of the main loop")
        forget = set()
        for _ in range(4):
            snap = loops.snapshot(eng)
            moved = set()
            exits = []
            todo = [(sh, self.null) for sh in shapes()]
            lost = self.null
            for sh, null in todo:
                s = st.copy()
                s.s = self.st0.s.copy()
                s.pcl, s.atoms = self.st0.pcl, self.st0.atoms
                s.x = dict(s.x)
                s.x["shape"] = sh
                s.x["null"] = null
                R = eng.mut(s, self.P)
                R.content = Content("base", val="lazy", src=sh.src, off=self.P)
                R.size = sh.src.size
                if not s.assume("ge", L(PMAX) - sh.src.size) or not s.assume("eq", L(self.len) + 1 - sh.src.size):
                    raise Unsupported("path length")
                for k in pos:
                    self.put(eng, s, k, PtrV(self.P, L(sh.p)) if isinstance(sl[k], PtrV) else IntV(64, L(sh.p)))
                for k in cur:
                    self.put(eng, s, k, NULL if null else self.V)
                for k in forget:
                    self.put(eng, s, k, Undef(8, "loop variable"))
                for o in eng.explore([s], depth, loop):
                    z = o[1]
                    if o[0] != "back":
                        exits.append(o[1:])
                        continue
                    now = self.slots(eng, z, loop)
                    for k, v in now.items():
                        if k not in pos and k not in cur and k not in forget and v != sl.get(k):
                            if k in sl:
                                moved.add(k)
                    ps = [z.s.norm(now[k].o if isinstance(sl[k], PtrV) else now[k].l) if isinstance(now.get(k), (PtrV if isinstance(sl[k], PtrV) else IntV)) and
                          (not isinstance(now[k], PtrV) or now[k].r == self.P) else None for k in pos]
                    cs = [now.get(k) for k in cur]
                    if None in ps or not all(isinstance(c, PtrV) for c in cs) or any(not z.s.entails_eq(x - ps[0]) for x in ps[1:]) or any(c != cs[0] for c in cs[1:]):
                        raise Unsupported("loop variables of the lookup")
                    self.judge(eng, z, cs[0], ps[0])
                    if cs[0] == NULL and not lost:
                        lost = True
                        todo += [(x, True) for x in shapes()]
            if not moved:
                return exits
            loops.restore(eng, snap)
            forget |= moved
        raise Unsupported("loop variables of the lookup")

    # ---- decimal numbers
    def number(self, eng, st, loop):
        """The loop over the digits of an index. Contract: the number is the value of the digits passed so far."""
        sh = st.x["shape"]
        depth = len(st.frames)
        d0 = sh.beg + 1 + abs(sh.sign)
        sl = self.slots(eng, st, loop)
        ptr = {k: v for k, v in sl.items() if isinstance(v, PtrV) and v.r == self.P and st.s.entails_eq(v.o - d0)}
        ints = {k: v for k, v in sl.items() if isinstance(v, IntV) and v.w >= 32}
        zero = {k for k, v in ints.items() if st.s.entails_eq(v.l)}
        at = {k for k, v in ints.items() if st.s.entails_eq(v.l - d0)}
        if not zero or not ptr and not at:
            return None
        # a trial: which variables hold the number, which ones move along
        snap = loops.snapshot(eng)
        n0 = eng.nstates
        eng.probe += 1
        cand, eng.cand = eng.cand, None
        try:
            outs = eng.explore([st.copy()], depth, loop)
        except Unsupported:
            return None
        finally:
            eng.probe -= 1
            eng.cand = cand
            loops.restore(eng, snap)
            eng.nstates = n0
        backs = [o[1] for o in outs if o[0] == "back"]
        num, step = set(zero), set(ptr) | at
        for z in backs:
            now = self.slots(eng, z, loop)
            x = eng.atom(z, self.P, self.P, d0)
            num = {k for k in num if isinstance(now.get(k), IntV) and z.s.entails_eq(now[k].l - x + 48)}
            step = {k for k in step if k in now and now[k].__class__ is sl[k].__class__ and
                    z.s.entails_eq(now[k].o - d0 - 1 if isinstance(now[k], PtrV) else now[k].l - d0 - 1)}
        if not backs or not num or not step:
            return None
        j = fresh("digits passed", 1, PMAX // 4)
        exits = []
        back = []
        N = None
        done = False
        w = min(sl[k].w for k in num)

        def generic(top):
            N = fresh("number", 0, top)
            s = st.copy()
            if not s.assume("ge", L(sh.digits) - j):
                return None, None
            s.x = dict(s.x)
            s.x["num"] = (N, L(j))
            for k in num:
                self.put(eng, s, k, IntV(sl[k].w, L(N)))
            for k in step:
                self.put(eng, s, k, PtrV(self.P, d0 + j) if isinstance(sl[k], PtrV) else IntV(sl[k].w, d0 + j))
            return N, s
        # a signed variable never holds a negative number when each iteration keeps it so
        top = (1 << w) - 1
        N, s = generic(top >> 1)
        if N is not None:
            snap = loops.snapshot(eng)
            n0 = eng.nstates
            eng.probe += 1
            cand, eng.cand = eng.cand, None
            try:
                outs = eng.explore([s], depth, loop)
            except Unsupported:
                outs = None
            finally:
                eng.probe -= 1
                eng.cand = cand
                loops.restore(eng, snap)
                eng.nstates = n0
            if outs is not None:
                now = [(o[1], self.slots(eng, o[1], loop).get(k)) for o in outs if o[0] == "back" for k in num]
                if all(isinstance(v, IntV) and z.s.entails_ge(Lin(top >> 1) - v.l) for z, v in now):
                    top >>= 1
        for rnd in range(2):
            if rnd:
                N, s = generic(top)
                if N is None:
                    break
            else:
                s = st.copy()
                s.x = dict(s.x)
                s.x["num"] = (ZERO, ZERO)
            for o in eng.explore([s], depth, loop):
                if o[0] == "back":
                    back.append((o[1], rnd))
                else:
                    exits.append(o[1:])
        for z, rnd in back:
            now = self.slots(eng, z, loop)
            J, M = (L(j), L(N)) if rnd else (ZERO, ZERO)
            x = eng.atom(z, self.P, self.P, d0 + J)
            for k, v in now.items():
                if k in step:
                    if not (v.__class__ is sl[k].__class__ and z.s.entails_eq((v.o if isinstance(v, PtrV) else v.l) - d0 - J - 1)):
                        raise Unsupported("position in a number")
                elif k in num:
                    want = M.scale(10) + x - 48
                    if not isinstance(v, IntV):
                        raise Unsupported("number")
                    if not z.s.entails_eq(v.l - want):
                        y = z.copy()
                        if y.assume("ge", want - (1 << v.w)):
                            bad(eng, y, "C24/number", "wrap", "%s: the array index wraps around, a number that is too large selects an item" % self.what, [want])
                        elif z.s.rng(v.l - want) != (None, None):
                            bad(eng, z, "C24/number", "value", "%s: the array index is not the decimal number of its digits" % self.what, [v.l, want])
                        else:
                            raise Unsupported("number")
                    else:
                        eng.ok("C24/number")
                elif k in sl and v != sl[k]:
                    if not (isinstance(v, Undef) or k[0] == "cell" and isinstance(sl[k], Undef)):
                        raise Unsupported("loop over the digits changes other variables")
            if not z.s.entails_ge(d0 + sh.digits - d0 - J - 1):
                raise Unsupported("digits")
        return exits

    def skips(self, eng, z, sh, pos):
        """The next component is certainly looked for at a wrong place for some path."""
        y = z.copy()
        if y.assume("ge", sh.end - pos - 1):
            return True
        if sh.zero:
            return z.copy().assume("ge", pos - sh.end - 1)
        for i in (0, 1):
            y = z.copy()
            if y.assume("ge", pos - sh.end - i - 1):
                for q, v in eng.read(y, self.P, y.mem[self.P].content, sh.end + i, 1):
                    if isinstance(v, IntV) and q.assume("ne", v.l - SLASH) and (i == 0 or q.assume("ge", v.l - 1)):
                        return True
        return False

    # ---- the specification
    def judge(self, eng, z, r, pos):
        """The component led to r (null: not found); pos: where the next one starts, or None when the function returns."""
        sh = z.x["shape"]
        what = "%s, component %s" % (self.what, sh.label)
        k = z.x["kind"]
        cls = "C24/result"

        def wrong(key, text, lins=()):
            bad(eng, z, cls, "%s:%s" % (key, sh.label), what + ": " + text, lins)
        if pos is not None:
            if sh.kind in ("end",):
                return wrong("on", "goes on behind the end of the path")
            if not z.s.entails_eq(pos - sh.end):
                if self.skips(eng, z, sh, pos):
                    return wrong("position", "the next component is not looked for behind this one", [pos, sh.end])
                if sh.zero or not z.s.entails_eq(pos - sh.end - 1):
                    raise Unsupported("next component")
        if z.x["null"]:
            if r != NULL:
                return wrong("phantom", "finds a value under a null pointer")
            return eng.ok(cls)
        if sh.kind == "end":
            if r != self.V:
                return wrong("end", "does not return the value reached")
            if k != "?" and z.x["fresh"]:
                return wrong("touched", "changes the value reached")
            return eng.ok(cls)
        if sh.kind == "bad":
            if r != NULL:
                return wrong("malformed", "a malformed component is accepted")
            return eng.ok(cls)
        tag = dict(z.x["items"]).get(r.r) if r.r is not None else None
        if r != NULL and (tag is None or r.o.t or r.o.c):
            return wrong("other", "leads to another value than the one it names")
        if sh.kind == "name":
            mine = lambda o, l: z.s.entails_eq(o - sh.beg) and z.s.entails_eq(l - sh.len)
            if r != NULL:
                if tag[0] != "dict" or not mine(tag[1], tag[2]):
                    return wrong("key", "leads to another item than the one with this key", [x for x in tag[1:]])
                return eng.ok(cls)
            if k in ("array", "null", "other") or k == "new" and not self.build or z.x["failed"]:
                return eng.ok(cls)
            ans = [a for o, l, a in z.x["keys"] if mine(o, l)]
            if k == "dict" and not self.build and ans and not ans[-1]:
                return eng.ok(cls)
            return wrong("lost", "gives null although %s" % ("the value can be made a dictionary" if k == "new" else "the item could be added" if self.build and ans and not ans[-1] else "the item may exist"))
        if sh.kind == "append":
            if r != NULL:
                if not self.build or tag[0] != "new" or not z.s.entails_eq(tag[1] + 1 - z.x["size"]):
                    return wrong("append", "does not lead to a new last item")
                return eng.ok(cls)
            if not self.build or k in ("dict", "null", "other") or z.x["failed"]:
                return eng.ok(cls)
            return wrong("lost", "does not append an item")
        # an index
        num, j = z.x["num"] if z.x["num"] is not None else (None, None)
        exact = num is not None and z.s.entails_eq(j - sh.digits)
        n = z.x["size"] if k == "array" else L(ITEMS)
        if r != NULL:
            if tag[0] != "array":
                return wrong("index", "does not lead to an item of the array")
            if not exact:
                raise Unsupported("number of an index")
            want = L(num) if sh.sign >= 0 else z.x["size"] - num
            return must(eng, z, "eq", tag[1] - want, cls, "index", what + ": leads to another item than the one with this index")
        if k in ("dict", "null", "other", "new") or z.x["failed"]:
            return eng.ok(cls)
        if num is None:
            return wrong("lost", "gives null although the index may be valid")
        low = L(num)
        if not exact:
            d0 = sh.beg + 1 + abs(sh.sign)
            low = low.scale(10) + eng.atom(z, self.P, self.P, d0 + j) - 48
        y = z.copy()
        # valid numbers: below the size; from the end 1 to the size
        if not exact:
            good = y.assume("ge", n - low - (0 if sh.sign < 0 else 1))
        elif sh.sign < 0:
            good = y.assume("ge", low - 1) and y.assume("ge", n - low)
        else:
            good = y.assume("ge", n - low - 1)
        if good:
            bad(eng, y, cls, "lost", what + ": gives null although the array has an item with this index", [low, n])
        else:
            eng.ok(cls)


class Closed:
    """A value whose representation is not to be looked into."""

    def read(self, eng, st, rid, off, size, ty):
        raise Unsupported("representation of a value in a path lookup")


def classify(v, label):
    if v.cls in ("bounds", "null", "uninit", "uaf"):
        return {"C24"}
    return {v.cls.split("/")[0]}


def suite(rep, classify, builds=(False, True)):
    K = vconst()
    s = Suite(rep, "value", classify, passes="function(mem2reg)", max_states=100000)
    n = 0
    for build in builds:
        for null in (False, True):
            p = Path(K, build, null)
            s.run("%s%s" % (p.fn, " of a null pointer" if null else ""), p.run)
            n += 1
    return n


def c24(rep):
    rep.rule("loop contract: the position is in front of a component, the current value is what the components before it lead to; one iteration is interpreted for each shape of component (end, name, every well-formed "
             "and malformed bracket form, segments of arbitrary length) with any type of the current value; the value reached, the key or index looked up (decimal value by a contract of the digit loop) and the "
             "start of the next component are compared with the specification; every read lies within the path and its zero byte")
    rep.assume("array and dictionary accesses inside the lookup behave as C17 and C23 say; a path is a zero-terminated string; a name that contains ']' is a key")
    n = suite(rep, classify)
    rep.need("entry points", n)
