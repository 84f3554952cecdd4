"""CRC-32 and FNV-1a (C30, C31): the loop's transition function is extracted and compared with the standard step."""
from .common import *
from engine import lin

POLY = 0xEDB88320


def classify_for(prop):
    return lambda v, label: {prop}


# ------------------------------------------------------------------ GF(2)-affine bit domain
# A bit is an int: bit 0 the constant, higher bits the variables it is the sum (modulo 2) of.

class NotAffine(Exception):
    pass


class Bits:
    N = 160

    def __init__(self):
        self.var = {}
        self.memo = {}
        self.next = 1

    def fresh(self, sid, width):
        b = []
        for i in range(width):
            b.append(1 << self.next)
            self.next += 1
        self.memo[sid] = b + [0] * (self.N - width)

    def const(self, c):
        if c < 0:
            raise NotAffine
        return [(c >> i) & 1 for i in range(self.N)]

    def shift(self, b, k):
        if k >= 0:
            return ([0] * k + b)[:self.N]
        return b[-k:] + [0] * -k

    def lin(self, l):
        acc = [0] * self.N
        l = l
        changed = True
        while changed:
            changed = False
            for s, a in l.t:
                d = SYMS[s].defn
                if a < 0 and d is not None and d[0] == "div" and d[2] & (d[2] - 1) == 0 and a % d[2] == 0:
                    c = -a // d[2]
                    if c & (c - 1):
                        continue
                    part = (d[1] - Lin(0, ((s, d[2]),))).scale(c)
                    rest = l - part
                    e = self.lin(d[1])
                    k = d[2].bit_length() - 1
                    acc = self.join(acc, self.shift(e[:k] + [0] * (self.N - k), c.bit_length() - 1))
                    l = rest
                    changed = True
                    break
        neg = [(s, a) for s, a in l.t if a < 0]
        if neg:
            # all-ones minus a narrower value
            m = l.c
            x = self.lin(-(l - m))
            if m & (m + 1) == 0:
                w = m.bit_length()
                if not any(x[w:]):
                    return self.join(acc, [b ^ 1 for b in x[:w]] + [0] * (self.N - w))
            raise NotAffine
        acc = self.join(acc, self.const(l.c)) if l.c else acc
        for s, a in l.t:
            if a & (a - 1):
                raise NotAffine
            acc = self.join(acc, self.shift(self.sym(s), a.bit_length() - 1))
        return acc

    def join(self, a, b):
        if any(x and y for x, y in zip(a, b)):
            raise NotAffine
        return [x | y for x, y in zip(a, b)]

    def sym(self, s):
        r = self.memo.get(s)
        if r is not None:
            return r
        d = SYMS[s].defn
        if d is None:
            raise NotAffine
        if d[0] == "div" and d[2] & (d[2] - 1) == 0:
            r = self.shift(self.lin(d[1]), -(d[2].bit_length() - 1))
        elif d[0] == "xor":
            r = [x ^ y for x, y in zip(self.lin(d[2]), self.lin(d[3]))]
        elif d[0] == "or":
            r = self.join(self.lin(d[2]), self.lin(d[3]))
        elif d[0] == "lookup":
            T = lin.TABLES[d[1]]
            m = (len(T) - 1).bit_length()
            if len(T) != 1 << m:
                raise NotAffine
            for i in range(len(T)):
                x = T[0]
                for j in range(m):
                    if i >> j & 1:
                        x ^= T[1 << j] ^ T[0]
                if x != T[i]:
                    raise NotAffine
            idx = self.lin(d[2])
            if any(idx[m:]):
                raise NotAffine
            r = self.const(T[0])
            for j in range(m):
                col = T[1 << j] ^ T[0]
                r = [x ^ idx[j] if col >> i & 1 else x for i, x in enumerate(r)]
        else:
            raise NotAffine
        self.memo[s] = r
        return r


def crc_step(reg, byte):
    """The standard step on lists of affine bits."""
    r = list(reg[:32])
    for i in range(8):
        r[i] ^= byte[i]
    for n in range(8):
        l = r[0]
        r = r[1:] + [0]
        r = [x ^ l if POLY >> i & 1 else x for i, x in enumerate(r)]
    return r


def crc_step_int(v, b):
    v ^= b
    for n in range(8):
        v = v >> 1 ^ (POLY if v & 1 else 0)
    return v


SAMPLES32 = [0, 0xFFFFFFFF, 0x12345678, 0x80000000, 0xDEADBEEF, 0x00FF00FF, 1, 0x811C9DC5]


def holds(conds, env):
    for op, l in conds:
        if op == "fc":
            return False
        x = lin.evaluate(l, env)
        if x is None or not (x >= 0 if op == "ge" else x == 0 if op == "eq" else x != 0):
            return False
    return True


class Fold:
    """A result computed by one loop that folds the bytes of a block into a register."""

    def __init__(self, eng, fn, width, src, n, init, final, forms):
        self.e, self.fn, self.w, self.src, self.n = eng, fn, width, src, n
        self.init, self.final, self.forms = init, final, forms
        self.mask = (1 << width) - 1

    def check(self, st, v, prove, step_int):
        """prove(conds, v, byte, next, form) -> True / None; step_int: reference step on integers."""
        e, what = self.e, self.fn + "()"
        if isinstance(v, Undef):
            bad(e, st, "uninit", "ret", what + " returns an uninitialized value")
            return
        if not isinstance(v, IntV):
            raise Unsupported("result")
        r = st.s.norm(v.l)
        if st.s.entails_eq(self.n):
            must(e, st, "eq", r - self.final(self.init), "value", "empty", what + " of an empty block is wrong")
            return
        loops = [(rec, k) for rec, k in st.loops]
        done = False
        for rec, k in loops:
            accs = [(slot, x) for slot, x in rec.vars.items() if isinstance(x[1], IntV) and len(x[1].l.t) == 1
                    and x[1].l.t[0][1] == 1 and x[1].l.c == 0 and x[1].l.t[0][0] != rec.ksym and x[1].l.t[0][0] in lin_all(r)]
            if len(accs) != 1:
                continue
            done = True
            slot, (v0, cur, nxt) = accs[0]
            acc = cur.l.t[0][0]
            # the loop is left before (k bytes done) or after (k + 1 bytes done) the register is updated
            form = None
            for name, f, inv in self.forms:
                if not (isinstance(v0, IntV) and st.s.entails_eq(v0.l - f(self.init))):
                    continue
                if self.same(r - self.final(inv(cur.l))):
                    form, left = (name, f, inv), 0
                for x in nxt:
                    if isinstance(x, IntV) and self.same(r - st.s.norm(self.final(inv(x.l)))):
                        form, left = (name, f, inv), 1
            if form is None:
                if self.opaque(r, acc) or not isinstance(v0, IntV):
                    raise Unsupported("value leaving the loop")
                bad(e, st, "value", "frame", what + ": the start value or the final transformation is wrong (starts with %r, returns %r of the register)"
                    % (v0, r), [], hard=True)
                continue
            must(e, st, "eq", L(k) + left - self.n, "value", "count", what + " does not process exactly the bytes of the block")
            if rec.kmin:
                raise Unsupported("first iteration differs")
            bsyms = set()
            for x in nxt:
                if isinstance(x, IntV):
                    bsyms |= {t for t in lin_all(x.l) if SYMS[t].defn is not None and SYMS[t].defn[0] == "atom" and SYMS[t].defn[1] == self.src}
            if len(bsyms) != 1:
                if not bsyms and not any(isinstance(x, IntV) and self.opaque(x.l, acc) for x in nxt):
                    bad(e, st, "value", "byte", what + " ignores the bytes of the block", [], hard=True)
                    continue
                raise Unsupported("step uses several bytes")
            bsym = bsyms.pop()
            must(e, rec.inst.G, "eq", SYMS[bsym].defn[2] - Lin(0, ((rec.ksym, 1),)), "value", "byte",
                 what + " does not process the bytes of the block in order")
            if not rec.cases or len(rec.cases) != len(nxt):
                raise Unsupported("no transition")
            for (conds, vals, evs), x in zip(rec.cases, nxt):
                if not isinstance(x, IntV):
                    raise Unsupported("register becomes %r" % (x,))
                # refutation by evaluating the extracted transition function
                wrong = None
                for a in SAMPLES32 if self.w == 32 else [s * 0x100000001 for s in SAMPLES32]:
                    for b in range(256):
                        env = {acc: a, bsym: b}
                        if not holds(conds_on(conds, {acc, bsym}), env):
                            continue
                        y = lin.evaluate(x.l, env)
                        want = form[1](L(step_int(inv_int(form, a, self.mask), b))).c & self.mask
                        if y is None:
                            break
                        if y & self.mask != want:
                            wrong = (a, b, y, want)
                            break
                    if wrong:
                        break
                if wrong:
                    bad(e, st, "value", "step", what + ": folding byte %#x into register %#x gives %#x instead of %#x" %
                        (wrong[1], wrong[0], wrong[2], wrong[3]))
                elif prove(conds, acc, bsym, x.l, form):
                    e.ok("value")
                else:
                    bad(e, st, "value", "step", what + ": the step function could not be matched with the standard", hard=False)
        if not done:
            raise Unsupported("no folding loop recognised")

    def opaque(self, l, acc):
        """Built from anything but the register, the data and literals?"""
        return any(SYMS[t].defn is None or SYMS[t].defn[0] not in lin.EVALUABLE | {"atom"} for t in lin_all(l) if t != acc)

    def same(self, d):
        return not d.t and d.c == 0 or not [1 for s, a in d.t if a % (self.mask + 1)] and d.c % (self.mask + 1) == 0


def inv_int(form, a, mask):
    return form[2](L(a)).c & mask


lin_all = lin.all_syms


def conds_on(conds, syms):
    """Only the conditions about the register and the byte."""
    return [c for c in conds if c[0] != "fc" and lin.lin_bases(c[1]) <= syms and c[1].t]


def run_block(eng, fn, width, args, empty):
    st = eng.initial()
    n = u64("n", 0, PMAX) if not empty else ZERO
    if empty:
        return st, None, ZERO, args + [NULL, IntV(64, 0)]
    d = eng.region(st, "data", n, base="atoms", kind="caller", writable=False)
    return st, d, n, args + [PtrV(d), IntV(64, n)]


def c30(rep):
    rep.rule("crc32() executed abstractly for a block of arbitrary length; the loop's transition function is extracted and shown equal to the "
             "bit-serial CRC step in the GF(2)-affine domain (lookup tables verified affine); start value, final inversion and byte order checked")
    s = Suite(rep, "crc32", classify_for("C30"))
    ones = 0xFFFFFFFF
    forms = [("plain", lambda x: L(x), lambda x: L(x)), ("inverted", lambda x: L(ones) - x, lambda x: L(ones) - x)]

    def prove(conds, acc, bsym, x, form):
        B = Bits()
        B.fresh(acc, 32)
        B.fresh(bsym, 8)
        try:
            got = B.lin(x)
        except NotAffine:
            return None
        reg = B.memo[acc][:32]
        inv = form[0] == "inverted"
        if inv:
            reg = [b ^ 1 for b in reg]
        want = crc_step(reg, B.memo[bsym])
        if inv:
            want = [b ^ 1 for b in want]
        return got[:32] == want and not any(got[32:])

    def drv(eng, empty):
        st, d, n, args = run_block(eng, "crc32", 32, [], empty)
        for q, v in eng.call(st, "crc32", args):
            Fold(eng, "crc32", 32, d, n, L(ones), lambda x: L(ones) - x, forms).check(q, v, prove, crc_step_int)
    for empty in (False, True):
        s.run("crc32(%s)" % ("empty" if empty else "block"), lambda eng: drv(eng, empty))


PRIME = {32: 16777619, 64: 1099511628211}
BASE = {32: 2166136261, 64: 14695981039346656037}


def c31(rep):
    rep.rule("fnv1a_32/64() executed abstractly for a block of arbitrary length and any start value; the loop's transition function is extracted "
             "and compared modulo 2^w with (register xor byte) * prime; chaining follows since the register is start value and result")
    s = Suite(rep, "fnv1a", classify_for("C31"))
    ident = [("plain", lambda x: L(x), lambda x: L(x))]
    for w in (32, 64):
        def prove(conds, acc, bsym, x, form):
            want = lin.derived(("xor", w) + tuple(sorted((Lin(0, ((acc, 1),)), Lin(0, ((bsym, 1),))), key=repr)), "#xor", 0, (1 << w) - 1)
            d = x - want.scale(PRIME[w])
            return not [1 for t, a in d.t if a % (1 << w)] and d.c % (1 << w) == 0

        def drv(eng, empty):
            h = u64("start", 0, (1 << w) - 1)
            fn = "fnv1a_%d" % w
            st, d, n, args = run_block(eng, fn, w, [IntV(w, h)], empty)
            for q, v in eng.call(st, fn, args):
                Fold(eng, fn, w, d, n, h, lambda x: L(x), ident).check(q, v, prove, lambda a, b: ((a ^ b) * PRIME[w]) % (1 << w))
        for empty in (False, True):
            s.run("fnv1a_%d(%s)" % (w, "empty" if empty else "block"), lambda eng: drv(eng, empty))
        k = offsets("fnv1a", {"base": "FNV1A_BASE_%d" % w, "size": "sizeof(FNV1A_BASE_%d)" % w})
        if k["base"] != BASE[w]:
            rep.violate("fnv1a:base%d" % w, "fnv1a.h: FNV1A_BASE_%d is %d, the standard offset basis is %d" % (w, k["base"], BASE[w]))
        else:
            rep.ok("FNV1A_BASE_%d" % w)
