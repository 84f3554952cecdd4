"""Hex and Base64 codecs (C26-C29)."""
from .common import *
from engine import lin
from engine.lin import derived

I32 = (1 << 31) - 1
U32 = (1 << 32) - 1


def classify_for(prop):
    def c(v, label):
        return {prop}
    return c


def table(name, vals):
    """Specification function on a byte as a lookup symbol."""
    key = ("spec", name)
    lin.TABLES[key] = tuple(vals)

    def f(l):
        l = L(l)
        if l.isc():
            return L(vals[l.c])
        return derived(("lookup", key, l), "#" + name, min(vals), max(vals))
    return f


def signed_cases(eng, st, v):
    """int result -> [(state, signed Lin)]"""
    if isinstance(v, Undef):
        bad(eng, st, "uninit", "ret", "returns an uninitialized value")
        return []
    out = []
    a = st.copy()
    if a.assume("ge", L(I32) - v.l):
        out.append((a, a.s.norm(v.l)))
    b = st.copy()
    if b.assume("ge", v.l - I32 - 1):
        out.append((b, b.s.norm(v.l - (1 << 32))))
    return out


def untouched(eng, st, rid, ct, size, cls, key, text):
    same_bytes(eng, st, (rid, st.mem[rid].content, 0), (rid, ct, 0), size, cls, key, text)


# ---------------------------------------------------------------------------- hex

def hex_encode(eng, prop, lower, null):
    st = eng.initial()
    n = u64("in_size", 0, U32)
    m = u64("out_size", 0, U32)
    src = eng.region(st, "in", n, base="atoms", kind="caller", writable=False)
    dst = None
    if not null:
        dst = eng.region(st, "out", m, base="atoms", kind="caller")
        dct = st.mem[dst].content
    sct = st.mem[src].content
    digits = b"0123456789abcdef" if lower == 1 else b"0123456789ABCDEF"
    hi = table("hexhi%d" % lower, [digits[b >> 4] for b in range(256)])
    lo = table("hexlo%d" % lower, [digits[b & 15] for b in range(256)])
    if lower == 1:
        lw = u64("lowercase", 0, U32)
        st.assume("ne", lw)
    else:
        lw = ZERO
    for q, v in eng.call(st, "hex_encode", [PtrV(src), IntV(32, n), PtrV(dst), IntV(32, m), IntV(32, lw)]):
        for q, r in signed_cases(eng, q, v):
            neg = q.copy()
            if neg.assume("ge", -r - 1):
                must(eng, neg, "eq", r + 1, "ret", "code", "hex_encode() fails with a result other than -1")
                a = neg.copy()
                ok = a.assume("ge", L(I32) - n.scale(2) - 1)       # result representable
                if ok and null:
                    bad(eng, a, "ret", "null", "hex_encode() fails for a null output", [r])
                elif ok:
                    must(eng, a, "ge", n.scale(2) - m - 1, "ret", "spurious", "hex_encode() fails although the output fits")
                if not null:
                    untouched(eng, neg, dst, dct, m, "content", "failwrites", "failing hex_encode() writes to the output")
            if not q.assume("ge", r):
                continue
            if null:
                must(eng, q, "eq", r - n.scale(2) - 1, "ret", "query", "hex_encode(): wrong size reported for a null output")
                continue
            if not must(eng, q, "eq", r - n.scale(2), "ret", "length", "hex_encode(): wrong result"):
                continue
            must(eng, q, "ge", m - n.scale(2), "ret", "toosmall", "hex_encode() succeeds although the output is too small")
            for which, f in ((0, hi), (1, lo)):
                s = q.copy()
                i = fresh("i", 0, None)
                if not s.assume("ge", n - i - 1):
                    continue
                for s1, x in eng.read(s, src, sct, s.s.norm(i), 1):
                    for s2, w in eng.read(s1, dst, s1.mem[dst].content, s1.s.norm(i.scale(2) + which), 1):
                        must_equal(eng, s2, w, IntV(8, f(s2.s.norm(x.l))), "content", "digit%d" % which,
                                   "hex_encode(): digit %d of an input byte is wrong" % which)
            # terminator and the rest
            t = q.copy()
            if t.assume("ge", m - n.scale(2) - 1):
                for t, w in eng.read(t, dst, t.mem[dst].content, t.s.norm(n.scale(2)), 1):
                    must_equal(eng, t, w, IntV(8, 0), "content", "nul", "hex_encode(): the terminator is missing although there is room")
            t = q.copy()
            i = fresh("i", 0, None)
            if t.assume("ge", i - n.scale(2) - 1) and t.assume("ge", m - i - 1):
                for t1, w in eng.read(t, dst, t.mem[dst].content, t.s.norm(i), 1):
                    for t2, x in eng.read(t1, dst, dct, t1.s.norm(i), 1):
                        must_equal(eng, t2, w, x, "content", "beyond", "hex_encode() writes behind the terminator")


def c28(rep):
    rep.rule("hex_encode() executed abstractly for an arbitrary input block, output size and case; result, every digit, terminator and "
             "untouched bytes compared with the specification for an arbitrary index")
    s = Suite(rep, "hex", classify_for("C28"))
    for null in (True, False):
        for lower in (0, 1):
            s.run("hex_encode(%s, %s)" % ("null" if null else "buffer", "lower" if lower else "upper"),
                  lambda eng: hex_encode(eng, "C28", lower, null))


HEXVAL = [int(chr(b), 16) if chr(b) in "0123456789abcdefABCDEF" else 255 for b in range(256)]


def hex_decode(eng, null):
    st = eng.initial()
    n = u64("in_size", 0, U32)
    m = u64("out_size", 0, U32)
    src = eng.region(st, "in", n, base="atoms", kind="caller", writable=False)
    sct = st.mem[src].content
    dst = None
    if not null:
        dst = eng.region(st, "out", m, base="atoms", kind="caller")
        dct = st.mem[dst].content
    dec = table("hexval", HEXVAL)
    fn = "hex_decode()"
    for q, v in eng.call(st, "hex_decode", [PtrV(src), IntV(32, n), PtrV(dst), IntV(32, m)]):
        for q, r in signed_cases(eng, q, v):
            neg = q.copy()
            half = eng.div(q, n, 2)
            if neg.assume("ge", -r - 1):
                must(eng, neg, "eq", r + 1, "ret", "code", fn + " fails with a result other than -1")
                a = neg.copy()
                if a.assume("eq", n - half.scale(2)) and (null or a.assume("ge", m - half)):
                    feas = not null
                    for o in atoms_of(a, src):
                        feas = feas and a.assume("ge", L(15) - dec(a.s.norm(eng.atom(a, src, src, o))))
                    if feas:
                        bad(eng, a, "ret", "spurious", fn + " rejects a valid text", [r])
                    elif not null:
                        eng.ok("ret")
                    if null:
                        bad(eng, a, "ret", "null", fn + " fails for a null output", [r])
                else:
                    eng.ok("ret")
            if not q.assume("ge", r):
                continue
            if null:
                if q.assume("eq", n - half.scale(2)):
                    must(eng, q, "eq", r - half, "ret", "query", fn + ": wrong size reported for a null output")
                continue
            if not must(eng, q, "eq", r.scale(2) - n, "ret", "length", fn + ": wrong result or odd length accepted"):
                continue
            must(eng, q, "ge", m - r, "ret", "toosmall", fn + " succeeds although the output is too small")
            # every character is a digit
            s = q.copy()
            i = fresh("i", 0, None)
            if s.assume("ge", n - i - 1):
                for s1 in at_iteration(eng, s, i, (1, 2)):
                    must(eng, s1, "ge", L(15) - dec(eng.atom(s1, src, src, i)), "content", "accept", fn + " accepts a character which is not a digit")
            s = q.copy()
            i = fresh("i", 0, None)
            if s.assume("ge", r - i - 1):
                for s1, w in eng.read(s, dst, s.mem[dst].content, s.s.norm(i), 1):
                    x = eng.atom(s1, src, src, s1.s.norm(i.scale(2)))
                    y = eng.atom(s1, src, src, s1.s.norm(i.scale(2) + 1))
                    must_equal(eng, s1, w, IntV(8, dec(x).scale(16) + dec(y)), "content", "value", fn + " writes a wrong byte")
            t = q.copy()
            i = fresh("i", 0, None)
            if t.assume("ge", i - r) and t.assume("ge", m - i - 1):
                for t1, w in eng.read(t, dst, t.mem[dst].content, t.s.norm(i), 1):
                    for t2, x in eng.read(t1, dst, dct, t1.s.norm(i), 1):
                        must_equal(eng, t2, w, x, "content", "beyond", fn + " writes behind the decoded bytes")


def c29(rep):
    rep.rule("hex_decode() executed abstractly for an arbitrary input block and output size; accepted characters, every output byte, "
             "rejections and untouched bytes compared with the specification for an arbitrary index")
    s = Suite(rep, "hex", classify_for("C29"))
    for null in (True, False):
        s.run("hex_decode(%s)" % ("null" if null else "buffer"), lambda eng: hex_decode(eng, null))


# ---------------------------------------------------------------------------- Base64

CORE = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"


class B64:
    """Options in one of the forms a caller may use."""

    def __init__(self, eng, st, off, kind):
        self.eng = eng
        eng.lazy_ite = True
        if kind == "default":
            self.arg = NULL
            self.c62, self.c63, self.pad = L(ord("+")), L(ord("/")), L(ord("="))
        else:
            r = eng.region(st, "options", off["sizeof"], base="atoms", kind="caller", writable=False)
            self.arg = PtrV(r)
            self.c62 = eng.atom(st, r, r, L(off["ch62"]))
            self.c63 = eng.atom(st, r, r, L(off["ch63"]))
            self.pad = eng.atom(st, r, r, L(off["pad"]))
            if kind == "nopad":
                st.assume("eq", self.pad)
                self.pad = ZERO
            else:
                st.assume("ne", self.pad)
        self.padded = kind != "nopad"


def b64_offsets():
    return offsets("base64", {"ch62": "__builtin_offsetof(BASE64_OPTIONS, ch62)", "ch63": "__builtin_offsetof(BASE64_OPTIONS, ch63)",
                              "pad": "__builtin_offsetof(BASE64_OPTIONS, pad)", "sizeof": "sizeof(BASE64_OPTIONS)"})


def equal_resolved(eng, st, a, b, cls, key, text):
    """a == b (integers) in every case of the conditional values involved."""
    if not isinstance(a, IntV):
        bad(eng, st, cls, key, "%s (found %r)" % (text, a), hard=not isinstance(a, absint.ByteOf))
        return
    for z, l in eng.resolve(st, a.l - b):
        must(eng, z, "eq", l, cls, key, text)


def b64_encode(eng, off, kind, null, shape):
    """shape: residue of the input size modulo 3."""
    st = eng.initial()
    n = u64("in_size", 0, U32)
    m = u64("out_size", 0, U32)
    src = eng.region(st, "in", n, base="atoms", kind="caller", writable=False)
    sct = st.mem[src].content
    dst = None
    if not null:
        dst = eng.region(st, "out", m, base="atoms", kind="caller")
        dct = st.mem[dst].content
    o = B64(eng, st, off, kind)
    t3 = fresh("triples", 0, None)
    st.assume("eq", n - t3.scale(3) - shape)
    full = t3.scale(4)
    tail = 0 if shape == 0 else 4 if o.padded else shape + 1
    need = full + tail
    core = table("core", list(CORE) + [0, 0])
    hi6 = table("hi6", [b >> 2 for b in range(256)])
    lo2 = table("lo2", [(b & 3) << 4 for b in range(256)])
    hi4 = table("hi4", [b >> 4 for b in range(256)])
    lo4 = table("lo4", [(b & 15) << 2 for b in range(256)])
    hi2 = table("hi2", [b >> 6 for b in range(256)])
    lo6 = table("lo6", [b & 63 for b in range(256)])

    def enc(s, x):
        return eng.mk_ite(s, s.s.norm(x - 62), o.c62, eng.mk_ite(s, s.s.norm(x - 63), o.c63, core(x)))
    fn = "base64_encode()"
    for q, v in eng.call(st, "base64_encode", [PtrV(src), IntV(32, n), PtrV(dst), IntV(32, m), o.arg]):
        for q, r in signed_cases(eng, q, v):
            neg = q.copy()
            if neg.assume("ge", -r - 1):
                a = neg.copy()
                if a.assume("ge", L(I32) - need - 1) and (null or a.assume("ge", m - need)):
                    # unrepresentable needs may be refused as well when the padded text is too long
                    if a.assume("ge", L(I32) - full - 4 - 1):
                        bad(eng, a, "ret", "spurious", fn + " fails although the result fits", [r])
                else:
                    eng.ok("ret")
                if not null:
                    untouched(eng, neg, dst, dct, m, "content", "failwrites", "failing %s writes to the output" % fn)
            if not q.assume("ge", r):
                continue
            if null:
                must(eng, q, "eq", r - need - 1, "ret", "query", fn + ": wrong size reported for a null output")
                continue
            if not must(eng, q, "eq", r - need, "ret", "length", fn + ": wrong length"):
                continue
            must(eng, q, "ge", m - need, "ret", "toosmall", fn + " succeeds although the output is too small")
            cur = q.mem[dst].content
            # full groups
            s = q.copy()
            j = fresh("j", 0, None)
            if s.assume("ge", t3 - j - 1):
                x = [eng.atom(s, src, src, s.s.norm(j.scale(3) + c)) for c in range(3)]
                want = [hi6(x[0]), lo2(x[0]) + hi4(x[1]), lo4(x[1]) + hi2(x[2]), lo6(x[2])]
                for c in range(4):
                    for s1, w in eng.read(s.copy(), dst, cur, s.s.norm(j.scale(4) + c), 1):
                        equal_resolved(eng, s1, w, enc(s1, want[c]), "content", "char%d" % c, fn + ": character %d of a group is wrong" % c)
            # tail
            if shape:
                s = q.copy()
                x = [eng.atom(s, src, src, s.s.norm(t3.scale(3) + c)) for c in range(shape)]
                want = [hi6(x[0]), lo2(x[0])] if shape == 1 else [hi6(x[0]), lo2(x[0]) + hi4(x[1]), lo4(x[1])]
                for c in range(tail):
                    for s1, w in eng.read(s.copy(), dst, cur, s.s.norm(full + c), 1):
                        equal_resolved(eng, s1, w, enc(s1, want[c]) if c < len(want) else o.pad, "content", "tail%d" % c,
                                       fn + ": character %d of the last group is wrong" % c)
            t = q.copy()
            if t.assume("ge", m - need - 1):
                for t, w in eng.read(t, dst, t.mem[dst].content, t.s.norm(need), 1):
                    must_equal(eng, t, w, IntV(8, 0), "content", "nul", fn + ": the terminator is missing although there is room")
            t = q.copy()
            i = fresh("i", 0, None)
            if t.assume("ge", i - need - 1) and t.assume("ge", m - i - 1):
                for t1, w in eng.read(t, dst, t.mem[dst].content, t.s.norm(i), 1):
                    for t2, y in eng.read(t1, dst, dct, t1.s.norm(i), 1):
                        must_equal(eng, t2, w, y, "content", "beyond", fn + " writes behind the terminator")


def c26(rep):
    rep.rule("base64_encode() executed abstractly for an arbitrary input block, output size and options (default, padded, unpadded); result, "
             "every character, terminator and untouched bytes compared with the specification for an arbitrary group")
    s = Suite(rep, "base64", classify_for("C26"))
    off = b64_offsets()
    for null in (True, False):
        for kind in ("default", "pad", "nopad"):
            for shape in range(3):
                s.run("base64_encode(%s, %s, size mod 3 = %d)" % ("null" if null else "buffer", kind, shape),
                      lambda eng: b64_encode(eng, off, kind, null, shape))


def b64_decode(eng, off, kind, null):
    st = eng.initial()
    n = u64("in_size", 0, U32)
    m = u64("out_size", 0, U32)
    src = eng.region(st, "in", n, base="atoms", kind="caller", writable=False)
    dst = None
    if not null:
        dst = eng.region(st, "out", m, base="atoms", kind="caller")
        dct = st.mem[dst].content
    o = B64(eng, st, off, kind)
    # a proper alphabet: 64 different characters, the padding character not among them
    if kind != "default":
        for c in CORE:
            for x in (o.c62, o.c63) + ((o.pad,) if o.padded else ()):
                st.assume("ne", x - c)
        st.assume("ne", o.c62 - o.c63)
        if o.padded:
            st.assume("ne", o.c62 - o.pad)
            st.assume("ne", o.c63 - o.pad)
    dcore = table("dcore", [CORE.index(b) if b in CORE else 255 for b in range(256)])
    low4 = table("low4", [v & 15 for v in range(256)])
    low2 = table("low2", [v & 3 for v in range(256)])
    fn = "base64_decode()"
    free = [s for x in (o.c62, o.c63, o.pad) for s, a in x.t]

    def dec(s, at):
        c = eng.atom(s, src, src, s.s.norm(at))
        return eng.mk_ite(s, s.s.norm(c - o.c62), L(62), eng.mk_ite(s, s.s.norm(c - o.c63), L(63), dcore(c)))

    def strips(q):
        """-> [(state, effective length)]"""
        out = []
        if not o.padded:
            return [(q, n)]
        a = q.copy()
        if a.assume("eq", n):
            out.append((a, ZERO))
        if not q.assume("ge", n - 1):
            return out
        h = eng.div(q, n, 4)
        a = q.copy()
        if a.assume("ge", n - h.scale(4) - 1):
            out.append((a, n))
        if q.assume("eq", n - h.scale(4)):
            last = eng.atom(q, src, src, q.s.norm(n - 1))
            prev = eng.atom(q, src, src, q.s.norm(n - 2))
            for cond, t in ((("ne", None), 0), (("eq", "ne"), 1), (("eq", "eq"), 2)):
                a = q.copy()
                if a.assume(cond[0], last - o.pad) and (cond[1] is None or a.assume(cond[1], prev - o.pad)):
                    out.append((a, n - t))
        return out

    def residues(q, e):
        """-> [(state, groups, residue)]"""
        out = []
        h = eng.div(q, e, 4)
        for r in range(4):
            a = q.copy()
            if a.assume("eq", e - h.scale(4) - r):
                out.append((a, h, r))
        return out

    def valid_char(s, at):
        """States in which the character is in the alphabet."""
        out = []
        for z, l in eng.resolve(s, dec(s, at)):
            if z.assume("ge", L(63) - l):
                out.append(z)
        return out
    for q, v in eng.call(st, "base64_decode", [PtrV(src), IntV(32, n), PtrV(dst), IntV(32, m), o.arg]):
        for q, r in signed_cases(eng, q, v):
            for q1, e in strips(q.copy()):
                for q2, h, res in residues(q1, e):
                    size = h.scale(3) + max(res - 1, 0)
                    neg = q2.copy()
                    if neg.assume("ge", -r - 1):
                        if res == 1 or not neg.assume("ge", L(I32) - size) or (not null and not neg.assume("ge", m - size)):
                            eng.ok("ret")
                        else:
                            work = [neg]
                            for at in list(atoms_of(neg, src)) + ([h.scale(4) + res - 1] if res else []):
                                nxt = []
                                for w in work:
                                    beyond = w.copy()
                                    if beyond.assume("ge", at - e):
                                        nxt.append(beyond)
                                    if w.assume("ge", e - at - 1):
                                        nxt += valid_char(w, at)
                                work = nxt
                            if res in (2, 3):
                                nxt = []
                                for w in work:
                                    for z, l in eng.resolve(w, dec(w, h.scale(4) + res - 1)):
                                        if z.assume("eq", (low4 if res == 2 else low2)(z.s.norm(l))):
                                            nxt.append(z)
                                work = nxt
                            for w in work:
                                bad(eng, w, "ret", "spurious", fn + " rejects a valid text", [r])
                            if not work:
                                eng.ok("ret")
                    if not q2.assume("ge", r):
                        continue
                    if null:
                        if res != 1:
                            must(eng, q2, "eq", r - size, "ret", "query", fn + ": wrong size reported for a null output")
                        continue
                    if res == 1:
                        bad(eng, q2, "ret", "length1", fn + " accepts a text of an impossible length", [r])
                        continue
                    if not must(eng, q2, "eq", r - size, "ret", "length", fn + ": wrong result"):
                        continue
                    must(eng, q2, "ge", m - size, "ret", "toosmall", fn + " succeeds although the output is too small")
                    i = fresh("i", 0, None)
                    s = q2.copy()
                    if s.assume("ge", e - i - 1):
                        for s1 in at_iteration(eng, s, i, (1, 4)):
                            for z, l in eng.resolve(s1, dec(s1, i)):
                                must(eng, z, "ge", L(63) - l, "content", "accept", fn + " accepts a character outside the alphabet")
                    if res in (2, 3):
                        for s1 in at_iteration(eng, q2.copy(), h.scale(4) + res - 1, (1,)):
                            for z, l in eng.resolve(s1, dec(s1, h.scale(4) + res - 1)):
                                if z.assume("ge", L(63) - l):
                                    must(eng, z, "eq", (low4 if res == 2 else low2)(z.s.norm(l)), "content", "trailing",
                                         fn + " accepts a text with non-zero trailing bits")

                    def byte(base, count, outs, limit, key):
                        """Output bytes built from the characters base .. base+count-1, all known to be in the alphabet."""
                        w = q2.copy()
                        if limit is not None and not w.assume("ge", limit):
                            return
                        D = []
                        known = {}
                        for d in range(count):
                            x = dec(w, base + d)
                            D.append(x)
                            w.assume("ge", L(63) - x)
                            known[eng.atom(w, src, src, w.s.norm(base + d)).t[0][0]] = x
                        for c, at in enumerate(outs):
                            for s1, got in eng.read(w.copy(), dst, w.mem[dst].content, w.s.norm(at), 1):
                                E = [s1.s.norm(x) for x in D]
                                f = [None] * 3
                                f[0] = lambda: E[0].scale(4) + eng.div(s1, E[1], 16)
                                f[1] = lambda: (E[1] - eng.div(s1, E[1], 16).scale(16)).scale(16) + eng.div(s1, E[2], 4)
                                f[2] = lambda: (E[2] - eng.div(s1, E[2], 4).scale(4)).scale(64) + E[3]
                                if isinstance(got, IntV):
                                    got = IntV(8, canon(eng, s1, got.l, known, free))
                                    if s1.s.entails_eq(got.l - f[c]()):
                                        eng.ok("content")
                                        continue
                                equal_resolved(eng, s1, got, f[c](), "content", "%s%d" % (key, c), fn + " writes a wrong byte")
                    j = fresh("j", 0, None)
                    byte(j.scale(4), 4, [j.scale(3) + c for c in range(3)], h - j - 1, "byte")
                    byte(h.scale(4), res, [h.scale(3) + c for c in range(max(res - 1, 0))], None, "tail")
                    t = q2.copy()
                    if t.assume("ge", i - size) and t.assume("ge", m - i - 1):
                        for t1, w in eng.read(t, dst, t.mem[dst].content, t.s.norm(i), 1):
                            for t2, x in eng.read(t1, dst, dct, t1.s.norm(i), 1):
                                must_equal(eng, t2, w, x, "content", "beyond", fn + " writes behind the decoded bytes")


def c27(rep):
    rep.rule("base64_decode() executed abstractly for an arbitrary text, output size and options (default, padded, unpadded alphabets of 64 "
             "different characters); accepted characters, trailing bits, every output byte, rejections and untouched bytes compared with the "
             "specification for an arbitrary group")
    rep.assume("option characters form a proper alphabet: ch62, ch63 and pad differ from each other and from the 62 fixed characters")
    s = Suite(rep, "base64", classify_for("C27"))
    off = b64_offsets()
    for null in (True, False):
        for kind in ("default", "pad", "nopad"):
            s.run("base64_decode(%s, %s)" % ("null" if null else "buffer", kind), lambda eng: b64_decode(eng, off, kind, null))
