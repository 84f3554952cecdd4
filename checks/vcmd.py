"""The command line parser (C34, C35).

Loops over tokens, over the option table and over grouped letters are decided by contracts: one generic iteration on an arbitrary token
(string of any length), table record or letter, with the parser's own variables walked to a fixpoint. Events (callback calls) are compared
with what the documentation asks for in the state reached."""
import itertools
from .common import *
from engine import loops
from engine.absint import Content
from engine.libc import as_ptr, as_lin

DASH, EQUALS = ord("-"), ord("=")
TOKENS = 1 << 30


def consts():
    K = offsets("cmdline", {
        "short": "offsetof(CMDLINE_OPTION, shortname)", "long": "offsetof(CMDLINE_OPTION, longname)",
        "id": "offsetof(CMDLINE_OPTION, id)", "flags": "offsetof(CMDLINE_OPTION, flags)", "size": "sizeof(CMDLINE_OPTION)",
        "NONE": "CMDLINE_OPTID_NONE", "UNKNOWN": "CMDLINE_OPTID_UNKNOWN", "MISSING": "CMDLINE_OPTID_MISSINGARG", "BOGUS": "CMDLINE_OPTID_BOGUSARG",
        "OPT": "CMDLINE_OPTFLAG_OPTIONALARG", "REQ": "CMDLINE_OPTFLAG_REQUIREDARG", "COMP": "CMDLINE_OPTFLAG_COMPILERLIKE"}, extra="#include <stddef.h>\n")
    for k in ("NONE", "UNKNOWN", "MISSING", "BOGUS"):
        K[k] &= (1 << 32) - 1
    return K


def up(st, **kw):
    st.x = dict(st.x)
    st.x.update(kw)


class Args:
    """The argument vector: the current token and the next one."""

    def __init__(self, P):
        self.P = P

    def read(self, eng, st, rid, off, size, ty):
        p = self.P
        if size != 8:
            raise Unsupported("part of an argument pointer")
        up(st, argread=True, argt=True)
        if st.s.entails_eq(off - st.x["P"].scale(8)):
            return [(st, PtrV(st.x["T"]))]
        if st.s.entails_eq(off - st.x["P"].scale(8) - 8):
            return [(st, PtrV(st.x["U"]))]
        raise Unsupported("another argument")


class Table:
    """The option table: records are made up when they are looked at."""

    def __init__(self, P):
        self.P = P

    def read(self, eng, st, rid, off, size, ty):
        K = self.P.K
        off = st.s.norm(off)
        k = None
        for q, _ in st.x["recs"]:
            d = st.s.norm(off - q.scale(K["size"]))
            if not d.t and 0 <= d.c < K["size"]:
                k, o = q, d.c
                break
        else:
            k = self.P.row(st, off)
            if k is None:
                raise Unsupported("another record of the option table")
            o = st.s.norm(off - k.scale(K["size"])).c
        up(st, tabread=True)
        for f, w in (("short", 1), ("long", 8), ("id", 4), ("flags", 4)):
            if o == K[f] and size == w:
                return self.P.field(eng, st, k, f)
        raise Unsupported("part of an option record")


class Parser:
    def __init__(self, K, empty):
        self.K, self.empty = K, empty
        self.lost = False
        self.main_seen = 0

    # ---- records
    def row(self, st, off):
        k = st.x["row"]
        if k is not None:
            d = st.s.norm(off - k.scale(self.K["size"]))
            if not d.t and 0 <= d.c < self.K["size"]:
                return k
        if not off.t:
            return L(off.c // self.K["size"])
        return None

    def rec(self, st, k):
        for q, r in st.x["recs"]:
            if q == k:
                return r
        return {}

    def setrec(self, st, k, **kw):
        r = dict(self.rec(st, k))
        r.update(kw)
        up(st, recs=tuple((q, x) for q, x in st.x["recs"] if q != k) + ((k, r),))

    def field(self, eng, st, k, f):
        """-> [(state, value)]"""
        r = self.rec(st, k)
        if f in r:
            return [(st, r[f])]
        K = self.K
        out = []
        if "end" not in r:
            for end in (True, False):
                s = st.copy()
                self.setrec(s, k, end=end)
                out += self.field(eng, s, k, f)
            return out
        end = r["end"]
        if f == "id":
            if end:
                vals = [IntV(32, 0)]
            else:
                x = fresh("id of an option", 1, (1 << 32) - 1)
                if not all(st.assume("ne", x - K[n]) for n in ("UNKNOWN", "MISSING", "BOGUS")):
                    return []
                vals = [IntV(32, x)]
        elif f == "flags":
            if end:
                vals = [IntV(32, fresh("flags of the end record", 0, (1 << 32) - 1))]
            else:
                vals = [IntV(32, a | b | c) for c in (0, K["COMP"]) for b in (0, K["REQ"]) for a in (0, K["OPT"])]
        elif f == "short":
            x = fresh("short name", 0, 255)
            if not end and not st.assume("ne", x - DASH):
                return []
            vals = [IntV(8, x)]
        elif end:
            vals = [Undef(8, "the name in the end record")]
        else:
            # a compiler-like option needs a name
            out = []
            for s, v in self.field(eng, st, k, "flags"):
                if not v.l.c & K["COMP"]:
                    z = s.copy()
                    self.setrec(z, k, long=NULL)
                    out.append((z, NULL))
                z = s.copy()
                n = fresh("name length", 0, PMAX // 4)
                N = eng.region(z, "option name", n + 1, base="cstr", data=n, kind="caller", writable=False)
                self.setrec(z, k, long=PtrV(N), len=n)
                if v.l.c & K["COMP"] and z.x["bare"] is False:
                    for y, b in eng.read(z, N, z.mem[N].content, ZERO, 1):
                        if y.assume("eq", b.l - DASH):
                            out.append((y, PtrV(N)))
                else:
                    out.append((z, PtrV(N)))
            return out
        for v in vals:
            s = st.copy()
            self.setrec(s, k, **{f: v})
            out.append((s, v))
        return out

    def fields(self, eng, st, k, *names):
        """-> [(state, values)]"""
        work = [(st, ())]
        for n in names:
            work = [(z, vs + (v,)) for s, vs in work for z, v in self.field(eng, s, k, n)]
        return work

    def is_end(self, eng, st, k):
        return [(s, self.rec(s, k)["end"]) for s, _ in self.field(eng, st, k, "id")]

    def byte(self, eng, st, r, off):
        out = []
        for s, v in eng.read(st.copy(), r, st.mem[r].content, st.s.norm(L(off)), 1):
            # the same byte may be known under another name
            if all(s.assume("eq", lin.DEFS[("atom", r, o)] - v.l) for o in atoms_of(s, r) if s.s.entails_eq(o - off)):
                out.append((s, v.l))
        return out

    def is_byte(self, eng, st, r, off, c):
        """-> [(state, equal?)]"""
        out = []
        for s, b in self.byte(eng, st, r, off):
            y = s.copy()
            if y.assume("eq", b - c):
                out.append((y, True))
            if s.assume("ne", b - c):
                out.append((s, False))
        return out

    # ---- relation between a name and the token
    def prefix(self, eng, st, k, a):
        """Is the name of record k a prefix of the token from offset a on? -> [(state, bool)]"""
        r = self.rec(st, k)
        rel = dict(r.get("rel", ()))
        if a in rel:
            return [(st, rel[a])]
        if st.loops:
            raise Unsupported("names compared by a loop")
        out = []
        T, TL, N, n = st.x["T"], st.x["TL"], r["long"].r, r["len"]
        for yes in (True, False):
            s = st.copy()
            if yes and not s.assume("ge", TL - a - n):
                continue
            if not yes and not s.assume("ge", n - 1):
                continue            # an empty name is always a prefix
            self.setrec(s, k, rel=tuple(rel.items()) + ((a, yes),))
            work = [s]
            if yes:
                for o in atoms_of(s, N):
                    nxt = []
                    for z in work:
                        if not z.s.entails_ge(n - o - 1):
                            raise Unsupported("byte of a name")
                        for y, b in self.byte(eng, z, T, o + a):
                            for w, c in self.byte(eng, y, N, o):
                                if w.assume("eq", b - c):
                                    nxt.append(w)
                    work = nxt
            out += [(z, yes) for z in work]
        return out

    def kind(self, eng, st):
        """What the token looks like -> [(state, 'plain' | '-' | '--' | 'long' | 'short')]"""
        out = []
        T = st.x["T"]
        for s, y in self.is_byte(eng, st, T, 0, DASH):
            if not y:
                out.append((s, "plain"))
                continue
            for s2, b in self.byte(eng, s, T, 1):
                z = s2.copy()
                if z.assume("eq", b):
                    out.append((z, "-"))
                z = s2.copy()
                if z.assume("eq", b - DASH):
                    for s3, e in self.is_byte(eng, z, T, 2, 0):
                        out.append((s3, "--" if e else "long"))
                if s2.assume("ne", b) and s2.assume("ne", b - DASH):
                    out.append((s2, "short"))
        return out

    def matches(self, eng, st, k):
        """Does record k match the token (or the letter at hand)? -> [(state, None | 'comp' | 'long' | 'long=' | 'short' | 'letter')]"""
        K = self.K
        out = []
        for s, end in self.is_end(eng, st, k):
            if end:
                out.append((s, None))
                continue
            if s.x["pos"] is not None:
                for z, (fl, sh) in self.fields(eng, s, k, "flags", "short"):
                    if fl.l.c & K["COMP"]:
                        out.append((z, None))
                        continue
                    for y, b in self.byte(eng, z, z.x["T"], z.x["pos"]):
                        q = y.copy()
                        if q.assume("eq", b - sh.l):
                            out.append((q, "letter"))
                        if y.assume("ne", b - sh.l):
                            out.append((y, None))
                continue
            for z, (fl, sh, ln) in self.fields(eng, s, k, "flags", "short", "long"):
                if fl.l.c & K["COMP"]:
                    if z.s.entails_eq(self.rec(z, k)["len"]) is False and self.bytes_differ(eng, z, k):
                        out.append((z, None))
                        continue
                    out += [(y, "comp" if p else None) for y, p in self.prefix(eng, z, k, 0)]
                    continue
                for y, kd in self.kind(eng, z):
                    if kd == "long" and ln != NULL:
                        for w, p in self.prefix(eng, y, k, 2):
                            if not p:
                                out.append((w, None))
                                continue
                            for u, b in self.byte(eng, w, w.x["T"], self.rec(w, k)["len"] + 2):
                                q = u.copy()
                                if q.assume("eq", b):
                                    out.append((q, "long"))
                                q = u.copy()
                                if q.assume("eq", b - EQUALS):
                                    out.append((q, "long="))
                                if u.assume("ne", b) and u.assume("ne", b - EQUALS):
                                    out.append((u, None))
                    elif kd == "short":
                        for u, b in self.byte(eng, y, y.x["T"], 1):
                            q = u.copy()
                            if q.assume("eq", b - sh.l):
                                out.append((q, "short"))
                            if u.assume("ne", b - sh.l):
                                out.append((u, None))
                    else:
                        out.append((y, None))
        return out

    def bytes_differ(self, eng, st, k):
        """The first bytes of the name and of the token certainly differ."""
        n = self.rec(st, k)["len"]
        if not st.s.entails_ge(n - 1):
            return False
        N, T = self.rec(st, k)["long"].r, st.x["T"]
        for s, a in self.byte(eng, st, N, 0):
            for z, b in self.byte(eng, s, T, 0):
                if z.assume("eq", a - b):
                    return False
        return True

    # ---- string functions
    def models(self):
        return {"strlen": self.m_strlen, "strcmp": self.m_cmp, "strncmp": self.m_cmp, "memcmp": self.m_cmp, "bcmp": self.m_cmp, "strchr": self.m_strchr,
                "strncpy": self.m_strncpy, "strcpy": self.m_strcpy, "snprintf": self.m_snprintf, "sprintf": self.m_sprintf, "memchr": self.m_strchr, "strnlen": self.m_strnlen,
                "callback": self.event}

    def m_strlen(self, eng, st, args, I):
        from engine import libc
        return libc.m_strlen(eng, st, args, I)

    def m_strnlen(self, eng, st, args, I):
        out = []
        for s, v in self.m_strlen(eng, st, args[:1], I):
            a = s.copy()
            if a.assume("ge", args[1].l - v.l):
                out.append((a, v))
            if s.assume("ge", v.l - args[1].l - 1):
                out.append((s, args[1]))
        return out

    def named(self, st, r):
        for k, x in st.x["recs"]:
            if x.get("long", NULL) != NULL and isinstance(x["long"], PtrV) and x["long"].r == r:
                return k
        return None

    def cstr(self, st, p):
        """A constant string -> bytes or None"""
        if p.r is None or p.o.t:
            return None
        out = []
        for i in range(256):
            v = eng_const(st, p, i)
            if v is None:
                return None
            if v == 0:
                return bytes(out)
            out.append(v)
        return None

    def m_cmp(self, eng, st, args, I):
        name = I.callee[1]
        a, b = as_ptr(args[0]), as_ptr(args[1])
        n = None if name == "strcmp" else st.s.norm(as_lin(args[2]))
        block = name in ("memcmp", "bcmp")
        for p in (a, b):
            if isinstance(p, Undef):
                eng.fail(st, "uninit", "cmp:" + eng.where(st), "%s() of an uninitialized pointer (%s)" % (name, p.why))
                return []
            if p.r is None:
                eng.fail(st, "null", "cmp:" + eng.where(st), "%s() of a null pointer" % name)
                return []
        if block:
            for p in (a, b):
                if not eng.access(st, p, n, "%s reading" % name):
                    return []
        swap = False
        if self.named(st, a.r) is not None or a.r not in (st.x["T"], st.x["U"]) and self.cstr(st, a) is not None:
            a, b, swap = b, a, True
        other = lambda: IntV(32, fresh("comparison", 1, (1 << 32) - 1))
        text = self.cstr(st, b)
        if text is not None:
            # byte after byte
            if n is not None and n.t:
                raise Unsupported("comparison of a symbolic length")
            data = text + b"\0"
            if n is not None:
                data = data[:n.c]
                if block and n.c > len(data):
                    raise Unsupported("memcmp behind a string")
            out = []
            work = [st]
            for i, c in enumerate(data):
                nxt = []
                for s in work:
                    if not eng.access(s, PtrV(a.r, a.o + i), 1, "%s reading" % name):
                        continue
                    for z, y in self.is_byte(eng, s, a.r, a.o + i, c):
                        if y:
                            nxt.append(z)
                        else:
                            out.append((z, other()))
                work = nxt
            return [(s, IntV(32, 0)) for s in work] + out
        k = self.named(st, b.r)
        if k is None or a.r != st.x["T"] or a.o.t or b.o.t or b.o.c:
            raise Unsupported("comparison of other strings")
        out = []
        off = a.o.c
        if not eng.access(st, a, 1, "%s reading" % name):
            return []
        for s, pre in self.prefix(eng, st, k, off):
            m = self.rec(s, k)["len"]
            cases = []
            if n is None:
                cases = [(s, 1)]
            else:
                for c, d in ((0, m - n - 1), (1, n - m - 1), (2, None)):
                    z = s.copy()
                    if z.assume("ge", d) if d is not None else z.assume("eq", n - m):
                        cases.append((z, c))
            for z, c in cases:
                if c == 2:
                    out.append((z, IntV(32, 0) if pre else other()))
                elif c == 0:
                    if not pre:
                        y = z.copy()
                        if n is None or y.assume("ge", n - 1):
                            out.append((y, other()))
                    out.append((z, IntV(32, 0)))
                elif pre:
                    for y, e in self.is_byte(eng, z, a.r, m + off, 0):
                        out.append((y, IntV(32, 0) if e else other()))
                else:
                    out.append((z, other()))
        return out

    def m_strchr(self, eng, st, args, I):
        a, c = as_ptr(args[0]), args[1]
        if I.callee[1] == "memchr" or not isinstance(a, PtrV) or a.r != st.x["T"] or not isinstance(c, IntV) or c.l.t:
            raise Unsupported("search in another string")
        if not eng.access(st, a, 1, "strchr reading"):
            return []
        ch = c.l.c & 255
        out = []
        s = st.copy()
        if ch == 0:
            return [(s, PtrV(a.r, s.x["TL"]))]
        up(s, find=s.x["find"] + ((ch, s.s.norm(a.o), None),))
        out.append((s, NULL))
        z = st.copy()
        e = fresh("position of '%c'" % ch, 0, PMAX)
        if z.assume("ge", e - a.o) and z.assume("ge", z.x["TL"] - e - 1):
            for y, b in self.byte(eng, z, a.r, e):
                if y.assume("eq", b - ch):
                    up(y, find=y.x["find"] + ((ch, y.s.norm(a.o), e),))
                    out.append((y, PtrV(a.r, e)))
        return out

    def length(self, eng, st, p, what):
        """Length of the string at p -> Lin"""
        t = self.cstr(st, p)
        if t is not None:
            return L(len(t))
        ct = st.mem[p.r].content
        if ct.k == "base" and ct.val == "cstr":
            return st.s.norm(ct.src - p.o)
        raise Unsupported("%s of another string" % what)

    def m_strncpy(self, eng, st, args, I):
        d, p, n = as_ptr(args[0]), as_ptr(args[1]), as_lin(args[2])
        if not eng.access(st, p, 1, "strncpy reading"):
            return []
        m = self.length(eng, st, p, "strncpy()")
        out = []
        z = st.copy()
        if z.assume("ge", m - n):
            out += [(s, args[0]) for s in eng.copy_mem(z, d, p, n, "strncpy")]
        if st.assume("ge", n - m - 1):
            for s in eng.copy_mem(st, d, p, m, "strncpy"):
                out += [(y, args[0]) for y in eng.fill_mem(s, PtrV(d.r, d.o + m), IntV(8, 0), n - m, "strncpy")]
        return out

    def m_strcpy(self, eng, st, args, I):
        d, p = as_ptr(args[0]), as_ptr(args[1])
        if not eng.access(st, p, 1, "strcpy reading"):
            return []
        return [(s, args[0]) for s in eng.copy_mem(st, d, p, self.length(eng, st, p, "strcpy()") + 1, "strcpy")]

    def m_sprintf(self, eng, st, args, I):
        return self.format(eng, st, args[0], None, args[1], list(args[2:]))

    def m_snprintf(self, eng, st, args, I):
        return self.format(eng, st, args[0], as_lin(args[1]), args[2], list(args[3:]))

    def format(self, eng, st, d, n, fmt, args):
        d, fmt = as_ptr(d), as_ptr(fmt)
        f = self.cstr(st, fmt)
        if f is None:
            raise Unsupported("format")
        pieces = []
        work = [(st, [])]
        i = 0
        while i < len(f):
            if f[i] != ord("%"):
                j = i
                while j < len(f) and f[j] != ord("%"):
                    j += 1
                pieces.append((f[i:j], None))
                i = j
                continue
            for spec in (b"%%", b"%s", b"%c", b"%.*s"):
                if f.startswith(spec, i):
                    break
            else:
                raise Unsupported("format")
            i += len(spec)
            if spec == b"%%":
                pieces.append((b"%", None))
            elif spec == b"%c":
                v = args.pop(0)
                pieces.append((IntV(8, eng.wrap(st, 8, v.l)), L(1)))
            else:
                lim = eng.signed(st, 32, args.pop(0).l) if spec == b"%.*s" else None
                p = as_ptr(args.pop(0))
                if not isinstance(p, PtrV) or p.r is None:
                    eng.fail(st, "null", "format:" + eng.where(st), "formatting of a string that is no valid pointer")
                    return []
                if not eng.access(st, p, 1, "formatting"):
                    return []
                m = self.length(eng, st, p, "format")
                if lim is not None:
                    if not st.s.entails_ge(lim) or not st.s.entails_ge(m - lim):
                        raise Unsupported("precision")
                    m = lim
                pieces.append((p, m))
        total = L(0)
        for p, m in pieces:
            total = total + (len(p) if isinstance(p, bytes) else m)
        out = []
        work = [st]
        if n is not None:
            if n.t:
                raise Unsupported("size of a formatted string")
            if n.c == 0:
                return [(st, IntV(32, total))]
        ret = IntV(32, total) if st.s.entails_ge(L((1 << 31) - 1) - total) else IntV(32, fresh("formatted length", 0, (1 << 32) - 1))
        work = [(st, L(0), False)]
        for p, m in pieces:
            nxt = []
            for s, pos, full in work:
                if full:
                    nxt.append((s, pos, full))
                    continue
                ln = L(len(p)) if isinstance(p, bytes) else m
                for trunc in (False, True):
                    z = s.copy()
                    if n is not None:
                        if not z.assume("ge", (n - 1 - pos - ln) if not trunc else (pos + ln - n)):
                            continue
                    elif trunc:
                        continue
                    k = z.s.norm(n - 1 - pos) if trunc else ln
                    if isinstance(p, PtrV):
                        for y in eng.copy_mem(z, PtrV(d.r, d.o + pos), p, k, "snprintf"):
                            nxt.append((y, y.s.norm(pos + k), trunc))
                    else:
                        bs = [IntV(8, c) for c in p] if isinstance(p, bytes) else [p]
                        if k.t:
                            raise Unsupported("truncated text")
                        if all(eng.store(z, PtrV(d.r, d.o + pos + i), 1, v, "snprintf") for i, v in enumerate(bs[:k.c])):
                            nxt.append((z, z.s.norm(pos + k), trunc))
            work = nxt
        for s, pos, full in work:
            if eng.store(s, PtrV(d.r, d.o + pos), 1, IntV(8, 0), "snprintf"):
                out.append((s, ret))
        return out

    # ---- events
    def text_is(self, eng, st, p, pieces, what):
        """The string at p is the text; reports if not. pieces: [(bytes | region, offset, length)]. -> True when it is."""
        pos = L(p.o)
        R = st.mem[p.r]
        good = True
        for src, off, ln in pieces:
            if isinstance(src, int):
                s = st.copy()
                i = fresh("i", 0, PMAX)
                if s.assume("ge", ln - i - 1):
                    for z, v in eng.read(s, p.r, R.content, s.s.norm(pos + i), 1):
                        if isinstance(v, Undef):
                            bad(eng, z, "C35/term", "text", "%s: the text passed contains uninitialized bytes" % what, [i])
                            return False
                        for y, w in self.byte(eng, z, src, off + i):
                            if not same_value(eng, y, v, IntV(8, w)):
                                return must(eng, y, "eq", v.l - w, "C34/arg", "text", "%s: the text passed is not the name" % what)
                pos = pos + ln
            else:
                for c in src:
                    c = c if isinstance(c, Lin) else L(c)
                    for z, v in eng.read(st.copy(), p.r, R.content, st.s.norm(pos), 1):
                        if isinstance(v, Undef):
                            bad(eng, z, "C35/term", "text", "%s: the text passed contains uninitialized bytes" % what)
                            return False
                        if not must(eng, z, "eq", v.l - c, "C34/arg", "text", "%s: the text passed is not the name" % what):
                            return False
                    pos = pos + 1
        for z, v in eng.read(st.copy(), p.r, R.content, st.s.norm(pos), 1):
            if isinstance(v, Undef):
                bad(eng, z, "C35/term", "term", "%s: the text passed is not terminated" % what, [pos])
                return False
            if not must(eng, z, "eq", v.l, "C35/term", "term", "%s: the text passed is not terminated behind the name" % what):
                return False
        eng.ok("C34/arg")
        return good

    def event(self, eng, st, args, I):
        out = []
        id, arg, ud = args
        what = "cmdline_read()"
        if isinstance(id, Undef) or isinstance(arg, Undef) or isinstance(ud, Undef):
            bad(eng, st, "uninit", "event", "the callback gets an uninitialized argument", hard=not self.lost)
            return []
        arg = as_ptr(arg)
        if arg.r is None and not st.s.entails_eq(arg.o):
            bad(eng, st, "C35/term", "event", "the callback gets an invalid string")
            return []
        if st.x["stopped"]:
            bad(eng, st, "C34/stop", "again", "the callback is called again although it has returned non-zero")
            return []
        eng.ok("C34/stop")
        if ud != self.ud:
            bad(eng, st, "C34/arg", "userdata", "the callback does not get the application's data")
        if not isinstance(id, IntV):
            raise Unsupported("option id")
        if st.x["T"] is None or not st.x["argread"]:
            bad(eng, st, "C34/event", "early", "the callback is called without a token")
            return []
        if arg.r is not None:
            r = st.mem[arg.r]
            if not r.alive:
                bad(eng, st, "C35/term", "dead", "the callback gets a string that does not exist any more")
                return []
            if not must(eng, st, "ge", arg.o, "C35/term", "low", "the string passed starts in front of %s" % r.name) or \
               not must(eng, st, "ge", r.size - arg.o - 1, "C35/term", "high", "the string passed starts behind the end of %s" % r.name):
                return []
        for s in self.report(eng, st.copy(), st.s.norm(id.l), arg):
            a = s.copy()
            out.append((a, IntV(32, 0)))
            up(s, stopped=True)
            out.append((s, IntV(32, L(self.RET))))
        return out

    def at(self, st, p, r, off):
        return p.r == r and st.s.entails_eq(p.o - off)

    def report(self, eng, st, id, arg):
        """Compare the event with the documentation -> [states after it]"""
        K = self.K
        x = st.x

        def wrong(s, key, text, lins=()):
            bad(eng, s, "C34/event", key, text, lins)
            return []

        def done(s, used=1, **kw):
            eng.ok("C34/event")
            up(s, used=used, ev=True, **kw)
            return [s]
        if x["ev"] and x["pos"] is None:
            return wrong(st, "twice", "a token is reported twice")
        if x["pos"] is not None:
            return self.letter(eng, st, id, arg, wrong, done)
        if not id.t and id.c in (K["NONE"], K["UNKNOWN"]):
            out = []
            for s, kd in self.kind(eng, st):
                if s.x["dd"]:
                    if id.c != K["NONE"]:
                        out += wrong(s, "afterdd", "a token behind the double dash is not reported as a non-option")
                        continue
                elif kd == "-":
                    if id.c != K["NONE"]:
                        out += wrong(s, "dash", "a single dash is not reported as a non-option")
                        continue
                elif kd == "--":
                    out += wrong(s, "doubledash", "the double dash is reported")
                    continue
                else:
                    if s.x["over"]:
                        out += wrong(s, "missed", "a token is reported as %s although an option in the table matches" % ("non-option" if id.c == K["NONE"] else "unknown"))
                        continue
                    if (kd == "plain") != (id.c == K["NONE"]):
                        out += wrong(s, "kind", "a token that %s with a dash is reported as %s" % (("does not start", "an unknown option") if kd == "plain" else ("starts", "a non-option")))
                        continue
                    if not s.x["searched"] and not (kd == "plain" and s.x["bare"] is False):
                        # perhaps the record at hand matches
                        row = s.x["row"]
                        if s.loops:
                            raise Unsupported("search in the table")
                        if row is None:
                            out += wrong(s, "nosearch", "a token is reported as %s without looking into the table" % ("a non-option" if id.c == K["NONE"] else "unknown"))
                            continue
                        hit = False
                        ok = []
                        for z, end in self.is_end(eng, s, row):
                            if end:
                                ok.append(z)
                                continue
                            hit = True
                            out += wrong(z, "half", "a token is reported as %s before the end of the table is reached" % ("a non-option" if id.c == K["NONE"] else "unknown"))
                        if hit:
                            continue
                        for z in ok:
                            out += self.plain(eng, z, id, arg, kd, wrong, done)
                        continue
                out += self.plain(eng, s, id, arg, kd, wrong, done)
            return out
        # an option of the table
        row = st.x["row"]
        if row is None or not self.rec(st, row):
            return wrong(st, "norow", "an option is reported that was not looked up")
        if st.x["dd"]:
            return wrong(st, "afterdd", "a token behind the double dash is not reported as a non-option")
        out = []
        for s, kd in self.kind(eng, st):
            if kd in ("-", "--"):
                out += wrong(s, "dashes", "%s is reported as an option" % kd)
                continue
            for z, m in self.matches(eng, s, row):
                if m is None:
                    out += wrong(z, "nomatch", "an option is reported that does not match the token")
                    continue
                if z.x["over"]:
                    out += wrong(z, "later", "an option is reported although an earlier one in the table matches")
                    continue
                for y, (oid, fl) in self.fields(eng, z, row, "id", "flags"):
                    out += self.option(eng, y, row, m, oid.l, fl.l.c, id, arg, wrong, done)
        return out

    def plain(self, eng, s, id, arg, kd, wrong, done):
        K = self.K
        T = s.x["T"]
        if id.c == K["NONE"]:
            if not self.at(s, arg, T, ZERO):
                return wrong(s, "arg", "a non-option is reported with another text than the token")
            return done(s)
        if self.at(s, arg, T, ZERO):
            if kd == "long" and (EQUALS, None) not in [(c, e) for c, o, e in s.x["find"]]:
                eqs = [e for c, o, e in s.x["find"] if c == EQUALS]
                if s.loops:
                    raise Unsupported("search in the token")
                y = s.copy()
                for z, b in self.byte(eng, y, T, 3):
                    if eqs or z.assume("eq", b - EQUALS):
                        return wrong(z, "strip", "the name of an unknown option is passed together with its argument")
            return done(s)
        if arg.r is None or kd != "long":
            return wrong(s, "arg", "an unknown option is reported with another text than its name")
        eqs = [e for c, o, e in s.x["find"] if c == EQUALS and e is not None]
        if not eqs:
            raise Unsupported("name of an unknown option")
        e = eqs[-1]
        return done(s) if self.cut(eng, s, arg, [(T, ZERO, e)], "an unknown option") else []

    def cut(self, eng, s, arg, pieces, what):
        """The text passed is the given one, cut off where the parser's buffer ends."""
        total = L(0)
        for a, o, n in pieces:
            total = total + n
        size = s.mem[arg.r].size - arg.o
        good = True
        for fits in (True, False):
            # complete where it fits with room for another byte; else it fills the buffer but for a byte
            z = s.copy()
            if fits:
                if z.assume("ge", size - 2 - total):
                    good = self.text_is(eng, z, arg, pieces, what) and good
                continue
            if not z.assume("ge", total - size + 1):
                continue
            # the end is where the zero byte is
            for m in (size - 1, size - 2):
                y = z.copy()
                vs = eng.read(y.copy(), arg.r, y.mem[arg.r].content, y.s.norm(arg.o + m), 1)
                if all(isinstance(v, IntV) and q.s.entails_eq(v.l) for q, v in vs):
                    break
            else:
                bad(eng, z, "C35/term", "term", "%s: the text passed is not terminated" % what, [total], hard=True)
                return False
            work = [(y, y.s.norm(m), [])]
            for a, o, n in pieces:
                nxt = []
                for y, left, part in work:
                    q = y.copy()
                    if q.assume("ge", left - n):
                        nxt.append((q, q.s.norm(left - n), part + [(a, o, n)]))
                    if y.assume("ge", n - left - 1):
                        if not isinstance(a, int):
                            raise Unsupported("text that is cut off")
                        nxt.append((y, ZERO, part + [(a, o, left)]))
                work = nxt
            for y, left, part in work:
                if y.s.entails_eq(left):
                    good = self.text_is(eng, y, arg, part, what) and good
                else:
                    bad(eng, y, "C34/arg", "text", "%s: the text passed is longer than the name" % what, [left])
                    good = False
        return good

    def option(self, eng, s, row, m, oid, fl, id, arg, wrong, done):
        K = self.K
        T, TL = s.x["T"], s.x["TL"]
        r = self.rec(s, row)
        what = {"comp": "a compiler-like option", "long": "a long option", "long=": "a long option with an argument", "short": "a short option"}[m]

        def given(z, want, used=1, **kw):
            if id != z.s.norm(oid) and not z.s.entails_eq(id - oid):
                return wrong(z, "id:" + m, "%s is reported as something else" % what)
            if want is None:
                if not (arg.r is None):
                    return wrong(z, "noarg:" + m, "%s is reported with an argument although there is none" % what)
            elif not self.at(z, arg, *want):
                return wrong(z, "value:" + m, "%s is reported with a wrong argument" % what)
            return done(z, used, **kw)

        def special(z, code, name, texts, buffers):
            if id.t or id.c != K[code]:
                return wrong(z, "id:%s:%s" % (m, code), "%s %s is not reported as such" % (what, name))
            if any(self.at(z, arg, *t) for t in texts):
                return done(z)
            if arg.r is None or z.mem[arg.r].kind != "alloca":
                return wrong(z, "name:%s:%s" % (m, code), "%s %s is reported with another text than its name" % (what, name))
            return done(z) if self.cut(eng, z, arg, buffers, what) else []

        def separate(z, texts, buffers):
            """The argument is the next token."""
            out = []
            y = z.copy()
            if y.assume("ge", self.argc - y.x["P"] - 2):
                if not id.t and id.c == K["MISSING"]:
                    out += wrong(y, "id:%s:next" % m, "%s is reported as lacking an argument although there is one" % what)
                else:
                    out += given(y, (y.x["U"], ZERO), 2)
            if z.assume("ge", z.x["P"] + 1 - self.argc):
                out += special(z, "MISSING", "without its argument", texts, buffers)
            return out
        out = []
        if m == "comp":
            for z, e in self.is_byte(eng, s, T, r["len"], 0):
                if not e:
                    out += given(z, (T, r["len"]))
                else:
                    out += separate(z, [(r["long"].r, ZERO), (T, ZERO)], [(T, ZERO, TL)])
        elif m == "long":
            if fl & K["REQ"]:
                out += special(s, "MISSING", "without its argument", [(T, ZERO)], [(T, ZERO, TL)])
            else:
                out += given(s, None)
        elif m == "long=":
            if fl & (K["REQ"] | K["OPT"]):
                out += given(s, (T, r["len"] + 3))
            else:
                out += special(s, "BOGUS", "with an argument it does not take", [], [(b"--", 0, L(2)), (r["long"].r, ZERO, r["len"])])
        else:
            for z, e in self.is_byte(eng, s, T, 2, 0):
                if fl & K["REQ"]:
                    if not e:
                        out += given(z, (T, L(2)))
                    else:
                        out += separate(z, [(T, ZERO)], [(T, ZERO, TL)])
                else:
                    out += given(z, None, pos=L(2), searched=False, over=False)
        return out

    def letter(self, eng, st, id, arg, wrong, done):
        """A grouped short option."""
        K = self.K
        T, pos = st.x["T"], st.x["pos"]
        row = st.x["row"]
        out = []

        def named(s, what):
            if arg.r is None:
                return wrong(s, "letterarg", "%s is reported without its name" % what)
            c = self.byte(eng, s, T, pos)
            if len(c) != 1:
                raise Unsupported("letter")
            if not self.text_is(eng, c[0][0], arg, [([DASH, c[0][1]], 0, L(2))], what):
                return []
            return done(s, s.x["used"], pos=s.s.norm(pos + 1), searched=False, over=False)
        for s, e in self.is_byte(eng, st, T, pos, 0):
            if e:
                out += wrong(s, "letterend", "something is reported behind the last grouped option")
                continue
            if s.x["searched"] and not s.x["over"]:
                if id.t or id.c != K["UNKNOWN"]:
                    out += wrong(s, "letterid", "an unknown grouped option is not reported as such")
                else:
                    out += named(s, "an unknown grouped option")
                continue
            if row is None or s.x["searched"]:
                out += wrong(s, "letterrow", "a grouped option is reported that was not looked up")
                continue
            for z, m in self.matches(eng, s, row):
                if m is None:
                    if self.rec(z, row)["end"] and not z.x["over"]:
                        if id.t or id.c != K["UNKNOWN"]:
                            out += wrong(z, "letterid", "an unknown grouped option is not reported as such")
                        else:
                            out += named(z, "an unknown grouped option")
                        continue
                    out += wrong(z, "letternomatch", "a grouped option is reported that does not match the letter")
                    continue
                if z.x["over"]:
                    out += wrong(z, "letterlater", "a grouped option is reported although an earlier one in the table matches")
                    continue
                for y, (oid, fl) in self.fields(eng, z, row, "id", "flags"):
                    if fl.l.c & K["REQ"]:
                        if id.t or id.c != K["MISSING"]:
                            out += wrong(y, "lettermissing", "a grouped option that needs an argument is not reported as lacking it")
                        else:
                            out += named(y, "a grouped option without its argument")
                    elif not y.s.entails_eq(id - oid.l):
                        out += wrong(y, "letteroid", "a grouped option is reported as something else")
                    elif arg.r is not None:
                        out += wrong(y, "lettervalue", "a grouped option is reported with an argument")
                    else:
                        out += done(y, y.x["used"], pos=y.s.norm(pos + 1), searched=False, over=False)
        return out

    # ---- loops
    def slots(self, eng, st, loop):
        f = st.frames[-1]
        out = {}
        for I in f.fn.blocks[loop.header].instrs:
            if I.op == "phi" and I.id in f.env:
                out[("phi", I.id)] = f.env[I.id]
        for r, R in st.mem.items():
            if R.alive and R.kind == "alloca":
                ct = R.content
                seen = set()
                while ct.k == "cells":
                    for o, (n, v) in ct.cells.items():
                        if o not in seen:
                            seen.add(o)
                            out[("cell", r, o, n)] = v
                    ct = ct.prev
        return out

    def value(self, eng, st, slot, loop):
        """Value of a slot at a back edge."""
        if slot[0] == "phi":
            return st.frames[-1].env.get(slot[1])
        R = st.mem[slot[1]]
        if not R.alive:
            return None
        vs = eng.read(st.copy(), slot[1], R.content, L(slot[2]), slot[3])
        return vs[0][1] if len(vs) == 1 else None

    def put(self, eng, st, slot, v):
        if slot[0] == "phi":
            st.frames[-1].env[slot[1]] = v
        else:
            eng.put(st, slot[1], L(slot[2]), slot[3], v)

    def moved(self, st, a, b):
        """b - a for positions in the same object, else None"""
        if isinstance(a, PtrV) and isinstance(b, PtrV) and a.r == b.r and a.r is not None:
            return st.s.norm(b.o - a.o)
        if isinstance(a, IntV) and isinstance(b, IntV) and a.w == b.w >= 32:
            return st.s.norm(b.l - a.l)
        return None

    def shift(self, v, d):
        return PtrV(v.r, v.o + d) if isinstance(v, PtrV) else IntV(v.w, v.l + d)

    def split(self, st, v):
        """[states]: the exact value fits into a positive number of the type, or not"""
        h = Lin((1 << (v.w - 1)) - 1) - v.l
        if st.s.entails_ge(h) and st.s.entails_ge(v.l):
            return [st]
        out = []
        for facts in (((v.l, h),), ((v.l, -h - 1),), ((-v.l - 1,),)):
            z = st.copy()
            if all(z.assume("ge", f) for f in facts[0]):
                out.append(z)
        return out

    def norm(self, st, v):
        if isinstance(v, IntV):
            l = st.s.norm(v.l)
            return IntV(v.w, l) if not l.t or l == L(self.RET) else None
        if isinstance(v, PtrV):
            if v.r is not None and (v.o.t or v.r not in self.fixed):
                return None
            return v
        if isinstance(v, FnV):
            return v
        return None

    def trial(self, eng, st, loop, setup):
        snap = loops.snapshot(eng)
        n0 = eng.nstates
        eng.probe += 1
        cand, eng.cand = eng.cand, None
        lost = self.lost
        s = st.copy()
        setup(s)
        try:
            outs = eng.explore([s], len(st.frames), loop)
        finally:
            eng.probe -= 1
            eng.cand = cand
            loops.restore(eng, snap)
            eng.nstates = n0
            self.lost = lost
        return [o[1] for o in outs if o[0] == "back"]

    def steps(self, eng, loop, st, backs, units):
        """Slots which move along: {slot: factor}. units: for each back state how far it goes; for each object the factor."""
        out = {}
        sl = self.slots(eng, st, loop)
        for k, v in sl.items():
            votes = {}
            for z, n in backs:
                d = self.moved(z, v, self.value(eng, z, k, loop))
                if d is None:
                    continue
                f = units.get(v.r) if isinstance(v, PtrV) else None
                for c in ([f] if f else []) + ([] if isinstance(v, PtrV) else [1, -1]):
                    if n and z.s.entails_eq(d - n * c):
                        votes[c] = votes.get(c, 0) + 1
            for c, n in votes.items():
                if 2 * n > len(backs):
                    out[k] = c
        return out

    def contract(self, eng, st, loop, steps, ghost, enter, leave):
        """enter(state, ghost) -> distance of the generic iteration from the first one. leave(state) -> [(state, ghost, distance now)]"""
        depth = len(st.frames)
        sl = self.slots(eng, st, loop)
        vary, forget = [], set()
        fixed, self.fixed = getattr(self, "fixed", None), set(st.mem)
        for _ in range(12):
            snap = loops.snapshot(eng)
            restart = False
            exits = []
            todo = [(ghost, {})]
            seen = set()
            while todo and not restart:
                g, val = todo.pop()
                s = st.copy()
                n = enter(s, g)
                if n is None:
                    continue
                starts = [s]
                for k, c in steps.items():
                    v = self.shift(sl[k], L(n).scale(c))
                    if isinstance(v, IntV) and v.w < 64:
                        # a counter too narrow for the distance starts again
                        more = []
                        for s in starts:
                            for z in self.split(s, v):
                                self.put(eng, z, k, IntV(v.w, z.s.norm(eng.wrap(z, v.w, v.l))))
                                more.append(z)
                        starts = more
                    else:
                        for s in starts:
                            self.put(eng, s, k, v)
                for s, (k, v) in itertools.product(starts, val.items()):
                    self.put(eng, s, k, v)
                for s, k in itertools.product(starts, forget):
                    self.lost = True
                    self.put(eng, s, k, IntV(sl[k].w, fresh("loop variable", 0, (1 << sl[k].w) - 1, impr=True)) if isinstance(sl[k], IntV) else Undef(8, "loop variable"))
                for o in (o for s in starts for o in eng.explore([s], depth, loop)):
                    if o[0] != "back":
                        exits.append(o[1:])
                        continue
                    for z, g2, n2 in leave(o[1]):
                        for k in steps:
                            d = self.moved(z, sl[k], self.value(eng, z, k, loop))
                            if d is not None and isinstance(sl[k], IntV) and sl[k].w < 64 and \
                               z.s.entails_eq(eng.wrap(z, sl[k].w, d - L(n2).scale(steps[k]))):
                                continue
                            if d is None or not z.s.entails_eq(d - L(n2).scale(steps[k])):
                                if self.astray(eng, z, d, L(n2).scale(steps[k]), steps[k]):
                                    # behind the last token: followed as it is
                                    for o2 in eng.explore([z.copy()], depth, loop):
                                        if o2[0] == "back":
                                            raise Unsupported("loop position")
                                        exits.append(o2[1:])
                                gone = True
                                break
                        else:
                            gone = False
                        if gone:
                            continue
                        now = {}
                        for k, v in sl.items():
                            if k in steps or k in forget:
                                continue
                            w = self.value(eng, z, k, loop)
                            if w is not None and same_value(eng, z, w, val.get(k, v)):
                                if k in vary:
                                    now[k] = val.get(k, v)
                                continue
                            if w is not None:
                                w = self.norm(z, w)
                            if w is None:
                                forget.add(k)
                                restart = True
                            elif k not in vary:
                                vary.append(k)
                                restart = True
                            else:
                                now[k] = w
                        if restart:
                            continue
                        key = (g2, tuple(sorted((repr(k), repr(v)) for k, v in now.items())))
                        if key not in seen:
                            seen.add(key)
                            todo.append((g2, now))
                            if len(seen) > 60:
                                raise Unsupported("too many combinations of loop variables")
            if not restart:
                self.fixed = fixed
                return exits
            loops.restore(eng, snap)
        raise Unsupported("loop variables")

    def astray(self, eng, z, have, want, unit):
        """A position is not where it belongs. -> True when that can be harmless"""
        if self.level == "main":
            u = abs(unit)
            if have is not None and z.s.entails_ge(have.scale(1 if unit > 0 else -1) - want.scale(1 if unit > 0 else -1)) and \
               z.s.entails_ge(want.scale(1 if unit > 0 else -1) - (self.argc - 1).scale(u)):
                return True
            bad(eng, z, "C34/event", "position", "the parser goes on with another token than the one behind those it has reported")
            return False
        if self.level == "table" and have is not None:
            d = z.s.norm(have - want)
            if not d.t and d.c > 0:
                bad(eng, z, "C34/event", "skips", "a record of the option table is skipped")
                return False
        raise Unsupported("loop position")

    def hook(self, eng, st, loop):
        K = self.K
        ph = st.x["phase"]
        if ph == "nested":
            return None
        units = {self.A: 8, self.O: K["size"]}

        def setup(s):
            if ph == "pre":
                self.token(eng, s, ONE, False, False)
            up(s, argt=False, tabread=False)
            if s.x["row"] is None or s.x["recs"]:
                up(s, row=None)
        if ph == "pre":
            backs = self.trial(eng, st, loop, setup)
            if any(z.x["argt"] for z in backs):
                return self.main(eng, st, loop, [(z, z.x["used"]) for z in backs if not z.x["stopped"]], units)
            if any(z.x["tabread"] for z in backs):
                return self.table(eng, st, loop, [(z, 1) for z in backs], units)
            return None
        units[st.x["T"]] = 1
        backs = self.trial(eng, st, loop, setup)
        if st.x["pos"] is not None and backs:
            live = [z for z in backs if not z.x["stopped"]]
            if any(z.x["pos"] != st.x["pos"] for z in live):
                return self.group(eng, st, loop, [(z, 1) for z in live], units)
        if any(z.x["tabread"] for z in backs):
            return self.table(eng, st, loop, [(z, 1) for z in backs], units)
        return None

    def token(self, eng, s, P, dd, stopped):
        n, m = fresh("token length", 0, PMAX // 4), fresh("length of the next token", 0, PMAX // 4)
        T = eng.region(s, "token", n + 1, base="cstr", data=n, kind="caller", writable=False)
        U = eng.region(s, "next token", m + 1, base="cstr", data=m, kind="caller", writable=False)
        up(s, phase="token", P=L(P), T=T, TL=n, U=U, dd=dd, stopped=stopped, recs=(), row=None, used=0, ev=False, pos=None, searched=False, over=False, find=(), argread=False)

    def main(self, eng, st, loop, backs, units):
        """Loop over the tokens."""
        self.main_seen += 1
        steps = self.steps(eng, loop, st, backs, units)
        if not steps:
            raise Unsupported("position in the argument vector")
        P = fresh("index", 1, TOKENS)

        def enter(s, g):
            if not s.assume("ge", self.argc - P):
                return None
            self.token(eng, s, P, *g)
            return P - 1

        def leave(z):
            self.level = "main"
            if z.x["stopped"]:
                return [(z, (z.x["dd"], True), P - 1 + (z.x["used"] or 1))]
            out = []
            for s, dd in self.finished(eng, z):
                out.append((s, (dd, False), P - 1 + (s.x["used"] or 1)))
            return out
        return self.contract(eng, st, loop, steps, (False, False), enter, leave)

    def finished(self, eng, z):
        """The token has been dealt with completely? -> [(state, behind a double dash)]"""
        if z.x["pos"] is not None:
            out = []
            for s, e in self.is_byte(eng, z, z.x["T"], z.x["pos"], 0):
                if not e:
                    bad(eng, s, "C34/event", "letters", "grouped options are not reported")
                else:
                    out.append((s, s.x["dd"]))
            return out
        if z.x["ev"]:
            return [(z, z.x["dd"])]
        if z.x["dd"]:
            bad(eng, z, "C34/event", "skip", "a token behind the double dash is not reported")
            return []
        out = []
        for s, kd in self.kind(eng, z):
            if kd == "--":
                out.append((s, True))
            else:
                bad(eng, s, "C34/event", "skip", "a token is not reported")
        return out

    def group(self, eng, st, loop, backs, units):
        """Loop over grouped letters."""
        steps = self.steps(eng, loop, st, backs, units)
        if not steps:
            raise Unsupported("position in a group of options")
        p0 = st.x["pos"]
        p = fresh("letter", 2, PMAX // 4)

        def enter(s, g):
            if not s.assume("ge", s.x["TL"] - p) or not s.assume("ge", p - p0):
                return None
            up(s, pos=p, recs=tuple(x for x in s.x["recs"]), row=None, searched=False, over=False, stopped=g)
            return p - p0

        def leave(z):
            self.level = "group"
            if not z.x["stopped"] and not z.s.entails_eq(z.x["pos"] - p - 1):
                bad(eng, z, "C34/event", "letter", "a grouped option is not reported")
                return []
            return [(z, z.x["stopped"], p - p0 + 1)]
        return self.contract(eng, st, loop, steps, False, enter, leave)

    def table(self, eng, st, loop, backs, units):
        """Loop over the option table."""
        steps = {k: c for k, c in self.steps(eng, loop, st, backs, units).items() if c in (1, self.K["size"])}
        if not steps:
            raise Unsupported("position in the option table")
        k = fresh("record", 0, 1 << 40)
        pre = st.x["phase"] == "pre"
        track = st.x["bare"] is None
        base = L(0)
        for q in steps:
            v = self.slots(eng, st, loop)[q]
            if isinstance(v, PtrV):
                base = st.s.norm(eng.div(st, st.s.norm(v.o), self.K["size"]))
                if not st.s.entails_eq(base.scale(self.K["size"]) - v.o):
                    raise Unsupported("position in the option table")
        part = not st.s.entails_eq(base)
        if part and st.x["pos"] is None:
            raise Unsupported("search from the middle of the option table")
        row = st.s.norm(base + k)

        def enter(s, g):
            up(s, row=row, searched=False, over=g[0], tmp=g[1])
            if any(q == row for q, _ in s.x["recs"]):
                raise Unsupported("record")
            return L(k)

        def leave(z):
            self.level = "table"
            out = []
            for s, end in self.is_end(eng, z, row):
                if end:
                    bad(eng, s, "bounds", "table", "the search goes on behind the end of the option table")
                    continue
                work = [(s, False)]
                if not pre and not s.x["stopped"] and not s.x["ev"] or s.x["pos"] is not None:
                    work = [(y, m is not None) for y, m in self.matches(eng, s, row)]
                for y, over in work:
                    rest = [(y, False)]
                    if track:
                        rest = self.bare(eng, y, row)
                    for w, b in rest:
                        out.append((w, (w.x["over"] or over, w.x["tmp"] or b), L(k) + 1))
            return out
        exits = []
        level = getattr(self, "level", None)
        for e in self.contract(eng, st, loop, steps, (part, False), enter, leave):
            for s, end in self.is_end(eng, e[0], row):
                if end:
                    up(s, searched=True)
                    if track:
                        up(s, bare=s.x["tmp"])
                exits.append((s,) + e[1:])
        return exits

    def bare(self, eng, st, k):
        out = []
        for s, (fl, ln) in self.fields(eng, st, k, "flags", "long"):
            if not fl.l.c & self.K["COMP"]:
                out.append((s, False))
                continue
            out += [(z, not y) for z, y in self.is_byte(eng, s, ln.r, 0, DASH)]
        return out

    # ---- driver
    def run(self, eng):
        eng.models.update(self.models())
        eng.loop_hook = self.hook
        global eng_const

        def eng_const(st, p, i):
            R = st.mem[p.r]
            if R.kind == "caller" or R.kind == "alloca":
                return None
            v = eng.const_read(R.content, p.o.c + i, 1)
            return v
        st = eng.initial()
        self.argc = L(0) if self.empty else fresh("argc", 1, TOKENS)
        self.RET = fresh("result of the callback", 1, (1 << 32) - 1)
        self.A = eng.region(st, "argument vector", self.argc.scale(8), base="lazy", data=Args(self), kind="caller", writable=False)
        self.O = eng.region(st, "option table", PMAX, base="lazy", data=Table(self), kind="caller", writable=False)
        ud = eng.region(st, "application data", 1, kind="opaque")
        self.ud = PtrV(ud)
        st.x = {"phase": "pre", "bare": None, "recs": (), "row": None, "T": None, "argread": False, "argt": False, "tabread": False, "stopped": False, "pos": None, "dd": False, "over": False,
                "searched": False, "tmp": False, "ev": False, "find": (), "P": L(1), "used": 0}
        outs = eng.call(st, "cmdline_read", [PtrV(self.O), IntV(32, self.argc), PtrV(self.A), FnV("callback"), PtrV(ud)])
        for q, r in outs:
            if not isinstance(r, IntV):
                bad(eng, q, "uninit", "ret", "cmdline_read() returns an uninitialized value", hard=not self.lost)
                continue
            if q.x["stopped"]:
                must(eng, q, "eq", r.l - self.RET, "C34/ret", "stop", "cmdline_read() does not return the callback's result")
                continue
            must(eng, q, "eq", r.l, "C34/ret", "zero", "cmdline_read() does not return zero although no callback asked for a stop")
            if self.empty:
                continue
            if q.x["phase"] == "pre":
                must(eng, q, "ge", L(1) - self.argc, "C34/event", "early", "cmdline_read() returns without looking at the tokens")
                continue
            if q.x["ev"] or q.x["pos"] is not None:
                for z, dd in self.finished(eng, q):
                    must(eng, z, "ge", z.x["P"] + z.x["used"] - self.argc, "C34/event", "rest", "cmdline_read() returns before the last token is reported")
                continue
            must(eng, q, "ge", q.x["P"] - self.argc, "C34/event", "rest", "cmdline_read() returns before the last token is reported")
        if not self.empty and not self.main_seen:
            raise Unsupported("no loop over the tokens")


ONE = L(1)


def classify(v, label):
    if v.cls in ("bounds", "null", "uninit", "uaf", "const", "free") or v.cls.startswith("C35"):
        return {"C35"}
    return {v.cls.split("/")[0]}


def suite(rep):
    K = consts()
    s = Suite(rep, "cmdline", classify, passes="function(mem2reg)", max_states=200000)
    for empty in (False, True):
        p = Parser(K, empty)
        s.run("cmdline_read%s" % (" without arguments" if empty else ""), p.run)


RULE = ("loop contracts for the loops over tokens, over the option table and over grouped letters: one generic iteration on an arbitrary token, record or letter, the parser's variables walked to a fixpoint; names and tokens "
        "are strings of any length whose relation (prefix or not) is decided at the comparison; ")


def c34(rep):
    rep.rule(RULE + "every callback call is compared with the documented report for the token (which record matches first, argument, name, stop after a non-zero result), every token must have been reported when the parser goes on")
    rep.assume("option ids are not reserved ones, short names are not '-', compiler-like options have a name; the table ends with a record whose id is zero; the first matching record counts")
    suite(rep)
    rep.need("entry points", 2)


def c35(rep):
    rep.rule(RULE + "every access stays within the argument vector (argc entries), the strings with their zero byte, the option table and local buffers; every string passed to the callback is a live string with a terminator")
    rep.assume("argument and option strings are zero-terminated; libc string functions by their specification")
    suite(rep)
    rep.need("entry points", 2)
