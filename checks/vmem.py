"""Memory stream of the Windows part (C37, C38), compiled against stub headers.

Every method is taken out of the method table which memstream_create() installs and interpreted from an arbitrary stream: data of any size,
any position, any number of references held by others. Other streams are opaque; the reference count is shared with other threads."""
from .common import *
from engine.absint import Content
from engine.libc import as_ptr, as_lin

NAMES = ["QueryInterface", "AddRef", "Release", "Read", "Write", "Seek", "SetSize", "CopyTo", "Commit", "Revert",
         "LockRegion", "UnlockRegion", "Stat", "Clone"]
ULMAX = (1 << 32) - 1
PUBLIC = ("IID_IUnknown", "IID_ISequentialStream", "IID_IStream")


def classify(v, label):
    p = set()
    m = label.split(" ")[0]
    c = v.cls
    if c.startswith("C37"):
        p.add("C37")
    elif c.startswith("C38"):
        p.add("C38")
    elif c in ("bounds", "null", "uninit", "ub", "const", "ovf"):
        p.add("C37")
        if m not in ("Read", "Seek", "CopyTo"):
            p.add("C38")
    elif c in ("uaf", "free", "leak", "noaf"):
        p.add("C38")
    if v.allocfail:
        p.add("C38")
    return p


def up(st, **kw):
    st.x = dict(st.x)
    st.x.update(kw)


class Driver:
    def __init__(self, rep):
        K = {"stat_type": "offsetof(STATSTG, type)", "stat_size": "offsetof(STATSTG, cbSize)", "stat_mode": "offsetof(STATSTG, grfMode)",
             "stat_name": "offsetof(STATSTG, pwcsName)", "stat": "sizeof(STATSTG)", "TYPE": "STGTY_STREAM", "READ": "STGM_READ",
             "SET": "STREAM_SEEK_SET", "CUR": "STREAM_SEEK_CUR", "END": "STREAM_SEEK_END", "sizeof": "sizeof(MEMSTREAM)",
             "vtbl": "offsetof(MEMSTREAM, stream) + offsetof(IStream, lpVtbl)", "iface": "offsetof(MEMSTREAM, stream)",
             "Write": "offsetof(IStreamVtbl, Write)"}
        for f in ("refs", "buffer", "pos", "size"):
            K[f] = "offsetof(MEMSTREAM, %s)" % f
            K[f + "_n"] = "sizeof(((MEMSTREAM*) 0)->%s)" % f
        self.K = offsets("memstream", K, extra="#include <stddef.h>\n")
        extra = "".join("const IID verif_%s = %s;\n" % (n, "{ 0 }") for n in ())
        self.s = Suite(rep, "memstream", classify, models={
            "verif_other_Write": self.m_write, "FindResourceW": self.m_find, "SizeofResource": self.m_sizeof, "LoadResource": self.m_load,
            "LockResource": self.m_lock, "GetLastError": self.m_error, "memcmp": self.m_memcmp, "bcmp": self.m_memcmp})
        self.vt = None

    # ------------------------------------------------------------ the object

    def methods(self, eng):
        """{name: function} from the table which memstream_create() installs."""
        if self.vt is None:
            st = eng.initial()
            out = eng.region(st, "*p_stream", 8, kind="object")
            d = eng.region(st, "data", 1, base="atoms", kind="object", writable=False)
            vt = None
            for q, v in eng.call(st, "memstream_create", [PtrV(d), IntV(32, 1), PtrV(out)]):
                p = rd(eng, q, out, 0, "ptr")
                if not isinstance(p, PtrV) or p.r is None:
                    continue
                t = rd(eng, q, p.r, p.o.c, "ptr")
                if isinstance(t, PtrV) and isinstance(t.r, tuple) and t.o == ZERO:
                    vt = t.r
                    fs = []
                    for k in range(len(NAMES)):
                        f = rd(eng, q, t.r, 8 * k, "ptr")
                        if not isinstance(f, FnV):
                            bad(eng, q, "C38/table", NAMES[k], "the method table has no function for %s" % NAMES[k])
                            return None
                        fs.append(f.name)
                    eng.ok("C38/table", len(fs))
            if vt is None:
                raise Unsupported("no method table found")
            self.vt = vt, dict(zip(NAMES, fs))
        return self.vt[1]

    def stream(self, eng, st):
        """An arbitrary valid stream."""
        K = self.K
        eng.atomic_hook = self.atomic
        eng.check_nsw = True
        ms = self.methods(eng)
        eng.violations, eng.undecided = [v for v in eng.violations if v.cls == "C38/table"], []
        if ms is None:
            raise Unsupported("no method table")
        n = fresh("size", 0, ULMAX)
        pos = fresh("pos", 0, ULMAX)
        refs = fresh("refs", 1, (1 << 31) - 2)
        d = eng.region(st, "the data", n, base="atoms", kind="object", writable=False, align=1)
        # a stream without data may have no buffer at all; any other address is kept as it is
        o = eng.region(st, "the stream", K["sizeof"], kind="heap")
        eng.put(st, o, L(K["vtbl"]), 8, PtrV(eng.global_region(st, self.vt[0][1])))
        eng.put(st, o, L(K["refs"]), K["refs_n"], IntV(8 * K["refs_n"], refs))
        eng.put(st, o, L(K["buffer"]), 8, PtrV(d))
        eng.put(st, o, L(K["pos"]), K["pos_n"], IntV(8 * K["pos_n"], pos))
        eng.put(st, o, L(K["size"]), K["size_n"], IntV(8 * K["size_n"], n))
        up(st, obj=o, d=d, n=n, pos=pos, refs=refs, count=0, freed=False)
        return ms

    def this(self, st):
        return PtrV(st.x["obj"], L(self.K["iface"]))

    def atomic(self, eng, st, p, op, v, ty):
        """The reference count: others may change it between any two operations."""
        K = self.K
        if not isinstance(p, PtrV) or p.r != st.x.get("obj"):
            return None
        if not eng.access(st, p, ty.size, "atomic access", True):
            return []
        if not st.s.entails_eq(p.o - K["refs"]) or ty.size != K["refs_n"]:
            return None
        if not self.refs_kept(eng, st):
            return []
        w = ty.width
        if op == "load":
            o = fresh("refs", 1, (1 << 31) - 2)
            up(st, refs=o)
            eng.put(st, p.r, L(K["refs"]), ty.size, IntV(w, o))
            return [(st, IntV(w, o))]
        if op == "set":
            o = st.x["refs"]
            d = st.s.norm(eng.signed(st, w, v.l) - o)
        elif op in ("add", "sub"):
            o = fresh("refs", 1, (1 << 31) - 2)
            d = st.s.norm(eng.signed(st, w, v.l))
            d = d if op == "add" else -d
        else:
            raise Unsupported("atomic %s of the reference count" % op)
        if d.t or d.c not in (1, -1):
            if d.t:
                raise Unsupported("reference count changed by %r" % d)
            bad(eng, st, "C38/refs", "step", "the reference count changes by %d at once" % d.c)
            return []
        out = []
        up(st, count=st.x["count"] + d.c)
        if d.c < 0:
            last = st.copy()
            if last.assume("eq", o - 1):
                up(last, last=True, refs=ZERO)
                eng.put(last, p.r, L(K["refs"]), ty.size, IntV(w, 0))
                out.append((last, IntV(w, o)))
            if st.assume("ge", o - 2):
                # whoever holds the other references may release them any time now
                eng.mut(st, p.r).alive = False
                up(st, gone=True)
                out.append((st, IntV(w, o)))
        else:
            r = fresh("refs", 1, (1 << 31) - 2)
            up(st, refs=r, value=o + d.c)
            eng.put(st, p.r, L(K["refs"]), ty.size, IntV(w, r))
            out.append((st, IntV(w, o)))
        return out

    def field(self, eng, st, f, o=None):
        K = self.K
        return rd(eng, st, o or st.x["obj"], K[f], "ptr" if f in ("buffer", "vtbl") else "int", K.get(f + "_n", 8))

    def refs_kept(self, eng, st):
        v = self.field(eng, st, "refs")
        if isinstance(v, IntV) and st.s.entails_eq(v.l - st.x["refs"]):
            return True
        bad(eng, st, "C38/refs", "plain", "the reference count is changed without an atomic operation, or to a wrong value")
        return False

    def kept(self, eng, st, what, pos=None, count=0, cls="C38/effect"):
        """The stream afterwards: everything as before but for the position and the references."""
        x = st.x
        if not st.mem[x["obj"]].alive:
            bad(eng, st, "C38/refs", "gone", "%s destroys the stream" % what)
            return False
        good = True
        for f, w in (("buffer", PtrV(x["d"])), ("size", x["n"]), ("pos", x["pos"] if pos is None else pos), ("vtbl", PtrV(self.gl(eng, st)))):
            v = self.field(eng, st, f)
            c = "C37/pos" if f == "pos" and pos is not None else cls
            if isinstance(v, Undef):
                bad(eng, st, c, "undef:" + f, "%s leaves the %s undefined" % (what, f))
                good = False
                continue
            good = must_equal(eng, st, v, w if isinstance(w, PtrV) else IntV(64, w), c, "kept:" + f,
                              "%s %s" % (what, "leaves a wrong position" if f == "pos" and pos is not None else "changes the " + f)) and good
        good = self.refs_kept(eng, st) and good
        if st.x["count"] != count:
            bad(eng, st, "C38/refs", "count", "%s changes the number of references by %d instead of %d" % (what, st.x["count"], count))
            good = False
        else:
            eng.ok("C38/refs")
        return good

    def gl(self, eng, st):
        return eng.global_region(st, self.vt[0][1])

    def result(self, eng, st, v, what):
        """HRESULT -> [(state, 'ok' | 'false' | 'fail')]"""
        if isinstance(v, Undef):
            bad(eng, st, "uninit", "ret", "%s returns an uninitialized value" % what)
            return []
        if not isinstance(v, IntV):
            raise Unsupported("result %r" % (v,))
        out = []
        l = eng.signed(st, 32, v.l)
        f = st.copy()
        if f.assume("ge", -l - 1):
            out.append((f, "fail"))
        z = st.copy()
        if z.assume("eq", l):
            out.append((z, "ok"))
        if st.assume("ge", l - 1):
            out.append((st, "false"))
        return out

    def outp(self, eng, st, name, size, kinds=("null", "given")):
        """[(state, pointer, region or None)] for an optional output parameter"""
        r = []
        for k in kinds:
            s = st.copy()
            if k == "null":
                r.append((s, NULL, None))
            else:
                o = eng.region(s, name, size, kind="object", align=size)
                r.append((s, PtrV(o), o))
        return r

    def number(self, eng, st, rid, size, want, cls, key, text):
        if rid is None:
            return True
        v = rd(eng, st, rid, 0, "int", size)
        if isinstance(v, Undef):
            bad(eng, st, cls, key, text + " (it is not set)")
            return False
        return must_equal(eng, st, v, IntV(8 * size, want), cls, key, text)

    # ------------------------------------------------------------ models

    def m_write(self, eng, st, args, I):
        """Write() of another stream."""
        other, buf, n, pw = args
        n = st.s.norm(as_lin(n))
        buf = as_ptr(buf)
        if not (isinstance(other, PtrV) and other.r == st.x["other"] and st.s.entails_eq(other.o)):
            bad(eng, st, "C37/copy", "target", "the data are written to something else than the given stream")
            return []
        out = []
        z = st.copy()
        work = []
        if z.assume("eq", n):
            work.append(z)
        if st.assume("ge", n - 1):
            if not eng.access(st, buf, n, "CopyTo() passing data"):
                return []
            k = st.x.get("sent", ZERO)
            if buf.r != st.x["d"]:
                same_bytes(eng, st, (buf.r, st.mem[buf.r].content, buf.o), (st.x["d"], st.mem[st.x["d"]].content, st.x["pos"] + k), n,
                           "C37/copy", "bytes", "CopyTo() passes other bytes than those at the position")
            elif not must(eng, st, "eq", buf.o - st.x["pos"] - k, "C37/copy", "bytes", "CopyTo() passes other bytes than those at the position"):
                return []
            work.append(st)
        for s in work:
            up(s, asked=s.x.get("asked", ZERO) + n)
            f = s.copy()
            hr = fresh("hr", 1 << 31, (1 << 32) - 1)
            up(f, failed=True)
            out.append((f, IntV(32, hr)))
            w = fresh("written", 0, ULMAX)
            if s.assume("ge", n - w):
                if isinstance(pw, PtrV) and pw.r is not None:
                    if not eng.store(s, pw, 4, IntV(32, w)):
                        continue
                elif not (isinstance(pw, PtrV) and s.s.entails_eq(pw.o)):
                    raise Unsupported("count pointer")
                up(s, sent=s.s.norm(s.x.get("sent", ZERO) + w))
                out.append((s, IntV(32, 0)))
        return out

    def handle(self, eng, st, name, ok=True):
        a = st.copy()
        up(a, failure=True)
        out = [(a, NULL)]
        r = eng.region(st, name, 1, kind="object", writable=False)
        up(st, **{name: r})
        out.append((st, PtrV(r)))
        return out

    def expect(self, eng, st, v, name, what):
        if isinstance(v, PtrV) and v.r is not None and v.r == st.x.get(name):
            eng.ok("C38/resource")
            return True
        bad(eng, st, "C38/resource", name, "%s gets a wrong %s" % (what, name))
        return False

    def m_find(self, eng, st, args, I):
        for v, n in zip(args, ("instance", "name", "type")):
            if not self.expect(eng, st, v, n, "FindResourceW()"):
                return []
        return self.handle(eng, st, "resource")

    def m_sizeof(self, eng, st, args, I):
        if not self.expect(eng, st, args[0], "instance", "SizeofResource()") or not self.expect(eng, st, args[1], "resource", "SizeofResource()"):
            return []
        a = st.copy()
        up(a, failure=True)
        n = fresh("resource size", 1, ULMAX)
        up(st, rsize=n)
        return [(a, IntV(32, 0)), (st, IntV(32, n))]

    def m_load(self, eng, st, args, I):
        if not self.expect(eng, st, args[0], "instance", "LoadResource()") or not self.expect(eng, st, args[1], "resource", "LoadResource()"):
            return []
        return self.handle(eng, st, "loaded")

    def m_lock(self, eng, st, args, I):
        if not self.expect(eng, st, args[0], "loaded", "LockResource()"):
            return []
        a = st.copy()
        up(a, failure=True)
        out = [(a, NULL)]
        r = eng.region(st, "resource data", 1, kind="object", writable=False)
        up(st, rdata=r)
        return out + [(st, PtrV(r))]

    def m_error(self, eng, st, args, I):
        return [(st, IntV(32, fresh("last error", 0, ULMAX)))]

    def m_memcmp(self, eng, st, args, I):
        a, b, n = as_ptr(args[0]), as_ptr(args[1]), st.s.norm(as_lin(args[2]))
        g = st.x.get("riid")
        if g is None or n.t or not all(isinstance(p, PtrV) and p.r is not None for p in (a, b)) or g not in (a.r, b.r):
            from engine.libc import m_memcmp
            return m_memcmp(eng, st, args, I)
        if not eng.access(st, a, n, "memcmp reading") or not eng.access(st, b, n, "memcmp reading"):
            return []
        z = st.copy()
        ne = []
        good = True
        for i in range(n.c):
            pair = []
            for p in (a, b):
                v = eng.read(z, p.r, z.mem[p.r].content, z.s.norm(p.o + i), 1)
                if len(v) != 1 or not isinstance(v[0][1], IntV):
                    raise Unsupported("interface id")
                pair.append(v[0][1].l)
            d = z.s.norm(pair[0] - pair[1])
            q = z.copy()
            if q.assume("ne", d):
                ne.append((q, IntV(32, 1)))
            if not z.assume("eq", d):
                good = False
                break
        return ([(z, IntV(32, 0))] if good else []) + ne

    # ------------------------------------------------------------ methods

    def run(self):
        for n, f in (("Read", self.read), ("Seek", self.seek), ("CopyTo", self.copy), ("QueryInterface", self.query), ("AddRef", self.addref),
                     ("Release", self.release), ("Write", self.refuse), ("SetSize", self.refuse), ("LockRegion", self.refuse),
                     ("UnlockRegion", self.refuse), ("Commit", self.noop), ("Revert", self.noop), ("Stat", self.stat), ("Clone", self.clone)):
            def go(eng, n=n, f=f):
                st = eng.initial()
                ms = self.stream(eng, st)
                f(eng, st, ms[n], n)
            self.s.run(n, go)
        self.s.run("memstream_create", self.create)
        self.s.run("memstream_create_from_resource", self.resource)

    def avail(self, eng, st):
        """[(state, bytes left)]"""
        out = []
        n, pos = st.x["n"], st.x["pos"]
        a = st.copy()
        if a.assume("ge", pos - n):
            out.append((a, ZERO))
        if st.assume("ge", n - pos - 1):
            out.append((st, st.s.norm(n - pos)))
        return out

    def least(self, st, a, b):
        out = []
        z = st.copy()
        if z.assume("ge", b - a):
            out.append((z, z.s.norm(a)))
        if st.assume("ge", a - b - 1):
            out.append((st, st.s.norm(b)))
        return out

    def read(self, eng, st, fn, what):
        n = fresh("n", 0, ULMAX)
        buf = eng.region(st, "*buf", n, kind="object", align=1)
        for s, p, r in self.outp(eng, st, "*n_read", 4):
            for q, v in eng.call(s, fn, [self.this(s), PtrV(buf), IntV(32, n), p]):
                for q, res in self.result(eng, q, v, what):
                    if res == "fail":
                        bad(eng, q, "C37/result", "fail", "Read() fails on a valid stream")
                        continue
                    for q, left in self.avail(eng, q):
                        for q, k in self.least(q, n, left):
                            self.kept(eng, q, "Read()", q.s.norm(q.x["pos"] + k))
                            self.number(eng, q, r, 4, k, "C37/count", "count", "Read() reports a wrong number of bytes")
                            same_bytes(eng, q, (buf, q.mem[buf].content, ZERO), (q.x["d"], q.mem[q.x["d"]].content, q.x["pos"]), k,
                                       "C37/bytes", "bytes", "Read() delivers other bytes than the data at the position")
                            z = q.copy()
                            if res == "ok" and not left.t and left.c == 0 and z.assume("ge", n - 1):
                                bad(eng, z, "C37/result", "eof", "Read() does not report the end of data", [n])
                            elif res == "false" and q.assume("ge", left - n) and q.assume("ge", left - 1):
                                bad(eng, q, "C37/result", "notend", "Read() reports the end of data although everything asked for was there", [n, left])
                            else:
                                eng.ok("C37/result")

    def seek(self, eng, st, fn, what):
        K = self.K
        M = 1 << 64
        d = fresh("delta", -(1 << 63), (1 << 63) - 1)
        org = fresh("origin", 0, ULMAX)
        for o, base in ((K["SET"], ZERO), (K["CUR"], st.x["pos"]), (K["END"], st.x["n"]), (None, ZERO)):
            # the cases are told apart before the call: sign and size of the wanted position
            for facts, valid in (((d, base + d, L(ULMAX) - base - d), True), ((-d - 1, base + d, L(ULMAX) - base - d), True),
                                 ((-d - 1, -base - d - 1), False),
                                 ((d, base + d - ULMAX - 1, L((1 << 63) - 1) - base - d), False), ((d, base + d - (1 << 63)), False)):
                t = st.copy()
                if not all(t.assume("ge", f) for f in facts) or not (t.assume("eq", org - o) if o is not None else t.assume("ge", org - 3)):
                    continue
                sgn = t.s.entails_ge(-d - 1)
                for s, p, r in self.outp(eng, t, "*new_pos", 8):
                    for q, v in eng.call(s, fn, [self.this(s), IntV(64, d + M if sgn else d), IntV(32, org), p]):
                        for q, res in self.result(eng, q, v, what):
                            self.seeked(eng, q, res, r, valid and o is not None, q.s.norm(base + d))

    def seeked(self, eng, q, res, r, valid, target):
        if (res != "fail") != valid:
            bad(eng, q, "C37/seek", "valid" if valid else "invalid",
                "Seek() refuses a valid position" if valid else "Seek() accepts an invalid position or origin")
            return
        eng.ok("C37/seek")
        if valid:
            self.kept(eng, q, "Seek()", target)
            self.number(eng, q, r, 8, target, "C37/seek", "newpos", "Seek() reports a wrong new position")
        else:
            if self.kept(eng, q, "a failing Seek()", q.x["pos"]) and r is not None:
                v = rd(eng, q, r, 0, "int", 8)
                if not isinstance(v, Undef):
                    must_equal(eng, q, v, IntV(64, q.x["pos"]), "C37/seek", "failpos", "a failing Seek() reports a wrong position")

    def copy(self, eng, st, fn, what):
        K = self.K
        n = fresh("n", 0, U64)
        vt = eng.region(st, "other method table", 8 * len(NAMES), kind="object", writable=False)
        other = eng.region(st, "the other stream", 8, kind="object", writable=False)
        for i in range(len(NAMES)):
            eng.put(st, vt, L(8 * i), 8, FnV("verif_other_" + NAMES[i]))
        eng.put(st, other, L(0), 8, PtrV(vt))
        up(st, other=other)
        for s0, p, r in self.outp(eng, st, "*n_read", 8):
            for s, p2, r2 in self.outp(eng, s0, "*n_written", 8):
                for q, v in eng.call(s, fn, [self.this(s), PtrV(other), IntV(64, n), p, p2]):
                    for q, res in self.result(eng, q, v, what):
                        if q.x.get("failed"):
                            if res != "fail":
                                bad(eng, q, "C38/result", "copyfail", "CopyTo() succeeds although writing failed")
                            else:
                                eng.ok("C38/result")
                            continue
                        if res == "fail":
                            bad(eng, q, "C37/copy", "fail", "CopyTo() fails although nothing went wrong")
                            continue
                        sent, asked = q.x.get("sent", ZERO), q.x.get("asked", ZERO)
                        for q, left in self.avail(eng, q):
                            for q, k in self.least(q, n, left):
                                # all that can be copied was offered to the other stream
                                must(eng, q, "eq", asked - k, "C37/copy", "amount", "CopyTo() passes a wrong number of bytes")
                                self.kept(eng, q, "CopyTo()", q.s.norm(q.x["pos"] + sent))
                                self.number(eng, q, r, 8, sent, "C37/count", "cread", "CopyTo() reports a wrong number of bytes read")
                                self.number(eng, q, r2, 8, sent, "C37/count", "cwritten", "CopyTo() reports a wrong number of bytes written")

    def query(self, eng, st, fn, what):
        g = eng.region(st, "*riid", 16, base="atoms", kind="object", writable=False, align=4)
        out = eng.region(st, "*obj", 8, kind="object")
        up(st, riid=g)
        ids = []
        for name in PUBLIC:
            G = eng.global_region(st, name)
            ids.append([rd(eng, st, G, i, "int", 1).l.c for i in range(16)] if False else self.guid(eng, st, G))
        atoms = []
        for i in range(16):
            atoms.append(eng.read(st, g, st.mem[g].content, L(i), 1)[0][1].l)
        for q, v in eng.call(st, fn, [self.this(st), PtrV(g), PtrV(out)]):
            for q, res in self.result(eng, q, v, what):
                o = rd(eng, q, out, 0, "ptr")
                which = [i for i in ids if all(q.s.entails_eq(a - c) for a, c in zip(atoms, i))]
                if res == "fail":
                    for n, i in zip(PUBLIC, ids):
                        z = q.copy()
                        if all(z.assume("eq", a - c) for a, c in zip(atoms, i)):
                            bad(eng, z, "C38/query", "refused:" + n, "QueryInterface() refuses %s" % n)
                    if isinstance(o, Undef) or not same_value(eng, q, o, NULL):
                        bad(eng, q, "C38/query", "out", "a failing QueryInterface() does not set its output to null")
                    else:
                        eng.ok("C38/query")
                    self.kept(eng, q, "a failing QueryInterface()")
                else:
                    if not which:
                        bad(eng, q, "C38/query", "accepted", "QueryInterface() hands out an interface which is not implemented", atoms)
                        continue
                    if not same_value(eng, q, o, self.this(q)):
                        bad(eng, q, "C38/query", "obj", "QueryInterface() hands out something else than the stream")
                    else:
                        eng.ok("C38/query")
                    self.kept(eng, q, "QueryInterface()", count=1)

    def guid(self, eng, st, G):
        class T:
            pass
        out = []
        for i in range(16):
            v = eng.const_read(st.mem[G].content, i, 1)
            if v is None:
                raise Unsupported("interface id")
            out.append(v)
        return out

    def addref(self, eng, st, fn, what):
        for q, v in eng.call(st, fn, [self.this(st)]):
            self.kept(eng, q, "AddRef()", count=1)
            if isinstance(v, Undef):
                bad(eng, q, "C38/refs", "addref", "AddRef() returns an uninitialized value")
            elif q.x.get("value") is None or not isinstance(v, IntV):
                eng.ok("C38/refs")
            else:
                must_equal(eng, q, v, IntV(32, q.x["value"]), "C38/refs", "addref", "AddRef() returns another value than the new number of references")

    def release(self, eng, st, fn, what):
        for q, v in eng.call(st, fn, [self.this(st)]):
            x = q.x
            o = q.mem[x["obj"]]
            if x["count"] != -1:
                bad(eng, q, "C38/refs", "release", "Release() changes the number of references by %d" % x["count"])
                continue
            if isinstance(v, Undef):
                bad(eng, q, "C38/refs", "ret", "Release() returns an uninitialized value")
                continue
            if x.get("last"):
                if o.alive:
                    bad(eng, q, "C38/refs", "leak", "the stream is not destroyed when its last reference is released")
                    continue
                must_equal(eng, q, v, IntV(32, ZERO), "C38/refs", "zero", "the last Release() does not return zero")
            else:
                if isinstance(v, IntV):
                    must(eng, q, "ge", v.l - 1, "C38/refs", "more", "Release() returns zero although there are other references")
                if any(e[0] == "free" for e in q.all_events()):
                    bad(eng, q, "C38/refs", "early", "Release() destroys the stream although there are other references")
                else:
                    eng.ok("C38/refs")
            no_leak(eng, q, {x["obj"]})

    def refuse(self, eng, st, fn, what):
        t = eng.m.functions[fn]
        cases = [(st, [], None)]
        if what == "Write":
            n = fresh("n", 0, ULMAX)
            buf = eng.region(st, "*buf", n, base="atoms", kind="object", writable=False, align=1)
            cases = [(s, [PtrV(buf), IntV(32, n), p], r) for s, p, r in self.outp(eng, st, "*n_written", 4)]
        elif what == "SetSize":
            cases = [(st, [IntV(64, fresh("new size", 0, U64))], None)]
        else:
            cases = [(st, [IntV(64, fresh("offset", 0, U64)), IntV(64, fresh("n", 0, U64)), IntV(32, fresh("type", 0, ULMAX))], None)]
        for s, args, r in cases:
            for q, v in eng.call(s, fn, [self.this(s)] + args):
                for q, res in self.result(eng, q, v, what):
                    if res != "fail":
                        bad(eng, q, "C38/result", "refuse", "%s() succeeds on a read-only stream" % what)
                    else:
                        eng.ok("C38/result")
                    self.number(eng, q, r, 4, ZERO, "C38/result", "written", "Write() reports written bytes")
                    self.kept(eng, q, what + "()")

    def noop(self, eng, st, fn, what):
        for q, v in eng.call(st, fn, [self.this(st)] + ([IntV(32, fresh("flags", 0, ULMAX))] if what == "Commit" else [])):
            for q, res in self.result(eng, q, v, what):
                self.kept(eng, q, what + "()")
                if res == "fail":
                    bad(eng, q, "C38/result", "noop", "%s() fails although there is nothing to do" % what)
                else:
                    eng.ok("C38/result")

    def stat(self, eng, st, fn, what):
        K = self.K
        r = eng.region(st, "*stat", K["stat"], kind="object")
        for q, v in eng.call(st, fn, [self.this(st), PtrV(r), IntV(32, fresh("flag", 0, ULMAX))]):
            for q, res in self.result(eng, q, v, what):
                self.kept(eng, q, what + "()")
                if res == "fail":
                    bad(eng, q, "C38/result", "stat", "Stat() fails")
                    continue
                for f, n, w, t in (("stat_type", 4, L(K["TYPE"]), "type"), ("stat_size", 8, q.x["n"], "size"), ("stat_mode", 4, L(K["READ"]), "access mode")):
                    v2 = rd(eng, q, r, K[f], "int", n)
                    if isinstance(v2, Undef):
                        bad(eng, q, "C38/stat", f, "Stat() leaves the %s unset" % t)
                    else:
                        must_equal(eng, q, v2, IntV(8 * n, w), "C38/stat", f, "Stat() reports a wrong %s" % t)
                p = rd(eng, q, r, K["stat_name"], "ptr")
                if isinstance(p, Undef) or not same_value(eng, q, p, NULL):
                    bad(eng, q, "C38/stat", "name", "Stat() leaves a wild name pointer")

    def fresh_stream(self, eng, q, rid, old, buf, size, pos, what):
        """A new stream in block rid."""
        if rid in old or q.mem[rid].kind != "heap":
            bad(eng, q, "C38/create", "shared", "%s hands out something else than a new stream" % what)
            return
        for f, w in (("buffer", buf), ("size", size), ("pos", pos), ("refs", L(1)), ("vtbl", PtrV(self.gl(eng, q)))):
            v = self.field(eng, q, f, rid)
            if isinstance(v, Undef):
                bad(eng, q, "C38/create", f, "%s leaves the %s of the new stream unset" % (what, f))
            else:
                must_equal(eng, q, v, w if isinstance(w, PtrV) else IntV(64, w), "C38/create", f, "%s sets a wrong %s of the new stream" % (what, f))

    def created(self, eng, q, v, out, old, buf, size, pos, what, keep=(), failure=False):
        K = self.K
        for q, res in self.result(eng, q, v, what):
            o = rd(eng, q, out, 0, "ptr")
            if isinstance(o, Undef):
                bad(eng, q, "C38/create", "unset", "%s does not set its output" % what)
                continue
            broken = failure or has_event(q, "allocfail")
            if same_value(eng, q, o, NULL):
                if res != "fail":
                    bad(eng, q, "C38/result", "create", "%s reports success without a stream" % what)
                elif not broken:
                    bad(eng, q, "C38/create", "spurious", "%s fails although nothing went wrong" % what)
                else:
                    eng.ok("C38/create")
                no_leak(eng, q, set(keep))
                continue
            if res == "fail":
                bad(eng, q, "C38/create", "out", "a failing %s does not set its output to null" % what)
                continue
            if not isinstance(o, PtrV) or o.r is None or not q.s.entails_eq(o.o - K["iface"]):
                bad(eng, q, "C38/create", "odd", "%s hands out an odd address" % what)
                continue
            if failure:
                bad(eng, q, "C38/result", "made", "%s makes a stream although it could not get the data" % what)
                continue
            self.fresh_stream(eng, q, o.r, old, buf, size, pos, what)
            no_leak(eng, q, set(keep) | {o.r})

    def clone(self, eng, st, fn, what):
        out = eng.region(st, "*p_other", 8, kind="object")
        old = set(st.mem)
        for q, v in eng.call(st, fn, [self.this(st), PtrV(out)]):
            if self.kept(eng, q, "Clone()"):
                self.created(eng, q, v, out, old, PtrV(q.x["d"]), q.x["n"], q.x["pos"], "Clone()", keep=(q.x["obj"],))

    def create(self, eng):
        st = eng.initial()
        self.methods(eng)
        eng.check_nsw = True
        n = fresh("size", 0, ULMAX)
        for null in (False, True):
            s = st.copy()
            if null and not s.assume("eq", n):
                continue
            d = NULL if null else PtrV(eng.region(s, "the data", n, base="atoms", kind="object", writable=False))
            out = eng.region(s, "*p_stream", 8, kind="object")
            old = set(s.mem)
            for q, v in eng.call(s, "memstream_create", [d, IntV(32, n), PtrV(out)]):
                self.created(eng, q, v, out, old, d, n, ZERO, "memstream_create()")

    def resource(self, eng):
        st = eng.initial()
        self.methods(eng)
        for n in ("instance", "name", "type"):
            up(st, **{n: eng.region(st, n, 1, kind="object", writable=False)})
        out = eng.region(st, "*p_stream", 8, kind="object")
        old = set(st.mem)
        x = st.x
        for q, v in eng.call(st, "memstream_create_from_resource", [PtrV(x["instance"]), PtrV(x["type"]), PtrV(x["name"]), PtrV(out)]):
            f = bool(q.x.get("failure"))
            if not f and not ("rdata" in q.x and "rsize" in q.x):
                o = rd(eng, q, out, 0, "ptr")
                bad(eng, q, "C38/resource", "skipped", "memstream_create_from_resource() does not look for the data")
                continue
            self.created(eng, q, v, out, old, None if f else PtrV(q.x["rdata"]), None if f else q.x["rsize"], ZERO,
                         "memstream_create_from_resource()", failure=f)


RULE = ("every method of the table installed by memstream_create(), interpreted (LLVM IR, stub Windows headers) from an arbitrary stream: any data size, "
        "position, argument and any number of references held elsewhere; ")


def c37(rep):
    rep.rule(RULE + "Read/Seek/CopyTo: every access inside the data, bytes delivered, counts, new position and results compared with the specification over the full 64-bit range, no signed overflow")
    rep.assume("the data stay valid and unchanged; a stream written to by CopyTo() reports at most as many bytes as it was offered")
    Driver(rep).run()
    rep.need("entry points", 16)


def c38(rep):
    rep.rule(RULE + "the reference count changes only by atomic steps of one (other threads may change it at any point), after giving up a reference nothing of the stream is touched unless "
             "it was the last one, which destroys it; results, outputs and effects of every other method, new streams and clones compared with the COM contract for arbitrary interface ids and failing allocations")
    rep.assume("Interlocked functions are atomic; Win32 resource functions may fail at any point with any error code")
    Driver(rep).run()
    rep.need("entry points", 16)
