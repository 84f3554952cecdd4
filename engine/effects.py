"""Interprocedural effect analysis: inclusion-based points-to with per-context cloning on
constant arguments (so that a helper shared by a query and an update is judged per use).

Abstract locations: ("arg",i) what parameter i of the root points to; ("deep",i) everything
reachable from it; ("glob",name); ("alloca",ctx,id); ("heap",ctx,id); ("fn",name); ("ext",callee)."""
from collections import defaultdict

ALLOC = {"malloc", "calloc", "realloc", "reallocarray", "aligned_alloc", "posix_memalign", "memalign", "valloc",
         "pvalloc", "free", "cfree", "strdup", "strndup", "asprintf", "vasprintf", "getline", "getdelim", "fopen",
         "fdopen", "open_memstream", "fmemopen", "_Znwm", "_ZdlPv", "_Znam", "_ZdaPv", "mmap", "munmap", "sbrk", "brk",
         "realpath", "tempnam", "opendir", "tsearch", "hcreate", "regcomp", "setenv", "putenv", "qsort_heap"}
# libc functions which touch nothing but their arguments and never allocate; value: indexes of written args
PURE = {"memcpy": (0,), "memmove": (0,), "memset": (0,), "strlen": (), "strnlen": (), "strcmp": (), "strncmp": (),
        "memcmp": (), "memchr": (), "strchr": (), "strrchr": (), "strstr": (), "strspn": (), "strcspn": (),
        "strcpy": (0,), "strncpy": (0,), "strcat": (0,), "strncat": (0,), "snprintf": (0,), "sprintf": (0,),
        "vsnprintf": (0,), "stpcpy": (0,), "stpncpy": (0,), "mempcpy": (0,), "memrchr": (), "rawmemchr": (), "strchrnul": (),
        "strcasecmp": (), "strncasecmp": (), "abs": (), "labs": (), "isalpha": (), "isdigit": (), "isxdigit": (), "isalnum": (),
        "toupper": (), "tolower": (), "bsearch": (), "floor": (), "ceil": (), "round": (), "trunc": (), "fabs": (), "floorf": (),
        "ceilf": (), "roundf": (), "truncf": (), "fabsf": (), "lround": (), "rint": (), "nearbyint": (), "modf": (1,), "fmod": (),
        "strtol": (1,), "strtoul": (1,), "strtoll": (1,), "strtoull": (1,), "atoi": (), "atol": (), "__errno_location": (),
        "__ctype_b_loc": (), "__ctype_tolower_loc": (), "__ctype_toupper_loc": (), "__assert_fail": (), "abort": (),
        "bcmp": (), "__stack_chk_fail": (), "swab": (1,), "ffs": (), "div": (), "ldiv": (), "qsort": (0,)}
HIDDEN_STATE = {"strtok", "rand", "srand", "random", "srandom", "drand48", "lrand48", "localtime", "gmtime", "ctime",
                "asctime", "strerror", "setlocale", "localeconv", "getenv", "setenv", "putenv", "time", "clock",
                "hsearch", "getc", "putc", "printf", "fprintf", "puts", "fputs", "fwrite", "putchar", "vprintf", "vfprintf",
                "perror", "tmpnam", "mblen", "mbtowc", "wctomb", "ecvt", "fcvt", "lgamma", "l64a", "inet_ntoa", "gettimeofday",
                "clock_gettime", "signal", "atexit", "setjmp", "longjmp", "getpid", "rewind"}
RET_ARG0 = {"memcpy", "memmove", "memset", "strchr", "strrchr", "memchr", "strstr", "strcpy", "strncpy", "strcat", "strncat",
            "stpcpy", "stpncpy", "mempcpy", "memrchr", "rawmemchr", "strchrnul", "realloc"}


class Effects:
    def __init__(self, module, root, max_ctx=400):
        self.m = module
        self.root = root
        self.F = module.functions[root]
        self.val = defaultdict(set)        # (ctx, operand id) -> locs
        self.mem = defaultdict(set)        # loc -> locs
        self.consts = {}                   # ctx -> {arg id: const operand}
        self.ctxs = {}
        self.writes = {}                   # (loc, function, line) -> instr description
        self.extcalls = {}                 # callee -> [(func, line)]
        self.callbacks = []                # calls through caller-supplied pointers
        self.callback_args = set()
        self.fnrefs = {}                   # function address taken -> (func, line)
        self.globreads = set()
        self.ret = set()
        self.calls = set()
        self.functions = set()
        self.free = []
        self.changed = True
        rc = (root, ())
        self.consts[rc] = {}
        for i, (a, t) in enumerate(zip(self.F.args, self.F.argtys)):
            if t.kind == "ptr":
                self.val[rc, a].add(("arg", i))
        self.rets = defaultdict(set)
        self.rctx = rc
        self.ctxs[rc] = True
        self.max_ctx = max_ctx
        n = 0
        while self.changed:
            self.changed = False
            for c in list(self.ctxs):
                self.visit(c)
            n += 1
            if n > 200:
                raise RuntimeError("effects: no fixpoint in " + root)
        self.ret = self.rets[rc]

    # -------------------------------------------------------------- values
    def add(self, table, key, locs):
        s = table[key]
        n = len(s)
        s |= locs
        if len(s) != n:
            self.changed = True

    def ops(self, c, o):
        k = o[0]
        if k == "l":
            return self.val[c, o[1]]
        if k == "g":
            return {("glob", o[1])}
        if k == "fn":
            return {("fn", o[1])}
        if k == "ce":
            r = set()
            for x in (o[2] if isinstance(o[2], list) else [o[2]]):
                if isinstance(x, tuple):
                    r |= self.ops(c, x)
            return r
        return set()

    def content(self, loc):
        if loc[0] in ("arg", "deep"):
            return self.mem[loc] | {("deep", loc[1])}
        if loc[0] == "ext":
            return self.mem[loc] | {loc}
        if loc[0] == "glob":
            g = self.m.globals.get(loc[1])
            r = self.mem[loc]
            if g is not None and g.init is not None:
                r = r | self.ginit(g)
            return r
        return self.mem[loc]

    _gi = None

    def ginit(self, g):
        if self._gi is None:
            self._gi = {}
        if g.name not in self._gi:
            r = set()

            def rec(x):
                if isinstance(x, tuple):
                    if x and x[0] == "g":
                        r.add(("glob", x[1]))
                    elif x and x[0] == "fn":
                        r.add(("fn", x[1]))
                    else:
                        for y in x:
                            rec(y)
                elif isinstance(x, list):
                    for y in x:
                        rec(y)
            rec(g.init)
            self._gi[g.name] = r
        return self._gi[g.name]

    # ----------------------------------------------- constants and reachability
    def const(self, c, F, known, o):
        if o[0] in ("i", "null", "fn"):
            return o
        if o[0] == "l":
            return known.get(o[1])
        return None

    def reach(self, c, F):
        """Blocks reachable under the context's constants (conditional constant propagation)."""
        from . import llvmir
        known = dict(self.consts[c])
        if not known:
            return None, known
        reach = {0}
        work = [0]
        edges = set()
        M64 = (1 << 64) - 1
        changed = True
        while changed:
            changed = False
            for bid in sorted(reach):
                b = F.blocks[bid]
                for I in b.instrs:
                    r = None
                    if I.op == "phi":
                        vs = [self.const(c, F, known, o) for p, o in I.inc if (p, bid) in edges]
                        if vs and all(v is not None and v == vs[0] for v in vs):
                            r = vs[0]
                    elif I.op in ("add", "sub", "and", "or", "xor", "icmp", "trunc", "zext", "sext", "shl", "mul", "lshr"):
                        vs = [self.const(c, F, known, o) for o in I.ops]
                        r = self.fold(I, vs)
                    elif I.op == "select":
                        v = self.const(c, F, known, I.ops[0])
                        if v is not None:
                            r = self.const(c, F, known, I.ops[1 if v[2] else 2])
                    if r is not None and I.op != "phi":
                        known[I.id] = r
                    elif I.op == "phi":
                        if r is None:
                            known.pop(I.id, None)
                        else:
                            known[I.id] = r
                t = b.instrs[-1]
                ss = b.succs
                if t.op == "br" and len(ss) == 2:
                    v = self.const(c, F, known, t.ops[0])
                    if v is not None:
                        ss = [ss[0 if v[2] else 1]]
                elif t.op == "switch":
                    v = self.const(c, F, known, t.ops[0])
                    if v is not None:
                        ss = [t.succ[1 + t.extra.index(v[2])]] if v[2] in t.extra else [t.succ[0]]
                for s in ss:
                    if (bid, s.id) not in edges:
                        edges.add((bid, s.id))
                        changed = True
                    reach.add(s.id)
        return reach, known

    def fold(self, I, vs):
        if any(v is None for v in vs):
            return None
        if I.op == "icmp":
            a, b = vs
            if (a[0] == "null") != (b[0] == "null"):
                if "fn" in (a[0], b[0]):
                    return ("i", 1, int(I.pred == "ne"))
                return None
            if a[0] != "i" or b[0] != "i":
                if I.pred in ("eq", "ne"):
                    return ("i", 1, int((a == b) == (I.pred == "eq")))
                return None
            x, y, w = a[2], b[2], a[1]
            if I.pred[0] == "s":
                x = x - (1 << w) if x >> (w - 1) else x
                y = y - (1 << w) if y >> (w - 1) else y
            p = I.pred.lstrip("su") if I.pred not in ("eq", "ne") else I.pred
            return ("i", 1, int({"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[p]))
        if any(v[0] != "i" for v in vs):
            return None
        w = I.ty.width
        x = vs[0][2]
        m = (1 << w) - 1
        if I.op == "trunc" or I.op == "zext":
            return ("i", w, x & m)
        if I.op == "sext":
            if x >> (vs[0][1] - 1):
                x -= 1 << vs[0][1]
            return ("i", w, x & m)
        y = vs[1][2]
        r = {"add": x + y, "sub": x - y, "and": x & y, "or": x | y, "xor": x ^ y, "mul": x * y,
             "shl": x << y if y < w else 0, "lshr": x >> y}[I.op]
        return ("i", w, r & m)

    # ----------------------------------------------------------- transfer
    def write(self, c, dst, srcs, I, F):
        for loc in dst:
            self.writes.setdefault((loc, F.name, I.line), I)
            if srcs:
                self.add(self.mem, loc, srcs)

    def visit(self, c):
        F = self.m.functions[c[0]]
        self.functions.add(F.name)
        reach, known = self.reach(c, F)
        for b in F.blocks:
            if reach is not None and b.id not in reach:
                continue
            for I in b.instrs:
                op = I.op
                if op == "alloca":
                    self.add(self.val, (c, I.id), {("alloca", c, I.id)})
                elif op == "load":
                    p = self.ops(c, I.ops[0])
                    r = set()
                    for l in p:
                        r |= self.content(l)
                        if l[0] == "glob":
                            self.globreads.add((l[1], F.name, I.line))
                    self.add(self.val, (c, I.id), r)
                elif op == "store":
                    src = self.ops(c, I.ops[0])
                    for l in src:
                        if l[0] == "fn":
                            self.fnrefs.setdefault(l[1], (F.name, I.line))
                    self.write(c, self.ops(c, I.ops[1]), src, I, F)
                elif op == "phi":
                    r = set()
                    for p, o in I.inc:
                        if reach is None or p in reach:
                            r |= self.ops(c, o)
                    self.add(self.val, (c, I.id), r)
                elif op == "select":
                    self.add(self.val, (c, I.id), self.ops(c, I.ops[1]) | self.ops(c, I.ops[2]))
                elif op == "call":
                    self.call(c, F, I, known)
                elif op == "ret":
                    if I.ops:
                        self.add(self.rets, c, self.ops(c, I.ops[0]))
                elif op in ("icmp", "fcmp", "br", "switch", "unreachable"):
                    pass
                elif op in ("cmpxchg", "atomicrmw"):
                    self.write(c, self.ops(c, I.ops[0]), self.ops(c, I.ops[1]), I, F)
                    self.add(self.val, (c, I.id), set().union(*[self.content(l) for l in self.ops(c, I.ops[0])]) if self.ops(c, I.ops[0]) else set())
                else:
                    r = set()
                    for o in I.ops:
                        r |= self.ops(c, o)
                    self.add(self.val, (c, I.id), r)

    def call(self, c, F, I, known):
        cal = I.callee
        if cal[0] == "fn":
            targets = [("fn", cal[1])]
        elif cal[0] == "asm":
            self.extcalls.setdefault("inline asm", []).append((F.name, I.line))
            return
        else:
            targets = list(self.ops(c, cal))
        for t in targets:
            if t[0] != "fn":
                if (c, I.id) not in self.calls:
                    self.calls.add((c, I.id))
                    self.callbacks.append((F.name, I.line, t))
                for o in I.ops:
                    self.callback_args |= self.ops(c, o)
                self.add(self.val, (c, I.id), {("ext", "callback")} if I.ty.kind == "ptr" else set())
                continue
            name = t[1]
            G = self.m.functions.get(name)
            if G is None or G.decl:
                self.external(c, F, I, name)
                continue
            cc = []
            for i, o in enumerate(I.ops[:len(G.args)]):
                k = self.const(c, F, known, o)
                if k is not None:
                    cc.append((i, k))
            nc = (name, tuple(cc))
            if nc not in self.ctxs:
                if sum(1 for x in self.ctxs if x[0] == name) >= 12:
                    nc = (name, ())
            if nc not in self.ctxs:
                self.ctxs[nc] = True
                self.consts[nc] = {G.args[i]: k for i, k in nc[1]}
                self.changed = True
            for i, o in enumerate(I.ops[:len(G.args)]):
                self.add(self.val, (nc, G.args[i]), self.ops(c, o))
            self.add(self.val, (c, I.id), self.rets[nc])

    def external(self, c, F, I, name):
        base = name
        if base.startswith("llvm."):
            base = base.split(".")[1]
            if base in ("stacksave", "stackrestore", "objectsize", "expect", "bswap", "umul", "uadd", "usub", "smul", "sadd",
                        "ssub", "ctlz", "cttz", "ctpop", "fshl", "fshr", "fabs", "floor", "ceil", "round", "trunc", "rint",
                        "umax", "umin", "smax", "smin", "abs", "copysign", "fmuladd", "is", "va_start", "va_end", "trap", "roundeven",
                        "nearbyint", "prefetch", "lround", "llround", "usub", "uadd"):
                return
        self.extcalls.setdefault(base, []).append((F.name, I.line))
        if base in ("memcpy", "memmove", "mempcpy", "strcpy", "strncpy"):
            r = set()
            for l in self.ops(c, I.ops[1]):
                r |= self.content(l)
            self.write(c, self.ops(c, I.ops[0]), r, I, F)
        elif base in PURE:
            for i in PURE[base]:
                self.write(c, self.ops(c, I.ops[i]), set(), I, F)
        elif base == "free":
            self.free.append((F.name, I.line))
            for l in self.ops(c, I.ops[0]):
                self.writes.setdefault((l, F.name, I.line), I)
        elif base not in ALLOC:
            for o in I.ops:
                self.callback_args |= self.ops(c, o)
        if base == "realloc":
            for l in self.ops(c, I.ops[0]):
                self.writes.setdefault((l, F.name, I.line), I)
        if base in ("malloc", "calloc", "realloc", "aligned_alloc", "strdup", "strndup"):
            self.add(self.val, (c, I.id), {("heap", c, I.id)})
        if base in RET_ARG0:
            self.add(self.val, (c, I.id), set(self.ops(c, I.ops[0])))
