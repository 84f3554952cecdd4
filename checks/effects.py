"""C01-C03: who-may-call and effect rules."""
import os
import re
from engine import build, effects, modules
from engine.report import AnalysisBroken


def where(m, fn, line):
    f = m.functions.get(fn)
    return "%s:%s in %s()" % (os.path.relpath(f.file, build.REPO) if f and f.file else "?", line, fn)


def roots(name, m):
    return modules.public_functions(m, name)


# ------------------------------------------------------------------ C01
def c01(rep):
    rep.rule("no allocator (malloc family, free, allocating libc helper) is called from, or has its address taken "
             "in, any function reachable from an operation of the listed modules; every store goes to the function's own locals or to memory reached "
             "from its arguments")
    for name in ("list", "rbtree", "hex", "base64", "crc32", "fnv1a", "cmdline"):
        m = modules.module(name)
        rs = roots(name, m)
        if not rs:
            raise AnalysisBroken("no operations found in module " + name)
        for r in sorted(rs):
            e = effects.Effects(m, r)
            rep.count("operations")
            rep.functions |= {name + ":" + f for f in e.functions}
            bad = False
            for cal, sites in e.extcalls.items():
                rep.count("external_call_sites", len(sites))
                if cal in effects.ALLOC:
                    bad = True
                    for fn, line in sites:
                        rep.violate("%s:%s:%s" % (name, r, cal),
                                    "%s calls %s (reachable from %s())" % (where(m, fn, line), cal, r))
                elif cal not in effects.PURE and cal not in effects.HIDDEN_STATE:
                    bad = True
                    rep.undecide("%s:%s:%s" % (name, r, cal), "unknown external function " + cal)
            for (loc, fn, line), I in sorted(e.writes.items(), key=str):
                rep.count("stores_checked")
                if loc[0] == "glob":
                    bad = True
                    rep.violate("%s:%s:%s" % (name, fn, loc[1]),
                                "%s writes the static object '%s', memory the caller did not hand over (reachable from %s())" % (where(m, fn, line), loc[1], r))
            for f, (fn, line) in e.fnrefs.items():
                if f in effects.ALLOC:
                    bad = True
                    rep.violate("%s:%s:&%s" % (name, r, f), "%s takes the address of %s" % (where(m, fn, line), f))
            if not bad:
                rep.ok("%s: %s() reaches %d functions, external: %s" %
                       (name, r, len(e.functions), ", ".join(sorted(e.extcalls)) or "none"))
    rep.need("operations", 50)
    # positive control: the rule must match in a module which does allocate
    m = modules.module("buffer")
    if not any(c in effects.ALLOC for c in effects.Effects(m, "buffer_realloc").extcalls):
        raise AnalysisBroken("positive control: allocation in buffer_realloc() not seen")


# ------------------------------------------------------------------ C02
def is_function_table(g):
    seen = []

    def rec(x):
        if isinstance(x, tuple) and x and x[0] in ("i", "f", "g", "bigint", "undef"):
            seen.append(x[0])
        elif isinstance(x, tuple) and x and x[0] == "fn":
            seen.append("fn")
        elif isinstance(x, (tuple, list)):
            for y in x:
                rec(y)
    rec(g.init)
    return bool(seen) and all(s == "fn" for s in seen)


def c02(rep):
    rep.rule("no function reachable from an operation writes a global or static object, reads a mutable one that "
             "anything may write, hands a mutable one out to the caller (function tables excepted), or calls a libc function with hidden state")
    for name in modules.MODULES:
        m = modules.module(name)
        rs = dict(roots(name, m))
        if name == "memstream":
            rs.update({n: f for n, f in modules.own_functions(m).items()})
        if not rs:
            raise AnalysisBroken("no operations found in module " + name)
        for r in sorted(rs):
            e = effects.Effects(m, r)
            rep.count("operations")
            rep.count("stores_checked", len(e.writes))
            rep.functions |= {name + ":" + f for f in e.functions}
            bad = False
            for (loc, fn, line), I in sorted(e.writes.items(), key=str):
                if loc[0] == "glob":
                    bad = True
                    rep.violate("%s:%s:%s" % (name, fn, loc[1]),
                                "%s writes the static object '%s' (reachable from %s())" % (where(m, fn, line), loc[1], r))
            esc = set(e.ret) | e.callback_args
            for l in list(e.mem):
                if l[0] in ("arg", "deep", "heap", "ext"):
                    esc |= e.mem[l]
            for l in esc:
                if l[0] == "glob":
                    g = m.globals.get(l[1])
                    if g is not None and not g.const and not is_function_table(g):
                        bad = True
                        rep.violate("%s:%s:escape:%s" % (name, r, l[1]),
                                    "%s() hands out the address of the mutable static object '%s'" % (r, l[1]))
            for cal, sites in e.extcalls.items():
                if cal in effects.HIDDEN_STATE:
                    bad = True
                    for fn, line in sites:
                        rep.violate("%s:%s:%s" % (name, fn, cal),
                                    "%s calls %s, which keeps state outside its arguments (reachable from %s())"
                                    % (where(m, fn, line), cal, r))
            for gname, fn, line in e.globreads:
                g = m.globals.get(gname)
                if g is not None and g.threadlocal:
                    bad = True
                    rep.violate("%s:%s:tls:%s" % (name, fn, gname), "%s reads thread-local state '%s'" % (where(m, fn, line), gname))
                elif g is not None and g.decl and not g.const and gname not in ("stdout", "stderr", "stdin"):
                    rep.undecide("%s:%s:extern:%s" % (name, fn, gname), "reads an external object")
            if not bad:
                rep.ok("%s: %s(): %d store targets, none static" % (name, r, len(e.writes)))
        for g in m.globals.values():
            rep.count("static_objects")
    rep.need("operations", 300)
    rep.need("stores_checked", 300)


# ------------------------------------------------------------------ C03
# (module, name pattern, {argument index: "deep" (object and everything reachable) or "below" (all but the object itself)})
QUERIES = [
    ("buffer", r"(buffer|stack)_(size|is_empty|const_data|const_data_at|data|data_at)", {0: "deep"}),
    ("buffer", r"array_[a-z]*\d*_(size|is_empty|const_data|const_data_at|data|data_at)", {0: "deep"}),
    ("buffer", r"stack_peek\w*", {0: "deep"}),
    ("buffer", r"array_[a-z]*\d*_(get|get_raw)", {0: "deep"}),
    ("list", r"(list|slist|xlist|queue|[a-z]*list)_(is_empty|is_end|head|tail|next|prev|end)", {0: "deep"}),
    ("rbtree", r"rbtree_(is_empty|lookup)", {0: "deep", 1: "deep"}),
    ("rbtree", r"rbtree_lookup_ex", {0: "deep", 1: "deep"}),
    ("rbtree", r"rbtree_(head|tail)", {0: "deep"}),
    ("rbtree", r"rbtree_current", {0: "deep"}),
    ("rbtree", r"rbtree_(next|prev)", {0: "below"}),
    ("htable", r"htable_(is_empty|lookup)", {0: "deep", 1: "deep"}),
    ("value", r"value_(type|is_compatible|is_new|bool|u?int(32|64)|float|double|string|string_length)", {0: "deep"}),
    ("value", r"value_path", {0: "deep", 1: "deep"}),
    ("value", r"value_array_(size|get|get_all)", {0: "deep"}),
    ("value", r"value_dict_(flags|size|get|get_|walk_ordered|walk_sorted|keys_ordered|keys_sorted)", {0: "deep"}),
]


def c03(rep):
    rep.rule("a query operation stores only to its own locals and to output objects supplied by the caller: its store targets "
             "(points-to, with helpers specialised per constant argument) never include the inspected container or anything reachable from it")
    for name, pat, args in QUERIES:
        m = modules.module(name)
        rs = [f for f in roots(name, m) if re.fullmatch(pat, f)]
        if not rs:
            raise AnalysisBroken("no query operation matches " + pat)
        for r in sorted(rs):
            F = m.functions[r]
            e = effects.Effects(m, r)
            rep.count("queries")
            rep.functions |= {name + ":" + f for f in e.functions}
            bad = False
            for (loc, fn, line), I in sorted(e.writes.items(), key=str):
                if loc[0] not in ("arg", "deep") or loc[1] not in args:
                    continue
                if loc[0] == "arg" and args[loc[1]] == "below":
                    continue
                bad = True
                rep.violate("%s:%s:%s" % (name, r, fn),
                            "query %s(): %s stores into the inspected object (parameter %d%s)"
                            % (r, where(m, fn, line), loc[1] + 1, ", reached through pointers" if loc[0] == "deep" else ""))
            for l in e.extcalls:
                if l not in effects.PURE and l not in effects.ALLOC and l not in effects.HIDDEN_STATE:
                    bad = True
                    rep.undecide("%s:%s:%s" % (name, r, l), "unknown external function " + l)
            if not bad:
                rep.ok("%s(): %d store targets, none in the container" % (r, len(e.writes)))
    rep.need("queries", 90)
    m = modules.module("buffer")
    if not any(l[0] == "arg" for (l, f, n) in effects.Effects(m, "buffer_realloc").writes):
        raise AnalysisBroken("positive control: stores of buffer_realloc() not seen")
