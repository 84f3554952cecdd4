"""Liveness of SSA values (which names may still be used from a program point)."""


def uses(I):
    out = []
    for o in I.ops:
        if o[0] == "l":
            out.append(o[1])
    if I.gep:
        for x, _, _ in I.gep[1]:
            if x[0] == "l":
                out.append(x[1])
    if I.op == "call" and I.callee and I.callee[0] == "l":
        out.append(I.callee[1])
    return out


def out_sets(F):
    c = F.__dict__.get("_live") if hasattr(F, "__dict__") else CACHE.get(id(F))
    if c is not None:
        return c
    n = len(F.blocks)
    ins = {b.id: set() for b in F.blocks}
    outs = {b.id: set() for b in F.blocks}
    changed = True
    while changed:
        changed = False
        for b in reversed(F.blocks):
            o = set()
            for s in b.succs:
                o |= ins[s.id]
                for I in s.instrs:
                    if I.op != "phi":
                        break
                    for p, x in I.inc:
                        if p == b.id and x[0] == "l":
                            o.add(x[1])
            i = scan(b, 0, o)
            if o != outs[b.id] or i != ins[b.id]:
                outs[b.id] = o
                ins[b.id] = i
                changed = True
    CACHE[id(F)] = outs
    KEEP.append(F)
    return outs


CACHE = {}
KEEP = []


def scan(b, idx, out):
    s = set(out)
    for I in reversed(b.instrs[idx:]):
        if I.id is not None:
            s.discard(I.id)
        if I.op == "phi":
            continue
        s.update(uses(I))
    return s


def at(F, block, idx):
    """Names possibly used by the instructions from (block, idx) on."""
    return scan(F.blocks[block], idx, out_sets(F)[block])
