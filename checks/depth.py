"""Path storage (C41): the deepest red-black tree that fits into the address space, and every access to a path array."""
from .common import *
from engine import trees
from . import rbtree, vdict


def c41(rep):
    rbtree.c10(rep)
    rbtree.c11(rep)
    rbtree.c12(rep)
    K = vdict.dconst()
    s = Suite(rep, "value", vdict.classify, passes="function(mem2reg)", max_states=1000000, apart=True)
    vdict.run(s, K, ["plain", "ordered"])
    vdict.walks(s, K, ["plain", "ordered"], [w for w in vdict.WALKS if w[1].endswith("_sorted")] + vdict.CLEANS)
    rep.rule("a path of a red-black tree with n nodes has at most 2 log2(n + 1) nodes; n nodes of the size found in the source have to fit into 2^64 bytes (rbtree: %d, dictionary: %d nodes on a path); "
             "every access to a local path array or a cursor is proved in range for all trees within that bound" % (trees.depth_bound(rbtree.Driver(rep, "C41").c["node"]), trees.depth_bound(K["n_short"])))
    rep.assume("trees obey the red-black rules (C10, C11, C17)")
    rep.need("entry points", 40)
