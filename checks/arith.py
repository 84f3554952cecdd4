"""C42: no operation computes something C leaves undefined. The suites of the other properties run again with an
obligation at every signed addition, subtraction and multiplication, every shift and every division."""
import os
from engine.report import AnalysisBroken
from . import buffers, chunks, codecs, hashes, htable, marks, rbtree, values, varray, vcmd, vdict, vmem, vpath

# (module, function)
SUITES = [(buffers, "c07"), (chunks, "c32"), (codecs, "c26"), (codecs, "c27"), (codecs, "c28"), (codecs, "c29"), (hashes, "c30"), (hashes, "c31"),
          (htable, "c15"), (values, "c20"), (values, "c21"), (values, "c22"), (varray, "c23"), (vpath, "c24"), (vcmd, "c34"), (vmem, "c37"),
          (rbtree, "c10"), (rbtree, "c11"), (rbtree, "c12"), (vdict, "c17"), (vdict, "c19"), (marks, "c25")]


def c42(rep):
    rep.arith = True
    rep.rule("at every signed addition, subtraction and multiplication (the compiler marks those whose overflow is undefined) the exact result lies in the type's range, every shift amount "
             "is below the operand's width, no divisor is zero; decided on every path of the runs described for the single operations, for all inputs")
    rep.assume("preconditions and models of the properties of the single operations")
    suites(rep, SUITES)


def suites(rep, which):
    broken = None
    only = os.environ.get("VERIF_ONLY", "").split(",")      # development aid
    for mod, fn in which:
        if only != [""] and fn not in only:
            continue
        try:
            getattr(mod, fn)(rep)
            rep.join()
        except AnalysisBroken as e:
            broken = e
    if broken is not None and not rep.violations:
        raise broken
