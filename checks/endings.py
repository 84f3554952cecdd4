"""C43: every operation comes to an end. The suites of the other properties run again and every loop they meet is judged."""
from . import arith, lists, rbtree

SUITES = arith.SUITES + [(rbtree, "c13")]


def c43(rep):
    rep.term = True
    rep.rule("every loop met on the runs described for the single operations ends: it is unrolled to its end, its iterations are counted by a counter that provably never wraps or stays under a bound "
             "fixed before the loop, or a lexicographic ranking decreases; walks over linked structures are followed until no new abstract state appears and every iteration has to change the state. "
             "Refuted when an iteration leaves everything as it was, or when values before the loop exist for which no way out of it is ever open")
    rep.assume("preconditions and models of the properties of the single operations; callbacks of the user return")
    arith.suites(rep, SUITES)
