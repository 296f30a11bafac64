import predir, ops
from ir import AnalysisError

LEVEL = "proof"
EXPLANATION = ("Every expansion operation reachable from the public predicates (both precisions) is taken from the LLVM IR of "
               "the current Predicates.cpp; loop invariants are inferred (zones for the cursors, affine equalities over prefix "
               "sums for the contents) and must imply: output sums to the exact sum/product (roundoff tails recognised "
               "algebraically), components are consumed smallest first, fast two-sum preconditions hold, no zero component is "
               "stored on top, accesses stay in bounds of the stated capacities.")
ASSUMPTIONS = ["IEEE-754 round-to-nearest arithmetic without overflow/underflow",
               "operands handed in are nonoverlapping expansions of increasing magnitude (established by check C01 at the call sites)",
               "nonoverlap of outputs follows from Shewchuk's theorems once the recognised merge order/tails are in place"]


def check(ctx):
    front = predir.load(ctx.work)
    kinds = {}
    for o in ops.verify_all(front):
        kinds.setdefault(o.kind, []).append(o.dem)
        ctx.count("operations")
        for r, n in o.ob.items():
            ctx.count("obligations", n)
            ctx.count("discharged", n)
        ctx.count("obligations", len(o.errors))
        for rule, line, text in o.errors:
            if rule == "MEM":
                continue     # decided by C03
            ctx.viol("%s:%s" % (o.dem.split("(")[0], rule), "Predicates.cpp:%s %s: %s" % (line, o.dem, text))
        ctx.notes.append("%s [%s]: %s" % (o.dem, o.kind, ", ".join("%s=%d" % x for x in sorted(o.ob.items()))))
    for k in ("sum", "scale"):
        ctx.need(len(kinds.get(k, [])) >= 2, "no expansion operation of kind %s found in both precisions" % k)
