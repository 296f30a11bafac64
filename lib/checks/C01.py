import predall
from predall import entry_name

LEVEL = "proof"
EXPLANATION = ("Forward abstract interpretation of the LLVM IR of all eight public predicate entry points (orientation and "
               "in-sphere, 2D and 3D, float and double): every local array is tracked as an expansion whose exact value is a "
               "polynomial over the coordinates, coordinate differences and their roundoffs; every return is certified to carry "
               "the sign of the determinant that defines the test (highest component of an expansion equal to the determinant, "
               "estimate of such an expansion, sign-exact subtraction, or a value that passed an error bound test whose bound "
               "dominates the error coefficient by coefficient).  Error bound constants come from constant propagation through "
               "the static initialiser.")
ASSUMPTIONS = ["IEEE-754 round-to-nearest arithmetic, no overflow or underflow, compiled without value-changing float options",
               "error bound constants are decided to first order in the unit roundoff (relative tolerance 4 eps, 1/16 for the "
               "second-order third filter stage)",
               "the constants are read after static initialisation of the translation unit"]


def check(ctx):
    r = predall.analyse(ctx)
    ctx.need(len(r.entries) == 8, "eight public predicate entry points")
    ctx.count("constants", len(r.consts))
    for (g, fn, i) in r.late:
        ctx.viol("constants:" + r.front.dem.get(g, g), "%s is written outside the static initialiser, in %s" % (r.front.dem.get(g, g), r.front.dem.get(fn, fn)))
    for fn in r.front.noreturn:
        ctx.viol("noreturn:" + fn.split("(")[0], "%s can reach its end without returning a value" % fn)
    for fn, line in r.front.uninit:
        ctx.viol("uninitialised:" + fn.split("(")[0], "Predicates.cpp:%s %s computes with a variable that was never assigned" % (line, fn))
    for e in r.entries:
        n = entry_name(e.key)
        ctx.count("entries")
        ctx.count("returns", e.returns)
        ctx.count("abstract_states", e.states)
        done = sum(v for k, v in e.ob.items() if k != "MEM")
        bad = [x for x in e.errors if x[0] != "MEM"]
        ctx.count("obligations", done + len(bad))
        ctx.count("discharged", done)
        if not e.returns:
            ctx.viol(n + ":SIGN", "%s: no return reached by the analysis" % n)
        for rule, line, text in bad:
            ctx.viol("%s:%s" % (n, rule), "Predicates.cpp:%s %s: %s" % (line, n, text))
        ctx.notes.append("%s: %d returns certified (%s), %d joins, obligations %s" % (
            n, e.ob.get("SIGN", 0), ", ".join("%s=%d" % x for x in sorted(e.certs.items())), e.njoin,
            ", ".join("%s=%d" % x for x in sorted(e.ob.items()))))
