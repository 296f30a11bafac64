import predall
from predall import entry_name

LEVEL = "proof"
EXPLANATION = ("Every array access of the public predicates and of the expansion operations they call is an obligation: stores, "
               "loads and calls stay inside the local arrays for the largest possible expansion lengths (interval/zone domain), "
               "no component is read before it is written, only the coordinates that exist are read, the result array of an "
               "operation never overlaps an operand, and the operations stay inside the lengths they are given and produce at "
               "least one component.")
ASSUMPTIONS = ["the caller passes valid points of the stated dimension", "IEEE-754 arithmetic"]


def check(ctx):
    r = predall.analyse(ctx)
    ctx.need(len(r.entries) == 8 and r.ops, "predicate entry points and expansion operations")
    for o in r.ops:
        ctx.count("operations")
        n = o.ob.get("MEM", 0)
        bad = [x for x in o.errors if x[0] == "MEM" or x[0] == "CAP"]
        ctx.count("obligations", n + len(bad))
        ctx.count("discharged", n)
        for rule, line, text in bad:
            ctx.viol("%s:%s" % (o.dem.split("(")[0], rule), "Predicates.cpp:%s %s: %s" % (line, o.dem, text))
        ctx.notes.append("%s: %d accesses" % (o.dem, n))
    for fn in r.front.noreturn:
        ctx.viol("noreturn:" + fn.split("(")[0], "%s can reach its end without returning a value" % fn)
    for fn, line in r.front.uninit:
        ctx.viol("uninitialised:" + fn.split("(")[0], "Predicates.cpp:%s %s computes with a variable that was never assigned" % (line, fn))
    for e in r.entries:
        n = entry_name(e.key)
        ctx.count("entries")
        done = e.ob.get("MEM", 0)
        bad = [x for x in e.errors if x[0] == "MEM" or "never written" in x[2]]
        ctx.count("obligations", done + len(bad))
        ctx.count("discharged", done)
        ctx.count("local_arrays", len(e.allocas))
        for rule, line, text in bad:
            ctx.viol("%s:%s" % (n, rule), "Predicates.cpp:%s %s: %s" % (line, n, text))
        ctx.notes.append("%s: %d accesses, %d local arrays" % (n, done, len(e.allocas)))
