"""The whole predicate analysis: operations, constants, entries."""
import sys
import predir, ops, preds, consts
from ir import AnalysisError, loc

sys.setrecursionlimit(20000)


class Result:
    pass


def analyse(ctx):
    r = Result()
    r.front = predir.load(ctx.work)
    r.ops = ops.verify_all(r.front)
    preds.prepare(r.front, r.ops)
    r.consts, r.init, r.late = consts.constants(r.front)
    r.entries = []
    alt = None
    for key in sorted(r.front.entries):
        e = preds.Entry(r.front, key, r.consts, preds.spec(key[0], key[1]))
        e.run()
        if e.errors:
            # the same entry with path correlations made explicit: threaded IR, then disjunctive states
            if alt is None:
                alt = r.front.threaded()
                alt.lenargs, alt.outarg = r.front.lenargs, r.front.outarg
            for fr, disj in ((alt, 1), (r.front, 4), (alt, 4)):
                try:
                    e2 = preds.Entry(fr, key, r.consts, preds.spec(key[0], key[1]), disj)
                    e2.run()
                except AnalysisError:
                    continue
                if not e2.errors and e2.returns:
                    e = e2
                    break
        r.entries.append(e)
    return r


def entry_name(k):
    return "Predicates<%d, %s>::%s" % (k[0], k[2], k[1])
