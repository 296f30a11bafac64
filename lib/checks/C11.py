import cxx, sem, absx, par
from sem import num
from unf import Undecided, Refuted

LEVEL = "other"
EXPLANATION = ("Abstract interpretation of the multiscale sort over abstract ranges: the recursion is followed for range lengths, thresholds and "
               "ratios with the elements and the leaf sort opaque. The ranges handed to the leaf sort must be exactly those of the reference recursion "
               "(consecutive, disjoint, together the whole range), every task must have ended when the call returns, the recursion must end, "
               "and an exception of the leaf sort must reach the caller.")
ASSUMPTIONS = ["std::async as specified"]
F = "include/mods/Multiscale_sort.h Multiscale_sort: "
HARNESS = '''#include "mods/Multiscale_sort.h"
#include <vector>
struct Leaf { void operator()(long *b, long *e) const; };
extern "C" void h_ctor(CGAL::Multiscale_sort<Leaf> *p, const Leaf &l, long t, double r) { new (p) CGAL::Multiscale_sort<Leaf>(l, t, r); }
extern "C" void h_ctord(CGAL::Multiscale_sort<Leaf> *p) { new (p) CGAL::Multiscale_sort<Leaf>(); }
extern "C" void h_sort(const CGAL::Multiscale_sort<Leaf> &s, long *b, long *e) { s(b, e); }
'''


def reference(b, e, t, r, out):
    m = b + int((e - b) * r)
    if e - b >= t and m != b and m != e:
        reference(b, m, t, r, out)
        reference(m, e, t, r, out)
    else:
        out.append((b, e))


def check(ctx):
    m = cxx.build(ctx, "c11", HARNESS, ["h_ctor", "h_ctord", "h_sort"], recursive=True)
    ctx.notes += m.repo_funcs
    lens = [0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 23, 40] + ([64, 100, 127] if ctx.tier == "thorough" else [])
    cases = [(n, t, r) for n in lens for t in (None, -1, 0, 1, 2, 3, 8, 100, 1 << 33) for r in (0.0, 0.125, 0.3, 0.5, 0.9, 1.0)]
    said = set()
    for n, t, r in cases:
        if t is None and r != 0.5:
            continue
        for fail in (None, 0, 1):
            if fail is not None and (n not in (1, 5, 16) or r not in (0.3, 0.5)):
                continue
            what = "%d elements, threshold %s, ratio %s" % (n, "1 (default)" if t is None else t, r)
            leaves = []

            def leaf(an, i, st, fn, d, args):
                if sem.cleanfn(fn) == "Leaf::operator()":
                    b, e = args[1], args[2]
                    if b[0] != "p" or e[0] != "p" or b[2][0] != "i" or e[2][0] != "i":
                        raise Undecided("leaf range")
                    leaves.append((b[2][1] // 8, e[2][1] // 8) if b[1] == e[1] == base[1] and not b[2][1] % 8 and not e[2][1] % 8 else None)
                    if fail is not None and len(leaves) == fail + 1:
                        raise absx.Thrown("of the leaf")
                    return None
                return NotImplemented
            tk = par.Tasks()
            mc = absx.Machine(m, [tk, leaf], budget=400000)
            base = mc.new(8 * n)
            s, l = mc.new(), mc.new()
            k = None
            try:
                mc.run("h_ctord" if t is None else "h_ctor", s, *([] if t is None else [l, num(t), ("f", repr(r))]))
                mc.run("h_sort", s, base, ("p", base[1], num(8 * n)))
                if any(not x["done"] or not x["joined"] for x in tk.tasks):
                    k = ("unfinished", "returns although a part may not have been sorted")
                elif fail is not None and len(leaves) > fail:
                    k = ("exception", "an exception of the leaf sort is lost")
            except absx.Thrown as e:
                if fail is None or e.what != "of the leaf":
                    k = ("throws", "throws %s" % e.what)
            except Refuted as e:
                k = (str(e)[:40], str(e))
            except Undecided as e:
                ctx.count("undecided")
                ctx.notes.append("%s: %s" % (what, e))
                continue
            ctx.count("ranges")
            ctx.count("tasks", len(tk.tasks))
            if k is None and fail is None:
                ref = []
                reference(0, n, 1 if t is None else t, r, ref)
                if None in leaves:
                    k = ("range", "the leaf sort gets a range that is not part of the range to sort")
                elif sorted(leaves) != sorted(ref):
                    k = ("leaves", "the leaf sort gets %s instead of %s" % (sorted(leaves)[:8], ref[:8]))
            if k and k[0] not in said:
                said.add(k[0])
                ctx.viol(k[0], F + "%s (%s)" % (k[1], what))
