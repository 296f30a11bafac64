"""The load-balanced divide and conquer, by abstract interpretation of LoadBalancing::DCTriangulator over partition trees of the splitters,
the base solver triangulating by definition."""
from checks import C24, simps
from checks.C24 import XY

LEVEL = "other"
EXPLANATION = "LoadBalancing::DCTriangulator is interpreted abstractly from its constructor to the merged triangulation: partition trees, edge detection by the parts' checkers, triangulation of the edge (at once or by the plain divide and conquer), filtering, merging and neighbour updates, over points with traced real coordinates; the base solver is replaced by the definition of the Delaunay triangulation, loops run as two tasks."
ASSUMPTIONS = C24.ASSUMPTIONS
FN = "include/LoadBalancedDCTriangulator.tpp:DCTriangulator::_triangulate"
MORE = '''
#include <numeric>
#include <variant>
namespace LoadBalancing {       // apart from the operators of Geometry.cpp
#include "load_balancing/VectorOperations.h"
template <uint D, typename Precision> struct Sampling;
}
#include "load_balancing/BoxUtils.h"
#include "load_balancing/BoundsIntersectionChecker.h"
#include "load_balancing/GridIntersectionChecker.h"
#include "load_balancing/AccurateGridIntersectionChecker.h"
#include "load_balancing/PartitionTree.h"
#include "load_balancing/OldPartitionerPartitioner.h"
#include "load_balancing/kWaySplitter.h"
#include "LoadBalancedDCTriangulator.h"
'''
a, b = C24.TEMPLATE.index("typedef DCTriangulator<"), C24.TEMPLATE.index('extern "C" size_t %(N)s_run(')
TEMPLATE = C24.TEMPLATE[:a] + '''typedef LoadBalancing::UnpluggedMonitor M%(N)s; typedef LoadBalancing::DCTriangulator<%(D)d, %(P)s, M%(N)s> T%(N)s;
extern "C" T%(N)s *%(N)s_make(Q%(N)s &q, const %(P)s *x, uint threads, char split, uint deep, bool edge, bool solver, bool outer, %(P)s *o) {
    B%(N)s b; for (uint d = 0; d < %(D)d; ++d) { b.low[d] = x[d]; b.high[d] = x[%(D)d + d]; }
    std::unique_ptr<LoadBalancing::Partitioner<%(D)d, %(P)s, M%(N)s>> p;
    if (split == 'k') p = std::make_unique<LoadBalancing::KWaySplitter<%(D)d, %(P)s, M%(N)s>>(deep);
    else p = std::make_unique<LoadBalancing::OldPartitionerPartitioner<%(D)d, %(P)s, M%(N)s>>(Partitioner<%(D)d, %(P)s>::make(split), deep, 3);
    T%(N)s *t = new T%(N)s(b, q, threads, std::move(p), 1, solver, edge, outer);
    for (uint i = 0; i < (1u << %(D)d); ++i) for (uint d = 0; d < %(D)d; ++d) *o++ = q[O%(N)s::cINF | i].coords[d];
    return t;
}
''' + C24.TEMPLATE[b:]


class Run(C24.Run):
    def __call__(self, op, *a):
        if op == "make":        # threads and splitter: number of threads, splitter, depth or number of parts, base solver
            q, box, threads, split, edge, own, o = a
            return C24.Run.__call__(self, op, q, box, threads, split, C24.num(self.deep), edge, C24.num(int(self.solver)), own, o)
        return C24.Run.__call__(self, op, *a)


def kind(deep, solver):
    def make(*a):
        r = Run(*a)
        r.deep, r.solver = deep, solver
        return r
    return make


def module(ctx, cut):
    return C24.module(ctx, cut, "lb", MORE, TEMPLATE)


def cases(ctx):
    for n, d, _ in simps.INST:
        P = XY[d]
        ks = (6, 9, 13) if d == 2 else (5, 7)
        if ctx.tier != "quick":
            ks = ks + ((16,) if d == 2 else (8,))
        for k in ks:
            for split, deep in (("0", 1), ("c", 1), ("c", 2), ("d", 1), ("k", 2), ("k", 3), ("k", 4)):
                for edge, solver in ((False, False), (True, False), (True, True)):
                    if ctx.tier == "quick" and (k + deep + ord(split) + 2 * edge + solver) % 4:
                        continue
                    yield d, n, "%dD, %d points, splitter %s %d, edge %s%s" % (d, k, split, deep, "recursive" if edge else "at once", ", parts too" if solver else ""), \
                        (P[:k], 8, split, edge, False, 3 if (k + deep) % 2 else 0, 3, kind(deep, solver))
        if d == 2:
            for off in (0, 70000, -60000):
                yield d, n, "2D, outer vertices, points at %d" % off, ([(x + off, y - off) for x, y in P[:7]], 2, "0", False, True, 0, 1, kind(1, False))


def check(ctx):
    C24.check(ctx, FN, module, cases)
