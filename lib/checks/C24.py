"""Divide and conquer, by abstract interpretation of DCTriangulator with a base solver that triangulates by definition: the merged
triangulation is that of all points."""
import json, os, re
from fractions import Fraction as F
import cxx, forks, predir, sem
from absx import Refuted, Undecided, Thrown, num
from checks import parts, simps
from checks.simps import delaunay, far, NONE

LEVEL = "other"
EXPLANATION = "DCTriangulator is interpreted abstractly from its constructor to the merged triangulation: partition, edge detection, recursion on the edge, filtering, merging and neighbour updates, over points with traced real coordinates; the base solver is replaced by the definition of the Delaunay triangulation, loops run as two tasks."
ASSUMPTIONS = ["the base solver (CGAL) yields the Delaunay triangulation of the points it is given, identifiers of simplices distinct between calls",
               "the size below which no recursion takes place is taken as a parameter", "predicates and circumspheres in real arithmetic (C01, C16); partitions as C20", "points in general position"]

HEAD = '''
#include <tbb/parallel_sort.h>
#include "mods/parallel_do.h"
#define __TBB_parallel_do_H
#include <atomic>
#include <queue>
#include "../src/utils/Logger.cpp"
#include "../src/lib/Triangulator.cpp"
#include "../src/lib/DCTriangulator.cpp"
extern "C" void vf_base(const tIdType *ids, size_t n, tIdType *out);
template <uint D, typename P, bool X> CGALTriangulator<D, P, X>::CGALTriangulator(const dBox<D, P> &b, dPoints<D, P> &p, const uint o) : Triangulator<D, P>(b, p), gridOccupancy(o) {}
template <uint D, typename P, bool X> dSimplices<D, P> CGALTriangulator<D, P, X>::_triangulate(const Point_Ids &ids, const dBox<D, P> &, const std::string) {
    tIdType in[200]; static tIdType out[4000]; size_t n = 0; for (auto i : ids) if (n < 200) in[n++] = i;
    vf_base(in, n, out);
    const tIdType *w = out; n = *w++; tIdType min = *w++, max = *w++;
    dSimplices<D, P> s(min, max, 16);
    for (; n; --n) { dSimplex<D, P> x; x.id = *w++; for (uint d = 0; d <= D; ++d) x.vertices[d] = *w++; for (uint d = 0; d <= D; ++d) x.neighbors[d] = *w++; x.genFingerprint(); if (!x.isFinite()) s.convexHull.push_back(x.id); uint h = 0; s.at(x.id, h) = x; }
    return s;
}
'''
TEMPLATE = '''
template class CGALTriangulator<%(D)d, %(P)s, false>; template class CGALTriangulator<%(D)d, %(P)s, true>;
typedef dPoints<%(D)d, %(P)s> Q%(N)s; typedef dPoint<%(D)d, %(P)s> O%(N)s; typedef dSimplices<%(D)d, %(P)s> S%(N)s; typedef dBox<%(D)d, %(P)s> B%(N)s;
extern "C" void %(N)s_points(Q%(N)s *q, size_t n, const %(P)s *x) { new (q) Q%(N)s(); for (size_t i = 0; i < n; ++i) { O%(N)s p; for (uint d = 0; d < %(D)d; ++d) p.coords[d] = *x++; q->emplace_back(p); } }
extern "C" void %(N)s_far(Q%(N)s &q, const %(P)s *x) { for (uint i = 0; i < (1u << %(D)d); ++i) { O%(N)s p; for (uint d = 0; d < %(D)d; ++d) p.coords[d] = *x++; q[O%(N)s::cINF | i] = p; } }
typedef DCTriangulator<%(D)d, %(P)s> T%(N)s;
extern "C" T%(N)s *%(N)s_make(Q%(N)s &q, const %(P)s *x, uint threads, char split, bool edge, bool outer, %(P)s *o) {
    B%(N)s b; for (uint d = 0; d < %(D)d; ++d) { b.low[d] = x[d]; b.high[d] = x[%(D)d + d]; }
    T%(N)s *t = new T%(N)s(b, q, threads, Partitioner<%(D)d, %(P)s>::make(split), 1, false, edge, outer);
    for (uint i = 0; i < (1u << %(D)d); ++i) for (uint d = 0; d < %(D)d; ++d) *o++ = q[O%(N)s::cINF | i].coords[d];
    return t;
}
extern "C" size_t %(N)s_run(T%(N)s *t, tIdType *w) {
    auto s = t->triangulate(); tIdType *c = w++; *c = 0;
    for (auto &x : s) { *w++ = x.id; for (auto v : x.vertices) *w++ = v; for (auto v : x.neighbors) *w++ = v; ++*c; }
    *w++ = s.convexHull.size(); for (auto i : s.convexHull) *w++ = i;
    return *c;
}
'''
OWN = re.compile(simps.OWN.pattern + r'|tbb::(?:concurrent_vector|parallel_do\w*|parallel_sort)')
OPS = ["points", "far", "make", "run"]
FN = "src/lib/DCTriangulator.cpp:DCTriangulator::_triangulate"
XY = {2: [(3, 7), (-11, 2), (5, -13), (-4, -6), (17, 1), (1, 23), (9, -3), (-19, 14), (-8, -21), (13, 12), (-2, 4), (22, -17), (-15, -9), (6, 16), (-7, 9), (25, 8)],
      3: [(3, 7, 2), (-11, 2, 5), (5, -13, -3), (-4, -6, 12), (17, 1, -9), (1, 23, 4), (9, -3, 14), (-9, 14, -7)]}


def module(ctx, cut, name="dc", more="", template=None):
    d = os.path.join(ctx.work, "cut%d" % cut)
    os.makedirs(d, exist_ok=True)
    t = open(os.path.join(predir.REPO, "include/DCTriangulator.h")).read()
    with open(os.path.join(d, "DCTriangulator.h"), "w") as f:
        f.write(re.sub(r'(\bBASE_CUTOFF\s*=\s*)\w+', r'\g<1>%d' % cut, t))
    with open(os.path.join(d, "overlay.json"), "w") as f:       # yaml
        json.dump({"version": 0, "roots": [{"name": os.path.join(w, "DCTriangulator.h"), "type": "file", "external-contents": os.path.join(d, "DCTriangulator.h")}
                                           for w in {os.path.join(predir.REPO, "include"), os.path.realpath(os.path.join(predir.REPO, "include"))}]}, f)
    seq, dc = os.path.join(parts.SHIM, "seq"), os.path.join(parts.SHIM, "dc")
    head = simps.HEAD.replace('#include "../src/lib/Geometry.cpp"', '#include "../src/lib/Geometry.cpp"\n#include "../src/lib/Partitioner.cpp"' + HEAD + more)
    src = head + 'extern "C" void vf_empty(std::string *s) { new (s) std::string(); }\nextern "C" void vf_text(std::string &s, const char *p, size_t n) { s.clear(); for (; n; --n) s.push_back(*p++); }\nextern "C" const char *vf_chars(const std::string &s, size_t *n) { *n = s.size(); return s.data(); }\n'
    src += "".join((template or TEMPLATE) % {"N": n, "D": k, "P": p} for n, k, p in simps.INST)
    return cxx.build(ctx, "%s%d" % (name, cut), src, ["vf_empty", "vf_text", "vf_chars"] + ["%s_%s" % (n, o) for n, _, _ in simps.INST for o in OPS],
                     ["-ivfsoverlay", os.path.join(d, "overlay.json"), "-iquote", dc, "-I" + dc, "-I" + seq, "-I" + parts.SHIM, "-DNDEBUG"], recursive=True)


class Run(simps.Run):
    def __init__(self, m, n, d, gap, mult=3):
        simps.Run.__init__(self, m, n, d, mult)
        self.mc.budget, self.mc.own = 12000000, OWN
        self.gap, self.next, self.bases = gap, 1, []
        for g, t in m.globals.items():
            k = re.search(r'\bthread_local\b.*\bglobal (i\d+) (-?\d+)', t)
            if k:
                self.mc.store(self.mc.st, ("p", ("tls", g), num(0)), num(int(k.group(2))), k.group(1))

    def model(self, an, i, st, fn, d, a):
        if fn.endswith("::_M_disjunct") and len(a) == 2:
            x = self.mc.load(self.mc.st, a[0], "ptr")
            if x[0] == "p" and a[1][0] == "p" and x[1] != a[1][1]:
                return num(1)
        if fn == "vf_turn":
            k = self.int(a[0])
            self.task = 0 if k == NONE else 1 + k % 2
            return None
        if fn == "vf_base":
            n = self.int(a[1])
            vs = sorted(self.int(self.mc.load(self.mc.st, ("p", a[0][1], num(a[0][2][1] + 8 * k)), "i64")) for k in range(n))
            if n >= 200 or len(set(vs)) != n or any(v not in self.xy for v in vs):
                raise Refuted("the base solver is given %s" % parts.show(vs))
            self.bases.append(vs)
            # numbers with gaps, those of any two calls apart
            ids = list(range(self.next, self.next + 4000))
            if self.gap:
                ids = [x for x in ids if x % self.gap]
            cx = delaunay(self.d, {v: self.xy[v] for v in vs}, ids)
            end = max(cx.cells, default=self.next) + 2
            w = [len(cx.cells), self.next, end]
            for j, (c, nb) in cx.cells.items():
                w += [j] + list(c) + list(nb)
            for k, x in enumerate(w):
                self.mc.store(self.mc.st, ("p", a[2][1], num(a[2][2][1] + 8 * k)), num(sem.wrap(x, 64)), "i64")
            self.next = end + (7 if self.gap else 0)
            return None
        return simps.Run.model(self, an, i, st, fn, d, a)


def outer(d, k):
    """corners of a slanted box, no two edges orthogonal"""
    c = [1 if k >> e & 1 else -1 for e in range(d)]
    return tuple(F(c[e] * (307 + 20 * e) + 11 * c[(e + 1) % d] + 3 * e) for e in range(d))


def go(m, n, d, fin, threads, split, edge, own, gap, least, kind=Run):
    R = kind(m, n, d, gap)
    xy = {i + 1: tuple(F(x) for x in p) for i, p in enumerate(fin)}
    lo, hi = ([f(p[e] for p in fin) for e in range(d)] for f in (min, max))
    q = R.mc.new()
    R("points", q, num(len(fin)), R.row([x for v in sorted(xy) for x in xy[v]]))
    if not own:
        R("far", q, R.row([x for k in range(2 ** d) for x in outer(d, k)]))
    w, o = R.mc.new(8 * 4000, kind="obj"), R.mc.new(8 * 64, kind="obj")
    t = R("make", q, R.row(lo + hi), num(threads), num(ord(split)), num(int(edge)), num(int(own)), o)
    for k in range(2 ** d):
        xy[far(d, k)] = tuple(R.real(o, k * d + e) for e in range(d))
        for e, x in enumerate(xy[far(d, k)]):
            if k >> e & 1 and x < hi[e] + hi[e] - lo[e] or not k >> e & 1 and x > lo[e] - hi[e] + lo[e]:
                raise Refuted("outer vertex %d is not beyond the points in dimension %d: %s, points from %s to %s" % (k, e, float(x), lo[e], hi[e]))
    R.xy = xy
    c = R.int(R("run", t, w))
    if len(R.bases) < least:
        raise Undecided("the base solver is called %d times only" % len(R.bases))
    k, got = 1, {}
    for _ in range(c):
        ws = [R.word(w, k + j) for j in range(2 * d + 3)]
        k += 2 * d + 3
        if ws[0] in got:
            raise Refuted("two simplices have the number %d" % ws[0])
        got[ws[0]] = (tuple(ws[1:d + 2]), ws[d + 2:])
    hull = [R.word(w, k + 1 + j) for j in range(min(R.word(w, k), 500))]
    want = delaunay(d, xy, list(range(4000)))
    sets = {c: i for i, (c, _) in want.cells.items()}
    have = {}
    for i, (c, _) in got.items():
        if c not in sets:
            raise Refuted("the simplex of vertices %s is in the triangulation though it is not Delaunay" % parts.show(c))
        if c in have:
            raise Refuted("the simplex of vertices %s is in the triangulation twice" % parts.show(c))
        have[c] = i
    for c in sets:
        if c not in have:
            raise Refuted("the simplex of vertices %s is not in the triangulation" % parts.show(c))
    for c, i in have.items():
        e = sorted(have[want.cells[j][0]] if j != NONE else NONE for j in want.cells[sets[c]][1])
        if sorted(got[i][1]) != e:
            raise Refuted("the simplex of vertices %s has neighbours %s instead of %s" % (parts.show(c), parts.show(got[i][1]), parts.show(e)))
    if set(hull) != {i for i, (c, _) in got.items() if c[-1] >= far(d, 0)} or len(set(hull)) != len(hull):
        raise Refuted("the hull list does not hold exactly the simplices with outer vertices")
    return len(R.bases)


def cases(ctx):
    mods = {}
    for n, d, _ in simps.INST:
        P = XY[d]
        ks = (6, 9, 13) if d == 2 else (5, 7)
        if ctx.tier != "quick":
            ks = ks + ((16,) if d == 2 else (8,))
        for k in ks:
            for split, threads in (("0", 2), ("1", 2), ("c", 4), ("d", 2 ** d)):
                for edge in (False, True):
                    for gap in (0, 3):
                        if (edge + (gap > 0) + k) % 2 and ctx.tier == "quick":
                            continue
                        yield d, n, "%dD, %d points, splitter %s, edge %s" % (d, k, split, "recursive" if edge else "at once"), (P[:k], threads, split, edge, False, gap, 3)
        if d == 2:
            for off in (0, 5000, -3000, 70000, -60000):
                yield d, n, "2D, outer vertices, points at %d" % off, ([(x + off, y - off) for x, y in P[:7]], 2, "0", False, True, 0, 1)


def check(ctx, fn=FN, mod=module, cases=cases):
    m = mod(ctx, 3)
    tasks = [(what, (lambda a=a, n=n, d=d: go(m, n, d, *a))) for d, n, what, a in cases(ctx)]
    bad = set()
    keys = [fn + ":" + ("outer" if "outer" in what else "merged") for what, _ in tasks]
    for i, verdict, r in forks.each([g for _, g in tasks], keys=keys):
        if verdict == "ok":
            ctx.count("obligations")
            ctx.count("base_triangulations", r)
        elif verdict == "refuted":
            if keys[i] not in bad:
                ctx.viol(keys[i], "%s: (%s): %s" % (fn, tasks[i][0], r))
            bad.add(keys[i])
        elif verdict != "skipped":
            ctx.count("undecided")
            ctx.notes.append("undecided: %s: %s" % (tasks[i][0], r))
