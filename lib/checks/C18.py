import itertools, os, random
from fractions import Fraction
import cxx, sem, absx, ratl
from sem import num
from unf import Undecided, Refuted

LEVEL = "other"
EXPLANATION = ("Abstract interpretation of the spatial index over grid cells: the shape of the tree is followed through the constructors, insertion, splitting, copying "
               "and moving with the grid width, the bounds and the sphere as real-valued symbols; the cells the tree answers for are compared with the cells that were "
               "inserted, for every way of filling small grids that differs in how nodes overflow, split and nest.")
ASSUMPTIONS = ["real arithmetic (cell widths for which multiples are exact)", "inserted boxes are cells of one grid"]
FT, FG = "include/datastructures/AABBTree.h ", "include/load_balancing/GridIntersectionChecker.h "
SHIM = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "shim")
HEAD = '''#include <sstream>
#include <iostream>
#include <numeric>
#include <new>
#include "load_balancing/BoxUtils.h"
#include <tbb/enumerable_thread_specific.h>
#include <tbb/parallel_for.h>
#include "load_balancing/GridIntersectionChecker.h"
'''
TEMPLATE = '''
typedef AABBTree<%(D)d, %(P)s> T%(N)s; typedef dBox<%(D)d, %(P)s> B%(N)s; typedef dSphere<%(D)d, %(P)s> C%(N)s; typedef dVector<%(D)d, %(P)s> V%(N)s;
typedef LoadBalancing::GridIntersectionChecker<%(D)d, %(P)s> G%(N)s; typedef dIndex<%(D)d, int64_t> I%(N)s; typedef LoadBalancing::Grid<%(D)d, %(P)s> R%(N)s;
extern "C" void %(N)s_sphere(C%(N)s *c, const %(P)s *x) { V%(N)s v; for (uint d = 0; d < %(D)d; ++d) v[d] = x[d]; new (c) C%(N)s{v, x[%(D)d]}; }
extern "C" void %(N)s_box(B%(N)s *b, const %(P)s *x) { new (b) B%(N)s(); for (uint d = 0; d < %(D)d; ++d) { b->low[d] = x[d]; b->high[d] = x[%(D)d + d]; } }
extern "C" void %(N)s_new(T%(N)s *t, const B%(N)s &b, %(P)s w) { new (t) T%(N)s(b, w); }
extern "C" bool %(N)s_insert(T%(N)s &t, const B%(N)s &b) { return t.insert(b); }
extern "C" void %(N)s_copy(T%(N)s *t, const T%(N)s &o) { new (t) T%(N)s(o); }
extern "C" void %(N)s_assign(T%(N)s &t, T%(N)s &o) { t = std::move(o); }
extern "C" bool %(N)s_hits(const T%(N)s &t, const C%(N)s &c) { return t.intersects(c); }
extern "C" size_t %(N)s_cells(const T%(N)s &t, const C%(N)s &c, int64_t *out) { auto r = t.intersectingCells(c); size_t n = 0; for (auto &i : r) for (auto x : i) out[n++] = x; return r.size(); }
extern "C" void %(N)s_check(G%(N)s *g, const B%(N)s &b, %(P)s w, const I%(N)s *f, const I%(N)s *l) { new (g) G%(N)s(b, R%(N)s(w), f, l); }
extern "C" bool %(N)s_ghits(const G%(N)s &g, const C%(N)s &c, const dSimplex<%(D)d, %(P)s> &s) { return g.intersects(c, s); }
extern "C" bool %(N)s_chits(const G%(N)s &g, const C%(N)s &c, const dSimplex<%(D)d, %(P)s> &s) { G%(N)s h(g); return h.intersects(c, s); }
extern "C" size_t %(N)s_gcells(const G%(N)s &g, const C%(N)s &c, int64_t *out) { auto r = g.intersectingCells(c); size_t n = 0; for (auto &i : r) for (auto x : i) out[n++] = x; return r.size(); }
extern "C" size_t %(N)s_kept(const G%(N)s &g, int64_t *out) { size_t n = 0, k = 0; for (auto i = g.cellsBegin(); i != g.cellsEnd(); ++i, ++k) for (auto x : *i) out[n++] = x; return k; }
extern "C" void %(N)s_bounds(const G%(N)s &g, %(P)s *o) { for (uint d = 0; d < %(D)d; ++d) { o[d] = g.bounds().low[d]; o[%(D)d + d] = g.bounds().high[d]; } }
'''
BUDGET = 3000000
OPS = "sphere box new insert copy assign hits cells check ghits chits gcells kept bounds".split()
INST = [("d2", 2, "double"), ("d3", 3, "double")]


class Run:
    def __init__(self, m, n, d):
        self.m, self.n, self.d = m, n, d

    def start(self):
        self.env, self.k = {}, 0

        def oracle(c):
            try:
                return bool(ratl.value(c, self.env) & 1)
            except (KeyError, IndexError, TypeError, ratl.NoValue):
                return None
        self.mc = absx.Machine(self.m, [ratl.maths], oracle, budget=BUDGET)

    def __call__(self, op, *a):
        return self.mc.run("%s_%s" % (self.n, op), *a)

    def sym(self, x):
        self.k += 1
        s = ("s", "real%d" % self.k)
        self.env[s] = Fraction(x)
        return s

    def row(self, xs):
        p = self.mc.new(8 * len(xs))
        for k, x in enumerate(xs):
            self.mc.store(self.mc.st, ("p", p[1], num(8 * k)), self.sym(x), "double")
        return p

    def box(self, low, high):
        b = self.mc.new()
        self("box", b, self.row(list(low) + list(high)))
        return b

    def sphere(self, c, r):
        s = self.mc.new()
        self("sphere", s, self.row(list(c) + [r]))
        return s

    def tree(self, low, high, w):
        t = self.mc.new()
        self("new", t, self.box(low, high), self.sym(w))
        return t

    def val(self, t):
        t = self.mc.simp(t)
        if absx.unwritten(t):
            raise Refuted("uses a value that was never written")
        try:
            return ratl.value(t, self.env)
        except (ratl.NoValue, KeyError, TypeError, IndexError) as e:
            raise Undecided("result %s" % e)

    def bit(self, t):
        return int(self.val(t)) & 1

    def listed(self, op, *a):
        out = self.mc.new(8 * self.d * 400)
        n = self.val(self(op, *a, out))
        got = []
        for i in range(int(n)):
            c = []
            for k in range(self.d):
                v = int(self.val(self.mc.load(self.mc.st, ("p", out[1], num(8 * (i * self.d + k))), "i64"))) & (2 ** 64 - 1)
                c.append(v - 2 ** 64 if v >> 63 else v)
            got.append(tuple(c))
        return got


def bounds(cell, w):
    return [Fraction(x) * w for x in cell], [Fraction(x + 1) * w for x in cell]


def dist2(cell, w, c):
    lo, hi = bounds(cell, w)
    return sum(max(l - x, 0, x - h) ** 2 for l, h, x in zip(lo, hi, c))


def touched(cells, w, c, r):
    return sorted({x for x in cells if dist2(x, w, c) <= r * r})


def grids(d, rnd, deep):
    """(low corner, extent) and orders of cells: corner first, centre first, shuffled, repeated"""
    shapes = ([(1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (5, 4), (7, 1)] if d == 2 else [(1, 1, 1), (2, 2, 1), (2, 2, 2), (3, 2, 2), (3, 3, 3)])
    if deep: shapes += [(8, 8), (9, 5)] if d == 2 else [(4, 3, 2), (5, 1, 4), (4, 4, 4)]
    for ext in shapes:
        for origin in ([0] * d, [-2 - k for k in range(d)]) if len(set(ext)) > 1 or deep else ([-1] * d,):
            every = [tuple(o + x for o, x in zip(origin, i)) for i in itertools.product(*map(range, ext))]
            yield origin, ext, every
            if len(every) > 2:
                yield origin, ext, every[::-1] + every[:2]
                some = rnd.sample(every, len(every) * 2 // 3)
                yield origin, ext, some
                if deep:
                    for _ in range(3): yield origin, ext, rnd.sample(every, rnd.randint(2, len(every)))


def spheres(d, cells, w, rnd, n):
    lo = [min(c[k] for c in cells) for k in range(d)]
    hi = [max(c[k] for c in cells) + 1 for k in range(d)]
    out = []
    c = cells[len(cells) // 2]
    mid = [(x + Fraction(1, 2)) * w for x in c]
    out.append((mid, w / 100))                                        # inside one cell
    out.append((mid, w * 50))                                         # everything
    out.append(([(x + 1) * w for x in c], Fraction(0)))               # a corner, touching
    out.append(([hi[0] * w + w] + mid[1:], w))                        # touches from outside
    out.append(([hi[0] * w + w] + mid[1:], w * 99 / 100))             # misses
    out.append(([x * w - w * 3 / 4 for x in lo], w))                  # within reach along each axis, not diagonally
    while len(out) < n:
        out.append(([Fraction(rnd.randint(4 * lo[k] - 5, 4 * hi[k] + 5), 4) * w for k in range(d)], Fraction(rnd.randint(1, 9), 5) * w))
    return out


def check(ctx):
    src = HEAD + "".join(TEMPLATE % {"N": n, "D": d, "P": p} for n, d, p in INST)
    m = cxx.build(ctx, "c18", src, ["%s_%s" % (n, o) for n, _, _ in INST for o in OPS], ["-I" + SHIM, "-DNDEBUG"], recursive=True)
    ctx.notes += m.repo_funcs
    said = set()
    deep = ctx.tier == "thorough"

    def decide(file, name, what, go, want):
        ctx.count(name)
        try:
            got = go()
        except Undecided as e:
            ctx.count("undecided")
            if len(ctx.notes) < 400: ctx.notes.append("%s: %s" % (name, e))
            return None
        except Refuted as e:
            got = str(e)
        except absx.Thrown as e:
            got = "throws " + e.what
        if got != want and name not in said:
            said.add(name)
            ctx.viol(name, "%s%s: %s instead of %s (%s)" % (file, name, got, want, what))
        return got

    for n, d, _ in INST:
        rnd = random.Random(7)
        r = Run(m, n, d)
        for case, (origin, ext, cells) in enumerate(grids(d, rnd, deep)):
            w = (Fraction(1), Fraction(4), Fraction(1, 2))[case % 3]
            low = [o * w + w * (case % 2) / 4 for o in origin]
            high = [(o + e) * w - w / 3 for o, e in zip(origin, ext)]
            if said: break
            what = "%dD, cells of width %s inserted in the order %s" % (d, w, " ".join(map(str, cells))[:300])
            r.start()
            try:
                t = r.tree(low, high, w)
            except Undecided as e:
                ctx.count("undecided"); ctx.notes.append("AABBTree: %s" % e); continue

            def fill():
                for c in cells:
                    if not r.bit(r("insert", t, r.box(*bounds(c, w)))):
                        return "refuses cell %s" % (c,)
                return "inserted"
            if decide(FT, "AABBTree::insert", what, fill, "inserted") != "inserted": continue

            def outside():
                c = tuple(origin[:-1]) + (origin[-1] + ext[-1],)
                return "accepted" if r.bit(r("insert", t, r.box(*bounds(c, w)))) else "refused"
            if case % 4 == 0: decide(FT, "AABBTree::insert", "a cell outside of the bounds", outside, "refused")
            qs = spheres(d, cells, w, rnd, 12 if deep else 8)
            trees = [("AABBTree", t)]
            try:
                t2 = r.mc.new(); r("copy", t2, t); trees.append(("copied AABBTree", t2))
                if case % 2:
                    t3 = r.tree([0] * d, [w] * d, w); r("assign", t3, t2); trees[1] = ("assigned AABBTree", t3)
            except Undecided as e:
                ctx.count("undecided"); ctx.notes.append("copy: %s" % e)
            for name, u in trees:
                for c, rad in qs if name == "AABBTree" else qs[:5]:
                    sp = r.sphere(c, rad)
                    want = touched(cells, w, c, rad)
                    q = what + ", sphere at (%s) with radius %s" % (", ".join(map(str, c)), rad)
                    decide(FT, name + "::intersects", q, lambda: r.bit(r("hits", u, sp)), int(bool(want)))
                    decide(FT, name + "::intersectingCells", q, lambda: sorted(r.listed("cells", u, sp)), want)
        # the checker: bounds and cells of points, some of them on the lines of the grid
        for case in range(12 if deep else 6):
            if said: break
            w = (Fraction(1), Fraction(1, 4), Fraction(2))[case % 3]
            pts = [[Fraction(rnd.randint(-8, 12), 4) * w for _ in range(d)] for _ in range(rnd.randint(1, 9))]
            if case % 2: pts.append([Fraction(5) * w] * d)               # the greatest point lies on a line of the grid
            cells = sorted({tuple(int(x // w) for x in p) for p in pts})
            rnd.shuffle(cells)
            r.start()
            low, high = [[f(p[k] for p in pts) for k in range(d)] for f in (min, max)]
            what = "%dD, width %s, points %s" % (d, w, " ".join("(%s)" % ", ".join(map(str, p)) for p in pts))
            f = r.mc.new(8 * d * (len(cells) + 1))
            for i, c in enumerate(cells):
                for k in range(d):
                    r.mc.store(r.mc.st, ("p", f[1], num(8 * (i * d + k))), num(c[k]), "i64")
            g = r.mc.new()
            try:
                r("check", g, r.box(low, high), r.sym(w), f, ("p", f[1], num(8 * d * len(cells))))
            except (Undecided, absx.Thrown, Refuted) as e:
                if isinstance(e, Undecided): ctx.count("undecided"); ctx.notes.append("GridIntersectionChecker: %s" % e)
                else: decide(FG, "GridIntersectionChecker", what, lambda: str(e), "constructed")
                continue
            s = r.mc.new(256)
            decide(FG, "GridIntersectionChecker::cellsBegin", what, lambda: r.listed("kept", g), cells)

            def box():
                o = r.mc.new(16 * d); r("bounds", g, o)
                return [r.val(r.mc.load(r.mc.st, ("p", o[1], num(8 * k)), "double")) for k in range(2 * d)]
            decide("include/load_balancing/IntersectionChecker.h ", "IntersectionChecker::bounds", what, box, low + high)
            qs = spheres(d, cells, w, rnd, 8)
            for p in pts[-3:]: qs.append((p, Fraction(0)))
            for c, rad in qs:
                sp = r.sphere(c, rad)
                want = touched(cells, w, c, rad)
                q = what + ", sphere at (%s) with radius %s" % (", ".join(map(str, c)), rad)
                decide(FG, "GridIntersectionChecker::intersects", q, lambda: r.bit(r("ghits", g, sp, s)), int(bool(want)))
                decide(FG, "GridIntersectionChecker::intersectingCells", q, lambda: sorted(r.listed("gcells", g, sp)), want)
            sp = r.sphere(*qs[-1])
            decide(FG, "GridIntersectionChecker::copy", what, lambda: r.bit(r("chits", g, sp, s)), int(bool(touched(cells, w, *qs[-1]))))
