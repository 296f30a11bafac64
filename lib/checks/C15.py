import itertools, os, random
from fractions import Fraction
import cxx, sem, absx, ratl
from sem import num
from unf import Undecided, Refuted

LEVEL = "other"
said_undecided = {}
EXPLANATION = ("Abstract interpretation of the box, vector and grid operations with the coordinates left as real-valued symbols: every operation becomes a term "
               "over them, branches being resolved for each order type of the coordinates (all order types in one dimension, combined over dimensions, and "
               "the touching, inside and outside cases of spheres). Results are compared with the definitions as values of the same rational expressions.")
ASSUMPTIONS = ["real arithmetic: rounding of coordinates and overflow of the cell index are not modelled", "low <= high and radius >= 0"]
FG, FB, FV, FR = "include/Geometry.h ", "include/load_balancing/BoxUtils.h ", "include/load_balancing/VectorOperations.h ", "include/load_balancing/Grid.h "
SHIM = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "shim")
HEAD = '''#include <sstream>
#include <iostream>
#include <numeric>
#include <new>
#include "load_balancing/BoxUtils.h"
#include "load_balancing/Grid.h"
using namespace LoadBalancing;
'''
BOX = '''
typedef dBox<%(D)d, %(P)s> B%(N)s; typedef dVector<%(D)d, %(P)s> V%(N)s; typedef dSphere<%(D)d, %(P)s> S%(N)s;
extern "C" void %(N)s_box(B%(N)s *o, const V%(N)s &l, const V%(N)s &h) { new (o) B%(N)s(l, h); }
extern "C" void %(N)s_low(V%(N)s *o, const B%(N)s &b) { *o = b.low; }
extern "C" void %(N)s_high(V%(N)s *o, const B%(N)s &b) { *o = b.high; }
extern "C" void %(N)s_sphere(S%(N)s *o, const V%(N)s &c, %(P)s r) { o->center = c; o->radius = r; }
extern "C" bool %(N)s_hasp(const B%(N)s &b, const V%(N)s &v) { return b.contains(v); }
extern "C" bool %(N)s_hasb(const B%(N)s &b, const B%(N)s &c) { return b.contains(c); }
extern "C" bool %(N)s_hass(const B%(N)s &b, const S%(N)s &c) { return b.contains(c); }
extern "C" bool %(N)s_meets(const B%(N)s &b, const S%(N)s &c) { return b.intersects(c); }
extern "C" void %(N)s_minus(B%(N)s *o, const B%(N)s &b, const B%(N)s &c) { *o = b - c; }
extern "C" bool %(N)s_eq(const B%(N)s &b, const B%(N)s &c) { return b == c; }
'''
LB = '''
typedef dIndex<%(D)d> I%(N)s; typedef Grid<%(D)d, %(P)s> G%(N)s;
extern "C" void %(N)s_split(B%(N)s *l, B%(N)s *r, const B%(N)s &a, uint d, %(P)s p) { auto t = splitBox(a, d, p); *l = std::get<0>(t); *r = std::get<1>(t); }
extern "C" void %(N)s_grow(B%(N)s &b, const V%(N)s &v) { enlargeBoxAroundVector<%(D)d, %(P)s>(b, v); }
extern "C" void %(N)s_around(B%(N)s *o, const V%(N)s *a, const V%(N)s *b) { *o = makeBoundingBox(std::vector<V%(N)s>::const_iterator(a), std::vector<V%(N)s>::const_iterator(b)); }
extern "C" void %(N)s_vbox(V%(N)s *o, const V%(N)s &v, const B%(N)s &b) { *o = vecToBox<%(D)d, %(P)s>(v, b); }
extern "C" void %(N)s_vbound(V%(N)s *o, const V%(N)s &v, const B%(N)s &b) { *o = vecToBoxBoundary<%(D)d, %(P)s>(v, b); }
extern "C" void %(N)s_plus(V%(N)s *o, const V%(N)s &a, const V%(N)s &b) { *o = a + b; }
extern "C" void %(N)s_sub(V%(N)s *o, const V%(N)s &a, const V%(N)s &b) { *o = a - b; }
extern "C" void %(N)s_neg(V%(N)s *o, const V%(N)s &a) { *o = -a; }
extern "C" void %(N)s_times(V%(N)s *o, const V%(N)s &a, %(P)s f) { *o = a * f; }
extern "C" void %(N)s_ltimes(V%(N)s *o, const V%(N)s &a, %(P)s f) { *o = f * a; }
extern "C" %(P)s %(N)s_dot(const V%(N)s &a, const V%(N)s &b) { return scalarProduct(a, b); }
extern "C" %(P)s %(N)s_len2(const V%(N)s &a) { return lenSquared(a); }
extern "C" %(P)s %(N)s_len(const V%(N)s &a) { return len(a); }
extern "C" %(P)s %(N)s_plane(const V%(N)s &a, const V%(N)s &n, %(P)s o) { return distanceToPlane(a, n, o); }
extern "C" int64_t %(N)s_index(const V%(N)s &v, %(P)s w, uint d) { return G%(N)s(w).indexAt(v)[d]; }
extern "C" void %(N)s_cell(B%(N)s *o, const I%(N)s &i, %(P)s w) { *o = G%(N)s(w).boundsOf(i); }
extern "C" void %(N)s_centre(V%(N)s *o, const I%(N)s &i, %(P)s w) { *o = G%(N)s(w).centerOf(i); }
extern "C" %(P)s %(N)s_diag(%(P)s w) { return G%(N)s(w).diagonalCellLength(); }
extern "C" %(P)s %(N)s_width(%(P)s w) { return G%(N)s(w).cellWidth(); }
extern "C" bool %(N)s_gmeets(const I%(N)s &i, const S%(N)s &s, %(P)s w) { return intersectsWith<%(D)d, %(P)s, int64_t>(G%(N)s(w), s, i); }
'''
OPS = "box low high sphere hasp hasb hass meets minus eq".split()
LOPS = "split grow around vbox vbound plus sub neg times ltimes dot len2 len plane index cell centre diag width gmeets".split()
INST = [("d2", 2, "double", 1), ("d3", 3, "double", 1), ("f2", 2, "float", 0), ("f3", 3, "float", 0)]


class Real:
    """one run of the code on coordinates known only by their names; env gives the order type"""
    def __init__(self, m, n, d, prec):
        self.m, self.n, self.d, self.prec = m, n, d, prec
        self.w, self.ty = (8, "double") if prec == "double" else (4, "float")
        self.env, self.k = {}, 0

    def start(self):
        self.env, self.k = {}, 0

        def oracle(c):
            try:
                return bool(ratl.value(c, self.env) & 1)
            except (KeyError, IndexError, TypeError, ratl.NoValue):
                return None

        def atom(c):
            if c[0] == "x" and c[1].startswith("icmp."):
                try:
                    return num(ratl.value(c, self.env) & 1)
                except (KeyError, IndexError, TypeError, ratl.NoValue):
                    return None
            return None
        self.mc = absx.Machine(self.m, [ratl.maths], oracle, budget=400000, atom=atom)

    def sym(self, v):
        s = ("s", "x%d" % self.k)
        self.k += 1
        self.env[s] = Fraction(v)
        return s

    def vec(self, vs):
        a = self.mc.new(self.w * len(vs))
        for k, v in enumerate(vs):
            self.mc.store(self.mc.st, ("p", a[1], num(self.w * k)), self.sym(v), self.ty)
        return a

    def ints(self, vs):
        a = self.mc.new(8 * len(vs))
        for k, v in enumerate(vs):
            self.mc.store(self.mc.st, ("p", a[1], num(8 * k)), num(v), "i64")
        return a

    def box(self, lo, hi):
        b = self.mc.new()
        self("box", b, self.vec(lo), self.vec(hi))
        return b

    def sphere(self, c, r):
        s = self.mc.new()
        self("sphere", s, self.vec(c), self.sym(r))
        return s

    def __call__(self, op, *a):
        return self.mc.run("%s_%s" % (self.n, op), *a)

    def val(self, t):
        t = self.mc.simp(t)
        if absx.unwritten(t):
            raise Refuted("the result is a value that was never written")
        try:
            return ratl.value(t, self.env)
        except (ratl.NoValue, KeyError, TypeError, IndexError) as e:
            raise Undecided("result %s" % e)

    def truth(self, op, *a):
        return self.val(self(op, *a)) & 1

    def read(self, p):
        return [self.val(self.mc.load(self.mc.st, ("p", p[1], sem.linadd(p[2], num(self.w * k))), self.ty)) for k in range(self.d)]

    def vector(self, op, *a):
        o = self.mc.new(self.w * self.d)
        self(op, o, *a)
        return self.read(o)

    def boxval(self, b):
        return self.vector("low", b), self.vector("high", b)

    def boxop(self, op, *a):
        o = self.mc.new()
        self(op, o, *a)
        return self.boxval(o)


def combos(pool, d, rnd, many):
    """all combinations over dimensions, or a sample in which every value meets every other"""
    al = list(itertools.product(pool, repeat=d))
    if len(al) <= many:
        return al
    out = [tuple(p for _ in range(d)) for p in pool]
    good = rnd.sample(pool, min(3, len(pool)))
    for p in pool:
        for k in range(d):
            for g in good:
                out.append(tuple(p if j == k else g for j in range(d)))
    return out[:many] + rnd.sample(al, max(0, many - len(out)))


def scales(m):
    """magnitudes beside the constants the code compares with"""
    out = {Fraction(1)}
    for f in m.funcs.values():
        for b in f.blocks.values():
            for i in b.ins:
                for a in ir_floats(i):
                    a = abs(a)
                    if a and not Fraction(1, 4) <= a <= 4 and Fraction(1, 1 << 80) < a < 1 << 80:
                        out |= {a, a / 8}
    return sorted(out)[:6]


def ir_floats(i):
    import re
    for x in re.findall(r'(?<![\w%@.])(-?\d\.\d+e[+-]?\d+|0x[0-9A-Fa-f]{16})\b', i.raw or ""):
        try:
            yield ratl.const(("f", x))
        except ratl.NoValue:
            pass


def inside1(r, rnd):
    return [(l, p, h) for l, h in ((1, 3), (2, 2)) for p in range(0, 5)]


def boxes(r, rnd):
    d = r.d
    T = "%dD %s" % (d, r.prec)
    for c in combos(inside1(r, rnd), d, rnd, 110):
        r.start()
        b, p = r.box([x[0] for x in c], [x[2] for x in c]), r.vec([x[1] for x in c])
        yield FG, "dBox::contains(point)", "%s, low/point/high %s" % (T, list(c)), lambda b=b, p=p: r.truth("hasp", b, p), int(all(l <= x <= h for l, x, h in c))
    pool = [(1, 3, l, h) for l in range(0, 5) for h in range(l, 5)] + [(2, 2, 2, 2), (2, 2, 1, 2), (2, 2, 2, 3)]
    for c in combos(pool, d, rnd, 110):
        r.start()
        b, p = r.box([x[0] for x in c], [x[1] for x in c]), r.box([x[2] for x in c], [x[3] for x in c])
        yield FG, "dBox::contains(box)", "%s, low/high and low/high %s" % (T, list(c)), lambda b=b, p=p: r.truth("hasb", b, p), int(all(l <= x and y <= h for l, h, x, y in c))
    for c in combos([(1, 3, 1, 3), (1, 3, 0, 3), (1, 3, 2, 3), (1, 3, 1, 4), (1, 3, 1, 2), (1, 3, 4, 5)], d, rnd, 60):
        r.start()
        b, p = r.box([x[0] for x in c], [x[1] for x in c]), r.box([x[2] for x in c], [x[3] for x in c])
        yield FG, "dBox::operator==", "%s, low/high and low/high %s" % (T, list(c)), lambda b=b, p=p: r.truth("eq", b, p), int(all(x[:2] == x[2:] for x in c))
    if r.n == "f2": return              # returned in registers; 3D float covers it
    # difference: the part of ours that the other one leaves
    for c in combos([(1, 9, 1, 9), (1, 9, 4, 9), (1, 9, 1, 4), (1, 9, 4, 6)], d, rnd, 64):
        lo, hi, ol, oh = ([Fraction(x[j] + 20 * k) for k, x in enumerate(c)] for j in range(4))
        sides = [(k, j) for k in range(d) for j in (0, 1) if c[k][j] != c[k][2 + j]]
        r.start()
        a, b = r.box(lo, hi), r.box(ol, oh)
        if len(sides) == 1:
            k, j = sides[0]
            wl, wh = list(lo), list(hi)
            if j == 0: wh[k] = ol[k]
            else: wl[k] = oh[k]
            want = (wl, wh)
        else:
            want = "throws AssertionException"
        yield FG, "dBox::operator-", "%s, low/high and low/high %s" % (T, list(c)), lambda a=a, b=b: r.boxop("minus", a, b), want


def spheres(r, rnd):
    """box of full order types; radii below, at and above the touching distance"""
    d = r.d
    T = "%dD %s" % (d, r.prec)
    for s in r.scales:
        pool = [Fraction(x) for x in (-9, -3, 0, 1, 3, 4, 6, 7, 10, 14)]
        cs = combos(pool, d, rnd, 70 if s == 1 else 24)
        lo = [Fraction(0), Fraction(-3), Fraction(1)][:d]
        hi = [Fraction(6), Fraction(5), Fraction(7)][:d]
        if d == 2:
            cs += [(Fraction(-3), Fraction(-7)), (Fraction(9), Fraction(9)), (Fraction(-3), Fraction(9)), (Fraction(9), Fraction(-7))]        # corners at distance 5
        else:
            cs += [(Fraction(-3), Fraction(-7), Fraction(4)), (Fraction(9), Fraction(2), Fraction(11)), (Fraction(8), Fraction(-6), Fraction(13))]   # 5, 5, 7
        for c in cs:
            out2 = sum(max(l - x, 0, x - h) ** 2 for l, x, h in zip(lo, c, hi))
            near = min(min(x - l, h - x) for l, x, h in zip(lo, c, hi))
            radii = {Fraction(0), Fraction(1), Fraction(5), Fraction(20)}
            q = ratl.isqrt(int(out2))
            if q is not None:
                radii |= {Fraction(q), Fraction(q) + Fraction(1, 8)} | ({Fraction(q) - Fraction(1, 8)} if q else set())
            for e in (max(l - x, 0, x - h) for l, x, h in zip(lo, c, hi)):
                radii |= {Fraction(e)}
            if near >= 0:
                radii |= {near, near + Fraction(1, 8)} | ({near - Fraction(1, 8)} if near else set())
            for rad in sorted(radii if d == 2 or c in cs[-3:] else rnd.sample(sorted(radii), min(4, len(radii)))):
                L, H, C, R = [x * s for x in lo], [x * s for x in hi], [x * s for x in c], rad * s
                what = "%s, box %s to %s, centre %s, radius %s" % (T, *("(" + ", ".join(str(x) for x in v) + ")" for v in (L, H, C)), R)
                r.start()
                b, p = r.box(L, H), r.sphere(C, R)
                yield FG, "dBox::intersects(sphere)", what, lambda b=b, p=p: r.truth("meets", b, p), int(out2 <= rad * rad)
                r.start()
                b, p = r.box(L, H), r.sphere(C, R)
                yield FG, "dBox::contains(sphere)", what, lambda b=b, p=p: r.truth("hass", b, p), int(near >= rad)


def utils(r, rnd):
    d = r.d
    T = "%dD %s" % (d, r.prec)
    V = lambda v: "(" + ", ".join(str(x) for x in v) + ")"
    for k in range(d):
        for pos in (1, 2, 5, 8, 9, 11):
            lo, hi = [Fraction(1 + 20 * j) for j in range(d)], [Fraction(9 + 20 * j) for j in range(d)]
            p = Fraction(pos + 20 * k)

            def go(lo=lo, hi=hi, k=k, p=p):
                r.start()
                a, l, q = r.box(lo, hi), r.mc.new(), r.mc.new()
                r("split", l, q, a, num(k), r.sym(p))
                return r.boxval(l), r.boxval(q)
            cut = lambda v: [p if j == k else x for j, x in enumerate(v)]
            yield FB, "splitBox", "%s, dimension %d" % (T, k), go, ((lo, cut(hi)), (cut(lo), hi))
    for c in combos(inside1(r, rnd), d, rnd, 80):
        lo, p, hi = ([Fraction(x[j]) for x in c] for j in range(3))

        def go(lo=lo, p=p, hi=hi):
            r.start()
            b = r.box(lo, hi)
            r("grow", b, r.vec(p))
            return r.boxval(b)
        yield FB, "enlargeBoxAroundVector", "%s, low/point/high %s" % (T, list(c)), go, ([min(a, b) for a, b in zip(lo, p)], [max(a, b) for a, b in zip(hi, p)])
    for n in range(1, 5):
        for perm in list(itertools.permutations(range(n)))[:24]:
            pts = [[Fraction(perm[(j + k) % n]) for k in range(d)] for j in range(n)]

            def go(pts=pts, n=n):
                r.start()
                a = r.vec([x for p in pts for x in p])
                return r.boxop("around", a, ("p", a[1], num(r.w * d * n)))
            yield FB, "makeBoundingBox", "%s, %d points" % (T, n), go, ([Fraction(min(p[k] for p in pts)) for k in range(d)], [Fraction(max(p[k] for p in pts)) for k in range(d)])
    pool = [Fraction(x) for x in (-9, -3, -2, -1, 0, 1, 2, 3, 5, 9)]
    for c in combos(pool, d, rnd, 90):
        # box around (1, 2, 3) with half widths 2, 3, 4
        mid, half = [Fraction(1 + k) for k in range(d)], [Fraction(2 + k) for k in range(d)]
        lo, hi, v = [a - b for a, b in zip(mid, half)], [a + b for a, b in zip(mid, half)], [a + b for a, b in zip(mid, c)]
        dist = [abs(x) - h for x, h in zip(c, half)]
        want = [max(x, Fraction(0)) for x in dist]
        yield FB, "vecToBox", "%s, box %s to %s, vector %s" % (T, V(lo), V(hi), V(v)), lambda lo=lo, hi=hi, v=v: (r.start(), r.vector("vbox", r.vec(v), r.box(lo, hi)))[1], want
        if not any(want):
            j = dist.index(max(dist))
            if dist.count(max(dist)) > 1 and max(dist) != 0:
                ok = [[x if i == k else Fraction(0) for i in range(d)] for k, x in enumerate(dist) if x == max(dist)]
            else:
                ok = [[dist[j] if i == j else Fraction(0) for i in range(d)]]
        else:
            ok = [want]

        def go(lo=lo, hi=hi, v=v, ok=ok):
            r.start()
            g = r.vector("vbound", r.vec(v), r.box(lo, hi))
            return ok[0] if g in ok else g
        yield FB, "vecToBoxBoundary", "%s, box %s to %s, vector %s" % (T, V(lo), V(hi), V(v)), go, ok[0]
    for t in range(8):
        a, b = ([Fraction(rnd.randint(-40, 40), rnd.choice((1, 2, 3))) for _ in range(d)] for _ in range(2))
        if t == 7: b = [Fraction(0)] * d
        f = Fraction(rnd.randint(-9, 9), 4)
        A = lambda: (r.start(), r.vec(a))[1]
        for name, op, go, want in [
                ("operator+", "plus", lambda a=a, b=b: (r.start(), r.vector("plus", r.vec(a), r.vec(b)))[1], [x + y for x, y in zip(a, b)]),
                ("operator-", "sub", lambda a=a, b=b: (r.start(), r.vector("sub", r.vec(a), r.vec(b)))[1], [x - y for x, y in zip(a, b)]),
                ("operator-", "neg", lambda a=a: (r.start(), r.vector("neg", r.vec(a)))[1], [-x for x in a]),
                ("operator*", "times", lambda a=a, f=f: (r.start(), r.vector("times", r.vec(a), r.sym(f)))[1], [x * f for x in a]),
                ("operator*", "ltimes", lambda a=a, f=f: (r.start(), r.vector("ltimes", r.vec(a), r.sym(f)))[1], [x * f for x in a]),
                ("scalarProduct", "dot", lambda a=a, b=b: (r.start(), r.val(r("dot", r.vec(a), r.vec(b))))[1], sum(x * y for x, y in zip(a, b))),
                ("lenSquared", "len2", lambda a=a: (r.start(), r.val(r("len2", r.vec(a))))[1], sum(x * x for x in a)),
                ("distanceToPlane", "plane", lambda a=a, b=b, f=f: (r.start(), r.val(r("plane", r.vec(a), r.vec(b), r.sym(f))))[1], sum(x * y for x, y in zip(a, b)) - f)]:
            yield FV, name, T, go, want
    for a, l in (([3, -4, 0], 5), ([-6, 8, 0], 10), ([0, 0, 0], 0), ([5, 12, 0], 13)) + ((([2, 3, 6], 7), ([1, -4, 8], 9)) if d == 3 else ()):
        yield FV, "len", T, lambda a=a: (r.start(), r.val(r("len", r.vec([Fraction(x) for x in a[:d]]))))[1], Fraction(l)


def grids(r, rnd):
    d = r.d
    T = "%dD %s" % (d, r.prec)
    V = lambda v: "(" + ", ".join(str(x) for x in v) + ")"
    xs = [Fraction(x, 4) for x in (-9, -8, -7, -4, -3, -1, 0, 1, 3, 4, 5, 8, 39, 40, 41)]
    for w in (Fraction(1), Fraction(1, 2), Fraction(3), Fraction(5, 2)):
        for c in combos(xs, d, rnd, 22):
            v = [x * w for x in c]
            idx = [int(x // 1) for x in c]
            for k in range(d):
                yield FR, "Grid::indexAt", "%s, cell width %s, point %s" % (T, w, V(v)), lambda v=v, w=w, k=k: signed((r.start(), r.val(r("index", r.vec(v), r.sym(w), num(k))))[1]), idx[k]
            yield FR, "Grid::boundsOf", "%s, cell width %s, cell %s" % (T, w, V(idx)), lambda w=w, idx=idx: (r.start(), r.boxop("cell", r.ints(idx), r.sym(w)))[1], ([i * w for i in idx], [(i + 1) * w for i in idx])
            yield FR, "Grid::centerOf", "%s, cell width %s, cell %s" % (T, w, V(idx)), lambda w=w, idx=idx: (r.start(), r.vector("centre", r.ints(idx), r.sym(w)))[1], [i * w + w / 2 for i in idx]
        yield FR, "Grid::cellWidth", "%s, cell width %s" % (T, w), lambda w=w: (r.start(), r.val(r("width", r.sym(w))))[1], w

        def diag(w=w):
            r.start()
            a, b = r.val(r("diag", r.sym(w))), float(w) * float(d) ** .5
            return b if abs(a - b) <= 1e-9 * b else float(a)
        yield FR, "Grid::diagonalCellLength", "%s, cell width %s" % (T, w), diag, float(w) * float(d) ** .5
    for w in (Fraction(2), Fraction(1, 2)):
        idx = [-1, 0, 3][:d]
        for c in combos([Fraction(x) for x in (-8, -2, -1, 0, 1, 2, 3, 5, 6, 12)], d, rnd, 60):
            out2 = sum(max(i * w - x, 0, x - (i + 1) * w) ** 2 for i, x in zip(idx, c))
            radii = {Fraction(0), Fraction(1), Fraction(5), Fraction(20)}
            n, q = ratl.isqrt(out2.numerator), ratl.isqrt(out2.denominator)
            if n is not None and q is not None:
                radii |= {Fraction(n, q), Fraction(n, q) + Fraction(1, 8)}
            for rad in sorted(radii):
                def go(c=c, rad=rad, w=w):
                    r.start()
                    return r.truth("gmeets", r.ints(idx), r.sphere(c, rad), r.sym(w))
                yield FR, "intersectsWith", "%s, cell width %s, cell %s, centre %s, radius %s" % (T, w, V(idx), V(c), rad), go, int(out2 <= rad * rad)


def run(ctx, gens, r, rnd, said):
    for gen in gens:
        for file, name, what, go, want in gen(r, rnd):
            ctx.count(gen.__name__)
            try:
                got = go()
            except Undecided as e:
                ctx.count("undecided")
                if said_undecided.setdefault(name, 0) < 3: said_undecided[name] += 1; ctx.notes.append("%s: %s" % (name, e))
                continue
            except Refuted as e:
                got = str(e)
            except absx.Thrown as e:
                got = "throws " + e.what
            if isinstance(want, str) and want.startswith("throws ") and isinstance(got, str) and got.startswith("throws "):
                if want[7:] in got: got = want
            if got != want and name not in said:
                said.add(name)
                ctx.viol(name, "%s%s: %s instead of %s (%s)" % (file, name, show(got), show(want), what))


def signed(v):
    v = int(v) % (1 << 64)
    return v - (1 << 64) if v >> 63 else v


def show(x):
    if isinstance(x, (list, tuple)): return "(" + ", ".join(show(y) for y in x) + ")"
    return str(x)


def check(ctx):
    src = HEAD + "".join(BOX % {"N": n, "D": d, "P": p} + (LB % {"N": n, "D": d, "P": p} if lb else "") for n, d, p, lb in INST)
    m = cxx.build(ctx, "c15", src, ["%s_%s" % (n, o) for n, _, _, lb in INST for o in OPS + (LOPS if lb else [])], ["-I" + SHIM], recursive=True)
    ctx.notes += m.repo_funcs
    said = set()
    for n, d, p, lb in INST:
        r = Real(m, n, d, p)
        r.scales = scales(m)
        run(ctx, [boxes, spheres] + ([utils, grids] if lb else []), r, random.Random(3), said)
