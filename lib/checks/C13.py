import itertools, os, random
from fractions import Fraction
import cxx, sem, absx, ratl
from sem import num
from unf import Undecided, Refuted

LEVEL = "other"
EXPLANATION = ("Abstract interpretation of the simplex and point operations over order types: vertices are opaque identifiers of which only the "
               "relative order and finiteness are known, and every way in which two sorted vertex lists (2D and 3D) can interleave is followed; results "
               "must be those of the sets of vertices. Fingerprints are closed terms in the identifiers, evaluated at all residues that decide their "
               "shape: equal vertex sets and shared faces must agree. Distances are compared as polynomials.")
ASSUMPTIONS = ["vertices of a simplex are sorted and distinct (sortVertices, triangulator)", "real arithmetic for squared distances"]
F = "include/Geometry.h "
SHIM = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "shim")
HEAD = '''#include <sstream>
#include <iostream>
#include <new>
#include "Geometry.h"
'''
TEMPLATE = '''
typedef dSimplex<%(D)d, %(P)s> S%(N)s; typedef dPoint<%(D)d, %(P)s> P%(N)s; typedef std::array<tIdType, %(D)d + 1> A%(N)s; typedef dPoints<%(D)d, %(P)s> Q%(N)s;
extern "C" void %(N)s_new(S%(N)s *s) { new (s) S%(N)s(); }
extern "C" void %(N)s_newv(S%(N)s *s, const A%(N)s &v) { new (s) S%(N)s(v); }
extern "C" void %(N)s_newn(S%(N)s *s, tIdType id, const A%(N)s &v, const A%(N)s &n) { new (s) S%(N)s(id, v, n); }
extern "C" tIdType %(N)s_id(const S%(N)s &s) { return s.id; }
extern "C" tIdType %(N)s_v(const S%(N)s &s, unsigned i) { return s.vertices[i]; }
extern "C" tIdType %(N)s_n(const S%(N)s &s, unsigned i) { return s.neighbors[i]; }
extern "C" void %(N)s_setfp(S%(N)s &s, tHashType h) { s.vFingerprint = h; }
extern "C" void %(N)s_setid(S%(N)s &s, tIdType id) { s.id = id; }
extern "C" bool %(N)s_eq(const S%(N)s &a, const S%(N)s &b) { return a == b; }
extern "C" bool %(N)s_lt(const S%(N)s &a, const S%(N)s &b) { return a < b; }
extern "C" bool %(N)s_eqid(const S%(N)s &a, tIdType b) { return a == b; }
extern "C" bool %(N)s_eqv(const S%(N)s &a, const S%(N)s &b) { return a.equalVertices(b); }
extern "C" bool %(N)s_eqn(const S%(N)s &a, const S%(N)s &b) { return a.equalNeighbors(b); }
extern "C" unsigned %(N)s_shared(const S%(N)s &a, const S%(N)s &b) { return a.countSharedVertices(b); }
extern "C" bool %(N)s_nb(const S%(N)s &a, const S%(N)s &b) { return a.isNeighbor(b); }
extern "C" bool %(N)s_has(const S%(N)s &a, tIdType p) { return a.contains(p); }
extern "C" bool %(N)s_all(const S%(N)s &a, const std::array<tIdType, 2> &p) { return a.containsAll(p); }
extern "C" bool %(N)s_any(const S%(N)s &a, const std::array<tIdType, 2> &p) { return a.containsAny(p); }
extern "C" bool %(N)s_fin(const S%(N)s &a) { return a.isFinite(); }
extern "C" void %(N)s_sort(S%(N)s &a) { a.sortVertices(); }
extern "C" tHashType %(N)s_gen(S%(N)s &a) { return a.genFingerprint(); }
extern "C" tHashType %(N)s_fp(const S%(N)s &a) { return a.fingerprint(); }
extern "C" tHashType %(N)s_face(const S%(N)s &a, unsigned i) { return a.faceFingerprint(i); }
extern "C" bool %(N)s_sfin(tIdType i) { return S%(N)s::isFinite(i); }
extern "C" bool %(N)s_pfin(tIdType i) { return P%(N)s::isFinite(i); }
extern "C" tIdType %(N)s_pinf(tIdType i) { return P%(N)s::infIndex(i); }
extern "C" tIdType %(N)s_ninf() { return P%(N)s::nINF; }
extern "C" tIdType %(N)s_cinf() { return P%(N)s::cINF; }
extern "C" %(P)s %(N)s_dist(const P%(N)s &a, const P%(N)s &b) { return a.sqDistance(b); }
extern "C" void %(N)s_pts(Q%(N)s *q) { new (q) Q%(N)s(); }
extern "C" void %(N)s_ptsoff(Q%(N)s &q, std::size_t o) { q.offset(o); }
extern "C" void %(N)s_ptsadd(Q%(N)s &q, const P%(N)s &p) { q.emplace_back(p); }
extern "C" bool %(N)s_ptshas(const Q%(N)s &q, tIdType i) { return q.contains(i); }
extern "C" const P%(N)s *%(N)s_ptsat(const Q%(N)s &q, tIdType i) { return &q[i]; }
extern "C" tIdType %(N)s_ptsfirst(const Q%(N)s &q) { return q.range().begin(); }
extern "C" tIdType %(N)s_ptslast(const Q%(N)s &q) { return q.range().end(); }
extern "C" tIdType %(N)s_ptssize(const Q%(N)s &q) { return q.size(); }
extern "C" void %(N)s_ptsres(Q%(N)s &q, tIdType n) { q.reserveUpToIdx(n); }
extern "C" tIdType %(N)s_near(const S%(N)s &s, const P%(N)s &p, const Q%(N)s &q) { return s.findNearestVertex(p, q); }
'''
OPS = "new newv newn id v n setfp setid eq lt eqid eqv eqn shared nb has all any fin sort gen fp face sfin pfin pinf ninf cinf dist pts ptsoff ptsadd ptshas ptsat ptsfirst ptslast ptssize ptsres near".split()
INST = [("d2", 2, "double"), ("d3", 3, "double"), ("f3", 3, "float")]
NONE = -1                       # cINF of simplices


class Run:
    def __init__(self, ctx, m, n, d, prec):
        self.ctx, self.m, self.n, self.d, self.prec = ctx, m, n, d, prec
        self.env = {}

    def machine(self, env):
        def atom(c):
            if c[0] == "x" and c[1].startswith("icmp."):
                try:
                    return num(sem.evaluate(c, env) & 1)
                except (KeyError, IndexError, TypeError):
                    return None
            return None

        def oracle(c):
            try:
                return bool(ratl.value(c, env) & 1)
            except (KeyError, IndexError, TypeError, ratl.NoValue):
                return None
        mc = absx.Machine(self.m, [ratl.maths], oracle, budget=200000, atom=atom)
        self.mc = mc
        self.env = env
        return mc

    def array(self, terms):
        a = self.mc.new(8 * len(terms))
        for k, t in enumerate(terms):
            self.mc.store(self.mc.st, ("p", a[1], num(8 * k)), t, "i64")
        return a

    def simplex(self, verts, ident=None, neigh=None):
        s = self.mc.new()
        if ident is None:
            self("newv", s, self.array(verts))
        else:
            self("newn", s, ident, self.array(verts), self.array(neigh or [num(NONE)] * len(verts)))
        return s

    def point(self, xs):
        p = self.mc.new()
        w, t = (8, "double") if self.prec == "double" else (4, "float")
        for k, x in enumerate(xs):
            self.mc.store(self.mc.st, ("p", p[1], num(w * k)), x, t)
        return p

    def __call__(self, op, *a):
        return self.mc.run("%s_%s" % (self.n, op), *a)

    def value(self, op, *a):
        return self.conc(self(op, *a))

    def conc(self, t):
        t = self.mc.simp(t)
        try:
            return sem.evaluate(t, self.env)
        except KeyError:
            if absx.unwritten(t):
                raise Refuted("the result is a value that was never written")
            raise Undecided("result " + sem.show(t)[:80])


def interleavings(n):
    """all order types of two strictly ascending lists of n: pairs of rank lists"""
    def rec(i, j, r, a, b):
        if i == n and j == n:
            yield tuple(a), tuple(b)
            return
        if i < n: yield from rec(i + 1, j, r + 1, a + [r], b)
        if j < n: yield from rec(i, j + 1, r + 1, a, b + [r])
        if i < n and j < n: yield from rec(i + 1, j + 1, r + 1, a + [r], b + [r])
    return list(rec(0, 0, 1, [], []))


def far(ranks):
    """identifiers in this order that agree in the low half and lie on both sides of the sign"""
    return tuple((r << 32) | (1 << 63 if r > 2 else 0) for r in ranks)


def syms(pre, vals, env):
    out = []
    for k, v in enumerate(vals):
        s = ("s", pre + str(k))
        env[s] = sem.wrap(v, 64)
        out.append(s)
    return out


def pairs(r):
    """relations between two simplices"""
    n = r.d + 1
    for a, b in [(x, y) for a, b in interleavings(n) for x, y in ((a, b), (far(a), far(b)))]:
        env = {}
        va, vb = syms("a", a, env), syms("b", b, env)
        common = len(set(a) & set(b))
        what = "%dD, vertices %s and %s" % (r.d, [hex(x) for x in a], [hex(x) for x in b])

        def fresh(ida=1, idb=2, fa=11, fb=None):
            r.machine(env)
            x, y = r.simplex(va, num(ida)), r.simplex(vb, num(idb))
            r("setfp", x, num(fa))
            r("setfp", y, num(fa if fb is None else fb))
            return x, y
        same = 2 if common < n else 1
        for op, want in (("shared", common), ("nb", int(common == r.d))):
            x, y = fresh(1, same)
            yield "dSimplex::" + {"shared": "countSharedVertices", "nb": "isNeighbor"}[op], what, lambda op=op, x=x, y=y: r.value(op, x, y), want
        x, y = fresh()
        yield "dSimplex::equalVertices", what + ", equal fingerprints", lambda x=x, y=y: r.value("eqv", x, y), int(a == b)
        if a != b:
            x, y = fresh(fb=12)
            yield "dSimplex::equalVertices", what + ", different fingerprints", lambda x=x, y=y: r.value("eqv", x, y), 0
        for ida, idb in ((5, 5), (5, 6), (NONE, 6), (5, NONE)):
            x, y = fresh(ida, idb)
            want = int(a == b) if (ida == NONE) != (idb == NONE) else int(ida == idb)
            yield "dSimplex::operator==", what + ", ids %d and %d" % (ida, idb), lambda x=x, y=y: r.value("eq", x, y), want
        x, y = fresh()
        if a == b:
            continue


def single(r):
    n = r.d + 1
    inf = (1 << 64) - (1 << r.d)
    for k in range(n + 1):                      # infinite vertices, at the end of the sorted list
        for firstinf in (inf, inf + 1):
            if firstinf == inf + 1 and k + 1 > (1 << r.d):
                continue
            vals = [10 * (j + 1) for j in range(n - k)] + [firstinf + j for j in range(k)]
            if k == 0:
                vals[-1] = inf - 1 if firstinf > inf else vals[-1]
            env = {}
            v = syms("v", vals, env)
            r.machine(env)
            s = r.simplex(v, num(1))
            yield "dSimplex::isFinite", "%dD with %d vertices at infinity" % (r.d, k), lambda s=s: r.value("fin", s), int(k == 0)
            cand = sorted({x + o for x in vals for o in (-1, 0, 1)} | {1, inf - 1, inf})
            for c in cand:
                if c >= 1 << 64: continue
                env = dict(env)
                env[("s", "p")] = sem.wrap(c, 64)
                r.machine(env)
                s = r.simplex(v, num(1))
                yield "dSimplex::contains", "%dD, %d infinite, identifier %s" % (r.d, k, hex(c)), lambda s=s: r.value("has", s, ("s", "p")), int(c in vals)
            some = vals[:1] + vals[-1:] + [vals[1]] + [7, inf + (1 << r.d) - 1]
            for c, e in itertools.product(some, repeat=2):
                env = dict(env)
                env[("s", "p")], env[("s", "q")] = sem.wrap(c, 64), sem.wrap(e, 64)
                for op in ("all", "any"):
                    r.machine(env)
                    s = r.simplex(v, num(1))
                    l = r.array([("s", "p"), ("s", "q")])
                    yield "dSimplex::contains" + op.capitalize(), "%dD, %d infinite" % (r.d, k), lambda s=s, op=op, l=l: r.value(op, s, l), int((all if op == "all" else any)(x in vals for x in (c, e)))
    for perm in itertools.permutations(range(n)):
        env = {}
        v = syms("v", [10 * (p + 1) for p in perm], env)
        r.machine(env)
        nb = [("s", "n%d" % k) for k in range(n)]
        s = r.simplex(v, num(1), nb)

        def go(s=s, v=v, nb=nb):
            r("sort", s)
            return [(r("v", s, num(k)), r("n", s, num(k))) for k in range(n)]
        yield "dSimplex::sortVertices", "%dD, vertices ordered %s" % (r.d, list(perm)), go, [(v[perm.index(k)], nb[perm.index(k)]) for k in range(n)]
    for ia, ib in itertools.product((0, 1, 7, 1 << 40, NONE), repeat=2):
        r.machine({})
        x, y = (r.simplex([num(1 + k) for k in range(n)], num(i)) for i in (ia, ib))
        yield "dSimplex::operator<", "ids %d and %d" % (ia, ib), lambda x=x, y=y: r.value("lt", x, y), int(ia % (1 << 64) < ib % (1 << 64))
        yield "dSimplex::operator==", "id %d with identifier %d" % (ia, ib), lambda x=x, ib=ib: r.value("eqid", x, num(ib)), int(ia == ib)
        yield "dSimplex::isFinite(id)", "id %d" % ia, lambda ia=ia: r.value("sfin", num(ia)), int(ia != NONE)
    for diff in range(-1, n):
        r.machine({})
        nbs = [num(20 + k) for k in range(n)]
        x = r.simplex([num(1 + k) for k in range(n)], num(1), nbs)
        y = r.simplex([num(1 + k) for k in range(n)], num(2), [num(99) if k == diff else t for k, t in enumerate(nbs)])
        yield "dSimplex::equalNeighbors", "neighbors " + ("equal" if diff < 0 else "different at %d" % diff), lambda x=x, y=y: r.value("eqn", x, y), int(diff < 0)
    r.machine({})
    s, t = r.mc.new(), r.simplex([("s", "v%d" % k) for k in range(n)])
    r("new", s)
    yield "dSimplex::dSimplex", "default", lambda s=s: r.value("id", s), NONE
    yield "dSimplex::dSimplex", "from vertices", lambda t=t: [r.value("id", t)] + [r("v", t, num(k)) for k in range(n)], [NONE] + [("s", "v%d" % k) for k in range(n)]
    t = r.simplex([("s", "v%d" % k) for k in range(n)], ("s", "id"), [("s", "n%d" % k) for k in range(n)])
    yield "dSimplex::dSimplex", "from id, vertices and neighbors", lambda t=t: [r("id", t)] + [r("v", t, num(k)) for k in range(n)] + [r("n", t, num(k)) for k in range(n)], [("s", "id")] + [("s", "v%d" % k) for k in range(n)] + [("s", "n%d" % k) for k in range(n)]


def points(r):
    d = r.d
    inf = (1 << 64) - (1 << d)
    r.machine({})
    yield "dPoint::nINF", "%dD" % d, lambda: r.value("ninf"), 1 << d
    for i in [0, 1, 2, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, inf - 2, inf - 1, (1 << 64) - (1 << (d + 1))] + list(range(inf, 1 << 64)):
        if i >= 1 << 64: continue
        yield "dPoint::isFinite", "%dD, identifier %s" % (d, hex(i)), lambda i=i: r.value("pfin", num(sem.wrap(i, 64))), int(i < inf)
        if i >= inf:
            yield "dPoint::infIndex", "%dD, identifier %s" % (d, hex(i)), lambda i=i: r.value("pinf", num(sem.wrap(i, 64))), i - inf

    def dist():
        env = {}
        r.machine(env)
        p, q = r.point([("s", "x%d" % k) for k in range(d)]), r.point([("s", "y%d" % k) for k in range(d)])
        t = r("dist", p, q)
        rnd = random.Random(5)
        for _ in range(12):
            e = {("s", c + str(k)): Fraction(rnd.randint(-99, 99), rnd.choice((1, 2, 3, 7))) for c in "xy" for k in range(d)}
            try:
                g = ratl.value(t, e)
            except ratl.NoValue as x:
                raise Undecided(str(x))
            if g != sum((e["s", "x%d" % k] - e["s", "y%d" % k]) ** 2 for k in range(d)):
                return "another polynomial: " + sem.show(t)[:100]
        return "squared distance"
    yield "dPoint::sqDistance", "%dD" % d, dist, "squared distance"

    def f(x):
        return ("f", repr(float(x)))
    for off in (0, 40):
        r.machine({})
        q = r.mc.new()
        r("pts", q)
        for k in range(5):
            r("ptsadd", q, r.point([f(8 * k + j) for j in range(d)]))
        r("ptsoff", q, num(off))
        for i, want in [(off, 0), (off + 1, 1), (off + 5, 1), (off + 6, 0), (off + 7, 0), (1 << 40, 0)] + ([(off - 1, 0), (1, 0), (0, 0)] if off else []) + [(x, 1) for x in range(inf, 1 << 64)] + [(inf - 1, 0)]:
            yield "dPoints::contains", "%dD, five points from %d on, identifier %s" % (d, off + 1, hex(i)), lambda q=q, i=i: r.value("ptshas", q, num(sem.wrap(i, 64))), want
        yield "dPoints::range", "%dD, five points from %d on" % (d, off + 1), lambda q=q: (r.value("ptsfirst", q), r.value("ptslast", q)), (off + 1, off + 6)
        yield "dPoints::size", "%dD, five points" % d, lambda q=q: r.value("ptssize", q) - 5, (1 << d) + 1
        for i in [off + 1 + k for k in range(5)]:
            def at(q=q, i=i, off=off):
                a = r("ptsat", q, num(i))
                t = "double" if r.prec == "double" else "float"
                return [r.mc.load(r.mc.st, ("p", a[1], sem.linadd(a[2], num((8 if t == "double" else 4) * j))), t) for j in range(d)]
            yield "dPoints::operator[]", "%dD, point %d from offset %d" % (d, i - off, off), at, [f(8 * (i - off - 1) + j) for j in range(d)]

        def places(q=q):
            a = [r("ptsat", q, num(sem.wrap(i, 64))) for i in range(inf, 1 << 64)] + [r("ptsat", q, num(off + 1 + k)) for k in range(5)]
            return len({(x[1], x[2]) for x in a})
        yield "dPoints::operator[]", "%dD, places of finite and infinite points" % d, places, (1 << d) + 5
        for i in (off + 6, off + 7) + ((off - 1,) if off else ()):
            def out(q=q, i=i):
                try:
                    r("ptsat", q, num(i))
                except absx.Thrown:
                    return "refused"
                return "accepted"
            yield "dPoints::operator[]", "%dD, identifier %d outside" % (d, i), out, "refused"
        for upto, want in ((off + 9, 9), (off + 6, 6), (off + 2, 6)):
            def reserve(q=q, upto=upto):
                r("ptsres", q, num(upto))
                t = "double" if r.prec == "double" else "float"
                a = r("ptsat", q, num(off + 5))
                return r.value("ptssize", q) - (1 << d), r.mc.load(r.mc.st, a, t)
            yield "dPoints::reserveUpToIdx", "%dD, six entries from %d on, up to %d" % (d, off, upto), reserve, (max(want, 6 if upto < off + 9 else 9), f(32))
            break
    # the nearest vertex: the query is the origin, point k lies at distance rank[k]
    n = d + 1
    for ranks in itertools.product(range(min(n, 3)), repeat=n):
        if d == 3 and sum(ranks) % 3: continue

        for big in (1, 2.0 ** -60, 2.0 ** (100 if r.prec == 'double' else 50)):
          def near(ranks=ranks, big=big):
              r.machine({})
              q = r.mc.new()
              r("pts", q)
              for k in range(n):
                  r("ptsadd", q, r.point([f(big * (1 + ranks[k]) * (1 if (k + j) % 2 else -1) if j == k % d else 0) for j in range(d)]))
              s = r.simplex([num(1 + k) for k in range(n)], num(1))
              v = r.value("near", s, r.point([f(0)] * d), q)
              return 1 <= v <= n and ranks[v - 1] == min(ranks)
          yield "dSimplex::findNearestVertex", "%dD, distances ordered %s" % (d, list(ranks)), near, True


def fingerprints(r):
    """closed terms of the fingerprints, evaluated for identifiers with all rotation amounts"""
    n = r.d + 1
    rnd, cases = random.Random(9), []
    base = [0, 1, 2, 3, 31, 32, 33, 63, 64, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 5 << 33, (1 << 63) + 7] + [(1 << 64) - (1 << r.d) + k for k in range(1 << r.d)] + list(range(96, 128))
    # the hashes of the last vertices cancel
    for vals in [[3, 7, 7 + (1 << 32), 9], [0, 1 << 32, 40, 41]] if n == 3 else [[3, 0, 7, 7 + (1 << 32), 9], [8, 1 << 32, 40, 40 + (3 << 32), 41]]:
        cases.append(vals)
    for trial in range(len(base) + 10):
        cases.append([base[trial % len(base)]] + rnd.sample([b for b in base if b != base[trial % len(base)]], n))
    for vals in cases:
        vs = sorted(vals[:n])
        what = "%dD, vertices %s" % (r.d, [hex(v) for v in vs])

        def gen(v):
            s = r.simplex([num(sem.wrap(x, 64)) for x in v], num(1))
            return s, r.value("gen", s)

        def order(vs=vs):
            r.machine({})
            s, h = gen(vs)
            if r.value("fp", s) != h:
                return "fingerprint() is not the generated one"
            for p in (list(reversed(vs)), vs[1:] + vs[:1]):
                if gen(p)[1] != h:
                    return "depends on the order of the vertices"
            return "a function of the set of vertices"
        yield "dSimplex::genFingerprint", what, order, "a function of the set of vertices"
        other = sorted(vs[1:] + [vals[n]])

        def faces(vs=vs, other=other):
            r.machine({})
            (s, _), (t, _) = gen(vs), gen(other)
            g = r.value("face", s, num(vs.index(next(v for v in vs if v not in other))))
            h = r.value("face", t, num(other.index(next(v for v in other if v not in vs))))
            zero = [k for k in range(n) if r.value("face", s, num(k)) == 0]
            if zero:
                return "zero for face %d" % zero[0]
            return "equal" if g == h else "different for the face both share"
        yield "dSimplex::faceFingerprint", what + " and %s" % [hex(v) for v in other], faces, "equal"


def check(ctx):
    src = HEAD + "".join(TEMPLATE % {"N": n, "D": d, "P": p} for n, d, p in INST)
    m = cxx.build(ctx, "c13", src, ["%s_%s" % (n, o) for n, _, _ in INST for o in OPS], ["-I" + SHIM], recursive=True)
    ctx.notes += m.repo_funcs
    said = set()
    for n, d, p in INST:
        r = Run(ctx, m, n, d, p)
        for gen in (pairs, single, points, fingerprints):
            if n == "f3" and gen in (pairs, fingerprints):
                continue
            it = gen(r)
            while True:
                name = "simplices"
                try:
                    x = next(it, None)
                    if x is None:
                        break
                    name, what, go, want = x
                    ctx.count(gen.__name__)
                    got = go()
                except Undecided as e:
                    ctx.count("undecided")
                    ctx.notes.append("%s: %s" % (name, e))
                    if x is None or name == "simplices":
                        break
                    continue
                except Refuted as e:
                    got, what = str(e), what if name != "simplices" else ""
                except absx.Thrown as e:
                    got = "throws " + e.what
                if name == "simplices":
                    ctx.viol("setup", F + "%s" % got)
                    break
                if got != want and name not in said:
                    said.add(name)
                    ctx.viol(name, F + "%s: %s instead of %s (%s)" % (name, got, want, what))
