import itertools, os, random, re
from fractions import Fraction
import cxx, sem, absx, ratl
from sem import num
from unf import Undecided, Refuted

LEVEL = "other"
said_undecided = {}
EXPLANATION = ("Abstract interpretation of the geometric operations of a simplex with real-valued symbols as coordinates: the exact predicates are opaque functions "
               "whose arguments are traced back to the points (the in-sphere test is decided for every pair of signs and magnitudes of what they return, in the "
               "precision of the code), distances, containment and circumspheres are terms over the coordinates compared with the definition as rational functions.")
ASSUMPTIONS = ["the predicates have the right sign (C01, C02)", "real arithmetic outside the in-sphere test", "simplices are not degenerate"]
FH, FC = "include/Geometry.h ", "src/lib/Geometry.cpp "
SHIM = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "shim")
HEAD = '''#include <sstream>
#include <iostream>
#include <new>
#include "%s/src/lib/Geometry.cpp"
'''
TEMPLATE = '''
typedef dSimplex<%(D)d, %(P)s> S%(N)s; typedef dPoint<%(D)d, %(P)s> P%(N)s; typedef std::array<tIdType, %(D)d + 1> A%(N)s; typedef dPoints<%(D)d, %(P)s> Q%(N)s;
extern "C" void %(N)s_newv(S%(N)s *s, const A%(N)s &v) { new (s) S%(N)s(v); }
extern "C" void %(N)s_pts(Q%(N)s *q) { new (q) Q%(N)s(); }
extern "C" void %(N)s_ptsadd(Q%(N)s &q, const P%(N)s &p) { q.emplace_back(p); }
extern "C" %(P)s %(N)s_orient(const S%(N)s &s, const Q%(N)s &q) { return s.orientation(q); }
extern "C" bool %(N)s_in(const S%(N)s &s, const P%(N)s &p, const Q%(N)s &q) { return s.inSimplex(p, q); }
extern "C" bool %(N)s_inball(const S%(N)s &s, const P%(N)s &p, const Q%(N)s &q) { return s.inSphere(p, q); }
extern "C" %(P)s %(N)s_dist(const S%(N)s &s, uint d, const P%(N)s &p, const Q%(N)s &q) { return s.sqDistanceToFace(d, p, q); }
'''
BALL = '''
extern "C" void %(N)s_ball(%(P)s *o, const S%(N)s &s, const Q%(N)s &q) { auto b = s.circumsphere(q); for (uint d = 0; d < %(D)d; ++d) o[d] = b.center[d]; o[%(D)d] = b.radius; }
'''
OPS = "newv pts ptsadd orient in inball dist".split()
INST = [("d2", 2, "double"), ("d3", 3, "double"), ("f2", 2, "float"), ("f3", 3, "float")]
PRED = re.compile(r'Predicates<(\d)u?, (\w+)>::(orient|insphere)\b')


def parity(p):
    return sum(1 for i in range(len(p)) for j in range(i) if p[j] > p[i]) % 2


class Run:
    def __init__(self, m, n, d, prec):
        self.m, self.n, self.d, self.prec = m, n, d, prec
        self.w, self.ty = (8, "double") if prec == "double" else (4, "float")

    def start(self, points, query, pred=None):
        """points, query: coordinates as rationals; pred: values the predicates return, None for symbols"""
        self.env, self.calls, self.pred = {}, [], pred

        def oracle(c):
            try:
                return bool(ratl.value(c, self.env) & 1)
            except (KeyError, IndexError, TypeError, ratl.NoValue):
                return None
        self.mc = absx.Machine(self.m, [self.predicate, ratl.maths], oracle, budget=400000)
        self.who = {}
        self.q = self.mc.new()
        self("pts", self.q)
        order = list(range(self.d + 1))
        order = order[1:] + order[:1]                # the vertices are not in the order of the points
        for k in order:
            self("ptsadd", self.q, self.point(k, points[k]))
        ids = self.mc.new(8 * (self.d + 1))
        for k in range(self.d + 1):
            self.mc.store(self.mc.st, ("p", ids[1], num(8 * k)), num(1 + order.index(k)), "i64")
        self.s = self.mc.new()
        self("newv", self.s, ids)
        self.p = self.point("p", query)

    def point(self, name, xs):
        p = self.mc.new(self.w * self.d)
        for k, x in enumerate(xs):
            s = ("s", "%s.%d" % (name, k))
            self.env[s] = Fraction(x)
            self.who[s] = (name, k)
            self.mc.store(self.mc.st, ("p", p[1], num(self.w * k)), s, self.ty)
        return p

    def predicate(self, an, i, st, fn, d, args):
        m = PRED.search(d)
        if not m:
            return NotImplemented
        if int(m.group(1)) != self.d or m.group(2) != self.prec:
            raise Refuted("calls the predicate for %s dimensions in %s" % (m.group(1), m.group(2)))
        names = []
        for a in args:
            ns = set()
            for k in range(self.d):
                t = an.load(st, ("p", a[1], sem.linadd(a[2], num(self.w * k))), self.ty)
                if self.who.get(t, (None, None))[1] != k:
                    raise Refuted("%s is given coordinates that are not those of a point" % m.group(3))
                ns.add(self.who[t][0])
            if len(ns) > 1:
                raise Refuted("%s is given coordinates of different points" % m.group(3))
            names.append(ns.pop())
        want = list(range(self.d + 1)) + (["p"] if m.group(3) == "insphere" else [])
        key = sorted(want, key=str)
        if sorted(names, key=str) != key:
            raise Refuted("%s is called with %s" % (m.group(3), ", ".join("vertex %s" % x if x != "p" else "the point" for x in names)))
        odd = parity([want.index(x) for x in names])
        self.calls.append(m.group(3))
        if self.pred is None:
            v = ("s", m.group(3))
            return ("x", "fneg", self.ty, v) if odd else v
        v = self.pred[m.group(3)]
        return absx.flt(-v if odd else v, self.ty)

    def __call__(self, op, *a):
        return self.mc.run("%s_%s" % (self.n, op), *a)

    def val(self, t):
        t = self.mc.simp(t)
        if absx.unwritten(t):
            raise Refuted("the result is a value that was never written")
        try:
            return ratl.value(t, self.env)
        except (ratl.NoValue, KeyError, TypeError, IndexError) as e:
            raise Undecided("result %s" % e)


def det(m):
    if len(m) == 1: return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))


def solve(a, b):
    d = det(a)
    n = len(a)
    return [det([[b[i] if j == k else a[i][j] for j in range(n)] for i in range(n)]) / d for k in range(n)]


def simplices(d, rnd, n):
    out = []
    while len(out) < n:
        s = [[Fraction(rnd.randint(-30, 30), rnd.choice((1, 1, 2, 3))) for _ in range(d)] for _ in range(d + 1)]
        if det([[x - y for x, y in zip(v, s[0])] for v in s[1:]]):
            out.append(s)
    return out


def cases(r, rnd, deep):
    d = r.d
    T = "%dD %s" % (d, r.prec)
    for s in simplices(d, rnd, 2):
        r.start(s, s[0])

        def orient():
            t = r.mc.simp(r("orient", r.s, r.q))
            if r.calls:
                return "the predicate" if t == ("s", "orient") else sem.show(t)[:80]
            return "the predicate" if (r.val(t) > 0) == (det([[x - y for x, y in zip(v, s[-1])] for v in s[:-1]]) > 0) else "another sign"
        yield FH, "dSimplex::orientation", T, orient, "the predicate"
    # in-sphere: signs and magnitudes of the predicates
    tiny, big = (1e-200, 1e200) if r.prec == "double" else (2.0 ** -120, 2.0 ** 100)
    s = simplices(d, rnd, 1)[0]
    for a, b in itertools.product((-1.0, 0.0, 1.0), repeat=2):
        for x, y in itertools.product((1.0, tiny, big), repeat=2):
            o, i = a * x, b * y

            def ball(o=o, i=i):
                r.start(s, [Fraction(1)] * d, {"orient": o, "insphere": i})
                t = r("inball", r.s, r.p, r.q)
                if not r.calls: raise Undecided("the predicates are not used")
                return r.val(t) & 1
            if a == 0: continue           # degenerate simplices have no circumsphere
            yield FC, "GeometryCore::inSphere", "%s, orientation %g, in-sphere predicate %g" % (T, o, i), ball, int(a * b >= 0)
    if r.prec != "double": return          # the same templates; vectors of floats are returned in vector registers
    n = 40 if deep else 14
    for s in simplices(d, rnd, n):
        base = [[x - y for x, y in zip(v, s[0])] for v in s[1:]]
        wants = [[Fraction(1, d + 2)] * d, [Fraction(0)] * d, [Fraction(1)] + [Fraction(0)] * (d - 1), [Fraction(1, 3)] * (d - 1) + [Fraction(0)],
                 [Fraction(1, d)] * d, [Fraction(1, d) + Fraction(1, 90)] * d, [Fraction(-1, 50)] + [Fraction(1, 4)] * (d - 1), [Fraction(1, 4)] * (d - 1) + [Fraction(-1, 50)],
                 [Fraction(3)] + [Fraction(-1)] * (d - 1), [Fraction(-1)] * (d - 1) + [Fraction(3)], [Fraction(-1)] * d, [Fraction(2, 3)] * d]
        if d == 3: wants += [[Fraction(1, 4), Fraction(-1, 9), Fraction(1, 4)], [Fraction(0), Fraction(1, 2), Fraction(1, 2)], [Fraction(1, 2), Fraction(0), Fraction(0)]]
        wants.append([Fraction(rnd.randint(-9, 12), 9) for _ in range(d)])
        for lam in wants:
            p = [s[0][k] + sum(l * v[k] for l, v in zip(lam, base)) for k in range(d)]

            def inside(s=s, p=p):
                r.start(s, p)
                return r.val(r("in", r.s, r.p, r.q)) & 1
            yield FC, "GeometryCore::inSimplex", "%s, vertices %s, barycentric coordinates %s" % (T, show(s), show(lam)), inside, int(min(lam) >= 0 and sum(lam) <= 1)
        for face in range(d + 1):
            q = [Fraction(rnd.randint(-20, 20)) for _ in range(d)]
            f = [v for k, v in enumerate(s) if k != face]
            e = [[x - y for x, y in zip(v, f[0])] for v in f[1:]]
            w = [x - y for x, y in zip(q, f[0])]
            nn = [e[0][1], -e[0][0]] if d == 2 else [e[0][1] * e[1][2] - e[0][2] * e[1][1], e[0][2] * e[1][0] - e[0][0] * e[1][2], e[0][0] * e[1][1] - e[0][1] * e[1][0]]
            want = sum(x * y for x, y in zip(nn, w)) ** 2 / sum(x * x for x in nn)

            def dist(s=s, q=q, face=face):
                r.start(s, q)
                return r.val(r("dist", r.s, num(face), r.p, r.q))
            yield FC, "GeometryCore::sqDistanceToFace", "%s, vertices %s, face %d, point %s" % (T, show(s), face, show(q)), dist, want
        c = solve([[2 * x for x in v] for v in base], [sum(x * x - y * y for x, y in zip(v, s[0])) for v in s[1:]])
        r2 = sum((x - y) ** 2 for x, y in zip(c, s[0]))

        def ball(s=s, c=c, r2=r2):
            r.start(s, s[0])
            o = r.mc.new(r.w * (d + 1))
            r("ball", o, r.s, r.q)
            got = [r.val(r.mc.load(r.mc.st, ("p", o[1], num(r.w * k)), r.ty)) for k in range(d + 1)]
            return (got[:-1], r2 if got[-1] >= 0 and abs(got[-1] ** 2 - r2) <= r2 / 10 ** 40 else got[-1] ** 2)
        yield FC, "GeometryCore::circumsphere", "%s, vertices %s" % (T, show(s)), ball, (c, r2)
    for face in (d + 1, d + 2, 100):
        def refuse(face=face):
            r.start(s, s[0])
            try:
                r("dist", r.s, num(face), r.p, r.q)
            except absx.Thrown:
                return "refused"
            return "accepted"
        yield FH, "dSimplex::sqDistanceToFace", "%s, face %d" % (T, face), refuse, "refused"


def show(x):
    if isinstance(x, (list, tuple)): return "(" + ", ".join(show(y) for y in x) + ")"
    if isinstance(x, Fraction) and x.denominator > 10 ** 12: return "%.6g" % float(x)
    return str(x)


def check(ctx):
    src = HEAD % ctx.repo + "".join((TEMPLATE + (BALL if p == "double" else "")) % {"N": n, "D": d, "P": p} for n, d, p in INST)
    m = cxx.build(ctx, "c16", src, ["%s_%s" % (n, o) for n, _, p in INST for o in OPS + (["ball"] if p == "double" else [])], ["-I" + SHIM], recursive=True)
    ctx.notes += m.repo_funcs
    said = set()
    for n, d, p in INST:
        r = Run(m, n, d, p)
        for file, name, what, go, want in cases(r, random.Random(4), ctx.tier == "thorough"):
            ctx.count(name.split("::")[1])
            try:
                got = go()
            except Undecided as e:
                ctx.count("undecided")
                if said_undecided.setdefault(name, 0) < 3: said_undecided[name] += 1; ctx.notes.append("%s: %s" % (name, e))
                continue
            except Refuted as e:
                got = str(e)
            except absx.Thrown as e:
                got = "throws " + e.what
            if got != want and name not in said:
                said.add(name)
                ctx.viol(name, "%s%s: %s instead of %s (%s)" % (file, name, show(got), show(want), what))
