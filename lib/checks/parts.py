"""The partitioners on an abstract machine: points with symbolic real coordinates, identifier sets with fixed hash multipliers, two tasks per parallel loop."""
import os, re
from fractions import Fraction
import absx, cxx, races, ratl, sem
from absx import Refuted, Undecided, Blocked, num

SHIM = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "shim")
HEAD = '''#include <sstream>
#include <iostream>
#include <numeric>
#include <random>
#include <new>
#include <variant>
#include <functional>
#include <unordered_set>
#include <unordered_map>
#include <tbb/enumerable_thread_specific.h>
#include <tbb/parallel_for.h>
#include "../src/lib/Partitioner.cpp"
#include "load_balancing/BoxUtils.h"
#include "load_balancing/BoundsIntersectionChecker.h"
#include "load_balancing/GridIntersectionChecker.h"
#include "load_balancing/AccurateGridIntersectionChecker.h"
#include "load_balancing/PartitionTree.h"
#include "load_balancing/OldPartitionerPartitioner.h"
#include "load_balancing/kWaySplitter.h"
template class std::__cxx11::basic_string<char>;
namespace std { namespace __detail {            // of the standard library, which defines them out of line
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k = 13; while (k < n) k = 2 * k + 1; _M_next_resize = k; return k; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e + i > _M_next_resize || b < 2) return make_pair(true, _M_next_bkt(2 * (e + i))); return make_pair(false, size_t(0)); }
}}
struct NoMonitor { };
extern "C" void vf_text(std::string &s, const char *p, size_t n) { s.clear(); for (; n; --n) s.push_back(*p++); }
extern "C" const char *vf_chars(const std::string &s, size_t *n) { *n = s.size(); return s.data(); }
'''
TEMPLATE = '''
typedef dPoints<%(D)d, %(P)s> Q%(N)s; typedef dPoint<%(D)d, %(P)s> O%(N)s; typedef dBox<%(D)d, %(P)s> B%(N)s; typedef Partitioning<%(D)d, %(P)s> R%(N)s;
typedef LoadBalancing::PartitionTree<%(D)d, %(P)s> T%(N)s; typedef LoadBalancing::Grid<%(D)d, %(P)s> G%(N)s; typedef dSphere<%(D)d, %(P)s> C%(N)s;
typedef std::vector<LoadBalancing::IntersectionPartition<%(D)d, %(P)s>> I%(N)s; typedef LoadBalancing::Partitioner<%(D)d, %(P)s, NoMonitor> L%(N)s;
extern "C" void %(N)s_points(Q%(N)s *q, size_t n, const %(P)s *x) { new (q) Q%(N)s(); for (size_t i = 0; i < n; ++i) { O%(N)s p; for (uint d = 0; d < %(D)d; ++d) p.coords[d] = *x++; q->emplace_back(p); } }
extern "C" void %(N)s_far(Q%(N)s &q, const %(P)s *x) { for (uint i = 0; i < (1u << %(D)d); ++i) { O%(N)s p; for (uint d = 0; d < %(D)d; ++d) p.coords[d] = *x++; q[O%(N)s::cINF | i] = p; } }
extern "C" void %(N)s_load(Q%(N)s &q, const char *f, size_t n, char sep, %(P)s *o) { auto b = q.loadFromFile(std::string(f, n), sep); for (uint d = 0; d < %(D)d; ++d) { o[d] = b.low[d]; o[%(D)d + d] = b.high[d]; } }
extern "C" size_t %(N)s_at(const Q%(N)s &q, size_t i, %(P)s *o) { for (uint d = 0; d < %(D)d; ++d) o[d] = q[i].coords[d]; return q.finite_size(); }
extern "C" void %(N)s_endr(R%(N)s &r) { r.~R%(N)s(); }
extern "C" void %(N)s_endi(I%(N)s &r) { r.~I%(N)s(); }
extern "C" void %(N)s_endt(T%(N)s &r) { r.~T%(N)s(); }
extern "C" uint %(N)s_depth(int type, uint threads) { return Partitioner<%(D)d, %(P)s>::make(type)->getRecursionDepth(threads); }
extern "C" void %(N)s_ids(Point_Ids *s, size_t c, size_t n, const tIdType *i) { new (s) Point_Ids(c); for (; n; --n) s->insert(*i++); }
static void %(N)s_put(const dPointStats<%(D)d, %(P)s> &s, %(P)s *o) { for (uint d = 0; d < %(D)d; ++d) { o[d] = s.min[d]; o[%(D)d + d] = s.mid[d]; o[2 * %(D)d + d] = s.max[d]; } }
extern "C" void %(N)s_stats(const Point_Ids &s, const Q%(N)s &q, %(P)s *o) { %(N)s_put(getPointStats<%(D)d, %(P)s>(s, q), o); }
extern "C" void %(N)s_allstats(const Q%(N)s &q, %(P)s *o) { %(N)s_put(getPointStats<%(D)d, %(P)s>(q, q), o); }
extern "C" void %(N)s_seqstats(const Point_Ids &s, const Q%(N)s &q, %(P)s *o) { %(N)s_put(getPointStatsSeq<%(D)d, %(P)s>(s.begin(), s.end(), q), o); }
extern "C" void %(N)s_idstats(size_t f, size_t l, const Q%(N)s &q, %(P)s *o) { %(N)s_put(getPointStatsSeq<%(D)d, %(P)s>(f, l, q), o); }
static void %(N)s_bounds(const B%(N)s &b, %(P)s *&o) { for (uint d = 0; d < %(D)d; ++d) *o++ = b.low[d]; for (uint d = 0; d < %(D)d; ++d) *o++ = b.high[d]; }
static void %(N)s_set(const Point_Ids &s, tIdType *&w) { tIdType *n = w++; *n = 0; for (auto i : s) { *w++ = i; ++*n; } *w++ = s.size(); }
extern "C" size_t %(N)s_split(R%(N)s *r, int type, const Point_Ids &s, const Q%(N)s &q, size_t prov, bool ignore, %(P)s *o, tIdType *w) {
    new (r) R%(N)s(Partitioner<%(D)d, %(P)s>::make(type)->partition(s, q, std::string(prov, '0'), ignore));
    for (auto &p : *r) { *w++ = p.id; %(N)s_set(p.points, w); %(N)s_bounds(p.bounds, o); } return r->size();
}
extern "C" bool %(N)s_has(const R%(N)s &r, size_t k, tIdType p) { return r[k].contains(p); }
extern "C" uint %(N)s_where(const R%(N)s &r, tIdType p) { return r.partition(p); }
extern "C" bool %(N)s_simplex(const R%(N)s &r, size_t k, const tIdType *v, bool partially) { dSimplex<%(D)d, %(P)s> s; for (uint d = 0; d <= %(D)d; ++d) s.vertices[d] = v[d]; return r[k].contains(s, partially); }
extern "C" size_t %(N)s_spread(int kind, const Q%(N)s &q, const Point_Ids &s, size_t k, const size_t *to, %(P)s w, I%(N)s *r, %(P)s *o, tIdType *u) {
    auto f = [to](tIdType i) { return to[i]; };
    if (kind == 0) new (r) I%(N)s(LoadBalancing::BoundsIntersectionPartitionMaker<%(D)d, %(P)s>()(q, s, k, f));
    else if (kind == 1) new (r) I%(N)s(LoadBalancing::GridIntersectionPartitionMaker<%(D)d, %(P)s>(G%(N)s(w))(q, s, k, f));
    else new (r) I%(N)s(LoadBalancing::AccurateGridIntersectionPartitionMaker<%(D)d, %(P)s>(G%(N)s(w))(q, s, k, f));
    for (auto &p : *r) { %(N)s_set(p.pointIds, u); %(N)s_bounds(p.intersectionChecker->bounds(), o); } return r->size();
}
extern "C" bool %(N)s_hits(const I%(N)s &r, size_t k, const %(P)s *x) { C%(N)s c; for (uint d = 0; d < %(D)d; ++d) c.center[d] = x[d]; c.radius = x[%(D)d]; dSimplex<%(D)d, %(P)s> s; return r[k].intersectionChecker->intersects(c, s); }
static size_t %(N)s_leaves(const T%(N)s &t, %(P)s *&o, tIdType *&w, size_t depth) {
    if (t.isLeaf()) { *w++ = depth; %(N)s_set(std::get<Point_Ids>(t.attachment), w); %(N)s_bounds(t.intersectionChecker->bounds(), o); return 1; }
    size_t n = 0; for (auto &c : std::get<typename T%(N)s::ChildContainer>(t.attachment)) n += %(N)s_leaves(c, o, w, depth + 1); return n;
}
extern "C" void %(N)s_box(B%(N)s *b, const %(P)s *x) { new (b) B%(N)s(); for (uint d = 0; d < %(D)d; ++d) { b->low[d] = x[d]; b->high[d] = x[%(D)d + d]; } }
extern "C" size_t %(N)s_old(T%(N)s *t, int type, const B%(N)s &b, Q%(N)s &q, const Point_Ids &s, size_t deep, size_t base, bool flat, %(P)s *o, tIdType *w) {
    NoMonitor m;
    std::unique_ptr<L%(N)s> p = std::make_unique<LoadBalancing::OldPartitionerPartitioner<%(D)d, %(P)s, NoMonitor>>(Partitioner<%(D)d, %(P)s>::make(type), deep, base);
    new (t) T%(N)s(p->partition(b, q, s, m)); if (flat) t->flatten(); return %(N)s_leaves(*t, o, w, 0);
}
extern "C" size_t %(N)s_kway(T%(N)s *t, size_t k, const B%(N)s &b, Q%(N)s &q, const Point_Ids &s, %(P)s *o, tIdType *w) {
    NoMonitor m; LoadBalancing::KWaySplitter<%(D)d, %(P)s, NoMonitor> p(k); new (t) T%(N)s(p.partition(b, q, s, m)); return %(N)s_leaves(*t, o, w, 0);
}
extern "C" size_t %(N)s_collect(T%(N)s &t, tIdType *w) { t.collect(); tIdType *b = w; %(N)s_set(std::get<Point_Ids>(t.attachment), w); return w - b; }
extern "C" size_t %(N)s_flat(T%(N)s &t, R%(N)s *r, %(P)s *o, tIdType *w) {
    auto p = LoadBalancing::toOldPartitioning<%(D)d, %(P)s>(std::move(std::get<typename T%(N)s::ChildContainer>(t.attachment)));
    new (r) R%(N)s(std::move(p.first));
    for (auto &p : *r) { *w++ = p.id; %(N)s_set(p.points, w); %(N)s_bounds(p.bounds, o); } return r->size();
}
'''
OPS = "points far load at endr endi endt depth ids stats allstats seqstats idstats split has where simplex spread hits box old kway collect flat".split()
INST = [("d2", 2, "double"), ("d3", 3, "double")]
INF = 2 ** 64
OWN = re.compile(absx.OWN.pattern + r'|std::(?:_?_?hash\w*|_Hash\w*|unordered_\w+|function|_Function\w*|_Any_data|__detail|__invoke\w*|invoke\w*|_Invoke\w*|__shared\w*|shared_ptr|_Sp_\w*|variant|_Variant\w*|__variant\w*|get|get_if|visit|__do_visit|holds_alternative|move|forward|swap|reference_wrapper|ref|copy\w*|__copy\w*|_?_?uninitialized\w*|_Construct\w*|_Destroy\w*|_Select1st|equal_to|__equal\w*|equal|distance|__distance|back_inserter|back_insert_iterator|_Node\w*|__ptr_traits\w*|__relocate\w*|_Optional\w*|optional|_Bvector\w*|_Bit\w*|operator(?:-|==|!=|<|\+)|basic_string|__cxx11::basic_string|__cxx11::to_string|to_string|char_traits|fill\w*|__fill\w*)')


def show(xs):
    return "{%s}" % ", ".join(str(x) if x < 2 ** 63 else "inf%d" % (2 ** 64 - 1 - x) for x in sorted(xs))


def module(ctx, insts=INST):
    src = HEAD + "".join(TEMPLATE % {"N": n, "D": d, "P": p} for n, d, p in insts)
    return cxx.build(ctx, "parts", src, ["vf_text", "vf_chars"] + ["%s_%s" % (n, o) for n, _, _ in insts for o in OPS],
                     ["-I" + os.path.join(SHIM, "seq"), "-I" + SHIM, "-DNDEBUG"], recursive=True)


STREAM = re.compile(r'(?:std::)?(?:__cxx11::)?(?:basic_ifstream::|basic_istringstream::|basic_stringstream::|basic_ios::)?(~?basic_ifstream|~?basic_i?stringstream|open|is_open|close|eof|operator bool|operator!|fail|good|getline|stod)$')


class Run:
    file = None
    wide = 0                        # capacity of identifier sets: loops over sets of a thousand cells are split among tasks
    watching, runs = False, []      # whether accesses of parallel tasks are compared

    def __init__(self, m, n, d, mult=3):
        self.m, self.n, self.d, self.mult = m, n, d, 779 if Run.wide else mult
        self.env, self.k, self.task = {}, 0, 0
        self.mc = absx.Machine(m, [ratl.maths, self.model], self.oracle, budget=6000000 if Run.wide else 1500000)
        self.mc.st, self.streams = sem.Quiet(), {}
        self.races = races.Races(self.mc) if Run.watching else None
        if self.races:
            Run.runs.append(self.races)
        self.mc.own, self.mc.whole, self.mc.deepest = OWN, self.whole, 200

    def oracle(self, c):
        if "__libc_single_threaded" in repr(c):
            return False
        try:
            return bool(ratl.value(c, self.env) & 1)
        except (KeyError, IndexError, TypeError, ratl.NoValue):
            return None

    def whole(self, t):
        try:
            return num(sem.wrap(int(ratl.value(t, self.env)), 64))
        except (KeyError, IndexError, TypeError, ratl.NoValue):
            return None

    def model(self, an, i, st, fn, d, a):
        if "uniform_int_distribution" in fn and fn.endswith("operator()"):
            if len(a) > 1 and self.mc.watch is not None and a[1][0] == "p":       # draws from the generator change it
                self.mc.watch(self.mc, True, a[1][1], a[1][2], 8, False)
            return num(self.mult)
        if fn == "vf_task":
            return num(self.task)
        if fn.endswith("Logger::getInstance"):
            return self.logger()
        if STREAM.match(fn):
            return self.stream(STREAM.match(fn).group(1), a)
        if fn == "vf_tasks":
            f, here = a[0][1][1], self.task
            if self.races:
                self.races.fork()
            for t, k in ((2, 3), (1, 2)):
                self.task = t
                if self.races:
                    self.races.task(t)
                self.mc.run(f, a[1], a[k])
            self.task = here
            if self.races:
                self.races.join()
            return None
        return NotImplemented

    def stream(self, what, a):
        """input streams: a file of the given lines, a string, read up to delimiters"""
        mc, key = self.mc, a[0][1]
        if what in ("basic_ifstream", "basic_istringstream", "basic_stringstream"):
            t = mc.new(64, kind="obj")        # virtual base at offset 0
            for k in (0, 8, 16):
                mc.store(mc.st, ("p", t[1], num(8 * (k // 8))), num(0), "i64")
            mc.store(mc.st, a[0], ("p", t[1], num(24)), "ptr")
            self.streams[key] = [None, 0, False]
            if len(a) > 1 and what != "basic_ifstream":
                self.streams[key][0] = self.text(a[1])
            elif len(a) > 1:
                self.streams[key][0] = self.file
            return None
        if what[0] == "~":
            return None
        if what == "stod":
            try:
                return self.sym(Fraction(self.text(a[0]).strip()))
            except ValueError:
                raise Refuted("reads the number %r" % self.text(a[0]))
        s = self.streams.get(key)
        if s is None:
            raise Undecided("stream of unknown content")
        if what == "open":
            s[:] = [self.file, 0, False]
        elif what == "is_open":
            return num(int(s[0] is not None))
        elif what == "close":
            s[0] = None
        elif what == "eof":
            return num(int(s[2] is not False))
        elif what in ("operator bool", "good"):
            return num(int(not s[2] or s[2] == "last" and what == "operator bool"))
        elif what in ("operator!", "fail"):
            return num(int(s[2] is True))
        elif what == "getline":
            d = "\n" if len(a) < 3 else chr(self.int(a[2], 8))
            if s[2]:
                s[2] = True
                self.put(a[1], "")
                return a[0]
            e = s[0].find(d, s[1])
            t = s[0][s[1]:e if e >= 0 else len(s[0])]
            if e < 0:
                s[2] = "last" if t else True
            s[1] = e + 1 if e >= 0 else len(s[0])
            self.put(a[1], t)
            return a[0]
        return None

    def text(self, a):
        n = self.mc.new(8, kind="obj")
        p = self.mc.run("vf_chars", a, n)
        return "".join(chr(self.int(self.mc.load(self.mc.st, ("p", p[1], num(p[2][1] + k)), "i8"), 8)) for k in range(self.word(n, 0)))

    def chars(self, t):
        p = self.mc.new(len(t) + 1, kind="obj")
        for k, c in enumerate(t + "\0"):
            self.mc.store(self.mc.st, ("p", p[1], num(k)), num(ord(c)), "i8")
        return p

    def put(self, a, t):
        self.mc.run("vf_text", a, self.chars(t), num(len(t)))

    def alive(self):
        """heap objects not released yet"""
        return {b for b in self.mc.allocs if b[0] == "new" and b not in self.mc.freed}

    def released(self, before, what):
        left = self.alive() - before
        if left:
            raise Refuted("%s: %d of its heap objects %s never released" % (what, len(left), "are" if len(left) > 1 else "is"))

    def logger(self):
        if not hasattr(self, "log"):
            self.log = self.mc.new(4096, kind="obj")
            for k in range(0, 256, 2):
                self.mc.store(self.mc.st, ("p", self.log[1], num(k)), num(0), "i16")
        return self.log

    def __call__(self, op, *a):
        return self.mc.run("%s_%s" % (self.n, op), *a)

    def sym(self, x):
        self.k += 1
        s = ("s", "real%d" % self.k)
        self.env[s] = Fraction(x)
        return s

    def row(self, xs):
        p = self.mc.new(8 * max(1, len(xs)), kind="obj")
        for k, x in enumerate(xs):
            self.mc.store(self.mc.st, ("p", p[1], num(8 * k)), self.sym(x), "double")
        return p

    def words(self, xs):
        p = self.mc.new(8 * max(1, len(xs)), kind="obj")
        for k, x in enumerate(xs):
            self.mc.store(self.mc.st, ("p", p[1], num(8 * k)), num(sem.wrap(x, 64)), "i64")
        return p

    def points(self, pts):
        q = self.mc.new()
        self("points", q, num(len(pts)), self.row([x for p in pts for x in p]))
        self("far", q, self.row([(-1000, 1000)[i >> d & 1] for i in range(2 ** self.d) for d in range(self.d)]))
        return q

    def ids(self, ids):
        s = self.mc.new()
        self("ids", s, num(Run.wide or len(ids)), num(len(ids)), self.words(ids))
        return s

    def box(self, low, high):
        b = self.mc.new()
        self("box", b, self.row(list(low) + list(high)))
        return b

    def sets(self, w, k, head=True):
        """k records [number,] count, members, size()"""
        out, c = [], 0
        for _ in range(k):
            h = None
            if head:
                h, c = self.word(w, c), c + 1
            n = self.word(w, c)
            xs = [self.word(w, c + 1 + j) for j in range(min(n, 64))]
            if n > 64 or len(set(xs)) != n or self.word(w, c + 1 + n) != n:
                raise Refuted("an identifier set holds %s and reports %d members" % (show(xs), self.word(w, c + 1 + n)))
            out.append((h, frozenset(xs)))
            c += n + 2
        return out

    def boxes(self, o, k):
        d = self.d
        return [(tuple(self.real(o, 2 * d * p + j) for j in range(d)), tuple(self.real(o, 2 * d * p + d + j) for j in range(d))) for p in range(k)]

    def val(self, t):
        t = self.mc.simp(t)
        if absx.unwritten(t):
            raise Refuted("uses a value that was never written")
        try:
            return ratl.value(t, self.env)
        except (ratl.NoValue, KeyError, TypeError, IndexError) as e:
            raise Undecided("result %s" % e)

    def int(self, t, bits=64):
        return int(self.val(t)) & (2 ** bits - 1)

    def real(self, p, k):
        return self.val(self.mc.load(self.mc.st, ("p", p[1], num(8 * k)), "double"))

    def word(self, p, k):
        return self.int(self.mc.load(self.mc.st, ("p", p[1], num(8 * k)), "i64"))
