"""Stores of simplices on an abstract machine: triangulations as incidence structures over opaque vertices, the predicates opaque with
a value per vertex set; the points they are given are traced back to vertices."""
import os, re
from fractions import Fraction
from itertools import combinations
import absx, cxx, ratl, sem
from absx import Refuted, Undecided, num
from checks import parts
from checks.C16 import PRED, parity

HEAD = '''#include <sstream>
#include <iostream>
#include <new>
#include <unordered_set>
#include <unordered_map>
#include <tbb/enumerable_thread_specific.h>
#include <tbb/parallel_for.h>
#include <tbb/concurrent_unordered_map.h>
#include "../src/lib/Geometry.cpp"
template class std::__cxx11::basic_string<char>;
namespace std { namespace __detail {            // of the standard library, which defines them out of line
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k = 13; while (k < n) k = 2 * k + 1; _M_next_resize = k; return k; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e + i > _M_next_resize || b < 2) return make_pair(true, _M_next_bkt(2 * (e + i))); return make_pair(false, size_t(0)); }
}
typedef _Rb_tree_node_base *vf_node;
void _Rb_tree_insert_and_rebalance(const bool left, vf_node x, vf_node p, _Rb_tree_node_base &h) throw() {     // order only; balance has no effect on contents
    x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
vf_node _Rb_tree_increment(vf_node x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    vf_node y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<vf_node>(x)); }
vf_node _Rb_tree_decrement(vf_node x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    vf_node y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<vf_node>(x)); }
}
'''
TEMPLATE = '''
typedef dPoints<%(D)d, %(P)s> Q%(N)s; typedef dPoint<%(D)d, %(P)s> O%(N)s; typedef dSimplices<%(D)d, %(P)s> S%(N)s; typedef dSimplex<%(D)d, %(P)s> X%(N)s;
extern "C" void %(N)s_points(Q%(N)s *q, size_t n, const %(P)s *x) { new (q) Q%(N)s(); for (size_t i = 0; i < n; ++i) { O%(N)s p; for (uint d = 0; d < %(D)d; ++d) p.coords[d] = *x++; q->emplace_back(p); } }
extern "C" void %(N)s_far(Q%(N)s &q, const %(P)s *x) { for (uint i = 0; i < (1u << %(D)d); ++i) { O%(N)s p; for (uint d = 0; d < %(D)d; ++d) p.coords[d] = *x++; q[O%(N)s::cINF | i] = p; } }
extern "C" void %(N)s_ids(Point_Ids *s, size_t c, size_t n, const tIdType *i) { new (s) Point_Ids(c); for (; n; --n) s->insert(*i++); }
extern "C" void %(N)s_store(S%(N)s *s, tIdType min, tIdType max) { new (s) S%(N)s(min, max, 4); }
extern "C" void %(N)s_none(S%(N)s *s) { new (s) S%(N)s(); }
extern "C" void %(N)s_add(S%(N)s &s, tIdType min, tIdType max) { s.addBlock(min, max); }
extern "C" void %(N)s_put(S%(N)s &s, const tIdType *w) { uint h = 0; X%(N)s &x = s.at(*w, h); x.id = *w++; for (uint d = 0; d <= %(D)d; ++d) x.vertices[d] = *w++; for (uint d = 0; d <= %(D)d; ++d) x.neighbors[d] = *w++; x.genFingerprint(); }
extern "C" void %(N)s_drop(S%(N)s &s, tIdType i) { uint h = 0; s.at(i, h).id = X%(N)s::cINF; }
extern "C" void %(N)s_hull(S%(N)s &s, size_t n, const tIdType *w) { for (; n; --n) s.convexHull.push_back(*w++); }
extern "C" size_t %(N)s_verify(const S%(N)s &s, const Q%(N)s &q, const Point_Ids *p, tIdType *w) {
    auto r = s.verify(q, p); tIdType *b = w; *w++ = r.valid;
    *w++ = r.wrongNeighbors.size(); for (auto &x : r.wrongNeighbors) { *w++ = x.first.id; *w++ = x.second.id; }
    *w++ = r.duplicates.size(); for (auto &x : r.duplicates) { *w++ = x.first.id; *w++ = x.second.id; }
    tIdType *n = w++; *n = 0; for (auto &x : r.inCircle) for (auto v : x.second) { *w++ = x.first.id; *w++ = v; ++*n; }
    return w - b;
}
extern "C" size_t %(N)s_cross(const S%(N)s &s, const S%(N)s &t, tIdType *w) {
    auto r = s.crossCheck(t); tIdType *b = w; *w++ = r.valid;
    *w++ = r.missing.size(); for (auto &x : r.missing) { *w++ = x.id; *w++ = x.id; }
    *w++ = r.invalid.size(); for (auto &x : r.invalid) { *w++ = x.id; *w++ = x.id; }
    return w - b;
}
extern "C" size_t %(N)s_list(const S%(N)s &s, tIdType *w) { tIdType *b = w; for (auto &x : s) *w++ = x.id; return w - b; }
extern "C" size_t %(N)s_vlist(S%(N)s &s, tIdType *w) { tIdType *b = w; for (auto &x : s) { *w++ = x.id; for (auto v : x.vertices) *w++ = v; for (auto v : x.neighbors) *w++ = v; } return w - b; }
template <class R> static void %(N)s_halves(R &r, tIdType *&w, size_t &n) {
    if (r.is_divisible()) { R o(r, tbb::split()); ++n; %(N)s_halves(o, w, n); %(N)s_halves(r, w, n); } else for (auto &x : r) *w++ = x.id;
}
extern "C" size_t %(N)s_ranges(const S%(N)s &s, size_t grain, tIdType *w, size_t *n) { typename S%(N)s::const_range_type r(s, grain); tIdType *b = w; *n = 0; %(N)s_halves(r, w, *n); return w - b; }
extern "C" size_t %(N)s_vranges(S%(N)s &s, size_t grain, tIdType *w, size_t *n) { typename S%(N)s::range_type r(s, grain); tIdType *b = w; *n = 0; %(N)s_halves(r, w, *n); return w - b; }
extern "C" bool %(N)s_has(const S%(N)s &s, tIdType i, uint *h) { return s.contains(i, *h); }
extern "C" bool %(N)s_uhas(const S%(N)s &s, tIdType i) { return s.unsafe_contains(i); }
extern "C" bool %(N)s_in(const S%(N)s &s, tIdType i, uint *h) { return s.inRange(i, *h); }
extern "C" void *%(N)s_at(S%(N)s &s, tIdType i, uint *h) { return &s.at(i, *h); }
extern "C" const void *%(N)s_cat(const S%(N)s &s, tIdType i, uint *h) { return &s.at(i, *h); }
extern "C" void *%(N)s_uat(S%(N)s &s, tIdType i) { return &s.unsafe_at(i); }
extern "C" size_t %(N)s_size(const S%(N)s &s, tIdType *w) { w[0] = s.lowerBound(); w[1] = s.upperBound(); return s.exact_size(); }
extern "C" size_t %(N)s_hulls(const S%(N)s &s, tIdType *w) { tIdType *b = w; for (auto i : s.convexHull) *w++ = i; return w - b; }
extern "C" void %(N)s_merge(S%(N)s &s, S%(N)s &t, bool hull) { s.merge(std::move(t), hull); }
extern "C" void %(N)s_filter(S%(N)s &s, const Simplex_Ids &f) { s.filter(f); }
extern "C" void %(N)s_move(S%(N)s *t, S%(N)s &s) { new (t) S%(N)s(std::move(s)); }
extern "C" void %(N)s_assign(S%(N)s &t, S%(N)s &s) { t = std::move(s); }
extern "C" void %(N)s_end(S%(N)s &s) { s.~S%(N)s(); }
extern "C" void %(N)s_print(const S%(N)s &s, uint *w) { auto h = s.genFingerprint(); for (auto x : h) *w++ = x; }
extern "C" tIdType %(N)s_near(const S%(N)s &s, const Q%(N)s &q, const %(P)s *x, tIdType hint) { O%(N)s p; for (uint d = 0; d < %(D)d; ++d) p.coords[d] = *x++; return s.findNearestSimplex(p, q, hint); }
extern "C" bool %(N)s_hhas(const S%(N)s &s, const tIdType *i, size_t n, bool *r) { dSimplicesConstHandle<%(D)d, %(P)s> h(s); for (size_t k = 0; k < n; ++k) r[k] = h.contains(i[k]); return true; }
extern "C" void %(N)s_hat(const S%(N)s &s, const tIdType *i, size_t n, const void **r) { dSimplicesConstHandle<%(D)d, %(P)s> h(s); for (size_t k = 0; k < n; ++k) r[k] = k & 1 ? &h.at(i[k]) : &h[i[k]]; }
'''
OPS = "points far ids store none add put drop hull verify cross list vlist ranges vranges has uhas in at cat uat size hulls merge filter move assign end print near hhas hat".split()
INST = [("d2", 2, "double"), ("d3", 3, "double")]
NONE = 2 ** 64 - 1
OWN = re.compile(parts.OWN.pattern + r'|std::(?:(?:__cxx11::)?(?:_Rb_tree\w*|map|set|multimap|priority_queue)|_Rb_tree_\w+|priority_queue|map|set|less|push_heap|pop_heap|__push_heap|__pop_heap|__adjust_heap|__\w*heap\w*|sort|__\w*sort\w*|__unguarded\w*|__move_median\w*|__lg|iter_swap|__copy_if|copy_if|find|find_if|__find_if|__gnu_cxx)')


def far(d, k):
    return 2 ** 64 - 2 ** d + k


def det(rows):
    if len(rows) == 1:
        return rows[0][0]
    return sum((-1) ** j * rows[0][j] * det([r[:j] + r[j + 1:] for r in rows[1:]]) for j in range(len(rows)) if rows[0][j])


def orient(pts):
    return det([[Fraction(x) - y for x, y in zip(p, pts[-1])] for p in pts[:-1]])


def insphere(pts, p):
    rows = [[Fraction(x) - y for x, y in zip(a, p)] for a in pts]
    return det([r + [sum(x * x for x in r)] for r in rows])


class Complex:
    """a triangulation: identifiers of simplices, sorted vertices, neighbours (none for the outside)"""
    def __init__(self, d, cells, hull):
        self.d, self.cells, self.hull = d, {i: (tuple(v), tuple(n)) for i, (v, n) in cells.items()}, list(hull)

    def copy(self):
        return Complex(self.d, self.cells, self.hull)

    def set(self, i, v=None, n=None):
        o = self.cells.get(i, ((), ()))
        self.cells[i] = (tuple(v if v is not None else o[0]), tuple(n if n is not None else o[1]))
        return self


def inside(d, xy, vs, p):
    """p within or on the sphere of vs"""
    o, s = orient([xy[v] for v in vs]), insphere([xy[v] for v in vs], xy[p])
    return (o >= 0 and s >= 0) or (o <= 0 and s <= 0)


def delaunay(d, xy, ids):
    """the triangulation of the points by its definition"""
    vs = sorted(xy)
    tri = [c for c in combinations(vs, d + 1) if orient([xy[v] for v in c]) != 0 and not any(inside(d, xy, c, p) for p in vs if p not in c)]
    face = {}
    for k, c in enumerate(tri):
        for v in c:
            face.setdefault(tuple(x for x in c if x != v), []).append(k)
    cells = {}
    for k, c in enumerate(tri):
        n = []
        for v in c:
            o = [x for x in face[tuple(x for x in c if x != v)] if x != k]
            n.append(ids[o[0]] if o else NONE)
        cells[ids[k]] = (c, n)
    return Complex(d, cells, [i for i, (c, _) in cells.items() if c[-1] >= far(d, 0)])


class Run(parts.Run):
    def __init__(self, m, n, d, mult=3):
        parts.Run.__init__(self, m, n, d, mult)
        self.mc.own, self.who, self.xy = OWN, {}, {}

    def model(self, an, i, st, fn, d, a):
        m = PRED.search(d)
        if m:
            return self.predicate(m, a)
        if fn.endswith("operator<<") or re.search(r"basic_ostream\b.*::(put|write|flush|_M_insert)$", fn):
            return a[0]
        if fn.endswith("addLogEntry") or fn.endswith("LogEntry"):
            return a[0]
        if re.search(r"basic_\w*stringstream.*::str$", fn):
            self.mc.run("vf_empty", a[0])
            return None
        return parts.Run.model(self, an, i, st, fn, d, a)

    def predicate(self, m, args):
        names = []
        for p in args:
            x = tuple(self.val(self.mc.load(self.mc.st, ("p", p[1], sem.linadd(p[2], num(8 * k))), "double")) for k in range(self.d))
            names.append(x)
        v = orient(names) if m.group(3) == "orient" else insphere(names[:-1], names[-1])
        return self.sym(v)

    def points(self, xy):
        """xy: coordinates by identifier, finite ones 1.."""
        fin = sorted(v for v in xy if v < far(self.d, 0))
        q = self.mc.new()
        self("points", q, num(len(fin)), self.row([x for v in fin for x in xy[v]]))
        self("far", q, self.row([x for k in range(2 ** self.d) for x in xy.get(far(self.d, k), (0,) * self.d)]))
        return q

    def store(self, blocks, cx):
        s = self.mc.new(256, kind="obj")
        self("store", s, num(blocks[0][0]), num(blocks[0][1]))
        for a, b in blocks[1:]:
            self("add", s, num(a), num(b))
        for i, (v, n) in cx.cells.items():
            self("put", s, self.words((i,) + v + n))
        self("hull", s, num(len(cx.hull)), self.words(cx.hull))
        return s

    def pairs(self, w, k):
        """count and pairs, from cell k -> list, next cell"""
        n = self.word(w, k)
        if n > 400:
            raise Refuted("reports %d entries" % n)
        return [(self.word(w, k + 1 + 2 * j), self.word(w, k + 2 + 2 * j)) for j in range(n)], k + 1 + 2 * n


def module(ctx, insts=INST):
    src = HEAD + 'extern "C" void vf_empty(std::string *s) { new (s) std::string(); }\nextern "C" void vf_text(std::string &s, const char *p, size_t n) { s.clear(); for (; n; --n) s.push_back(*p++); }\nextern "C" const char *vf_chars(const std::string &s, size_t *n) { *n = s.size(); return s.data(); }\n' + "".join(TEMPLATE % {"N": n, "D": d, "P": p} for n, d, p in insts)
    return cxx.build(ctx, "simps", src, ["vf_empty", "vf_text", "vf_chars"] + ["%s_%s" % (n, o) for n, _, _ in insts for o in OPS],
                     ["-I" + os.path.join(parts.SHIM, "seq"), "-I" + parts.SHIM, "-DNDEBUG"], recursive=True)
