import copy, itertools, os
import cxx, sem, absx, forks
from sem import num
from unf import Undecided, Refuted

LEVEL = "other"
EXPLANATION = ("Abstract interpretation of the open-addressing hash tables: each table is built up through its constructors and insertions with the hash multiplier, the "
               "initial size, the keys and the values fixed per case; what lookups, iteration, ranges and sizes report is compared with the set, "
               "map or multimap those operations denote, for every insertion sequence of bounded length over keys that collide, wrap around and fill tables, and through "
               "rehashing, filtering, merging, copying, moving, converting and growing. A loop that comes back to a state it was in is reported as one that never ends.")
ASSUMPTIONS = ["keys are not 0", "values of maps are not 0 (0 denotes absence)", "tables that neither grow nor refuse hold fewer keys than slots", "memory suffices"]
FS, FM, FX, FG = ("include/datastructures/%s.hxx " % x for x in ("LP_Set", "LP_Map", "LP_MultiMap", "Growing_LP"))
SHIM = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "shim")
HEAD = '''#include <sstream>
#include <iostream>
#include <random>
#include <new>
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#include "datastructures/Growing_LP.hxx"
typedef InsertReturn::State IRS;
static int state(bool b) { return b; }
static int state(const InsertReturn &r) { return r == IRS::Full ? 2 : bool(r); }
template <class K> static void put(K *&o, const K &x) { *o++ = x; }
template <class K> static void put(K *&o, const std::pair<const K, K> &x) { *o++ = x.first; *o++ = x.second; }
template <class K> static void put(K *&o, const std::pair<K, K> &x) { *o++ = x.first; *o++ = x.second; }
template <class K, class R> static size_t walk(R &r, K *&o, size_t d) {
    if (r.is_divisible()) { R q(r, tbb::split()); size_t n = walk(r, o, d + 1); return n + walk(q, o, d + 1); }
    for (auto i = r.begin(); i != r.end(); ++i) put<K>(o, *i);
    return 1;
}
'''
COMMON = '''
typedef %(T)s T%(N)s;
extern "C" int %(N)s_has(const T%(N)s &t, %(K)s k) { return t.contains(k); }
extern "C" size_t %(N)s_count(const T%(N)s &t, %(K)s k) { return t.count(k); }
extern "C" size_t %(N)s_size(const T%(N)s &t) { return t.size(); }
extern "C" size_t %(N)s_cap(const T%(N)s &t) { return t.capacity(); }
extern "C" int %(N)s_none(const T%(N)s &t) { return t.empty(); }
extern "C" size_t %(N)s_list(const T%(N)s &t, %(K)s *o) { %(K)s *b = o; for (auto x : t) put<%(K)s>(o, x); return o - b; }
'''
RANGE = '''
extern "C" size_t %(N)s_range(const T%(N)s &t, size_t g, %(K)s *o) { %(K)s *b = o; %(RT)s r(t, g); size_t n = walk<%(K)s>(r, o, 0); return o - b; }
'''
OWNED = '''
extern "C" void %(N)s_new(T%(N)s *t, size_t n, const Hasher<%(K)s> &h) { new (t) T%(N)s(n, %(VER)sh); }
extern "C" void %(N)s_move(T%(N)s *t, T%(N)s &o) { new (t) T%(N)s(std::move(o)); }
extern "C" void %(N)s_assign(T%(N)s &t, T%(N)s &o) { t = std::move(o); }
extern "C" void %(N)s_end(T%(N)s &t) { t.~T%(N)s(); }
'''
SETI = 'extern "C" int %(N)s_insert(T%(N)s &t, %(K)s k) { return state(t.insert(k)); }\n'
MAPI = '''extern "C" int %(N)s_insert(T%(N)s &t, %(K)s k, %(K)s v) { return state(t.insert(k, v)); }
'''
PAIRI = '''extern "C" int %(N)s_insertp(T%(N)s &t, %(K)s k, %(K)s v) { return state(t.insert(std::make_pair(k, v))); }
'''
GETS = 'extern "C" size_t %(N)s_get(const T%(N)s &t, %(K)s k, %(K)s *o) { auto g = t.get(k); *o = g; return g != 0; }\n'
GETM = '''extern "C" size_t %(N)s_get(const T%(N)s &t, %(K)s k, %(K)s *o) { auto g = t.get(k); %(K)s *b = o; for (auto i = g.first; i != g.second; ++i) { if ((*i).first != k) return -1; *o++ = (*i).second; } return o - b; }
'''
SEQ = '''
extern "C" void %(N)s_rehash(T%(N)s &t, size_t n) { t.rehash(n); }
extern "C" void %(N)s_merge(T%(N)s &t, T%(N)s &o) { t.merge(std::move(o)); }
extern "C" void %(N)s_rehashf(T%(N)s &t, size_t n, const F%(Z)s &f) { t.rehash(n, f); }
extern "C" void %(N)s_mergef(T%(N)s &t, T%(N)s &o, const F%(Z)s &f) { t.merge(std::move(o), f); }
'''
SETS = '''
extern "C" void %(N)s_copy(T%(N)s *t, const T%(N)s &o) { new (t) T%(N)s(o); }
extern "C" void %(N)s_rehashc(T%(N)s &t, size_t n, const F%(Z)s &f, bool c) { t.rehash(n, f, c); }
extern "C" void %(N)s_mergec(T%(N)s &t, T%(N)s &o, const F%(Z)s &f, bool c) { t.merge(std::move(o), f, c); }
extern "C" void %(N)s_filter(T%(N)s &t, const F%(Z)s &f) { t.filter(f); }
extern "C" int %(N)s_eq(const T%(N)s &t, const T%(N)s &o) { return t == o; }
'''
CONV = '''
extern "C" void %(N)s_from(T%(N)s *t, T%(O)s &o) { new (t) T%(N)s(std::move(o)); }
extern "C" void %(O)s_from(T%(O)s *t, T%(N)s &o) { new (t) T%(O)s(std::move(o)); }
'''
COPYF = '''extern "C" void %(O)s_load(T%(O)s &t, const T%(N)s &o) { t.unsafe_copy(o); }
extern "C" void %(O)s_umergef(T%(O)s &t, T%(N)s &o, const F%(Z)s &f) { t.unsafe_merge(std::move(o), f); }
'''
UMERGE = '''extern "C" void %(N)s_umerge(T%(N)s &t, T%(N)s &o) { t.unsafe_merge(std::move(o)); }
extern "C" void %(N)s_umergef(T%(N)s &t, T%(N)s &o, const F%(Z)s &f) { t.unsafe_merge(std::move(o), f); }
'''
UREHASH = 'extern "C" void %(N)s_urehash(T%(N)s &t, size_t n) { t.unsafe_rehash(n); }\n'
GROW = '''
typedef GrowingHashTable<%(H)s> G%(N)s; typedef GrowingHashTableHandle<%(H)s> T%(N)s; typedef ConstGrowingHashTableHandle<%(H)s> C%(N)s;
extern "C" void %(N)s_table(G%(N)s *g, size_t n) { new (g) G%(N)s(n); }
extern "C" void %(N)s_adopt(G%(N)s *g, G%(N)s &o) { new (g) G%(N)s(std::move(o)); }
extern "C" void %(N)s_take(G%(N)s &g, G%(N)s &o) { g = std::move(o); }
extern "C" void %(N)s_handle(T%(N)s *t, G%(N)s &g) { new (t) T%(N)s(g.handle()); }
extern "C" void %(N)s_chandle(C%(N)s *t, const G%(N)s &g) { new (t) C%(N)s(g.handle()); }
extern "C" void %(N)s_drop(T%(N)s &t) { t.~T%(N)s(); }
'''
INST = {"u": "unsigned", "l": "unsigned long"}


def kinds(z):
    """name -> (type, class: s set, m map, x multimap; concurrent; grows)"""
    k = INST[z]
    return {"s": ("LP_Set<%s, true>" % k, "s", False, True), "f": ("LP_Set<%s, false>" % k, "s", False, False),
            "c": ("Concurrent_LP_Set<%s, true>" % k, "s", True, True), "d": ("Concurrent_LP_Set<%s, false>" % k, "s", True, False),
            "m": ("LP_Map<%s, %s>" % (k, k), "m", False, True), "n": ("Concurrent_LP_Map<%s, %s>" % (k, k), "m", True, True),
            "x": ("LP_MultiMap<%s, %s>" % (k, k), "x", False, True), "y": ("Concurrent_LP_MultiMap<%s, %s>" % (k, k), "x", True, True)}


def source(z):
    k, out = INST[z], ['typedef LP_Set<%s, true> F%s;\nextern "C" void hasher_%s(Hasher<%s> *h) { new (h) Hasher<%s>(); }\n' % (INST[z], z, z, INST[z], INST[z])]
    ops = []
    ks = kinds(z)
    for n, (t, cl, conc, grows) in ks.items():
        a = {"N": n + z, "T": t, "K": k, "Z": z, "VER": "0, " if conc else "", "RT": t + "::const_range_type"}
        src = COMMON + RANGE + OWNED + (SETI if cl == "s" else MAPI + PAIRI)
        if cl == "m" or (cl == "s" and conc):
            src += GETS
        if cl == "x":
            src += GETM
        if not conc:
            src += SEQ + (SETS if cl == "s" else "")
        out.append(src % a)
    for n, o, cl in (("s", "c", "s"), ("f", "d", "s"), ("m", "n", "m"), ("x", "y", "x")):
        a = {"N": n + z, "O": o + z, "Z": z}
        out.append((CONV + (COPYF if cl != "m" else "")) % a)
    out.append((UMERGE + UREHASH) % {"N": "n" + z, "Z": z})
    out.append(UREHASH % {"N": "y" + z})
    for n, h in (("gs", "c"), ("gm", "n"), ("gx", "y")):
        cl = ks[h][1]
        a = {"N": n + z, "H": ks[h][0], "K": k, "Z": z, "T": "GrowingHashTableHandle<%s>" % ks[h][0], "RT": ks[h][0] + "::const_range_type"}
        src = GROW + COMMON.replace("typedef %(T)s T%(N)s;", "") + (SETI if cl == "s" else MAPI) + (GETM if cl == "x" else GETS)
        src += "typedef C%(N)s TC%(N)s;\n" + COMMON.replace("typedef %(T)s T%(N)s;", "").replace("%(N)s", "C%(N)s") + (GETM if cl == "x" else GETS).replace("%(N)s", "C%(N)s")
        out.append(src % a)
    return "".join(out)


class Tables:
    """tables of one key type on one abstract machine"""
    at, past = None, True

    def __init__(self, m, z, mult):
        self.m, self.z, self.mult = m, z, mult
        self.w = 4 if z == "u" else 8
        self.ty = "i32" if z == "u" else "i64"
        self.mc = absx.Machine(m, [self.random, self.tasks], self.oracle, budget=3000000)
        self.mc.st = sem.Quiet()
        self.cls = {n: v[1] for n, v in kinds(z).items()}
        self.cls.update({"gs": "s", "gm": "m", "gx": "x", "Cgs": "s", "Cgm": "m", "Cgx": "x"})
        self.h = self.mc.new()
        self.mc.run("hasher_" + z, self.h)

    def fork(self):
        t = copy.copy(self)
        t.mc = self.mc.fork()
        t.mc.models, t.mc.oracle = [t.random, t.tasks], t.oracle
        return t

    def random(self, an, i, st, fn, d, a):
        if "uniform_int_distribution" in fn and fn.endswith("operator()"):
            if len(a) > 1 and self.mc.watch is not None and a[1][0] == "p":       # draws from the generator change it
                self.mc.watch(self.mc, True, a[1][1], a[1][2], 8, False)
            return num(self.mult)
        return NotImplemented

    def tasks(self, an, i, st, fn, d, a):
        """two tasks of a parallel loop: the second first, or (at = k) within the first, at its k-th access to shared memory"""
        if fn != "vf_tasks":
            return NotImplemented
        f, mc = a[0][1][1], self.mc
        if self.at is None:
            mc.run(f, a[1], a[3])
            mc.run(f, a[1], a[2])
        else:
            hit, _ = mc.interleave(lambda: mc.run(f, a[1], a[3]), self.at, f, a[1], a[2])
            self.past = self.past and not hit
            if not hit:
                mc.run(f, a[1], a[3])
        return None

    def oracle(self, c):
        if "__libc_single_threaded" in repr(c):
            return False
        return None

    def op(self, n, o, *a):
        return self.mc.run("%s%s_%s" % (n, self.z, o), *a)

    def key(self, k):
        bits = 8 * self.w
        return num(k - 2 ** bits if k >> (bits - 1) else k)

    def int(self, v, bits=64):
        v = self.mc.simp(v)
        if absx.unwritten(v):
            raise Refuted("uses a value that was never written")
        if v[0] != "i":
            raise Undecided("result " + sem.show(v)[:60])
        return v[1] & (2 ** bits - 1)

    def new(self, n, size):
        t = self.mc.new()
        if n[0] == "g":
            g = self.mc.new()
            self.op(n, "table", g, num(size))
            self.op(n, "handle", t, g)
            return t, g
        self.op(n, "new", t, num(size), self.h)
        return t

    def insert(self, n, t, k, v=None, o="insert"):
        if self.cls[n] == "s":
            return self.int(self.op(n, "insert", t, self.key(k)), 32)
        return self.int(self.op(n, o, t, self.key(k), v), 32)

    def cells(self, out, n):
        r = []
        for i in range(n):
            r.append(self.mc.simp(self.mc.load(self.mc.st, ("p", out[1], num(i * self.w)), self.ty)))
        return r

    def rows(self, n, out, c):
        """what an iteration wrote to out: keys, or pairs of key and value"""
        r = self.cells(out, c)
        if self.cls[n] == "s":
            return sorted(self.int(x, 8 * self.w) for x in r)
        if len(r) % 2:
            raise Refuted("iteration ends within an entry")
        return sorted(((self.int(r[i], 8 * self.w), repr(self.value(r[i + 1]))) for i in range(0, len(r), 2)))

    def value(self, v):
        if absx.unwritten(v):
            raise Refuted("reports a value that was never written")
        return v

    def check(self, n, t, ref, universe, what, full=True):
        """ref: list of keys, dict or list of pairs"""
        cl = self.cls[n]
        keys = set(ref) if cl != "x" else {k for k, _ in ref}
        if cl == "s":
            rows = sorted(ref)
        else:
            rows = sorted((k, repr(v)) for k, v in (ref.items() if cl == "m" else ref))
        got = self.int(self.op(n, "size", t))
        if got != len(rows):
            raise Refuted("%s: size() is %d with %d entries" % (what, got, len(rows)))
        if bool(self.int(self.op(n, "none", t), 1)) != (not rows):
            raise Refuted("%s: empty() of %d entries" % (what, len(rows)))
        for k in universe:
            want = k in keys
            if bool(self.int(self.op(n, "has", t, self.key(k)), 1)) != want:
                raise Refuted("%s: contains(%s) is %s" % (what, hx(k), not want))
            if full and bool(self.int(self.op(n, "count", t, self.key(k)))) != want:
                raise Refuted("%s: count(%s) is wrong" % (what, hx(k)))
            if full and "%s%s_get" % (n, self.z) in self.m.funcs:
                out = self.mc.new(self.w * 64)
                c = self.int(self.op(n, "get", t, self.key(k), out))
                if cl == "x":
                    have = sorted(repr(v) for q, v in ref if q == k)
                    if c != len(have):
                        raise Refuted("%s: get(%s) yields %s values instead of %d" % (what, hx(k), c if c < 100 else "foreign", len(have)))
                    if sorted(repr(self.value(v)) for v in self.cells(out, c)) != have:
                        raise Refuted("%s: get(%s) yields other values" % (what, hx(k)))
                else:
                    v = self.cells(out, 1)[0]
                    w = num(0) if not want else self.key(k) if cl == "s" else ref[k]
                    if self.value(v) != w:
                        raise Refuted("%s: get(%s) yields %s instead of %s" % (what, hx(k), sem.show(v)[:40], sem.show(w)[:40]))
        out = self.mc.new(self.w * 2048)
        c = self.int(self.op(n, "list", t, out))
        got = self.rows(n, out, c)
        if got != rows:
            raise Refuted("%s: iteration yields %s instead of %s" % (what, names(got), names(rows)))
        if full and "%s%s_range" % (n, self.z) in self.m.funcs:
            for g in (1, 2):
                out = self.mc.new(self.w * 2048)
                c = self.int(self.op(n, "range", t, num(g), out))
                got = self.rows(n, out, c)
                if got != rows:
                    raise Refuted("%s: the parts of range() yield %s instead of %s" % (what, names(got), names(rows)))


def hx(k):
    return str(k) if k < 1000 else "%#x" % k


def names(r):
    return "{" + ", ".join(hx(x) if isinstance(x, int) else hx(x[0]) for x in r) + "}"


class Model:
    """the set, map or multimap"""
    def __init__(self, cl):
        self.cl, self.c = cl, {} if cl == "m" else []

    def add(self, k, v=None):
        if self.cl == "s":
            if k in self.c:
                return False
            self.c.append(k)
            return True
        if self.cl == "m":
            new = k not in self.c
            self.c[k] = v
            return new
        self.c.append((k, v))
        return True

    def __len__(self):
        return len(self.c)

    def items(self):
        return [(k, None) for k in self.c] if self.cl == "s" else list(self.c.items()) if self.cl == "m" else list(self.c)


VAL = itertools.count()


def fill(tb, n, t, mod, keys, conc, grows, what, pairs=False):
    """inserts keys -> what could not be inserted"""
    left = []
    for j, k in enumerate(keys):
        v = num(0x1b000000 + next(VAL)) if mod.cl != "s" else None
        cap = tb.int(tb.op(n, "cap", t)) if n[0] != "g" else 0
        r = tb.insert(n, t, k, v, "insertp" if pairs and mod.cl != "s" and n[0] != "g" else "insert")
        if r == 2:
            if not conc:
                raise Refuted("%s: insert(%s) gives no answer" % (what, hx(k)))
            if grows and len(mod) < cap // 2 and len(mod) <= 10 or not grows and len(mod) < cap:
                raise Refuted("%s: insert(%s) refuses an entry with %d of %d slots taken" % (what, hx(k), len(mod), cap))
            left.append(k)
            continue
        if bool(r) != mod.add(k, v):
            raise Refuted("%s: insert(%s) reports that the key %s" % (what, hx(k), "is new" if r else "was there"))
    return left


def seqs(u, n):
    for l in range(n + 1):
        yield from itertools.product(u, repeat=l)


FILES = {"s": FS, "f": FS, "c": FS, "d": FS, "m": FM, "n": FM, "x": FX, "y": FX, "gs": FG, "gm": FG, "gx": FG}
LABEL = {"s": "LP_Set<K, true>", "f": "LP_Set<K>", "c": "Concurrent_LP_Set<K, true>", "d": "Concurrent_LP_Set<K>", "m": "LP_Map", "n": "Concurrent_LP_Map", "x": "LP_MultiMap",
         "y": "Concurrent_LP_MultiMap", "gs": "growing set", "gm": "growing map", "gx": "growing multimap"}


def cases(z, m, tier):
    """(file, obligation, thunk)"""
    top = 2 ** (32 if z == "u" else 64) - 1
    U = [1, 2, 9, 17, top]
    A = U + [3, 5, 8, 2 ** (31 if z == "u" else 63)]
    ks = kinds(z)
    deep = tier == "thorough"
    short = 3 if z == "u" else 2
    for n in list(ks) + ["gs", "gm", "gx"]:
        _, cl, conc, grows = ks[n] if n in ks else (None, {"gs": "s", "gm": "m", "gx": "x"}[n], True, True)
        name = LABEL[n]
        sizes = (0, 1, 2, 4) if grows else (1, 2, 4) if conc else (4, 8)
        for mult in ((1, 3, 2 ** 31 + 5) if deep else (1, 3)):
            for size in sizes:
                depth = (4 if size in (1, 4) else 3) if deep and z == "u" else 3 if mult == 1 and z == "u" and size in (1, 4, 8) else 2

                def build(n=n, cl=cl, conc=conc, grows=grows, mult=mult, size=size, depth=depth, name=name):
                    c = 0
                    for s in seqs(U, depth):
                        tb = Tables(m, z, mult)
                        what = "%s of size %d, keys %s" % (name, size, names(s))
                        t = tb.new(n, size)
                        t = t[0] if n[0] == "g" else t
                        mod = Model(cl)
                        left = fill(tb, n, t, mod, s, conc, grows, what, pairs=len(s) == 2)
                        if n[0] == "g" and left:
                            raise Refuted("%s: insert gives up" % what)
                        tb.check(n, t, mod.c, A, what, full=len(s) < 3 or c % 5 == 0)
                        c += 1
                    return c
                yield FILES[n], "%s<%s>: insertion sequences (size %d, multiplier %d)" % (name, INST[z], size, mult), build
        # many keys
        def many(n=n, cl=cl, conc=conc, grows=grows, name=name):
            for mult in (1, 5):
                tb = Tables(m, z, mult)
                keys = [(7 * i * i + 3 * i) % 61 + 1 for i in range(24)]
                size = 1 if grows and not conc or n[0] == "g" else 64
                t = tb.new(n, size)
                g = t[1] if n[0] == "g" else None
                t = t[0] if n[0] == "g" else t
                what = "%s of 24 insertions" % name
                mod = Model(cl)
                for k in range(0, 24, 8):
                    left = fill(tb, n, t, mod, keys[k:k + 8], conc, grows, what)
                    if left and not (n in ("c",)):
                        raise Refuted("%s: insert(%d) refused" % (what, left[0]))
                    tb.check(n, t, mod.c, sorted(set(keys)) + [62, 63, top], what)
            return 6
        yield FILES[n], "%s<%s>: a table of many keys" % (name, INST[z]), many
        if n[0] == "g":
            def handles(n=n, cl=cl, name=name):
                c = 0
                for size in (0, 1, 3):
                    tb = Tables(m, z, 1)
                    g = tb.mc.new()
                    tb.op(n, "table", g, num(size))
                    hs = []
                    for _ in range(3):
                        h = tb.mc.new()
                        tb.op(n, "handle", h, g)
                        hs.append(h)
                    ch = tb.mc.new()
                    tb.op(n, "chandle", ch, g)
                    mod = Model(cl)
                    what = "%s of size %d with several handles" % (name, size)
                    for r, k in enumerate((1, 9, 17, 2, 9, 3, top, 33, 5)):
                        fill(tb, n, hs[r % 2], mod, [k], True, True, what)
                        tb.check("C" + n, ch, mod.c, A, what, full=False)
                        if r % 3 == 0:
                            tb.check(n, hs[2], mod.c, A, what, full=False)
                        c += 1
                    tb.check(n, hs[2], mod.c, A, what)
                    tb.check("C" + n, ch, mod.c, A, what)
                    g2 = tb.mc.new()
                    tb.op(n, "adopt", g2, g)
                    h = tb.mc.new()
                    tb.op(n, "handle", h, g2)
                    tb.check(n, h, mod.c, A, "%s after a move" % name)
                    g3 = tb.mc.new()
                    tb.op(n, "table", g3, num(4))
                    tb.op(n, "take", g3, g2)
                    h = tb.mc.new()
                    tb.op(n, "handle", h, g3)
                    tb.check(n, h, mod.c, A, "%s after an assignment" % name)
                    fill(tb, n, h, mod, (41, 42, 43, 44), True, True, what)
                    tb.check(n, h, mod.c, A + [41, 42, 43, 44], "%s after an assignment" % name)
                return c
            if z == "u":
                def blocks(n=n, cl=cl, name=name):
                    tb = Tables(m, z, 1)
                    t, _ = tb.new(n, 512)
                    mod = Model(cl)
                    keys = [2 * i + 1 for i in range(255)] + [1000, 1023, 3, 512 + 7]
                    what = "%s of 512 slots and %d keys" % (name, len(keys))
                    fill(tb, n, t, mod, keys, True, True, what)
                    tb.check(n, t, mod.c, keys[::32] + keys[-4:] + [2, 256, 1001], what, full=False)
                    return len(keys)
                yield FG, "%s<%s>: growth of a table of several blocks" % (name, INST[z]), blocks
            yield FG, "%s<%s>: several handles, growth seen by all of them" % (name, INST[z]), handles
            continue
        conts = [(), (1,), (9, 2), (17, 9, 1)] if z == "u" or deep else [(), (9, 2, 17)]
        edge = [(8,), (7, 16, 3)]     # the first and last slots

        def made(tb, n, keys, size, what):
            t = tb.new(n, size)
            _, cl, conc, grows = ks[n]
            mod = Model(cl)
            if fill(tb, n, t, mod, keys, conc, grows, what):
                raise Undecided("input table too small")
            return t, mod

        def cap(n, k):
            _, cl, conc, grows = ks[n]
            return max(8 if k > 2 else 4 if k else (1 if grows else 2), 1)

        def more(tb, n, t, mod, what):
            _, cl, conc, grows = ks[n]
            if grows and not conc:
                fill(tb, n, t, mod, (5, 13, 21, 2), conc, grows, what)
                tb.check(n, t, mod.c, A + [13, 21], what + ", then insertions", full=False)
            elif tb.int(tb.op(n, "cap", t)) > 2 * len(mod) + 2:
                fill(tb, n, t, mod, (5,), conc, grows, what)
                tb.check(n, t, mod.c, A, what + ", then an insertion", full=False)

        def moves(n=n, name=name):
            c = 0
            for s in conts + edge:
                for o in ("move", "assign") + (("copy",) if "%s%s_copy" % (n, z) in m.funcs else ()):
                    tb = Tables(m, z, 1)
                    what = "%s %s after %s" % (name, names(s), o)
                    t, mod = made(tb, n, s, cap(n, len(s)), what)
                    if o == "assign":
                        tb2, _ = made(tb, n, (3,), cap(n, 3), what)
                        tb.op(n, "assign", tb2, t)
                        q = tb2
                    else:
                        q = tb.mc.new()
                        tb.op(n, o, q, t)
                    tb.check(n, q, mod.c, A, what)
                    old = list(mod.c)
                    more(tb, n, q, mod, what)
                    if o == "copy":
                        tb.check(n, t, old, A, what + ": the original")
                        tb.op(n, "end", t)
                        tb.check(n, q, mod.c, A, what + ", original destroyed", full=False)
                    tb.op(n, "end", q)
                    c += 1
            return c
        yield FILES[n], "%s<%s>: copy, move, assignment" % (name, INST[z]), moves
        if not conc:
            def rehash(n=n, cl=cl, name=name, grows=grows):
                c = 0
                for s in conts:
                    for size in (0, 1, 8, 16) if not s else (2, 8, 16) if len(s) == 1 else (8, 16):
                        if not grows and size <= len(s):
                            continue
                        if size < 2 * len(s):
                            continue
                        tb = Tables(m, z, 3)
                        what = "%s %s rehashed to %d" % (name, names(s), size)
                        t, mod = made(tb, n, s, cap(n, len(s)), what)
                        tb.op(n, "rehash", t, num(size))
                        tb.check(n, t, mod.c, A, what)
                        more(tb, n, t, mod, what)
                        for f in ((), (9,), (1, 17)):
                            for o, cmp in [("rehashf", False)] + ([("rehashc", False), ("rehashc", True), ("filter", False)] if cl == "s" else []):
                                tb = Tables(m, z, 1)
                                what = "%s %s rehashed to %d with filter %s, %s" % (name, names(s), size, names(f), cmp)
                                t, mod = made(tb, n, s, cap(n, len(s)), what)
                                fl, _ = made(tb, "s", f, 4, what)
                                if o == "filter":
                                    tb.op(n, "filter", t, fl)
                                elif o == "rehashc":
                                    tb.op(n, "rehashc", t, num(size), fl, num(int(cmp)))
                                else:
                                    tb.op(n, "rehashf", t, num(size), fl)
                                kept = Model(cl)
                                for k, v in mod.items():
                                    if (k in f) == cmp:
                                        kept.add(k, v)
                                tb.check(n, t, kept.c, A, what, full=False)
                                c += 1
                return c
            yield FILES[n], "%s<%s>: rehash and filter" % (name, INST[z]), rehash

        partner = {"c": "s", "d": "f", "n": "m", "y": "x"}
        src = {n} if not conc else {partner[n]} if n in ("c", "d", "y") else {n}
        merges = [("merge", None), ("mergef", False)] + ([("mergec", False), ("mergec", True)] if cl == "s" else []) if not conc else \
            [("umergef", False)] + ([("umerge", None)] if n == "n" else [])

        def merge(n=n, cl=cl, name=name, merges=merges, src=src):
            c = 0
            for o, cmp in merges:
                tight = [((1, 2, 3), (9, 5, 6)), ((1,), (2,)), ((7, 15, 8), (23, 31, 16))]
                for s, r in list(itertools.product(conts, ((), (9,), (2, 33), (17, 3, 1)))) + tight:
                    for f in ((), (9,), (1, 2)) if cmp is not None else ((),):
                        for p in src:
                            tb = Tables(m, z, 1)
                            what = "%s %s merged with %s, filter %s%s" % (name, names(s), names(r), names(f), "" if cmp is None else ", keeping what is %sin it" % ("" if cmp else "not "))
                            t, mod = made(tb, n, s, (cap(n, len(s)) if (s, r) not in tight else 4 if len(s) > 2 else 2) if not conc else cap(n, len(s)), what)
                            q, mod2 = made(tb, p, r, (cap(p, len(r)) if (s, r) not in tight else 4 if len(s) > 2 else 2) if not conc else cap(p, len(r)), what)
                            fl, _ = made(tb, "s", f, 4, what)
                            want = Model(cl)
                            for k, v in mod.items() + mod2.items():
                                if cmp is None or (k in f) == cmp:
                                    want.add(k, v)
                            both = set(k for k, _ in mod.items()) & set(k for k, _ in mod2.items())
                            if cl == "m" and both and conc_map(n):
                                continue      # which of the two values stays is left to the schedule
                            a = [t, q] + ([] if cmp is None else [fl]) + ([num(int(cmp))] if o == "mergec" else [])
                            tb.op(n, o, *a)
                            tb.check(n, t, want.c, A + [33], what, full=c % 4 == 0)
                            if c % 3 == 0 and (grows_seq(n)):
                                more(tb, n, t, want, what)
                            c += 1
            return c
        yield FILES[n], "%s<%s>: merging" % (name, INST[z]), merge
        if conc:
            def convert(n=n, cl=cl, name=name, p=partner[n]):
                c = 0
                for s in conts:
                    tb = Tables(m, z, 1)
                    what = "%s %s converted to %s" % (name, names(s), LABEL[p])
                    t, mod = made(tb, n, s, cap(n, len(s)), what)
                    q = tb.mc.new()
                    tb.op(p, "from", q, t)
                    tb.check(p, q, mod.c, A, what)
                    more(tb, p, q, mod, what)
                    what = "%s %s converted to %s" % (LABEL[p], names(s), name)
                    t, mod = made(tb, p, s, cap(p, len(s)), what)
                    q = tb.mc.new()
                    tb.op(n, "from", q, t)
                    tb.check(n, q, mod.c, A, what)
                    more(tb, n, q, mod, what)
                    if "%s%s_load" % (n, z) in m.funcs:
                        what = "%s loaded from %s %s" % (name, LABEL[p], names(s))
                        t, mod = made(tb, p, s, cap(p, len(s)), what)
                        q = tb.new(n, tb.int(tb.op(p, "cap", t)))
                        tb.op(n, "load", q, t)
                        tb.check(n, q, mod.c, A, what)
                    if "%s%s_urehash" % (n, z) in m.funcs:
                        what = "%s %s rehashed" % (name, names(s))
                        t, mod = made(tb, n, s, cap(n, len(s)), what)
                        tb.op(n, "urehash", t, num(16))
                        tb.check(n, t, mod.c, A, what)
                    c += 1
                return c
            yield FILES[n], "%s<%s>: conversion from and to %s" % (name, INST[z], LABEL[partner[n]]), convert
        if "%s%s_eq" % (n, z) in m.funcs:
            def equal(n=n, name=name):
                c = 0
                sets = [(), (1,), (9,), (1, 9), (9, 1), (1, 9, 17), (1, 9, 25)]
                for s, r in itertools.product(sets, sets):
                    tb = Tables(m, z, 1)
                    t, _ = made(tb, n, s, 8, name)
                    q, _ = made(tb, n, r, 8 if len(r) < 2 else 16, name)
                    got = bool(tb.int(tb.op(n, "eq", t, q), 1))
                    if got != (set(s) == set(r)):
                        raise Refuted("%s: %s == %s is %s" % (name, names(s), names(r), got))
                    c += 1
                return c
            yield FILES[n], "%s<%s>: equality" % (name, INST[z]), equal


def conc_map(n):
    return n == "n"


def grows_seq(n):
    return n in ("s", "m", "x")


def modules(ctx, name, which="ul"):
    out = {}
    for z in which:
        src = HEAD + source(z)
        import re
        roots = re.findall(r'extern "C" \w+(?: \w+)? \*?(\w+)\(', src)
        out[z] = cxx.build(ctx, "%s_%s" % (name, z), src, roots, ["-I" + os.path.join(SHIM, "seq"), "-I" + SHIM, "-DNDEBUG"], recursive=True)
    return out


def check(ctx):
    mods = modules(ctx, "tables")
    tasks = [(z, f, what, go) for z, m in mods.items() for f, what, go in cases(z, m, ctx.tier)]
    bad = set()
    for i, verdict, r in forks.each(go for _, _, _, go in tasks):
        _, f, what, _ = tasks[i]
        if verdict == "ok":
            ctx.count("obligations")
            ctx.count("cases", r)
        elif verdict == "refuted":
            key = f.strip() + ":" + what.split("<")[0].replace(" ", "-")
            if key not in bad:
                ctx.viol(key, "%s%s: %s" % (f, what, r))
            bad.add(key)
        else:
            ctx.count("undecided")
            ctx.notes.append("undecided: %s%s: %s" % (f, what, r))
