import cxx, sem, absx, cont, conc
from sem import num
from unf import Undecided, Refuted

LEVEL = "other"
EXPLANATION = ("Abstract interpretation of both blocked arrays on histories of construction, growth, moves and destruction with "
               "several block sizes: every index is resolved to an object and offset, so the check sees whether accesses stay inside a "
               "block, distinct indices get disjoint cells, cells survive growth and moves, checked access throws exactly beyond "
               "the capacity, and every block is released once. For the concurrent array, the shared state "
               "may change only by atomic operations or under a lock, and a second thread inserted at any shared access of a growing one finds only finished blocks.")
ASSUMPTIONS = ["tbb::concurrent_vector as specified; std::vector and std::unique_ptr are analysed from their source"]
CFG = [("P", "BlockedArray<long, 4>", 4, 8), ("Q", "BlockedArray<short, 3>", 3, 2), ("R", "BlockedArray<Rec, 1>", 1, 24), ("U", "Concurrent_BlockedArray<long, 4>", 4, 8),
       ("V", "Concurrent_BlockedArray<Rec, 3>", 3, 24), ("W", "BlockedArray<char>", 512, 1), ("X", "Concurrent_BlockedArray<char>", 512, 1)]
HARNESS = '''#include "datastructures/BlockedArray.hxx"
#include <new>
struct Rec { long a, b, c; };
#define ARR(N, ...) typedef __VA_ARGS__ N##_t; \\
extern "C" void N##_new(N##_t *p, std::size_t c) { new (p) N##_t(c); } \\
extern "C" void N##_newd(N##_t *p) { new (p) N##_t(); } \\
extern "C" void N##_mv(N##_t *p, N##_t &o) { new (p) N##_t(std::move(o)); } \\
extern "C" void N##_del(N##_t *p) { p->~N##_t(); } \\
extern "C" void N##_res(N##_t &p, std::size_t c) { p.reserve(c); } \\
extern "C" void *N##_idx(N##_t &p, std::size_t c) { return &p[c]; } \\
extern "C" const void *N##_cidx(const N##_t &p, std::size_t c) { return &p[c]; } \\
extern "C" void *N##_at(N##_t &p, std::size_t c) { return &p.at(c); } \\
extern "C" const void *N##_cat(const N##_t &p, std::size_t c) { return &p.at(c); }
''' + "".join("ARR(h_%s, %s)\n" % (n, t) for n, t, _, _ in CFG)
OPS = ["new", "newd", "mv", "del", "res", "idx", "cidx", "at", "cat"]
F = "include/datastructures/BlockedArray.hxx "


class Ptrs(cont.Library):
    elty = "ptr"

    def seqop(self, an, i, st, f, last, d, args, sret):
        """concurrent_vector of owning pointers"""
        cls = f.split("::")[-2]
        a = an.addr(st, args[1] if sret else args[0])
        rest = args[2:] if sret else args[1:]
        if last == cls or last == "operator=":
            if rest and "&&" in d:
                o = an.addr(st, rest[0])
                self.seqs[a], self.seqs[o] = self.seqs.get(o, []), []
                return args[0]
            if rest and last == cls and "allocator" not in sem.params(d)[0]:
                raise Undecided("construction of a concurrent vector")
            self.seqs[a] = []
            return None
        if last == "swap":
            o = an.addr(st, rest[0])
            self.seqs[a], self.seqs[o] = self.seqs.get(o, []), self.seqs.get(a, [])
            return None
        if last.startswith("~") or last == "clear":
            for b in self.seqs.get(a, []):
                an.release(an.load(st, ("p", b, num(0)), "ptr"))
            self.seqs[a] = []
            return None
        if last in ("push_back", "emplace_back"):
            b = self.node()
            self.seq(a).append(None)        # the place is taken first, the element built afterwards
            k = len(self.seq(a)) - 1
            an.point()
            v = an.load(st, rest[0], "ptr")
            an.store(st, ("p", b, num(0)), v, "ptr")
            if last == "push_back":
                an.store(st, rest[0], ("null",), "ptr")
            elif "unique_ptr" in sem.params(d)[0] if sem.params(d) else False:
                an.store(st, rest[0], ("null",), "ptr")
            self.seq(a)[k] = b
            it = ("seqit", a, k)
            if sret:
                an.store(st, args[0], it)
                return None
            return it
        if last in ("size", "empty"):
            n = len(self.seq(a))
            return num(int(n == 0)) if last == "empty" else num(n)
        if last in ("operator[]", "at"):
            k = an.simp(rest[0])
            if k[0] != "i":
                raise Undecided("index")
            if not 0 <= k[1] < len(self.seq(a)):
                if last == "at":
                    raise absx.Thrown("std::out_of_range")
                raise Refuted("takes block %d of %d" % (k[1], len(self.seq(a))))
            if self.seq(a)[k[1]] is None:
                raise Refuted("an index within the capacity leads to a block that is still under construction")
            return ("p", self.seq(a)[k[1]], num(0))
        raise Undecided("concurrent vector " + last)


def fatal(an, i, st, fn, d, args):
    if sem.cleanfn(fn) in ("std::out_of_range::out_of_range", "std::out_of_range::~out_of_range"):
        return None
    return NotImplemented


class Bad(Exception):
    pass


class Arr:
    """an array under analysis with the reference: cells by index, capacity at least / at most"""

    def __init__(self, mc, n, bs, size):
        self.mc, self.n, self.bs, self.size = mc, n, bs, size
        self.o = mc.new()
        self.cells, self.cap = {}, None

    def call(self, op, *a):
        return self.mc.run("h_%s_%s" % (self.n, op), self.o, *a)

    def scan(self, ctx, least, why, most=0):
        """observes every index around the capacity"""
        cap = None
        top = max(least + 2 * self.bs, most + 4 * self.bs if most else 0) + 1
        pts = [k for k in range(top + 1) if self.bs <= 8 or k % self.bs in (0, 1, self.bs - 1) or k in (least - 1, least, least + 1)]
        for k in pts:
            res = []
            for op in ("at", "cat"):
                ctx.count("accesses")
                try:
                    res.append(self.call(op, num(k)))
                except absx.Thrown as e:
                    if "out_of_range" not in e.what:
                        raise Bad("at() throws %s at index %d %s" % (e.what, k, why))
                    res.append(None)
            if (res[0] is None) != (res[1] is None):
                raise Bad("the constant and the other at() disagree whether index %d exists %s" % (k, why))
            if res[0] is None:
                if k < least:
                    raise Bad("at() refuses index %d although %d elements were reserved %s" % (k, least, why))
                if cap is None:
                    cap = k
                continue
            if cap is not None:
                raise Bad("at() accepts index %d after refusing %d %s" % (k, cap, why))
            res += [self.call("idx", num(k)), self.call("cidx", num(k))]
            if len(set(res)) != 1:
                raise Bad("operator[] and at() lead to different places for index %d %s" % (k, why))
            p = res[0]
            if p[0] != "p" or p[2][0] != "i":
                raise Undecided("element address")
            if p[1] in self.mc.freed:
                raise Bad("index %d lies in a released block %s" % (k, why))
            if p[1] not in self.mc.size or p[2][1] < 0 or p[2][1] + self.size > self.mc.size[p[1]]:
                raise Bad("index %d lies outside its block %s" % (k, why))
            if k in self.cells and self.cells[k] != p:
                raise Bad("index %d moved to another place %s" % (k, why))
            self.cells[k] = p
        if cap is not None and cap < self.bs * len({p[1] for p in self.cells.values()}) and self.bs <= 8:
            pass
        seen = {}
        for k, p in self.cells.items():
            for q, j in seen.get(p[1], ()):
                if abs(q - p[2][1]) < self.size:
                    raise Bad("indices %d and %d share memory %s" % (j, k, why))
            seen.setdefault(p[1], []).append((p[2][1], k))
        for k in self.cells:
            if cap is not None and k >= cap:
                raise Bad("index %d got lost %s" % (k, why))
        if cap is None:
            raise Bad("at() accepts index %d with %d elements reserved %s" % (top, least, why))
        if self.cap is not None and cap < self.cap:
            raise Bad("the capacity shrank from %d to %d %s" % (self.cap, cap, why))
        self.cap = cap


def history(ctx, m, n, bs, size, hist):
    """hist: first capacity (None: default), then growth steps, 'm' move, 'n' reuse of the moved-from array, 'd' end"""
    mc = absx.Machine(m, [Ptrs(), fatal], budget=200000)
    mc.maxalloc = 600
    a = Arr(mc, n, bs, size)
    old = []
    least = 0
    why = ""
    for k, h in enumerate(hist):
        if k == 0:
            if h is None:
                a.call("newd")
                least = bs
            else:
                a.call("new", num(h))
                least = h
            why = "after construction with capacity %s" % h
        elif h == "m":
            b = Arr(mc, n, bs, size)
            b.call("mv", a.o)
            b.cells, b.cap = dict(a.cells), a.cap
            old.append(a)
            a.cells, a.cap = {}, None
            a = b
            why = "after a move"
            g = Arr(mc, n, bs, size)
            g.o = old[-1].o
            for q in (0, 1, bs):
                for op in ("at", "cat"):
                    try:
                        g.call(op, num(q))
                    except absx.Thrown:
                        continue
                    raise Bad("a moved-from array still has an element %d" % q)
        elif h == "n":
            g = old[-1]
            g.call("res", num(bs + 1))
            g.scan(ctx, bs + 1, "in a moved-from array after reserving again")
            if {p[1] for p in g.cells.values()} & {p[1] for p in a.cells.values()}:
                raise Bad("a moved-from array shares memory with its successor")
        else:
            a.call("res", num(h))
            least = max(least, h)
            why = "after reserve(%d)" % h
        a.scan(ctx, least, why)
        ctx.count("steps")
    if mc.locked:
        raise Bad("a lock is still held at the end")
    for x in old + [a]:
        x.call("del")
    left = [b for b in mc.allocs if b[0] == "new" and b in mc.size and b not in mc.freed]
    if left:
        raise Bad("%d allocations are never released" % len(left))


def resolve(t, env):
    """a summary with everything that depends on the inputs only evaluated"""
    if not isinstance(t, tuple):
        return t
    try:
        return ("i", sem.evaluate(t, env))
    except (KeyError, IndexError, TypeError):
        return tuple(resolve(x, env) for x in t)


def plain(t):
    """addresses of plain loads in a summary"""
    if isinstance(t, (tuple, list)):
        if len(t) == 3 and t[0] == "ld":
            yield t[1]
        for x in t:
            yield from plain(x)


def index_terms(ctx, m, n, t, bs, size):
    """the address of element idx as a closed term in idx: distinct indices lead to disjoint cells of a block, for far indices too"""
    pts = [b + k for b in (0, bs * 3, bs << 15, bs << 16, (bs << 31) - bs, bs << 32, bs * ((1 << 33) + 7)) for k in range(-1, 2 * bs + 2) if b + k >= 0
           and (bs <= 8 or k % bs in (0, 1, bs - 1))]
    for op in ("idx", "cidx", "at", "cat"):
        seen = {}
        ps = [p for p in sem.Analysis(m, "h_%s_%s" % (n, op)).paths if p.term[0] == "ret"]
        for k in sorted(set(pts)):
            for p in ps:
                a = p.term[1]
                env = {("s", "arg1"): k}
                ok = True
                for c in p.conds:
                    try:
                        ok = ok and bool(sem.evaluate(c, env) & 1)
                    except (KeyError, IndexError, TypeError):
                        pass
                if not ok:
                    continue
                if a[0] != "p":
                    a = ("p", a, num(0))
                ctx.count("index_terms")
                b, o = resolve(a[1], env), resolve(a[2], env)
                if o[0] != "i":
                    ctx.count("undecided")
                    ctx.notes.append("%s %s: offset %s" % (n, op, sem.show(o)[:200]))
                    return
                for q, j in seen.get(b, ()):
                    if j != k and abs(q - o[1]) < size:
                        raise Bad("%s: indices %d and %d lead to the same cell" % (op, j, k))
                seen.setdefault(b, set()).add((o[1], k))


HIST = [(None,), (0,), (0, 1), (1,), (4,), (5, 4, 3), (4, 5, 9), (3, 12, 13, 2), (7, "m"), (5, "m", 11), (4, "m", "n"), (0, "m", "n"), (9, 17, "m", "n", 20), (None, 3, 7), (2, "m", "m")]
BIG = [(None,), (0, 1), (512, 513), (700, "m", "n", 1100)]


def interference(ctx, m, n, bs, size, c0, n1, n2):
    """reserve(n1) while another thread reserves n2 and uses what it can reach, at any shared access of the first"""
    what = "reserve(%d) while another thread does reserve(%d)" % (n1, n2) if n2 else "reserve(%d) while another thread reads" % n1
    for at in range(1, 500):
        mc = absx.Machine(m, [Ptrs(), fatal], budget=200000)
        mc.maxalloc = 600
        a = Arr(mc, n, bs, size)
        a.call("new", num(c0))
        a.scan(ctx, c0, "after construction")

        def other():
            if n2:
                a.call("res", num(n2))
            a.scan(ctx, max(c0, n2), "(%s)" % what, max(c0, n1, n2))
        try:
            hit, _ = mc.interleave(other, at, "h_%s_res" % n, a.o, num(n1))
        except absx.Blocked:
            continue
        if not hit:
            return
        ctx.count("interferences")
        a.scan(ctx, max(c0, n1, n2), "after " + what, max(c0, n1, n2))
        if mc.locked:
            raise Bad("a lock is still held after reserve")


def check(ctx):
    roots = ["h_%s_%s" % (n, o) for n, _, _, _ in CFG for o in OPS]
    m = cxx.build(ctx, "c09", HARNESS, roots, recursive=True)
    ctx.notes += m.repo_funcs
    for n, t, bs, size in CFG:
        cls = t.split("<")[0]
        for h in (HIST if bs <= 8 else BIG):
            try:
                history(ctx, m, n, bs, size, h)
            except Bad as e:
                ctx.viol("%s:%s" % (cls, "".join(c for c in str(e) if not c.isdigit())), F + cls + ": " + str(e))
            except Refuted as e:
                ctx.viol("%s:%s" % (cls, "".join(c for c in str(e) if not c.isdigit())), F + "%s: %s (history %s)" % (cls, e, h))
            except absx.Thrown as e:
                ctx.viol("%s:throws" % cls, F + "%s: throws %s (history %s)" % (cls, e, h))
            except Undecided as e:
                ctx.count("undecided")
                ctx.notes.append("%s %s: %s" % (t, h, e))
    mi = cxx.build(ctx, "c09i", HARNESS, ["h_%s_%s" % (n, o) for n, _, _, _ in CFG for o in ("idx", "cidx", "at", "cat")])
    for n, t, bs, size in CFG:
        try:
            index_terms(ctx, mi, n, t, bs, size)
        except Bad as e:
            ctx.viol("%s:index" % t.split("<")[0], F + t + ": " + str(e))
    # concurrent array: only atomic changes, block before capacity
    m2 = cxx.build(ctx, "c09c", HARNESS, ["h_U_res", "h_U_at", "h_U_idx"])
    for r in ("h_U_res", "h_U_at", "h_U_idx"):
        for p in sem.Analysis(m2, r).paths:
            ctx.count("concurrent_paths")
            for kind, e in conc.unsynchronised(p):
                ctx.viol("race:" + kind, F + "Concurrent_BlockedArray: shared state is changed without synchronisation (%s)" % kind)
    # what reserve changes plainly, be it under a lock, access must not read without it
    wr = set()
    for p in sem.Analysis(m2, "h_U_res").paths:
        wr |= {e[1] for e in conc.flat(p) if e[0] == "store" and conc.isshared(e[1])}
        wr |= {e[3][0] for e in conc.flat(p) if e[0] == "call" and e[3] and conc.isshared(e[3][0]) and e[1].startswith("std::vector::") and e[1].split("::")[-1] in conc.CHANGING}
    for r in ("h_U_at", "h_U_idx"):
        for p in sem.Analysis(m2, r).paths:
            if any(e[0] == "rmw" or e[0] == "call" and e[1].split("::")[-1] in conc.LOCKFN for e in conc.flat(p)):
                continue
            ctx.count("readers")
            if wr & ({a for a in plain((p.conds, p.term))} | {e[3][0] for e in conc.flat(p) if e[0] == "call" and e[3]}):
                ctx.viol("race:reader", F + "Concurrent_BlockedArray: at() and operator[] read what a concurrent reserve() changes without synchronisation")
    for n, bs, size in (("U", 4, 8), ("V", 3, 24)):
        for c0, n1, n2 in ((0, 1, 0), (0, 1, 1), (4, 9, 5), (4, 5, 9), (3, 13, 0), (4, 13, 13), (9, 4, 20)):
            try:
                interference(ctx, m, n, bs, size, c0, n1, n2)
            except Bad as e:
                ctx.viol("concurrent:%s" % "".join(c for c in str(e) if not c.isdigit())[:60], F + "Concurrent_BlockedArray: %s" % e)
            except Refuted as e:
                ctx.viol("concurrent:%s" % "".join(c for c in str(e) if not c.isdigit()), F + "Concurrent_BlockedArray: %s (reserve(%d) while another thread does reserve(%d))" % (e, n1, n2))
            except absx.Thrown as e:
                ctx.viol("concurrent:throws", F + "Concurrent_BlockedArray: throws %s" % e)
            except Undecided as e:
                ctx.count("undecided")
                ctx.notes.append("%s %s: %s" % (n, (c0, n1, n2), e))
