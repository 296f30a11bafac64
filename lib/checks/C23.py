"""C23: a store of simplices holds exactly the simplices put into it (abstract interpretation over block layouts)."""
from fractions import Fraction as F
import absx, forks
from absx import Refuted, Undecided, num
from checks import parts, simps
from checks.C22 import cloud, watched
from checks.simps import NONE, Complex, Run, delaunay, far

LEVEL = "other"
EXPLANATION = ("The operations of the simplex store (blocks, access with hints, membership, iteration, splitting of ranges, merging, filtering, moving, fingerprints, "
               "point location) are interpreted abstractly over block layouts with live, deleted and never filled cells; cells are objects with stable addresses, and "
               "each result is compared with the set of live simplices the history denotes. The accesses of both tasks of each parallel loop are compared for conflicts.")
ASSUMPTIONS = ["identifiers asked for element access lie within blocks", "blocks do not overlap", "parallel loops as two tasks", "real arithmetic in point location"]
FB, FS = "include/datastructures/BlockedArray2.hxx:BlockedArray2", "include/Geometry.h:dSimplices"

# blocks in the order they are added, live identifiers, deleted identifiers
SHAPES = {
    "one block": ([(1, 6)], [1, 2, 3, 4, 5], []),
    "one block with holes": ([(1, 9)], [2, 3, 7], [4, 8]),
    "block of one": ([(5, 6)], [5], []),
    "two blocks": ([(1, 5), (5, 9)], [1, 2, 3, 4, 5, 6, 7, 8], []),
    "two blocks added backwards": ([(7, 11), (2, 5)], [2, 3, 4, 7, 8, 10], [9]),
    "three blocks with gaps": ([(1, 4), (20, 23), (8, 12)], [1, 3, 8, 9, 11, 21, 22], [2, 20]),
    "first block empty": ([(1, 4), (6, 9), (9, 13)], [7, 9, 12], [1, 6]),
    "last block empty": ([(1, 4), (6, 9), (12, 15)], [1, 2, 7], [13]),
    "middle block empty": ([(1, 4), (6, 9), (12, 15)], [2, 3, 12, 14], [8]),
    "nothing live": ([(1, 4), (6, 9)], [], [2, 7]),
    "distant blocks": ([(3, 6), (4000, 4003)], [3, 5, 4000, 4002], []),
    "four blocks": ([(30, 33), (1, 3), (10, 14), (20, 22)], [1, 2, 11, 13, 20, 21, 30, 32], [31]),
    "five single blocks": ([(9, 10), (1, 2), (5, 6), (3, 4), (7, 8)], [1, 3, 5, 7, 9], []),
}


def cell(i, d):
    return [10 * i + j for j in range(d + 1)], [NONE if (i + j) % 3 == 0 else i + j for j in range(d + 1)]


class Store:
    """a store on the machine and what it denotes: live identifier -> address"""
    def __init__(self, m, n, d, shape, mult=3, R=None, shift=0):
        self.R = R or Run(m, n, d, mult)
        blocks, live, gone = shape
        self.before = self.R.alive()
        self.d, self.blocks, self.hull = d, sorted((a + shift, b + shift) for a, b in blocks), []
        self.s = self.R.store([(a + shift, b + shift) for a, b in blocks], Complex(d, {i + shift: cell(i + shift, d) for i in live + gone}, []))
        self.live = {i + shift for i in live}
        for i in gone:
            self.R("drop", self.s, num(i + shift))
        self.addr = {i: self.at(i, "at") for a, b in self.blocks for i in range(a, b)}
        if len(set(self.addr.values())) != len(self.addr):
            raise Refuted("two identifiers share a cell")

    def hint(self, k):
        h = self.R.mc.new(8, kind="obj")
        self.R.mc.store(self.R.mc.st, h, num(k), "i32")
        return h

    def hints(self, hull):
        self.hull = list(hull)
        self.R("hull", self.s, num(len(hull)), self.R.words(hull))

    def at(self, i, op, k=0):
        a = self.R.mc.simp(self.R(op, self.s, num(i), *([self.hint(k)] if op != "uat" else [])))
        if a[0] != "p":
            raise Undecided("address of a cell %r" % (a,))
        return a

    def words(self, op, s=None, size=400):
        w = self.R.mc.new(8 * size, kind="obj")
        n = self.R.int(self.R(op, s or self.s, w))
        if n > size:
            raise Refuted("%d identifiers are visited" % n)
        return [self.R.word(w, k) for k in range(n)]

    def verify(self, what=""):
        """every observation against the denoted set"""
        R, c = self.R, 0
        w = R.mc.new(16, kind="obj")
        n = R.int(R("size", self.s, w))
        if (n, R.word(w, 0), R.word(w, 1)) != (sum(b - a for a, b in self.blocks), self.blocks[0][0], self.blocks[-1][1]):
            raise Refuted("%sreports %d cells from %d to %d for the blocks %s" % (what, n, R.word(w, 0), R.word(w, 1), self.blocks))
        got = self.words("list")
        if got != sorted(self.live):
            raise Refuted("%siteration visits %s, the live simplices are %s" % (what, got[:12], sorted(self.live)))
        want = [x for i in sorted(self.live) for x in [i] + cell(i, self.d)[0] + cell(i, self.d)[1]]
        if self.words("vlist") != want:
            raise Refuted("%siteration yields other simplices than were put" % what)
        inb = {i for a, b in self.blocks for i in range(a, b)}
        ask = sorted({x for i in inb for x in (i - 1, i, i + 1)} | {0, NONE, 2 ** 32 + self.blocks[0][0], 2 ** 40})
        for k in range(len(self.blocks)):
            for i in ask:
                for op, exp in (("has", i in self.live), ("in", i in inb)):
                    h = self.hint(k)
                    if R.int(R(op, self.s, num(i - 2 ** 64 if i >= 2 ** 63 else i), h), 1) != exp:
                        raise Refuted("%s%s reports %s for identifier %s with hint %d" % (what, "contains" if op == "has" else "inRange", not exp, i if i != NONE else "none", k))
                    if exp and R.mc.simp(R("cat", self.s, num(i), h)) != self.addr[i]:
                        raise Refuted("%saccess with the hint from a membership test yields another cell for %d" % (what, i))
                    c += 1
            for i in sorted(inb):
                for op in ("at", "cat"):
                    if self.at(i, op, k) != self.addr[i]:
                        raise Refuted("%saccess to %d with hint %d yields another cell" % (what, i, k))
        for i in ask:
            if R.int(R("uhas", self.s, num(i - 2 ** 64 if i >= 2 ** 63 else i)), 1) != (i in self.live):
                raise Refuted("%sunsafe_contains is wrong for %d" % (what, i))
            if i in inb and self.at(i, "uat") != self.addr[i]:
                raise Refuted("%sunsafe_at yields another cell for %d" % (what, i))
        if sorted(self.words("hulls")) != sorted(self.hull):
            raise Refuted("%sthe hull list holds %s instead of %s" % (what, sorted(self.words("hulls"))[:8], sorted(self.hull)))
        return c

    def ranges(self):
        R = self.R
        for g in (1, 2, 3, 5, 1000):
            for op in ("ranges", "vranges"):
                w, k = R.mc.new(8 * 200, kind="obj"), R.mc.new(8, kind="obj")
                n = R.int(R(op, self.s, num(g), w, k))
                got = [R.word(w, j) for j in range(min(n, 200))]
                if sorted(got) != sorted(self.live):
                    raise Refuted("the parts of a range (grain %d) visit %s, the live simplices are %s" % (g, sorted(got)[:12], sorted(self.live)))
        return 10

    def end(self):
        self.R("end", self.s)


def access(m, n, d, shape):
    st = Store(m, n, d, shape)
    c = st.verify() + st.ranges()
    R = st.R
    ids = sorted(st.addr)
    seq = ids + ids[::-1] + ids[::2] + [ids[-1], ids[0], ids[-1]]
    w = R.mc.new(8 * len(seq), kind="obj")
    R("hat", st.s, R.words(seq), num(len(seq)), w)
    for k, i in enumerate(seq):
        if R.mc.simp(R.mc.load(R.mc.st, ("p", w[1], num(8 * k)), "ptr")) != st.addr[i]:
            raise Refuted("a handle yields another cell for %d" % i)
    ask = [x for i in seq for x in (i, i + 1)] + [0, NONE]
    w = R.mc.new(len(ask), kind="obj")
    R("hhas", st.s, R.words(ask), num(len(ask)), w)
    for k, i in enumerate(ask):
        if R.int(R.mc.load(R.mc.st, ("p", w[1], num(k)), "i8"), 1) != (i in st.live):
            raise Refuted("a handle reports %s for identifier %d" % (i not in st.live, i))
    st.end()
    R.released(st.before, "destruction")
    return c


def merge(m, n, d, a, b, hull, shift):
    s = Store(m, n, d, a)
    t = Store(m, n, d, b, R=s.R, shift=shift)
    s.hints(sorted(s.live)[:2])
    t.hints(sorted(t.live)[1:])
    s.R("merge", s.s, t.s, num(int(hull)))
    s.addr.update(t.addr)
    s.live |= t.live
    s.blocks = sorted(s.blocks + t.blocks)
    if hull:
        s.hull += t.hull
    c = s.verify("after merging ") + s.ranges()
    t.end()
    c += s.verify("after merging and the end of the other store ")
    s.end()
    s.R.released(s.before, "merging and destruction")
    return c


def filtered(m, n, d, shape, out, size):
    parts.Run.wide = size
    try:
        s = Store(m, n, d, shape)
        s.hints(sorted(s.live))
        f = s.R.ids(out)
        s.R("filter", s.s, f)
        s.live -= set(out)
        s.hull = [i for i in s.hull if i not in out]
        return s.verify("after filtering ") + s.ranges()
    finally:
        parts.Run.wide = 0


def moved(m, n, d, shape, other):
    s = Store(m, n, d, shape)
    R = s.R
    s.hints(sorted(s.live)[:3])
    t = R.mc.new(256, kind="obj")
    R("move", t, s.s)
    old, s.s = s.s, t
    c = s.verify("moved to a new store ")
    R("end", old)
    c += s.verify("after the end of the store moved from ")
    o = Store(m, n, d, other, R=R)
    o.hints([1, 2, 3])
    R("assign", o.s, s.s)
    old, s.s = s.s, o.s
    c += s.verify("assigned to another store ")
    R("end", old)
    c += s.verify("after the end of the store assigned from ")
    e = R.mc.new(256, kind="obj")
    R("none", e)
    R("assign", e, s.s)
    R("end", s.s)
    s.s = e
    c += s.verify("assigned to an empty store ")
    s.end()
    R.released(s.before, "moving and destruction")
    return c


def grown(m, n, d):
    s = Store(m, n, d, SHAPES["two blocks added backwards"])
    for a, b in ((40, 43), (12, 15), (5, 7), (1, 2)):
        s.R("add", s.s, num(a), num(b))
        s.blocks = sorted(s.blocks + [(a, b)])
        for i in range(a, b):
            s.addr[i] = s.at(i, "at")
        i = b - 1
        v, nb = cell(i, d)
        s.R("put", s.s, s.R.words([i] + v + nb))
        s.live.add(i)
        s.verify("after adding the block from %d " % a)
    e = Store.__new__(Store)
    e.R, e.d, e.before, e.hull, e.live, e.blocks = s.R, d, s.R.alive(), [], set(), [(0, 1)]
    e.s = s.R.mc.new(256, kind="obj")
    s.R("none", e.s)
    e.addr = {0: e.at(0, "at")}
    e.verify("a new store ")
    e.ranges()
    e.end()
    s.R.released(e.before, "destruction of an empty store")
    s.end()
    return 5


def prints(m, n, d, xy):
    seen = []
    k = len(delaunay(d, xy, list(range(1000))).cells)
    R = Run(m, n, d)

    def hash(blocks, cx):
        s = R.store(blocks, cx)
        w = R.mc.new(4 * 256, kind="obj")
        R("print", s, w)
        return tuple(R.int(R.mc.load(R.mc.st, ("p", w[1], num(4 * j)), "i32"), 32) for j in range(256))
    one = delaunay(d, xy, list(range(1, k + 1)))
    a = hash([(1, k + 1)], one)
    for blocks, ids in (([(1, k + 1)], list(range(k, 0, -1))), ([(50, 53), (4000, 4000 + k)], [50, 52] + list(range(4000, 3998 + k)))):
        if hash(blocks, delaunay(d, xy, ids)) != a:
            raise Refuted("the fingerprint depends on the numbers of the simplices")
    for i in sorted(one.cells):
        c = one.copy()
        del c.cells[i]
        if hash([(1, k + 1)], c) == a:
            raise Refuted("the fingerprint does not depend on simplex %d" % i)
    return k + 3


def near(m, n, d, xy, blocks, ids, ps):
    cx = delaunay(d, xy, ids)
    R = Run(m, n, d)
    q, s = R.points(xy), R.store(blocks, cx)
    c = 0
    for p in ps:
        home = []
        for i, (v, _) in cx.cells.items():
            o = [simps.orient([xy[x] for x in v])] + [simps.orient([xy[x] if x != y else p for x in v]) for y in v]
            if all((x > 0) == (o[0] > 0) and x for x in o[1:]):
                home.append(i)
        for hint in sorted(cx.cells) + [NONE]:
            if hint == NONE and blocks[0][0] not in cx.cells:
                continue
            got = R.int(R("near", s, q, R.row(p), num(hint if hint != NONE else -1)))
            if home and got not in home:
                raise Refuted("the point %s lies in simplex %d, location from %s finds %s" % (tuple(map(float, p)), home[0], hint if hint != NONE else "the default", got if got in cx.cells else "none"))
            if got not in cx.cells:
                raise Refuted("location finds simplex %d, which is not in the store" % got)
            c += 1
    return c


def cases(m, tier):
    for n, d, _ in simps.INST:
        on = "%dD, " % d
        for nm, sh in SHAPES.items():
            if d == 2 or tier != "quick" or nm in ("three blocks with gaps", "distant blocks"):
                yield FB, "access, iteration and ranges (%s%s)" % (on, nm), lambda n=n, d=d, sh=sh: access(m, n, d, sh)
                yield FS, "moving (%s%s)" % (on, nm), lambda n=n, d=d, sh=sh: moved(m, n, d, sh, SHAPES["two blocks"])
        pairs = [("one block", "two blocks", 10), ("two blocks", "one block", 20), ("three blocks with gaps", "two blocks", 30), ("distant blocks", "one block", 100), ("three blocks with gaps", "block of one", 0),
                 ("nothing live", "one block with holes", 12), ("block of one", "distant blocks", 5)]
        for a, b, sh in pairs if d == 2 or tier != "quick" else pairs[2:3]:
            for hull in (True, False):
                yield FS, "merging (%s%s with %s%s)" % (on, a, b, "" if hull else ", hull kept"), lambda n=n, d=d, a=a, b=b, sh=sh, hull=hull: merge(m, n, d, SHAPES[a], SHAPES[b], hull, sh)
        for nm, out in (("two blocks", [1, 4, 5]), ("three blocks with gaps", [1, 3, 8, 9, 11, 21, 22]), ("distant blocks", [4002]), ("one block", []), ("four blocks", [2, 32, 13, 20])):
            for size in (0, 2048):
                if d == 2 or tier != "quick" or nm == "four blocks":
                    yield FS, "filtering (%s%s, %s)" % (on, nm, "large set" if size else "small set"), watched(lambda n=n, d=d, nm=nm, out=out, size=size: filtered(m, n, d, SHAPES[nm], out, size))
        yield FB, "growth (%sfour more blocks)" % on, lambda n=n, d=d: grown(m, n, d)
        xy = cloud(d, 4 if d == 2 else 1)
        yield FS, "fingerprint (%sfour points)" % on, lambda n=n, d=d, xy=xy: prints(m, n, d, xy)
        k = len(delaunay(d, xy, list(range(1000))).cells)
        ps = {2: [(0, 0), (4, 5), (-8, 1), (60, 50), (-70, 20), (1, -90)], 3: [(0, 0, 0), (40, 7, -30), (-20, -50, 60)]}[d]
        ps = [tuple(F(3 * x + j + 1, 3) for j, x in enumerate(p)) for p in ps]
        yield FS, "location (%sone block)" % on, lambda n=n, d=d, xy=xy, k=k, ps=ps: near(m, n, d, xy, [(1, k + 1)], list(range(1, k + 1)), ps)
        yield FS, "location (%stwo blocks)" % on, lambda n=n, d=d, xy=xy, k=k, ps=ps: near(m, n, d, xy, [(3, 6), (20, 20 + k)], [4, 3, 5] + list(range(20, 17 + k)), ps)
        fin = {v: p for v, p in cloud(d, 6 if d == 2 else 3).items() if v < far(d, 0)}
        if len(fin) > d:
            kf = len(delaunay(d, fin, list(range(1000))).cells)
            yield FS, "location (%swithout outer vertices)" % on, lambda n=n, d=d, fin=fin, kf=kf, ps=ps: near(m, n, d, fin, [(1, kf + 1)], list(range(1, kf + 1)), ps)


def check(ctx):
    m = simps.module(ctx)
    tasks = list(cases(m, ctx.tier))
    bad = set()
    keys = [f + ":" + what.split(" (")[0].replace(" ", "-") for f, what, _ in tasks]
    for i, verdict, r in forks.each([go for _, _, go in tasks], keys=keys):
        f, what, _ = tasks[i]
        if verdict == "ok":
            ctx.count("obligations")
            ctx.count("cases", r)
        elif verdict == "refuted":
            if keys[i] not in bad:
                ctx.viol(keys[i], "%s: %s: %s" % (f, what, r))
            bad.add(keys[i])
        elif verdict != "skipped":
            ctx.count("undecided")
            ctx.notes.append("undecided: %s: %s: %s" % (f, what, r))
