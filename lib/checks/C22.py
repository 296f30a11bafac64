"""C22: verification and cross check of triangulations report exactly the violations of their criteria (abstract interpretation over incidence structures)."""
from fractions import Fraction as F
import forks
from absx import Refuted, Undecided, num
from checks import parts, simps
from checks.simps import NONE, Complex, Run, delaunay, far, inside

LEVEL = "other"
EXPLANATION = ("verify and crossCheck are interpreted abstractly over triangulation stores whose vertices, identifiers and blocks are given as incidence "
               "structures: sound ones (Delaunay by definition, with outer vertices) and ones that break one criterion at a time, in several block layouts; "
               "the geometric predicates are opaque functions of the points they are traced to. Verdict and every reported list are compared with the "
               "criteria evaluated on the incidence structure; the accesses of both tasks of each parallel loop are compared for conflicts.")
ASSUMPTIONS = ["simplices are given with sorted vertices and with fingerprints of their vertices", "tbb::concurrent_unordered_multimap as specified, its operations indivisible",
               "predicates have the exact sign (C01)", "neighbours that share no facet with the simplex are outside the criteria"]
FV, FX = "src/lib/Geometry.cpp:dSimplices::verify", "src/lib/Geometry.cpp:dSimplices::crossCheck"

BASE = {2: [(3, 7), (-11, 2), (5, -13), (-4, -6), (17, 1), (1, 23)], 3: [(3, 7, 2), (-11, 2, 5), (5, -13, -3)]}
LAY = {"one block": lambda n: ([(1, n + 1)], list(range(1, n + 1))),
       "blocks with gaps": lambda n: ([(1, 3), (7, 9), (12, 12 + n)], [1, 2, 7, 8] + list(range(12, 8 + n))),
       "distant blocks": lambda n: ([(40, 45), (5000, 5000 + n)], [41, 43, 44] + list(range(5000, 4997 + n)))}


def cloud(d, k, far_points=None):
    xy = {i + 1: tuple(F(x) for x in p) for i, p in enumerate(BASE[d][:k])}
    for j in range(2 ** d if far_points is None else far_points):
        xy[far(d, j)] = tuple(F(103 + j + e if j >> e & 1 else -101 - 2 * j) for e in range(d))
    return xy


def lay(d, xy, how="one block", only=None):
    n = len(delaunay(d, xy if only is None else {v: xy[v] for v in only}, list(range(1000))).cells)
    blocks, ids = LAY[how](n)
    return blocks, delaunay(d, xy if only is None else {v: xy[v] for v in only}, ids)


def judge(cx, xy, ids):
    """what the criteria say -> valid, wrong neighbours, duplicates, (simplex, vertex) in sphere"""
    d, f = cx.d, far(cx.d, 0)
    used = {v for c, _ in cx.cells.values() for v in c}
    fin = {v for v in xy if v < f} if ids is None else set(ids)
    ok = {v for v in fin if v < f} <= used and {v for v in used if v < f} <= fin
    ok &= all(i in cx.hull for i, (c, _) in cx.cells.items() if c[-1] >= f) and all(cx.cells[i][0][-1] >= f for i in cx.hull)
    wrong, dup, circ = set(), set(), set()
    for a, (c, n) in cx.cells.items():
        for b, (e, o) in cx.cells.items():
            share = len(set(c) & set(e))
            if a != b and share == d + 1:
                dup.add((a, b))
            if share >= d and (share == d) != (b in n and a in o) or share >= d and (share == d) != (b in n or a in o):
                wrong.add((a, b))
        for b in n:
            if b != NONE:
                circ |= {(a, v) for v in cx.cells[b][0] if v < f and v not in c and inside(d, xy, c, v)}
    return ok and not (wrong or dup or circ), wrong, dup, circ


def text(ps):
    return ", ".join("(%s, %s)" % p for p in sorted(ps)[:3])


def verify(m, n, d, blocks, cx, xy, ids=None, dropped=(), want=None):
    R = Run(m, n, d)
    q = R.points(xy)
    s = R.store(blocks, cx)
    for i, (v, nb) in dropped:
        R("put", s, R.words((i,) + tuple(v) + tuple(nb)))
        R("drop", s, num(i))
    p = R.ids(ids) if ids is not None else num(0)
    w = R.mc.new(8 * 2000, kind="obj")
    R("verify", s, q, p, w)
    valid, wrong, dup, circ = judge(cx, xy, ids)
    if want is not None and want != valid:
        raise Undecided("the case is not what it is meant to be")
    got = R.word(w, 0) & 1
    k, lists = 1, []
    for _ in range(3):
        ps, k = R.pairs(w, k)
        lists.append(ps)
    for name, g, e in zip(("wrong neighbours", "duplicates", "vertices in spheres"), lists, (wrong, dup, circ)):
        if set(g) != e:
            a, b = set(g) - e, e - set(g)
            raise Refuted("the report %s %s" % ("lists the pair %s among the %s without cause" % (text(a), name) if a else "lacks the pair %s among the" % text(b), "" if a else name))
    if got != valid:
        raise Refuted("the triangulation is reported as %s" % ("valid though it is not" if got else "invalid though it meets every criterion"))
    return 1


def cross(m, n, d, mine, real):
    R = Run(m, n, d)
    s, t = R.store(*mine), R.store(*real)
    w = R.mc.new(8 * 2000, kind="obj")
    R("cross", s, t, w)
    a, b = mine[1].cells, real[1].cells
    sets = {c: i for i, (c, _) in a.items()}
    missing = {(i, i) for i, (c, _) in b.items() if c not in sets}
    invalid = {(i, i) for i, (c, _) in a.items() if c not in {c for c, _ in b.values()}}
    ok = len(a) == len(b) and not missing and not invalid
    for i, (c, nb) in b.items():
        mates = [j for j, (e, _) in a.items() if e == c]
        for x in nb:
            if x != NONE and mates:
                hit = [any(y != NONE and a[y][0] == b[x][0] for y in a[j][1]) for j in mates]
                if len(set(hit)) > 1:
                    raise Undecided("the case depends on the copy found")
                ok &= hit[0]
    k, lists = 1, []
    for _ in range(2):
        ps, k = R.pairs(w, k)
        lists.append(ps)
    for name, g, e in zip(("missing", "superfluous"), lists, (missing, invalid)):
        if set(g) != e:
            x, y = set(g) - e, e - set(g)
            raise Refuted("simplex %s is %sreported as %s" % (min(x or y)[0], "" if x else "not ", name))
        if len(g) != len(e):
            raise Refuted("a simplex is reported as %s twice" % name)
    if (R.word(w, 0) & 1) != ok:
        raise Refuted("the triangulations are reported as %s" % ("equal though they differ" if not ok else "different though they are equal"))
    return 1


def watched(go):
    def run():
        parts.Run.watching = True
        try:
            return go()
        finally:
            parts.Run.watching = False
    return run


def cases(m, tier):
    for n, d, _ in simps.INST:
        k = 4 if d == 2 else 2
        xy = cloud(d, k)
        D = "%dD, " % d

        def V(what, blocks, cx, xy=xy, n=n, d=d, want=None, watch=False, **kw):
            go = lambda: verify(m, n, d, blocks, cx, xy, want=want, **kw)
            return FV, "verification (%s%s)" % ("%dD, " % d, what), watched(go) if watch else go

        def X(what, mine, real, n=n, d=d, watch=False):
            go = lambda: cross(m, n, d, mine, real)
            return FX, "cross check (%s%s)" % ("%dD, " % d, what), watched(go) if watch else go
        for how in LAY:
            yield V("sound, " + how, *lay(d, xy, how), want=True, watch=True)
        blocks, cx = lay(d, xy)
        some = sorted(cx.cells)
        inner = [i for i in some if cx.cells[i][0][-1] < far(d, 0)]
        if d == 2 and not inner:
            raise Undecided("no finite simplex")
        # points
        yield V("outer vertices unused", *lay(d, cloud(d, k + 1, 2 ** d - 1)), xy=cloud(d, k + 1, 2 ** d - 1), want=True)
        more = cloud(d, k + 1)
        for who, ids in (("all points", None), ("given points", list(range(1, k + 2)) + [far(d, j) for j in range(2 ** d)])):
            b2, c2 = lay(d, more, only=[v for v in more if v != k + 1])
            yield V("last point unused, " + who, b2, c2, xy=more, ids=ids, want=False)
            b2, c2 = lay(d, more, only=[v for v in more if v != 1])
            yield V("first point unused, " + who, b2, c2, xy=more, ids=ids, want=False)
        yield V("subset of the points", *lay(d, more, only=[v for v in more if v != 2]), xy=more, ids=[v for v in more if v != 2], want=True)
        yield V("subset without outer vertices", *lay(d, more, only=[v for v in more if v != 2]), xy=more, ids=[v for v in more if v < far(d, 0) and v != 2], want=True)
        yield V("point beyond the subset used", *lay(d, more, only=[v for v in more if v != 2]), xy=more, ids=[v for v in more if v < far(d, 0) and v not in (1, 2)], want=False)
        yield V("all points used, some not given", blocks, cx, ids=[v for v in xy if v != 1], want=False)
        # hull
        for j in (0, len(cx.hull) - 1):
            c2 = cx.copy()
            del c2.hull[j]
            yield V("simplex %d not in the hull list" % cx.hull[j], blocks, c2, want=False)
        if inner:
            c2 = cx.copy()
            c2.hull.append(inner[0])
            yield V("finite simplex in the hull list", blocks, c2, want=False)
        # in whatever order
        for nm, turn in (("reversed", lambda h: h[::-1]), ("turned", lambda h: h[2:] + h[:2]), ("interleaved", lambda h: h[::2] + h[1::2])):
            b2, c2 = lay(d, xy, "distant blocks")
            c2 = c2.copy()
            c2.hull[:] = turn(sorted(c2.hull))
            yield V("hull list %s" % nm, b2, c2, want=True)
        # duplicates
        b2, c2 = lay(d, xy, "distant blocks")
        for i in (min(c2.cells), max(c2.cells)):
            c3 = c2.copy()
            c3.set(42, *c2.cells[i])
            if i in c3.hull:
                c3.hull.append(42)
            yield V("simplex %d twice" % i, b2, c3, want=False, watch=True)
        # neighbours
        for how in ("one block", "distant blocks") if tier != "quick" or d == 2 else ("distant blocks",):
            b2, c2 = lay(d, xy, how)
            first = min(c2.cells)
            for i in (first, max(c2.cells)):
                j = [x for x in c2.cells[i][1] if x != NONE][0]
                c3 = c2.copy().set(i, n=[NONE if x == j else x for x in c2.cells[i][1]])
                yield V("one-sided neighbours, %s, %d" % (how, i), b2, c3, want=False, watch=how == "distant blocks")
                c3 = c3.copy().set(j, n=[NONE if x == i else x for x in c2.cells[j][1]])
                yield V("missing neighbours, %s, %d" % (how, i), b2, c3, want=False)
            c3 = c2.copy().set(first, n=[first] + list(c2.cells[first][1][1:]))
            yield V("own neighbour, %s" % how, b2, c3, want=False)
        # spheres: the same incidences over moved points
        for how in ("one block", "distant blocks"):
            b2, c2 = lay(d, xy, how)
            for v in sorted(x for x in xy if x < far(d, 0)):
                for step in range(1, 40):
                    x2 = dict(xy)
                    x2[v] = tuple(x + (step if e == 0 else F(step, 3)) for e, x in enumerate(xy[v]))
                    if judge(c2, x2, None)[3]:
                        yield V("vertex %d within a sphere, %s" % (v, how), b2, c2, xy=x2, want=False, watch=how == "distant blocks")
                        break
        # both tasks of the loop find some
        b2, c2 = lay(d, xy, "distant blocks")
        for step in range(1, 400):
            x2 = dict(xy)
            x2[1] = tuple(x + (step if e == 0 else F(step, 3)) for e, x in enumerate(xy[1]))
            found = {a < 5000 for a, _ in judge(c2, x2, None)[3]}
            if len(found) == 2:
                yield V("vertices within spheres of both blocks", b2, c2, xy=x2, want=False, watch=True)
                break
        # a vertex on the sphere of its neighbour counts as inside
        x2 = {v: p for v, p in xy.items()}
        on = {2: [(0, 0), (2, 0), (0, 2), (2, 2)], 3: [(0, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 2), (2, 2, 0)]}[d]
        x2 = {i + 1: tuple(F(x) for x in p) for i, p in enumerate(on)}
        half = ([1, 2, 3], [2, 3, 4]) if d == 2 else ([1, 2, 3, 4], [2, 3, 4, 5])
        c3 = Complex(d, {1: (half[0], [2] + [NONE] * d), 2: (half[1], [NONE] * d + [1])}, [])
        yield V("vertex on a sphere", [(1, 3)], c3, xy=x2, want=False)
        x3 = dict(x2)
        x3[d + 2] = tuple(3 * x + 1 for x in x2[d + 2])
        yield V("two finite simplices", [(1, 3)], c3, xy=x3, want=True)
        # deleted simplices
        b2, c2 = lay(d, xy)
        b2 = [(b2[0][0], b2[0][1] + 3)]
        gone = [(b2[0][1] - 2, (list(c2.cells[1][0]), list(c2.cells[1][1]))), (b2[0][1] - 1, (list(c2.cells[2][0]), list(c2.cells[2][1])))]
        yield V("deleted copies", b2, c2, dropped=gone, want=True)
        # cross check
        A, B = lay(d, xy), lay(d, xy, "distant blocks")
        yield X("equal", A, B, watch=True)
        yield X("equal, the other way", B, A, watch=True)
        yield X("equal, same numbers", A, A)
        ids = sorted(A[1].cells)
        rev = delaunay(d, xy, ids[::-1])
        yield X("equal, numbers reversed", A, (A[0], rev))

        def less(S, out):
            c = S[1].copy()
            for i in out:
                del c.cells[i]
            for i, (v, nb) in list(c.cells.items()):
                c.set(i, n=[NONE if x in out else x for x in nb])
            return S[0], c
        for nm, S in (("one block", A), ("distant blocks", B)):
            js = sorted(S[1].cells)
            for out in ([js[0]], [js[-1]], [js[1], js[-2]], [js[0], js[1], js[2]]):
                o = B if S is A else A
                yield X("%s lacks %d" % (nm, len(out)) + " from %d" % out[0], less(S, out), o)
                yield X("%s lacks %d" % (nm, len(out)) + " from %d, the other way" % out[0], o, less(S, out), watch=nm != "one block")
        oth = lay(d, cloud(d, k + 1), only=[v for v in more if v not in (2,)])
        yield X("different points", A, oth)
        for i in (ids[0], ids[-1]):
            j = [x for x in A[1].cells[i][1] if x != NONE][-1]
            c3 = A[1].copy().set(i, n=[NONE if x == j else x for x in A[1].cells[i][1]])
            yield X("neighbour of %d lost" % i, (A[0], c3), B)
        # a pair of simplices trades numbers, the lists of their neighbours stay
        p = ids[0]
        q = [j for j in ids if j != p and set(A[1].cells[j][1]) != set(A[1].cells[p][1])][-1]
        c3 = A[1].copy()
        c3.cells[p], c3.cells[q] = c3.cells[q], c3.cells[p]
        yield X("two trade numbers", (A[0], c3), A)
        yield X("two trade numbers, the other way", A, (A[0], c3))
        for i in (ids[0], ids[-1]):
            x = [j for j in A[1].cells[i][1] if j != NONE][0]
            y = [j for j in ids if j != i and j not in A[1].cells[i][1]][0]
            c3 = A[1].copy().set(i, n=[y if j == x else j for j in A[1].cells[i][1]])
            yield X("another neighbour of %d" % i, (A[0], c3), A)
            yield X("another neighbour of %d, the other way" % i, A, (A[0], c3))
        c3 = A[1].copy()
        extra = A[0][0][1]
        c3.cells[extra] = c3.cells[1]
        del c3.cells[2]
        for i, (v, nb) in list(c3.cells.items()):
            c3.set(i, n=[NONE if x == 2 else x for x in nb])
        yield X("one doubled, one missing", ([(1, extra + 1)], c3), B)
        c3 = A[1].copy()
        c3.cells[extra] = c3.cells[1]
        yield X("one doubled", ([(1, extra + 1)], c3), B)
        yield X("one doubled, the other way", B, ([(1, extra + 1)], c3))


def check(ctx):
    m = simps.module(ctx)
    tasks = list(cases(m, ctx.tier))
    bad = set()
    keys = [f + ":" + what.split(" (")[0].replace(" ", "-") for f, what, _ in tasks]
    for i, verdict, r in forks.each([go for _, _, go in tasks], keys=keys):
        f, what, _ = tasks[i]
        if verdict == "ok":
            ctx.count("obligations")
            ctx.count("cases", r)
        elif verdict == "refuted":
            if keys[i] not in bad:
                ctx.viol(keys[i], "%s: %s: %s" % (f, what, r))
            bad.add(keys[i])
        elif verdict != "skipped":
            ctx.count("undecided")
            ctx.notes.append("undecided: %s: %s: %s" % (f, what, r))
