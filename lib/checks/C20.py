import itertools
from fractions import Fraction
import forks
from absx import num
from unf import Undecided, Refuted
from checks import parts
from checks.parts import show

LEVEL = "other"
EXPLANATION = ("Abstract interpretation of the partitioners: coordinates are opaque names related by the order each case fixes, identifier sets have a fixed hash multiplier, "
               "parallel loops run as two tasks. What the statistics, splitters, partition makers and partition trees produce is compared with the exact minimum, "
               "midpoint and maximum, and with the distribution the splitting rule denotes: every point in exactly one part whose bounds enclose it, infinite points "
               "in every part.")
ASSUMPTIONS = ["points are given to the partitioners with coordinates, those of the infinite points included", "what Logger prints is not looked at",
               "real arithmetic: rounding of midpoints is not modelled"]
FL = "include/Geometry.h"
FP, FS, FB, FG, FA, FO, FK, FT = ("include/Partitioner.h", "src/lib/Partitioner.cpp", "include/load_balancing/BoundsIntersectionChecker.h",
                                  "include/load_balancing/GridIntersectionChecker.h", "include/load_balancing/AccurateGridIntersectionChecker.h",
                                  "include/load_balancing/OldPartitionerPartitioner.h", "include/load_balancing/kWaySplitter.h", "include/load_balancing/PartitionTree.h")
TYPES = {"d": "d-way splitter", "0": "splitter of dimension 0", "1": "splitter of dimension 1", "c": "cyclic splitter", "e": "extent splitter"}


def clouds(d):
    """name -> coordinates"""
    c = {"scattered points": [(1, 5, 2), (-2, 3, 0), (4, 4, 4), (0, -7, 1), (3, 3, -3)],
         "points with negative coordinates": [(-1, -5, -2), (-2, -3, -9), (-4, -4, -4)],
         "a single point": [(-3, 2, 5)], "equal points": [(2, 2, 2)] * 4,
         "points on the midpoint": [(0, 0, 0), (2, 4, 8), (1, 2, 4), (1, 4, 4)],
         "points on a line": [(-8, 1, 1), (-6, 1, 1), (-2, 1, 1), (-1, 1, 1)],
         "eight points": [(k * 3 % 8, k * 5 % 8 - 9, k) for k in range(8)]}
    return {n: [tuple(Fraction(x) for x in p[:d]) for p in ps] for n, ps in c.items()}


def infs(d):
    return [2 ** 64 - k for k in range(1, 2 ** d + 1)]


def extent(pts, ids):
    ps = [pts[i - 1] for i in ids]
    lo = tuple(min(x) for x in zip(*ps))
    hi = tuple(max(x) for x in zip(*ps))
    return lo, tuple((a + b) / 2 for a, b in zip(lo, hi)), hi


def inside(box, p):
    return all(a <= x <= b for a, x, b in zip(box[0], p, box[1]))


def text(box):
    return "[%s, %s]" % tuple("(%s)" % ", ".join(map(str, x)) for x in box)


def once(what, ids, parts_, pts, boxes=None):
    for i in ids:
        at = [k for k, s in enumerate(parts_) if i in s]
        if len(at) != 1:
            raise Refuted("%s: point %d is in %d of the %d parts" % (what, i, len(at), len(parts_)))
        if boxes is not None and not inside(boxes[at[0]], pts[i - 1]):
            raise Refuted("%s: point %d is in part %d, whose bounds %s do not contain it" % (what, i, at[0], text(boxes[at[0]])))


def infinite(what, d, parts_, wanted):
    for k, s in enumerate(parts_):
        if {i for i in s if i >= 2 ** 63} != set(infs(d) if wanted else ()):
            raise Refuted("%s: part %d has the infinite points %s" % (what, k, show([i for i in s if i >= 2 ** 63])))


def nothing(what, ids, parts_):
    extra = {i for s in parts_ for i in s if i < 2 ** 63} - set(ids)
    if extra:
        raise Refuted("%s: the parts contain %s, which were not to be split" % (what, show(extra)))


def subsets(n, d):
    full = list(range(1, n + 1))
    if parts.Run.wide:
        yield full, infs(d)[:2]
        return
    yield full, []
    yield full, infs(d)[:2]
    if n > 2:
        yield full[1:], infs(d)
        yield full[:-2], []


def stats(m, n, d, pts):
    c = 0
    for ids, inf in subsets(len(pts), d):
        R = parts.Run(m, n, d)
        q, s, o = R.points(pts), R.ids(ids + inf), R.mc.new(4096)
        for op, who, a, over in (("stats", "getPointStats", (s, q), ids), ("seqstats", "getPointStatsSeq", (s, q), ids), ("allstats", "getPointStats of all points", (q,), range(1, len(pts) + 1)),
                                 ("idstats", "getPointStatsSeq of a range of numbers", (num(ids[0]), num(ids[-1] + 1), q), ids)):
            R(op, *a, o)
            got = [tuple(R.real(o, d * j + k) for k in range(d)) for j in range(3)]
            for j, w in enumerate(extent(pts, over)):
                if got[j] != w:
                    raise Refuted("%s of the points %s is (%s), not (%s): %s" % (("minimum", "midpoint", "maximum")[j], show(over), ", ".join(map(str, got[j])), ", ".join(map(str, w)), who))
            c += 1
    return c


def split(m, n, d, pts, ty, mult):
    c = 0
    for ids, inf in subsets(len(pts), d):
        lo, mid, hi = extent(pts, ids)
        for prov, ignore in itertools.product((1, 2, 3, 4) if ty == "c" else (1, 2), (0, 1)):
            if parts.Run.wide and (prov > 2 or ignore):
                continue
            if ty != "c" and prov == 2 and ignore:
                continue
            R = parts.Run(m, n, d, mult)
            q, s, o, w, r = R.points(pts), R.ids(ids + inf), R.mc.new(4096), R.mc.new(8192), R.mc.new()
            what = "%s of %s with %s" % (TYPES[ty], show(ids + inf), ", ".join("(%s)" % ", ".join(map(str, p)) for p in pts))
            was = R.alive()
            k = R.int(R("split", r, num(ord(ty)), s, q, num(prov), num(ignore), o, w))
            if k != (2 ** d if ty == "d" else 2):
                raise Refuted("%s gives %d parts" % (what, k))
            rec, boxes = R.sets(w, k), R.boxes(o, k)
            if [x[0] & 0xffffffff for x in rec] != list(range(k)):
                raise Refuted("%s: the parts are numbered %s" % (what, [x[0] for x in rec]))
            got = [x[1] for x in rec]
            once(what, ids, got, pts, boxes)
            nothing(what, ids, got)
            infinite(what, d, got, not ignore)
            dims = range(d) if ty == "d" else [int(ty)] if ty in "01" else [(prov - 1) % d] if ty == "c" else [j for j in range(d) if hi[j] - lo[j] == max(b - a for a, b in zip(lo, hi))]
            if ty == "d":
                cuts = [tuple(dims)]
            else:
                cuts = [(j,) for j in dims]
            want = []
            for cut in cuts:
                g = {}
                for i in ids:
                    g.setdefault(tuple(pts[i - 1][j] > mid[j] for j in cut), set()).add(i)
                want.append(sorted(sorted(x) for x in g.values()))
            have = sorted(sorted(i for i in s if i < 2 ** 63) for s in got if any(i < 2 ** 63 for i in s))
            if have not in want:
                raise Refuted("%s, recursion level %d: the parts are %s instead of %s" % (what, prov, ", ".join(map(show, have)), " or ".join(", ".join(map(show, x)) for x in want)))
            for b in boxes:
                if not (inside((lo, hi), b[0]) and inside((lo, hi), b[1])):
                    raise Refuted("%s: bounds %s go beyond the points" % (what, text(b)))
            if not inf:
                queries(R, r, k, got, ids, d, what)
            R("endr", r)
            R.released(was, what)
            c += 1
    return c


def queries(R, r, k, got, ids, d, what):
    for p in range(k):
        if R.int(R("has", r, num(p), num(99)), 1):
            raise Refuted("%s: part %d says it contains point 99" % (what, p))
    for i in ids:
        x = R.int(R("where", r, num(i)), 32)
        if i not in got[x if x < k else 0]:
            raise Refuted("%s: point %d is said to be in part %d" % (what, i, x))
        for p in range(k):
            if bool(R.int(R("has", r, num(p), num(i)), 1)) != (i in got[p]):
                raise Refuted("%s: part %d says the wrong thing about containing point %d" % (what, p, i))
    some = (ids + infs(d) + [99])[:d + 2] + [99]
    for vs in itertools.combinations(some, d + 1):
        v = R.words(vs)
        for p in range(k):
            for part in (0, 1):
                if bool(R.int(R("simplex", r, num(p), v, num(part)), 1)) != (any if part else all)(x in got[p] for x in vs):
                    raise Refuted("%s: part %d says the wrong thing about containing the simplex %s%s" % (what, p, show(vs), " partially" if part else ""))


def spread(m, n, d, pts, kind):
    c = 0
    assigns = [lambda i: i % 2, lambda i: 0, lambda i: i % 3, lambda i: (i > 2) * 2]
    for (ids, inf), to, parts_ in itertools.product(subsets(len(pts), d), assigns, (1, 2, 3)):
        if any(to(i) >= parts_ for i in ids) or parts.Run.wide and (parts_ < 2 or to(1) == to(2)):
            continue
        R = parts.Run(m, n, d)
        q, s, o, w, r = R.points(pts), R.ids(ids + inf), R.mc.new(4096), R.mc.new(8192), R.mc.new()
        what = "%s with points %s" % (("bounds", "grid", "accurate grid")[kind] + " partition maker", show(ids + inf))
        to_, width, was = R.words([0] + [to(i) for i in range(1, len(pts) + 1)]), R.sym(2), R.alive()
        k = R.int(R("spread", num(kind), q, s, num(parts_), to_, width, r, o, w))
        if k != parts_:
            raise Refuted("%s makes %d parts instead of %d" % (what, k, parts_))
        got = [x[1] for x in R.sets(w, k, False)]
        infinite(what, d, got, True)
        for p in range(k):
            want = {i for i in ids if to(i) == p}
            if {i for i in got[p] if i < 2 ** 63} != want:
                raise Refuted("%s: part %d has %s instead of %s" % (what, p, show(i for i in got[p] if i < 2 ** 63), show(want)))
            if not want:
                continue
            lo, hi = (tuple(R.real(o, 2 * d * p + e * d + j) for j in range(d)) for e in (0, 1))
            a, _, b = extent(pts, want)
            if (lo, hi) != (a, b):
                raise Refuted("%s: the bounds of part %d are %s instead of %s" % (what, p, text((lo, hi)), text((a, b))))
            if kind < 2:
                for i in want:
                    x = list(pts[i - 1])
                    x[0] += Fraction(1, 2)
                    if not R.int(R("hits", r, num(p), R.row(x + [Fraction(3, 4)])), 1):
                        raise Refuted("%s: a sphere around point %d is said not to meet part %d" % (what, i, p))
                if kind == 0 and R.int(R("hits", r, num(p), R.row([b[0] + 3] + list(b[1:]) + [2])), 1):
                    raise Refuted("%s: a sphere away from the bounds of part %d is said to meet it" % (what, p))
        R("endi", r)
        R.released(was, what)
        c += 1
    return c


def tree(m, n, d, pts, ty):
    c = 0
    for (ids, inf), deep, base, flat in itertools.product(subsets(len(pts), d), (0, 1, 2), (1, 3, 100), (0, 1)):
        if base != 1 and deep < 2 or not ids:
            continue
        if ty == "d" and deep == 2 and (base, flat, d) != (1, 1, 2):
            continue
        R = parts.Run(m, n, d)
        q, s, o, w, t = R.points(pts), R.ids(ids + inf), R.mc.new(1 << 14), R.mc.new(1 << 16), R.mc.new()
        lo, _, hi = extent(pts, range(1, len(pts) + 1))
        what = "tree of the %s with depth %d, cutoff %d over %s" % (TYPES[ty], deep, base, show(ids + inf))
        box = R.box(lo, hi)
        was = R.alive()
        k = R.int(R("old", t, num(ord(ty)), box, q, s, num(deep), num(base), num(flat), o, w))
        rec, boxes = R.sets(w, k), R.boxes(o, k)
        got = [x[1] for x in rec]
        if flat and any(x[0] != 1 for x in rec):
            raise Refuted("%s: flattened leaves are at depth %s" % (what, sorted({x[0] for x in rec})))
        once(what, ids, got, pts, boxes)
        nothing(what, ids, got)
        if deep:
            infinite(what, d, got, True)
        if flat:
            r = R.mc.new(kind="obj")
            k2 = R.int(R("flat", t, r, o, w))
            rec2, boxes2 = R.sets(w, k2), R.boxes(o, k2)
            if [x[1] for x in rec2] != got or boxes2 != boxes or [x[0] & 0xffffffff for x in rec2] != list(range(k)):
                raise Refuted("%s: the partitioning made of it has the parts %s, numbered %s, instead of %s" % (what, ", ".join(show(x[1]) for x in rec2), [x[0] for x in rec2], ", ".join(map(show, got))))
            R("endr", r)
        else:
            R("collect", t, w)
            top = R.sets(w, 1, False)[0][1]
            if top != frozenset().union(*got):
                raise Refuted("%s: collecting the leaves gives %s instead of %s" % (what, show(top), show(frozenset().union(*got))))
        R("endt", t)
        R.released(was, what)
        c += 1
    return c


def kway(m, n, d, pts):
    c = 0
    for (ids, inf), k in itertools.product(subsets(len(pts), d), (2, 4) if parts.Run.wide else (1, 2, 4, 8)):
        R = parts.Run(m, n, d)
        q, s, o, w, t = R.points(pts), R.ids(ids + inf), R.mc.new(1 << 14), R.mc.new(1 << 16), R.mc.new()
        lo, _, hi = extent(pts, range(1, len(pts) + 1))
        what = "%d-way splitter of %s with %s" % (k, show(ids + inf), ", ".join("(%s)" % ", ".join(map(str, p)) for p in pts))
        box = R.box(lo, hi)
        was = R.alive()
        n_ = R.int(R("kway", t, num(k), box, q, s, o, w))
        if n_ != k:
            raise Refuted("%s gives %d parts" % (what, n_))
        rec = R.sets(w, k)
        got = [x[1] for x in rec]
        once(what, ids, got, pts)
        nothing(what, ids, got)
        infinite(what, d, got, True)
        for p in range(k):
            mine = [i for i in got[p] if i < 2 ** 63]
            if mine:
                a, b = (tuple(R.real(o, 2 * d * p + e * d + j) for j in range(d)) for e in (0, 1))
                x, _, y = extent(pts, mine)
                if (a, b) != (x, y):
                    raise Refuted("%s: the bounds of the part %s are %s instead of %s" % (what, show(mine), text((a, b)), text((x, y))))
        R("endt", t)
        R.released(was, what)
        c += 1
    return c


def load(m, n, d, pts):
    c = 0
    for sep, already, tail in itertools.product(" ;", (0, 2), ("\n", "")):
        R = parts.Run(m, n, d)
        q, o = R.points([(9,) * d] * already), R.mc.new(4096)
        R.file = "\n".join(sep.join(str(x) for x in p) for p in pts) + tail
        R("load", q, R.chars("points"), num(6), num(ord(sep)), o)
        lo, _, hi = extent(pts, range(1, len(pts) + 1))
        got = tuple(tuple(R.real(o, e * d + j) for j in range(d)) for e in (0, 1))
        if got != (lo, hi):
            raise Refuted("the bounds of the loaded points are %s instead of %s" % (text(got), text((lo, hi))))
        for i, p in enumerate([(Fraction(9),) * d] * already + list(pts), 1):
            z = R.int(R("at", q, num(i), o))
            x = tuple(R.real(o, j) for j in range(d))
            if z != 1 + already + len(pts) or x != p:
                raise Refuted("point %d of %d is (%s) after loading instead of (%s)" % (i, z - 1, ", ".join(map(str, x)), ", ".join(map(str, p))))
        c += 1
    return c


def depth(m, n, d):
    R, c = parts.Run(m, n, d), 0
    for ty in TYPES:
        k = 2 ** d if ty == "d" else 2
        for e in range(5):
            got = R.int(R("depth", num(ord(ty)), num(k ** e)), 32)
            if got != e:
                raise Refuted("the %s wants %d levels for %d threads" % (TYPES[ty], got, k ** e))
            c += 1
    return c


def cases(m, tier):
    for n, d, _ in parts.INST:
        for name, pts in clouds(d).items():
            on = "%dD, %s" % (d, name)
            yield FP, "statistics (%s)" % on, lambda n=n, d=d, pts=pts: stats(m, n, d, pts)
            for ty in TYPES:
                for mult in (3,) if tier == "quick" else (1, 3, 0x9E3779B97F4A7C15):
                    yield FS, "%s (%s, hash %d)" % (TYPES[ty], on, mult), lambda n=n, d=d, pts=pts, ty=ty, mult=mult: split(m, n, d, pts, ty, mult)
            for kind in range(3):
                yield (FB, FG, FA)[kind], "%s (%s)" % (("bounds partition maker", "grid partition maker", "accurate grid partition maker")[kind], on), lambda n=n, d=d, pts=pts, kind=kind: spread(m, n, d, pts, kind)
            for ty in "dce":
                yield FO, "tree of the %s (%s)" % (TYPES[ty], on), lambda n=n, d=d, pts=pts, ty=ty: tree(m, n, d, pts, ty)
            yield FL, "loading of points (%s)" % on, lambda n=n, d=d, pts=pts: load(m, n, d, pts)
            yield FK, "k-way splitter (%s)" % on, lambda n=n, d=d, pts=pts: kway(m, n, d, pts)
        yield FP, "recursion depth (%dD)" % d, lambda n=n, d=d: depth(m, n, d)


def wide(go, watching=False):
    """go with identifier sets so large that loops over them run as two tasks"""
    def run():
        parts.Run.wide, parts.Run.watching = 2048, watching
        try:
            return go()
        finally:
            parts.Run.wide, parts.Run.watching = 0, False
    return run


def large(m, insts, watching=False):
    for n, d, _ in insts:
        name, on = "scattered points", "%dD, large identifier sets" % d
        pts = clouds(d)[name]
        yield FP, "statistics (%s)" % on, wide(lambda n=n, d=d, pts=pts: stats(m, n, d, pts), watching)
        for ty in TYPES:
            yield FS, "%s (%s)" % (TYPES[ty], on), wide(lambda n=n, d=d, pts=pts, ty=ty: split(m, n, d, pts, ty, 3), watching)
        for kind in range(3):
            yield (FB, FG, FA)[kind], "%s (%s)" % (("bounds partition maker", "grid partition maker", "accurate grid partition maker")[kind], on), wide(lambda n=n, d=d, pts=pts, kind=kind: spread(m, n, d, pts, kind), watching)
        yield FK, "k-way splitter (%s)" % on, wide(lambda n=n, d=d, pts=pts: kway(m, n, d, pts), watching)


def check(ctx):
    m = parts.module(ctx)
    tasks = list(cases(m, ctx.tier)) + list(large(m, parts.INST[:1] if ctx.tier == "quick" else parts.INST))
    bad = set()
    keys = [f + ":" + what.split(" (")[0].replace(" ", "-") for f, what, _ in tasks]
    for i, verdict, r in forks.each([go for _, _, go in tasks], keys=keys):
        f, what, _ = tasks[i]
        if verdict == "ok":
            ctx.count("obligations")
            ctx.count("cases", r)
        elif verdict == "refuted":
            key = keys[i]
            if key not in bad:
                ctx.viol(key, "%s: %s: %s" % (f, what, r))
            bad.add(key)
        elif verdict != "skipped":
            ctx.count("undecided")
            ctx.notes.append("undecided: %s: %s: %s" % (f, what, r))
