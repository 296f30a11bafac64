import itertools
import absx, forks
from sem import num
from unf import Undecided, Refuted
from absx import Blocked
from checks import C17
from checks.C17 import Tables, Model, hx, names, kinds, LABEL, FILES, FS, FM, FX, FG

LEVEL = "other"
EXPLANATION = ("Interference analysis of the concurrent hash tables by abstract interpretation: an operation of one thread is followed with a whole operation of another thread "
               "happening at each of its accesses to shared memory in turn (bounded to one such interruption), for insertions and lookups of equal, colliding and "
               "unrelated keys in tables of several fill states, including the last free slot, insertions that make a table grow and handles that have not noticed the "
               "growth. Results and final contents are compared with those of the set, map or multimap after some order of the two operations.")
ASSUMPTIONS = ["sequentially consistent memory", "one interruption per operation; a point at which the other thread would have to wait is not a point of interruption",
               "lookups in a multimap do not run concurrently with insertions", "keys are not 0, values of maps are not 0"]


def ins(tb, n, t, k, v):
    return tb.insert(n, t, k, v)


def look(tb, n, t, k):
    """-> what get() or contains() reports: False / True, or the value of a map"""
    has = bool(tb.int(tb.op(n, "has", t, tb.key(k)), 1))
    return has


def get(tb, n, t, k):
    out = tb.mc.new(tb.w * 8)
    tb.op(n, "get", t, tb.key(k), out)
    return tb.value(tb.cells(out, 1)[0])


def cases(m, tier):
    z = "u"
    ks = kinds(z)
    deep = tier == "thorough"
    V = {k: num(0x1b000000 + k) for k in range(64)}
    W = num(0x1c000000)
    U = [1, 2, 3, 5, 7, 9, 10, 17, 25, 33, 41]

    def setup(n, size, pre, handles=0):
        tb = Tables(m, z, 1)
        if n[0] == "g":
            g = tb.mc.new()
            tb.op(n, "table", g, num(size))
            hs = []
            for _ in range(handles + 1):
                h = tb.mc.new()
                tb.op(n, "handle", h, g)
                hs.append(h)
        else:
            g, hs = None, [tb.new(n, size)] * (handles + 1)
        for k in pre:
            if tb.insert(n, hs[0], k, V[k]) == 2:
                raise Undecided("preloading")
        return tb, g, hs

    def judge(n, tb, t, pre, done, what, conc, grows):
        """done: [(key, value, answer)] of the insertions"""
        cl = tb.cls[n]
        new = [k for k, _, r in done if r != 2]
        for k in set(new):
            yes = [bool(r) for q, _, r in done if q == k and r != 2]
            want = len(yes) if cl == "x" else 0 if k in pre else 1
            if sum(yes) != want:
                raise Refuted("%s: %d of %d insertions of key %s report that it was new" % (what, sum(yes), len(yes), hx(k)))
        if cl == "s":
            return tb.check(n, t, sorted(set(pre) | set(new)), U, what, full=False)
        if cl == "x":
            return tb.check(n, t, [(k, V[k]) for k in pre] + [(k, v) for k, v, r in done if r != 2], U, what, full=False)
        ref = {k: V[k] for k in pre}
        for k in set(new):
            vs = [v for q, v, r in done if q == k and r != 2]
            v = get(tb, n, t, k)
            if v not in vs:
                raise Refuted("%s: key %s ends up with a value that was not inserted last" % (what, hx(k)))
            ref[k] = v
        tb.check(n, t, ref, U, what, full=False)

    def swept(n, size, pre, what, first, second, after, handles=1, step=1):
        """first(tb, g, hs) with second within it, at every point"""
        pts = blocked = 0
        at = 1
        base, g, hs = setup(n, size, pre, handles)
        while at < 4000:
            tb, res = base.fork(), {}
            mc = tb.mc
            mc.preempt, mc.preempt_at, mc.points, mc.outer, mc.nested = (lambda: res.__setitem__("b", second(tb, g, hs))), at, 0, set(), False
            try:
                res["a"] = first(tb, g, hs)
                hit = mc.preempt is None
            except Blocked:
                blocked += 1
                at += step
                continue
            except Refuted as e:
                raise Refuted("%s, at access %d: %s" % (what, at, e))
            finally:
                mc.preempt, mc.nested = None, False
            if not hit:
                break
            after(tb, g, hs, res["a"], res["b"], "%s, at access %d" % (what, at))
            pts += 1
            at += step
        return pts, blocked

    # insertions into the tables themselves
    for n in ("c", "d", "n", "y"):
        _, cl, conc, grows = ks[n]
        setups = [(8, ()), (8, (1,)), (8, (1, 9))]
        if n == "d":
            setups += [(1, ()), (2, (1,)), (4, (1, 2, 3)), (2, ()), (4, (1, 2))]
        else:
            setups += [(2, ()), (4, (1,)), (16, (1, 9, 17))]
        for size, pre in setups:
            def both(n=n, cl=cl, size=size, pre=pre, conc=conc, grows=grows):
                c = 0
                for a, b in [(1, 1), (9, 9), (1, 9), (9, 17), (2, 9), (9, 10), (17, 9), (3, 5), (33, 9)]:
                    what = "%s of size %d with %s: insert(%s) while insert(%s)" % (LABEL[n], size, names(pre), hx(b), hx(a))

                    def after(tb, g, hs, ra, rb, w):
                        done = [(a, V[a], ra), (b, W, rb)]
                        for k, _, r in done:
                            if r == 2 and len(pre) + 1 < (size // 2 if grows else size):
                                raise Refuted("%s: insert(%s) refuses with free slots" % (w, hx(k)))
                        judge(n, tb, hs[0], pre, done, w, conc, grows)
                    p, _ = swept(n, size, pre, what, lambda tb, g, hs: ins(tb, n, hs[0], a, V[a]), lambda tb, g, hs: ins(tb, n, hs[0], b, W), after)
                    c += p
                return c
            yield FILES[n], "%s: two insertions (size %d, %d keys)" % (LABEL[n], size, len(pre)), both
            if cl != "x":
                def mixed(n=n, cl=cl, size=size, pre=pre, conc=conc, grows=grows):
                    c = 0
                    for a, b in itertools.product((1, 9, 17, 2), (1, 9, 17)):
                        for order in (0, 1):
                            what = "%s of size %d with %s: %s" % (LABEL[n], size, names(pre), "insert(%s) while get(%s)" % (hx(b), hx(a)) if order else "get(%s) while insert(%s)" % (hx(a), hx(b)))

                            def lookup(tb, g, hs):
                                return look(tb, n, hs[0], a), get(tb, n, hs[0], a)

                            def put(tb, g, hs):
                                return ins(tb, n, hs[0], b, W)

                            def after(tb, g, hs, ra, rb, w):
                                (h, v), r = (ra, rb) if order else (rb, ra)
                                old = num(0) if a not in pre else num(a) if cl == "s" else V[a]
                                new = old if a != b or r == 2 else num(a) if cl == "s" else W
                                if v not in (old, new):
                                    raise Refuted("%s: get(%s) yields what was never stored" % (w, hx(a)))
                                if h not in (old != num(0), new != num(0)):
                                    raise Refuted("%s: contains(%s) is %s" % (w, hx(a), h))
                                judge(n, tb, hs[0], pre, [(b, W, r)], w, conc, grows)
                            p, _ = swept(n, size, pre, what, lookup if order else put, put if order else lookup, after)
                            c += p
                    return c
                yield FILES[n], "%s: insertion and lookup (size %d, %d keys)" % (LABEL[n], size, len(pre)), mixed
    # merging in parallel
    for n, p in (("c", "s"), ("d", "f"), ("y", "x"), ("n", "n")):
        cl = ks[n][1]

        def merge(n=n, p=p, cl=cl):
            c = 0
            for s, r, f in (((1,), (2,), ()), ((1, 9), (9, 17), ()), ((1, 9), (17, 2, 5), (9,)), ((3,), (3,), (1,)), ((9, 17), (10, 1), ()), ((7, 15), (23, 31), ()), ((7, 15), (15,), ())):
                at = 1
                what = "%s %s merged with %s, filter %s, in two tasks" % (LABEL[n], names(s), names(r), names(f))
                if cl == "m" and set(s) & set(r):
                    continue
                while at < 2000:
                    tb = Tables(m, z, 1)
                    t, q, fl = tb.new(n, 8), tb.new(p, 8), tb.new("s", 4)
                    for k in s: tb.insert(n, t, k, V[k])
                    for k in r: tb.insert(p, q, k, W)
                    for k in f: tb.insert("s", fl, k)
                    tb.at, tb.past = at, True
                    try:
                        tb.op(n, "umergef", t, q, fl)
                    except Refuted as e:
                        raise Refuted("%s, at access %d: %s" % (what, at, e))
                    except Blocked:
                        at += 1
                        continue
                    want = Model(cl)
                    for k in s:
                        if k not in f: want.add(k, V[k])
                    for k in r:
                        if k not in f: want.add(k, W)
                    tb.check(n, t, want.c, U, "%s, at access %d" % (what, at), full=False)
                    c += 1
                    at += 1
                    if tb.past:
                        break
            return c
        yield FILES[n], "%s: merging in two tasks" % LABEL[n], merge
    # growing tables
    for n in ("gs", "gm", "gx"):
        cl = {"gs": "s", "gm": "m", "gx": "x"}[n]
        label = LABEL[n]
        for size, pre in [(1, ()), (2, (1,)), (4, (1, 9)), (4, (9, 2)), (8, (1, 9)), (8, (1, 9, 17)), (8, (1, 9, 17, 2)), (16, (1, 9, 17))][:None if deep else 7]:
            def both(n=n, cl=cl, size=size, pre=pre, label=label):
                c = 0
                for a, b in [(25, 33), (33, 33), (3, 25), (9, 9)]:
                    what = "%s of size %d with %s: insert(%s) while insert(%s)" % (label, size, names(pre), hx(b), hx(a))

                    def after(tb, g, hs, ra, rb, w):
                        done = [(a, V[a], ra), (b, W, rb)]
                        if 2 in (ra, rb):
                            raise Refuted("%s: insert gives up" % w)
                        for h, who in ((hs[0], "inserting"), (hs[2], "idle")):
                            judge(n, tb, h, pre, done, "%s, seen by the %s thread" % (w, who), True, True)
                        if ins(tb, n, hs[1], 41, V[41]) == 2:
                            raise Refuted("%s: insert gives up afterwards" % w)
                        judge(n, tb, hs[2], pre, done + [(41, V[41], 1)], "%s, after another insertion" % w, True, True)
                    p, _ = swept(n, size, pre, what, lambda tb, g, hs: ins(tb, n, hs[0], a, V[a]), lambda tb, g, hs: ins(tb, n, hs[1], b, W), after, handles=2)
                    c += p
                return c
            yield FG, "%s: two insertions (size %d, %d keys)" % (label, size, len(pre)), both

            def late(n=n, cl=cl, size=size, pre=pre, label=label):
                """the other thread inserts until the table has grown"""
                c = 0
                for a in (25, 3):
                    more = [33, 5, 7, 10, 17][:4]
                    more = [k for k in more if k not in pre]
                    what = "%s of size %d with %s: insert(%s) while the table grows" % (label, size, names(pre), hx(a))

                    def after(tb, g, hs, ra, rb, w):
                        if 2 in rb or ra == 2:
                            raise Refuted("%s: insert gives up" % w)
                        done = [(a, V[a], ra)] + [(k, W, r) for k, r in zip(more, rb)]
                        for h in hs:
                            judge(n, tb, h, pre, done, w, True, True)
                    p, _ = swept(n, size, pre, what, lambda tb, g, hs: ins(tb, n, hs[0], a, V[a]),
                                 lambda tb, g, hs: [ins(tb, n, hs[1], k, W) for k in more], after, handles=1)
                    c += p
                    # handles and lookups
                    for kind in ("handle", "chandle") + (() if cl == "x" else ("get", "cget")):
                        what = "%s of size %d with %s: %s while the table grows" % (label, size, names(pre), {"handle": "taking a handle", "chandle": "taking a handle for reading"}.get(kind, "get"))

                        def first(tb, g, hs):
                            if kind in ("handle", "chandle"):
                                h = tb.mc.new()
                                tb.op(n, kind, h, g)
                                return h
                            nn, h = (n, hs[0]) if kind == "get" else ("C" + n, tb.ch)
                            return [get(tb, nn, h, k) for k in (1, 9, 33)]

                        def after(tb, g, hs, ra, rb, w):
                            done = [(k, W, r) for k, r in zip(more, rb)]
                            if kind in ("get", "cget"):
                                for k, v in zip((1, 9, 33), ra):
                                    old = num(0) if k not in pre else num(k) if cl == "s" else V[k]
                                    new = (num(k) if cl == "s" else W) if k in more else old
                                    if v not in (old, new):
                                        raise Refuted("%s: get(%s) yields what was not stored" % (w, hx(k)))
                                judge(n, tb, hs[0], pre, done, w, True, True)
                            else:
                                judge(n if kind == "handle" else "C" + n, tb, ra, pre, done, w, True, True)

                        if kind == "cget":
                            def first2(tb, g, hs):
                                # a handle for reading taken before the growth
                                pend, tb.mc.preempt = tb.mc.preempt, None
                                tb.ch = tb.mc.new()
                                tb.op(n, "chandle", tb.ch, g)
                                tb.mc.preempt = pend
                                return first(tb, g, hs)
                            run = first2
                        else:
                            run = first
                        p, _ = swept(n, size, pre, what, run, lambda tb, g, hs: [ins(tb, n, hs[1], k, W) for k in more], after, handles=1)
                        c += p
                return c
            yield FG, "%s: growth meanwhile (size %d, %d keys)" % (label, size, len(pre)), late


def check(ctx):
    m = C17.modules(ctx, "tables", "u")["u"]
    tasks = list(cases(m, ctx.tier))
    bad = set()
    for i, verdict, r in forks.each(go for _, _, go in tasks):
        f, what, _ = tasks[i]
        if verdict == "ok":
            ctx.count("obligations")
            ctx.count("points", r)
        elif verdict == "refuted":
            key = f.strip() + ":" + what.split(" (")[0].replace(" ", "-")
            if key not in bad:
                ctx.viol(key, "%s%s: %s" % (f, what, r))
            bad.add(key)
        else:
            ctx.count("undecided")
            ctx.notes.append("undecided: %s%s: %s" % (f, what, r))
