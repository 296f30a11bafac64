import absx, forks, races
from sem import num
from absx import Refuted, Undecided
from checks import C17, C20, parts
from checks.C17 import Tables, kinds, LABEL, FILES, FG, names, hx

LEVEL = "other"
EXPLANATION = ("Lockset and footprint analysis by abstract interpretation: the tasks into which a parallel loop is divided (two per loop, over identifier sets large enough to be divided) "
               "are followed one after the other, and every byte they read or write of memory made before the loop is recorded with the locks held and whether the access is atomic. "
               "Two accesses of different tasks to one byte, one of them writing, must both be atomic or hold a common lock. Likewise for two operations of different threads on the "
               "concurrent hash tables, including operations that make a table grow, and for the loops of merging and rehashing.")
ASSUMPTIONS = ["two tasks per parallel loop; memory made within a task is its own", "lookups in a multimap do not run concurrently with insertions",
               "releases of shared storage by reference counting are ordered after the accesses of the other holders"]


def watched(tb):
    """also compares the tasks of loops within the operations on tb"""
    tb.races = races.Races(tb.mc)

    def tasks(an, i, st, fn, d, a):
        if fn != "vf_tasks":
            return NotImplemented
        f = a[0][1][1]
        tb.races.fork()
        for t, k in ((2, 3), (1, 2)):
            tb.races.task(t)
            tb.mc.run(f, a[1], a[k])
        tb.races.join()
        return None
    tb.mc.models = [tb.random, tasks]
    return tb


def tables(m, tier):
    z = "u"
    ks = kinds(z)
    V = {k: num(0x1b000000 + k) for k in range(64)}
    for n in ("c", "d", "n", "y", "gs", "gm", "gx"):
        cl = {"gs": "s", "gm": "m", "gx": "x"}.get(n) or ks[n][1]
        for size, pre in [(8, ()), (8, (1,)), (8, (1, 9)), (4, (1,)), (2, ()), (16, (1, 9, 17))] + ([(8, (1, 9, 17)), (4, (1, 9)), (8, (1, 9, 17, 2))] if n[0] == "g" else []):
            def pair(n=n, cl=cl, size=size, pre=pre):
                c = 0
                kinds_ = ["insert"] + (["has", "get", "count"] if cl != "x" else []) + (["size"] if n[0] != "g" else []) + (["handle", "chandle"] if n[0] == "g" else [])
                for a, b in ((1, 1), (9, 9), (1, 9), (2, 10), (3, 17), (25, 33)):
                    for other in kinds_:
                        for turn in (0, 1):
                            tb = watched(Tables(m, z, 1))
                            if n[0] == "g":
                                g, hs = tb.mc.new(), []
                                tb.op(n, "table", g, num(size))
                                for _ in range(2):
                                    h = tb.mc.new()
                                    tb.op(n, "handle", h, g)
                                    hs.append(h)
                            else:
                                g, hs = None, [tb.new(n, size)] * 2
                            for k in pre:
                                tb.insert(n, hs[0], k, V[k])
                            h3, out = tb.mc.new(), tb.mc.new(tb.w * 8)

                            def one():
                                for k in (a, 41, 42) if n[0] == "g" else (a,):
                                    tb.insert(n, hs[0], k, V[k])

                            def two():
                                if other == "insert":
                                    for k in (b, 43) if n[0] == "g" else (b,):
                                        tb.insert(n, hs[1], k, V[k])
                                elif other in ("has", "count"):
                                    tb.op(n, other, hs[1], tb.key(b))
                                elif other == "get":
                                    tb.op(n, "get", hs[1], tb.key(b), out)
                                elif other == "size":
                                    tb.op(n, "size", hs[1])
                                else:
                                    tb.op(n, other, h3, g)
                            tb.races.fork()
                            for t in ((1, 2), (2, 1))[turn]:
                                tb.races.task(t)
                                (one if t == 1 else two)()
                            tb.races.task(None)
                            try:
                                tb.races.join("insert(%s) and %s" % (hx(a), {"handle": "taking a handle", "chandle": "taking a handle for reading"}.get(other, "%s(%s)" % (other, hx(b)))))
                            except Refuted as e:
                                raise Refuted("%s of size %d with %s: %s" % (LABEL[n], size, names(pre), e))
                            c += 1
                return c
            yield FILES.get(n, FG), "%s: two threads (size %d, %d keys)" % (LABEL[n], size, len(pre)), pair
    for n, p in (("c", "s"), ("d", "f"), ("y", "x"), ("n", "n")):
        def merge(n=n, p=p):
            c = 0
            for s, r, f in (((1,), (2,), ()), ((1, 9), (9, 17), ()), ((1, 9), (17, 2, 5), (9,)), ((9, 17), (10, 3), ()), ((7, 15), (23, 31), ())):
                if ks[n][1] == "m" and set(s) & set(r):
                    continue
                tb = watched(Tables(m, z, 1))
                t, q, fl = tb.new(n, 8), tb.new(p, 8), tb.new("s", 4)
                for k in s: tb.insert(n, t, k, V[k])
                for k in r: tb.insert(p, q, k, num(0x1c000000))
                for k in f: tb.insert("s", fl, k)
                tb.op(n, "umergef", t, q, fl)
                if not tb.races.loops:
                    raise Undecided("merging runs no parallel loop")
                c += tb.races.loops
            return c
        yield FILES[n], "%s: merging in two tasks" % LABEL[n], merge
    for n in ("n", "y"):
        def rehash(n=n):
            c = 0
            for pre in ((), (1, 9), (1, 2, 5, 9)):
                tb = watched(Tables(m, z, 1))
                t = tb.new(n, 16)
                for k in pre: tb.insert(n, t, k, V[k])
                tb.op(n, "urehash", t, num(32))
                c += 1 + tb.races.loops
            return c
        yield FILES[n], "%s: rehashing" % LABEL[n], rehash
    for o, s in (("c", "s"), ("d", "f"), ("y", "x")):
        def load(o=o, s=s):
            tb = watched(Tables(m, z, 1))
            t, q = tb.new(o, 16), tb.new(s, 16)
            for k in (1, 2, 5, 9): tb.insert(s, q, k, V[k])
            tb.op(o, "load", t, q)
            return 1 + tb.races.loops
        yield FILES[o], "%s: copying" % LABEL[o], load


def check(ctx):
    insts = parts.INST[:1] if ctx.tier == "quick" else parts.INST
    tasks = list(tables(C17.modules(ctx, "tables", "u")["u"], ctx.tier)) + list(C20.large(parts.module(ctx, insts), insts, True))
    bad = set()
    keys = [f.strip() + ":" + what.split(" (")[0].replace(" ", "-") for f, what, _ in tasks]
    for i, verdict, r in forks.each([go for _, _, go in tasks], keys=keys):
        f, what, _ = tasks[i]
        if verdict == "ok":
            ctx.count("obligations")
            ctx.count("cases", r)
        elif verdict == "refuted":
            if keys[i] not in bad:
                ctx.viol(keys[i], "%s: %s: %s" % (f.strip(), what, r))
            bad.add(keys[i])
        elif verdict != "skipped":
            ctx.count("undecided")
            ctx.notes.append("undecided: %s: %s: %s" % (f.strip(), what, r))
