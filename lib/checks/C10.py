import cxx, sem, absx
from sem import num
from unf import Undecided, Refuted

LEVEL = "other"
EXPLANATION = ("Abstract interpretation of the fixed-size sorts over order types: keys and data are opaque names, every comparison is answered "
               "by one weak ordering of the keys (which stands for all arrays ordered that way), and the final arrays must hold the same names, "
               "ascending, equal keys in their original order, each datum beside its key. Key types: built-in and a class with nothing but "
               "operator<. Long arrays are followed for ascending, descending and tied orders, where counters would run over.")
ASSUMPTIONS = ["operator< of the key is a strict weak ordering"]
F = "include/utils/StaticSort.h "
SMALL = [1, 2, 3, 4, 5]
LONG = 260
HUGE = 33000          # beyond a signed short
HARNESS = '''#include <cstddef>
#include "utils/StaticSort.h"
struct Key { long id; bool operator<(const Key &o) const; };
struct Dat { long a, b; };
#define S(N) extern "C" void h_u##N(std::array<unsigned, N> &a) { static_insertion_sort(a); } \\
extern "C" void h_k##N(std::array<Key, N> &a) { static_insertion_sort(a); } \\
extern "C" void h_ud##N(std::array<unsigned, N> &a, std::array<Dat, N> &d) { static_insertion_sort_with_data(a, d); } \\
extern "C" void h_kd##N(std::array<Key, N> &a, std::array<short, N> &d) { static_insertion_sort_with_data(a, d); }
''' + "".join("S(%d)\n" % n for n in SMALL + [LONG]) + "S(%d)\n" % HUGE
KINDS = {"u": (4, "i32", None, None), "k": (8, "i64", None, None), "ud": (4, "i32", 16, ("i64", "i64")), "kd": (8, "i64", 2, ("i16",))}
NAME = {"u": "static_insertion_sort", "k": "static_insertion_sort", "ud": "static_insertion_sort_with_data", "kd": "static_insertion_sort_with_data"}


def weak(n):
    """all weak orderings of n keys as rank vectors"""
    def rec(k, v, hi):
        if k == n:
            if set(v) == set(range(max(v) + 1)):
                yield tuple(v)
            return
        for r in range(n):
            yield from rec(k + 1, v + [r], hi)
    return list(rec(0, [], 0))


def sort(ctx, m, kind, n, ranks):
    ks, kt, ds, dt = KINDS[kind]
    env = {("s", "k%d" % i): r for i, r in enumerate(ranks)}

    def oracle(c):
        try:
            return bool(sem.evaluate(c, env) & 1)
        except (KeyError, IndexError, TypeError):
            return None

    def less(an, i, st, fn, d, args):
        if sem.cleanfn(fn) == "Key::operator<":
            a, b = an.load(st, args[0], "i64"), an.load(st, args[1], "i64")
            for x in (a, b):
                if absx.unwritten(x):
                    raise Refuted("compares an element that does not exist")
                if x not in env:
                    raise Undecided("key " + repr(x)[:60])
            return num(int(env[a] < env[b]))
        return NotImplemented
    mc = absx.Machine(m, [less], oracle, budget=4000000)
    a = mc.new(ks * n)
    for i in range(n):
        mc.store(mc.st, ("p", a[1], num(ks * i)), ("s", "k%d" % i), kt)
    args = [a]
    if ds:
        d = mc.new(ds * n)
        args.append(d)
        for i in range(n):
            for j, t in enumerate(dt):
                mc.store(mc.st, ("p", d[1], num(ds * i + 8 * j)), ("s", "d%d.%d" % (i, j)), t)
    mc.run("h_%s%d" % (kind, n), *args)
    want = sorted(range(n), key=lambda i: (ranks[i], i))
    got = [mc.load(mc.st, ("p", a[1], num(ks * i)), kt) for i in range(n)]
    what = "%s of %d keys ordered %s" % (NAME[kind], n, list(ranks) if n < 9 else "...")
    if sorted(map(str, got)) != sorted(map(str, env)):
        return "elements", what + ": the result is not a rearrangement of the elements"
    if [env[g] for g in got] != sorted(ranks):
        return "order", what + ": the result is not ascending: %s" % [env[g] for g in got][:12]
    if kind.startswith("k") and got != [("s", "k%d" % i) for i in want]:
        return "stable", what + ": equal keys change places"
    if ds:
        perm = [int(g[1][1:]) for g in got]
        for i in range(n):
            for j, t in enumerate(dt):
                x = mc.load(mc.st, ("p", d[1], num(ds * i + 8 * j)), t)
                if x != ("s", "d%d.%d" % (perm[i], j)):
                    return "data", what + ": the datum at place %d does not belong to its key" % i
    return None


def check(ctx):
    roots = ["h_%s%d" % (k, n) for k in KINDS for n in SMALL + [LONG]] + ["h_k%d" % HUGE, "h_ud%d" % HUGE]
    m = cxx.build(ctx, "c10", HARNESS, roots, recursive=True)
    ctx.notes += m.repo_funcs
    long = [tuple(range(LONG)), tuple(range(LONG - 1, -1, -1)), tuple(i // 2 for i in range(LONG)), (1,) * (LONG - 1) + (0,), tuple(range(LONG - 40, LONG)) + tuple(range(LONG - 40))]
    for kind in KINDS:
        for n in SMALL + [LONG] + ([HUGE] if kind in ("k", "ud") else []):
            orders = [tuple(range(n))] if n == HUGE else weak(n) if n < 5 or ctx.tier == "thorough" and n == 5 else weak(5)[::3] if n == 5 else long[:3] + long[3:] if kind in ("u", "kd") else long[2:]
            for r in orders:
                ctx.count("order_types" if n < 9 else "long_orders")
                try:
                    e = sort(ctx, m, kind, n, r)
                except Refuted as x:
                    e = ("access", "%s of %d keys: %s" % (NAME[kind], n, x))
                except absx.Thrown as x:
                    e = ("throws", "%s of %d keys: throws %s" % (NAME[kind], n, x))
                except Undecided as x:
                    ctx.count("undecided")
                    ctx.notes.append("%s%d %s: %s" % (kind, n, r[:9], x))
                    continue
                if e:
                    ctx.viol("%s:%s" % (NAME[kind], e[0]), F + e[1])
                    break
