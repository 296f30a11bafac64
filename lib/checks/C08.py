import cxx, sem, absx, cont, conc
from sem import num
from unf import Undecided, Refuted
from ir import AnalysisError

LEVEL = "proof"
EXPLANATION = ("Effects of the recording operations on shared memory: every path may change what threads share only by atomic "
               "read-modify-write operations, operations of concurrent containers, or under a lock; and a second operation of another thread inserted at any shared access of a first must leave both recorded. Sequential meaning: constants are propagated "
               "through histories of counter updates, measurements and traits over several names and two records, with the record "
               "attached to and detached from the global accessor, and compared with the reference.")
ASSUMPTIONS = ["the TBB concurrent containers as specified"]
HARNESS = '''#ifndef ENABLE_PROFILING
#define ENABLE_PROFILING
#endif
#include "src/utils/Timings.cpp"
#include <new>
extern "C" void h_new(ExperimentRun *p) { new (p) ExperimentRun(); }
extern "C" void h_inc(ExperimentRun &r, const std::string &n, unsigned long v) { r.incCounter(n, v); }
extern "C" void h_inc1(ExperimentRun &r, const std::string &n) { r.incCounter(n); }
extern "C" unsigned long h_counter(const ExperimentRun &r, const std::string &n) { return r.counter(n); }
extern "C" const void *h_counters(const ExperimentRun &r) { return &r.counters(); }
extern "C" void h_meas(ExperimentRun &r, const std::string &n, unsigned long v) { r.addMeasurement(n, v); }
extern "C" const void *h_measn(const ExperimentRun &r, const std::string &n) { return &r.measurements(n); }
extern "C" const void *h_meass(const ExperimentRun &r) { return &r.measurements(); }
extern "C" void h_accinc(const std::string &n, unsigned long v) { PROFILER_ADD(n, v); }
extern "C" void h_accinc1(const std::string &n) { PROFILER_INC(n); }
extern "C" void h_accmeas(const std::string &n, unsigned long v) { PROFILER_MEAS(n, v); }
extern "C" void h_accset(ExperimentRun *r) { PROFILER.setRun(r); }
extern "C" void h_add(ExperimentRun &r, const std::string &n, const std::string &v) { r.addTrait(n, v); }
extern "C" void h_addi(ExperimentRun &r, const std::string &n, int v) { r.addTrait(n, v); }
extern "C" void h_upd(ExperimentRun &r, const std::string &n, const std::string &v) { r.updateTrait(n, v); }
extern "C" void h_updi(ExperimentRun &r, const std::string &n, int v) { r.updateTrait(n, v); }
extern "C" bool h_has(const ExperimentRun &r, const std::string &n) { return r.hasTrait(n); }
extern "C" void h_get(const ExperimentRun &r, const std::string &n, std::string &o) { o = r.getTrait(n); }
extern "C" int h_geti(const ExperimentRun &r, const std::string &n) { return r.getTrait<int>(n); }
'''
ROOTS = ["h_new", "h_inc", "h_inc1", "h_counter", "h_counters", "h_meas", "h_measn", "h_meass", "h_accinc", "h_accinc1", "h_accmeas", "h_accset",
         "h_add", "h_addi", "h_upd", "h_updi", "h_has", "h_get", "h_geti"]
T = "include/utils/Timings.h "


def local(an, i, st, fn, d, args):
    f = sem.cleanfn(fn)
    if f.startswith("getHostname"):
        st.mem[an.addr(st, args[0])] = ("str", (("v", ("hostname",)),))
        return None
    if f.split("::")[-1] == "operator>>" and "istream" in d and len(args) == 2:
        v = st.mem.get(an.addr(st, args[0]))
        if v and v[0] == "stream" and len(v[1]) == 1 and v[1][0][0] == "n":
            an.store(st, args[1], v[1][0][1], "i32")
            return args[0]
        raise Undecided("reading a stream")
    return NotImplemented


MAXU = 2 ** 63
STEPS = [("inc1", 0, "a"), ("inc", 0, "a", 5), ("inc", 0, "b", 0), ("inc1", 1, "a"), ("inc", 0, "b", 7), ("inc", 0, "a", 3 * 10**9), ("inc", 1, "b", MAXU),
         ("meas", 0, "m", 4), ("meas", 0, "m", 4), ("meas", 0, "a", 9), ("meas", 1, "m", 1), ("meas", 0, "m", 0),
         ("accinc", "a", 3), ("accmeas", "m", 2), ("set", 0), ("accinc", "a", 3), ("accinc1", "c"), ("accmeas", "m", 11), ("set", 1), ("accinc", "a", 8), ("accinc1", "a"),
         ("accmeas", "q", 6), ("set", None), ("accinc", "a", 1), ("accmeas", "m", 1), ("accinc1", "a"), ("inc", 0, "a", 1), ("inc", 1, "c", 4)]


def counters(ctx, m, bad):
    lib = cont.Library()
    mc = absx.Machine(m, [lib, local])
    R = [mc.new(), mc.new()]
    strs = {}

    def s(n):
        if n not in strs:
            strs[n] = mc.new()
            mc.st.mem[strs[n]] = ("str", (("l", n),))
        return strs[n]
    try:
        for r in R:
            mc.run("h_new", r)
        cnt, meas, cur = [{}, {}], [{}, {}], None
        hist = ""
        for st in STEPS:
            op, a = st[0], st[1:]
            hist = op + str(a)
            if op in ("inc", "inc1"):
                mc.run("h_" + op, R[a[0]], s(a[1]), *[num(sem.wrap(x, 64)) for x in a[2:]])
                cnt[a[0]][a[1]] = (cnt[a[0]].get(a[1], 0) + (a[2] if op == "inc" else 1)) % 2**64
            elif op == "meas":
                mc.run("h_meas", R[a[0]], s(a[1]), num(a[2]))
                meas[a[0]].setdefault(a[1], []).append(a[2])
            elif op == "set":
                mc.run("h_accset", ("null",) if a[0] is None else R[a[0]])
                cur = a[0]
            elif op in ("accinc", "accinc1"):
                mc.run("h_" + op, s(a[0]), *[num(x) for x in a[1:]])
                if cur is not None:
                    cnt[cur][a[0]] = cnt[cur].get(a[0], 0) + (a[1] if op == "accinc" else 1)
            elif op == "accmeas":
                mc.run("h_accmeas", s(a[0]), num(a[1]))
                if cur is not None:
                    meas[cur].setdefault(a[0], []).append(a[1])
            for k in (0, 1):
                cm, mm = mc.run("h_counters", R[k]), mc.run("h_meass", R[k])
                for n in ("a", "b", "c", "m", "q"):
                    ctx.count("observations")
                    for what, ref, run in (("counter", cnt, "h_counter"), ("measurements", meas, "h_measn")):
                        try:
                            v = mc.run(run, R[k], s(n))
                        except absx.Thrown:
                            v = None
                        if what == "measurements" and v is not None:
                            v = [mc.load(mc.st, ("p", b, num(0)), "i64") for b in lib.seq(mc.addr(mc.st, v))]
                            v = [x[1] if x[0] == "i" else x for x in v]
                        elif v is not None:
                            v = sem.uns(v[1], 64) if v[0] == "i" else v
                        if v != ref[k].get(n):
                            bad.setdefault(what, T + "ExperimentRun: after %s the %s %r of record %d is %r instead of %r" % (hist, what, n, k, v, ref[k].get(n)))
                have = {"".join(p[1] for p in q) for q in lib.map(mc.addr(mc.st, cm))}
                if have != set(cnt[k]):
                    bad.setdefault("counters", T + "ExperimentRun: after %s counters() holds %s instead of %s" % (hist, sorted(have), sorted(cnt[k])))
                have = {"".join(p[1] for p in q) for q in lib.map(mc.addr(mc.st, mm))}
                if have != set(meas[k]):
                    bad.setdefault("measurements()", T + "ExperimentRun: after %s measurements() holds %s instead of %s" % (hist, sorted(have), sorted(meas[k])))
    except Undecided as e:
        ctx.count("undecided")
        ctx.notes.append("counters: %s" % e)
    except Refuted as e:
        bad.setdefault("history", T + "ExperimentRun: %s: %s" % (hist, e))
    except absx.Thrown as e:
        bad.setdefault("history", T + "ExperimentRun: %s throws %s" % (hist, e))


OPS2 = [("inc", ("a", 3)), ("inc1", ("a",)), ("meas", ("a", 9)), ("accinc", ("a", 2)), ("accmeas", ("a", 6))]


def concurrent(ctx, m, bad):
    """one operation while another thread performs a second one, as a whole, at any access to shared state of the first"""
    for used in (False, True):
        for o1, a1 in OPS2:
            for o2, a2 in OPS2:
                if ("inc" in o1) != ("inc" in o2):
                    continue
                what = "%s%s while another thread does %s%s (%s)" % (o1, a1, o2, a2, "name used before" if used else "first use of the name")
                for at in range(1, 40):
                    lib = cont.Library()
                    mc = absx.Machine(m, [lib, local])
                    r, n = mc.new(), mc.new()
                    mc.st.mem[n] = ("str", (("l", "a"),))

                    def args(o, a):
                        return ([] if o.startswith("acc") else [r]) + [n] + [num(x) for x in a[1:]]
                    try:
                        mc.run("h_new", r)
                        mc.run("h_accset", r)
                        if used:
                            mc.run("h_inc" if "inc" in o1 else "h_meas", r, n, num(100))
                        try:
                            hit, _ = mc.interleave(lambda: mc.run("h_" + o2, *args(o2, a2)), at, "h_" + o1, *args(o1, a1))
                        except absx.Blocked:
                            continue
                        if not hit:
                            break
                        ctx.count("interferences")
                        vals = [a[1] if len(a) > 1 else 1 for a in (a1, a2)] + ([100] if used else [])
                        if "inc" in o1:
                            v = mc.run("h_counter", r, n)
                            if v != num(sum(vals)):
                                bad.setdefault("lost:counter", T + "ExperimentRun: %s: the counter is %s instead of %d" % (what, v[1], sum(vals)))
                        else:
                            v = mc.run("h_measn", r, n)
                            v = [mc.load(mc.st, ("p", b, num(0)), "i64") for b in lib.seq(mc.addr(mc.st, v))]
                            if sorted(x[1] for x in v) != sorted(vals):
                                bad.setdefault("lost:meas", T + "ExperimentRun: %s: recorded are %s instead of %s" % (what, sorted(x[1] for x in v), sorted(vals)))
                    except Undecided as e:
                        ctx.count("undecided")
                        ctx.notes.append("%s: %s" % (what, e))
                        break
                    except Refuted as e:
                        bad.setdefault("interference", T + "ExperimentRun: %s: %s" % (what, e))
                        break
                    except absx.Thrown as e:
                        bad.setdefault("interference", T + "ExperimentRun: %s: throws %s" % (what, e))
                        break


TR = [("has", "x"), ("add", "x", "one"), ("add", "x", "two"), ("upd", "x", "three"), ("add", "y", ""), ("upd", "y", "four"), ("upd", "z", "five"),
      ("addi", "n", 42), ("addi", "n", 43), ("updi", "n", -7), ("upd", "n", "text"), ("updi", "k", 0), ("add", "host", "other"), ("upd", "host", "mine")]


def traits(ctx, m, bad):
    lib = cont.Library()
    mc = absx.Machine(m, [lib, local])
    R = mc.new()
    strs = {}

    def s(n):
        if n not in strs:
            strs[n] = mc.new()
            mc.st.mem[strs[n]] = ("str", (("l", n),) if n else ())
        return strs[n]
    hist = ""
    try:
        mc.run("h_new", R)
        ref = {"host": (("v", ("hostname",)),), "git-rev": None}
        for st in TR:
            op, n, v = st[0], st[1], st[2] if len(st) > 2 else None
            hist = op + str(st[1:])
            val = None if v is None else (("n", num(v)),) if isinstance(v, int) else (("l", v),) if v else ()
            if op.startswith("add"):
                mc.run("h_" + op, R, s(n), num(v) if op == "addi" else s(v))
                ref.setdefault(n, val)
            elif op.startswith("upd"):
                mc.run("h_" + op, R, s(n), num(v) if op == "updi" else s(v))
                ref[n] = val
            for q in ("x", "y", "z", "n", "k", "host", "git-rev"):
                ctx.count("observations")
                h = mc.run("h_has", R, s(q))
                if h[0] == "i" and bool(h[1] & 1) != (q in ref):
                    bad.setdefault("has", T + "ExperimentRun::hasTrait(%r) is %s after %s" % (q, bool(h[1] & 1), hist))
                out = mc.new()
                try:
                    mc.run("h_get", R, s(q), out)
                    got = mc.string(mc.st, out)
                except absx.Thrown:
                    got = None
                if q == "git-rev":
                    continue
                if got != ref.get(q):
                    bad.setdefault("get", T + "ExperimentRun::getTrait(%r) is %r after %s instead of %r" % (q, got, hist, ref.get(q)))
                if ref.get(q) and ref[q][0][0] == "n":
                    g = mc.run("h_geti", R, s(q))
                    if g[0] == "i" and g != ref[q][0][1]:
                        bad.setdefault("geti", T + "ExperimentRun::getTrait<int>(%r) is %r after %s" % (q, g[1], hist))
    except Undecided as e:
        ctx.count("undecided")
        ctx.notes.append("traits: %s" % e)
    except Refuted as e:
        bad.setdefault("thistory", T + "ExperimentRun: %s: %s" % (hist, e))
    except absx.Thrown as e:
        bad.setdefault("thistory", T + "ExperimentRun: %s throws %s" % (hist, e))


def check(ctx):
    m = cxx.build(ctx, "c08", HARNESS, ROOTS)
    ctx.notes += m.repo_funcs
    for r, what in (("h_inc", "incCounter"), ("h_inc1", "incCounter"), ("h_meas", "addMeasurement"), ("h_accinc", "ExperimentRunAccessor::incCounter"),
                    ("h_accmeas", "ExperimentRunAccessor::addMeasurement")):
        for p in sem.Analysis(m, r).paths:
            ctx.count("recording_paths")
            ctx.count("effects", len(list(conc.flat(p))))
            for kind, e in conc.unsynchronised(p):
                ctx.viol("race:%s:%s" % (what, kind), "include/utils/Timings.h %s: two threads recording at the same time lose an update (%s)" % (what, kind))
    bad = {}
    counters(ctx, m, bad)
    traits(ctx, m, bad)
    concurrent(ctx, m, bad)
    for k, v in bad.items():
        ctx.viol(k, v)
