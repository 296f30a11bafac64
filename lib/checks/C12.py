import itertools, os
import cxx, sem, absx
from sem import num
from unf import Undecided, Refuted

LEVEL = "other"
EXPLANATION = ("Typestate of the task timers by abstract interpretation: every sequence of start and end up to length four, with and without automatic "
               "start, ended by destruction, at every logger level. The clock returns opaque, ever later instants; each interval that was started and ended "
               "must be logged exactly once with rank, name, both instants and their difference, and nothing else is logged. VTune tasks must "
               "alternate begin and end and be closed on destruction.")
ASSUMPTIONS = ["the logger (property C06)", "the ITT interface as declared in shim/ittnotify.h"]
T = "include/utils/TaskTimer.h TaskTimer: "
V = "include/utils/VTuneAdapter.h VTuneTask: "
HARNESS = '''#define ENABLE_TASK_TIMER
#define ENABLE_VTUNE
#include "utils/TaskTimer.h"
#include "utils/VTuneAdapter.h"
#include <new>
struct World { int r; int rank() const { return r; } };
struct User { World world;
  void full() { TIME_TASK(work); }
  void prep() { TIME_PREP_TASK(work); TIME_START_TASK(work); TIME_END_TASK(work); TIME_START_TASK(work); }
  void idle() { TIME_PREP_TASK(work); } };
extern "C" void h_ctor(TaskTimer *p, const std::string &n, int r, bool a) { new (p) TaskTimer(n, r, a); }
extern "C" void h_ctord(TaskTimer *p, const std::string &n, int r) { new (p) TaskTimer(n, r); }
extern "C" void h_start(TaskTimer &t) { t.start(); }
extern "C" void h_end(TaskTimer &t) { t.end(); }
extern "C" void h_del(TaskTimer &t) { t.~TaskTimer(); }
extern "C" void h_full(User &u) { u.full(); }
extern "C" void h_prep(User &u) { u.prep(); }
extern "C" void h_idle(User &u) { u.idle(); }
extern "C" void h_level(int v) { Logger::getInstance().setLogLevel((Logger::Verbosity)v); }
extern "C" void v_ctor(VTuneTask *p, VTuneDomain &d, VTuneStringHandle &h, bool a) { new (p) VTuneTask(d, h, a); }
extern "C" void v_ctord(VTuneTask *p, VTuneDomain &d, VTuneStringHandle &h) { new (p) VTuneTask(d, h); }
extern "C" void v_start(VTuneTask &t) { t.start(); }
extern "C" void v_end(VTuneTask &t) { t.end(); }
extern "C" void v_del(VTuneTask &t) { t.~VTuneTask(); }
'''
ROOTS = ["h_" + x for x in ("ctor", "ctord", "start", "end", "del", "full", "prep", "idle", "level")] + ["v_" + x for x in ("ctor", "ctord", "start", "end", "del")]


class World:
    """clock, logger and profiler the timers talk to"""

    def __init__(self):
        self.t = 0
        self.level = None
        self.entries = []       # (level, stream base)
        self.itt = []

    def __call__(self, an, i, st, fn, d, args):
        f = sem.cleanfn(fn)
        if f.endswith("_clock::now"):
            self.t += 1
            v = ("s", "now%d" % self.t)
            if "sret(" in i.raw:
                an.store(st, args[0], v, "i64")
                return None
            return v
        if f == "Logger::getInstance":
            return ("p", ("obj", "logger"), num(0))
        if f == "Logger::addLogEntry":
            lv = an.simp(args[1])
            b = an.new(None, "obj")
            self.entries.append((lv[1] if lv[0] == "i" else None, b))
            return b
        if f.startswith("__itt_task"):
            self.itt.append(f[11:])
            return None
        return NotImplemented


def text(mc, b):
    """what was written to an entry"""
    out = []
    for e in mc.st.events:
        if e[0] == "out" and e[1] == b:
            out += list(e[2])
    r = []
    for p in out:
        if p[0] == "l" and r and r[-1][0] == "l":
            r[-1] = ("l", r[-1][1] + p[1])
        else:
            r.append(p)
    return tuple(r)


def want(rank, name, a, b):
    n = lambda t: ("n", t)
    return (("l", "TIMING "), n(num(rank)), ("l", " "), *name, ("l", " "), n(a), ("l", " "), n(b), ("l", " "), n(sem.linadd(b, a, -1)), ("l", "\n"))


def norm(ps):
    r = []
    for p in ps:
        if p[0] == "n" and p[1][0] == "i":
            p = ("l", str(p[1][1]))
        if p[0] == "l" and r and r[-1][0] == "l":
            r[-1] = ("l", r[-1][1] + p[1])
        else:
            r.append(p)
    return tuple(r)


def timer(m, level, auto, seq, rank):
    w = World()
    mc = absx.Machine(m, [w])
    mc.run("h_level", num(level))
    t, s = mc.new(), mc.new()
    name = (("l", "work"),)
    mc.st.mem[s] = ("str", name)
    log, running = [], None
    what = "%s%s%s" % ("started on construction" if auto is not False else "not started", "".join(", " + x for x in seq), ", destroyed")
    at = 0

    def go(x):
        mc.run("h_" + x, t)
    if auto is None:
        mc.run("h_ctord", t, s, num(rank))
    else:
        mc.run("h_ctor", t, s, num(rank), num(int(auto)))
    mc.st.mem[s] = ("str", (("l", "another"),))     # the caller's string may change
    for x in ([] if auto is False else ["construct"]) + list(seq) + ["del"]:
        before = w.t
        if x != "construct":
            go(x)
        if x in ("construct", "start"):
            running = ("s", "now%d" % w.t)
            if w.t < 1 or x == "start" and w.t == before:
                return "start", what + ": starting does not take the time"
        elif running is not None:
            if w.t == before:
                return "end", what + ": ending does not take the time"
            log.append((running, ("s", "now%d" % w.t)))
            running = None
        n = len(log) if level else 0
        if len(w.entries) != n:
            return "entries", what + ": %d intervals are logged after %s instead of %d (level %d)" % (len(w.entries), x, n, level)
    for (lv, b), (s0, e0) in zip(w.entries, log):
        if lv is not None and lv != 1:
            return "level", what + ": the interval is logged at level %d" % lv
        got = norm(text(mc, b))
        if got != norm(want(rank, name, s0, e0)):
            return "text", what + ": logs %s instead of %s" % (got, norm(want(rank, name, s0, e0)))
    return None


def macro(m, which):
    w = World()
    mc = absx.Machine(m, [w])
    mc.run("h_level", num(1))
    u = mc.new()
    mc.store(mc.st, u, num(7), "i32")
    mc.run("h_" + which, u)
    exp = {"full": [(1, 2)], "prep": [(1, 2), (3, 4)], "idle": []}[which]
    got = [norm(text(mc, b)) for _, b in w.entries]
    exp = [norm(want(7, (("l", "work"),), ("s", "now%d" % a), ("s", "now%d" % b))) for a, b in exp]
    if got != exp:
        return "macro", "the macros log %s instead of %s" % (got, exp)


def vtune(m, auto, seq):
    w = World()
    mc = absx.Machine(m, [w])
    t, d, h = mc.new(), mc.new(), mc.new()
    if auto is None:
        mc.run("v_ctord", t, d, h)
    else:
        mc.run("v_ctor", t, d, h, num(int(auto)))
    what = "%s%s, destroyed" % ("started on construction" if auto is not False else "not started", "".join(", " + x for x in seq))
    for x in list(seq) + ["del"]:
        mc.run("v_" + x, t)
    n = 0
    for e in w.itt:
        n += 1 if e == "begin" else -1
        if n not in (0, 1):
            return "balance", what + ": tasks begin and end as %s" % w.itt
    if n:
        return "balance", what + ": the task is never ended"
    starts = (auto is not False) + sum(x == "start" for x in seq)
    if w.itt.count("begin") != starts:
        return "begin", what + ": %d tasks begin instead of %d" % (w.itt.count("begin"), starts)


def check(ctx):
    m = cxx.build(ctx, "c12", HARNESS, ROOTS, ["-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "shim")])
    ctx.notes += m.repo_funcs
    seqs = [s for k in range(5) for s in itertools.product(("start", "end"), repeat=k)]
    jobs = [(T, lambda l=l, a=a, s=s: timer(m, l, a, s, 3), s) for l in (1, 0, -1, 3) for a in (True, False, None) for s in seqs if l == 1 or len(s) < 3]
    jobs += [(V, lambda a=a, s=s: vtune(m, a, s), s) for a in (True, False, None) for s in seqs]
    jobs += [(T, lambda x=x: macro(m, x), x) for x in ("full", "prep", "idle")]
    for pre, f, s in jobs:
        ctx.count("histories")
        try:
            e = f()
        except Undecided as x:
            ctx.count("undecided")
            ctx.notes.append("%s: %s" % (s, x))
            continue
        except Refuted as x:
            e = ("access", "%s %s" % (s, x))
        except absx.Thrown as x:
            e = ("throws", "%s throws %s" % (s, x.what))
        if e:
            ctx.viol(pre[:30] + e[0], pre + e[1])
