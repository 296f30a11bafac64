import cxx, sem, absx
from sem import num
from unf import Undecided, Refuted
from ir import AnalysisError

LEVEL = "other"
EXPLANATION = ("Lock discipline: on every path of the two updating operations the spin lock is acquired before and released after "
               "everything that is not atomic and shared (members written by an update, the stream), with acquire and release order, the count is "
               "advanced by one atomic or locked operation, and the returned number comes from that operation. Sequential "
               "behaviour: constants are propagated through histories of restarts and updates and the count, the expected "
               "count and the text written are compared with the scale, one mark per two per cent reached and the final line break.")
ASSUMPTIONS = ["the output stream as specified"]

HARNESS = '''#include "utils/ProgressDisplay.h"
#include <new>
extern "C" void h_new(ProgressDisplay *p, unsigned long n, std::ostream &o, const std::string &a, const std::string &b, const std::string &c) { new (p) ProgressDisplay(n, o, a, b, c); }
extern "C" void h_newd(ProgressDisplay *p, unsigned long n, std::ostream &o) { new (p) ProgressDisplay(n, o); }
extern "C" void h_restart(ProgressDisplay &p, unsigned long n) { p.restart(n); }
extern "C" unsigned long h_add(ProgressDisplay &p, unsigned long n) { return p += n; }
extern "C" unsigned long h_inc(ProgressDisplay &p) { return ++p; }
extern "C" unsigned long h_count(const ProgressDisplay &p) { return p.count(); }
extern "C" unsigned long h_exp(const ProgressDisplay &p) { return p.expected_count(); }
'''
ROOTS = ["h_new", "h_newd", "h_restart", "h_add", "h_inc", "h_count", "h_exp"]
F = "include/utils/ProgressDisplay.h ProgressDisplay::"
SCALE1 = "0%   10   20   30   40   50   60   70   80   90   100%\n"
SCALE2 = "|----|----|----|----|----|----|----|----|----|----|"


class Ref:
    """boost's progress display"""

    def __init__(self, s1="\n", s2="", s3=""):
        self.s = s1, s2, s3

    def restart(self, n):
        self.count = self.next = self.tic = 0
        self.exp = n or 1
        return self.s[0] + SCALE1 + self.s[1] + SCALE2 + "\n" + self.s[2]

    def add(self, k):
        self.count += k
        out = ""
        if self.count >= self.next:
            need = int(self.count / self.exp * 50.0)
            while True:
                out += "*"
                self.tic += 1
                if self.tic >= need:
                    break
            self.next = int((self.tic / 50.0) * self.exp)
            if self.count == self.exp:
                if self.tic < 51:
                    out += "*"
                out += "\n"
        return out


HISTORIES = [
    ("small", 10, [1] * 10), ("one", 1, [1]), ("zero", 0, [1]), ("hundred", 100, [1] * 100), ("fifty", 50, [1] * 50), ("fiftyone", 51, [1] * 51),
    ("odd", 7, [3, 1, 2, 1]), ("jump", 1000, [1, 500, 1, 498]), ("all at once", 200, [200]), ("beyond", 20, [19, 5, 1]),
    ("nothing", 30, [0, 0, 15, 0, 15]), ("large", 3 * 10**9, [1, 10**9, 10**9, 10**9 - 1]), ("restart", 4, [1, 1, "r6", 2, 2, 2, "r0", 1]),
    ("large steps", 10**12, [10**11] * 10), ("lag", 49, [1, 24, 1, 1, 21, 1])]


def text(parts, names):
    out = ""
    for p in parts:
        if p[0] == "l":
            out += p[1]
        elif p[0] == "v" and p[1] in names:
            out += names[p[1]]
        else:
            raise Undecided("written text " + repr(p)[:80])
    return out


def sequential(ctx, m):
    S = ("p", ("obj", "stream"), num(0))
    bad = {}
    for name, n0, steps in HISTORIES:
        for dflt in (False, True):
            names = {} if dflt else {("obj", ("p", ("obj", "s%d" % k), num(0))): "<s%d>" % k for k in (1, 2, 3)}
            ref = Ref() if dflt else Ref(*["<s%d>" % k for k in (1, 2, 3)])
            mc = absx.Machine(m)
            O = mc.new()
            pos = 0

            def written():
                nonlocal pos
                ev = mc.st.events[pos:]
                pos = len(mc.st.events)
                for e in ev:
                    if e[0] == "out" and e[1] != S:
                        raise Undecided("another stream")
                return "".join(text(e[2], names) for e in ev if e[0] == "out")

            def rep(key, msg):
                bad.setdefault(key, msg)
            try:
                if dflt:
                    mc.run("h_newd", O, num(n0), S)
                else:
                    mc.run("h_new", O, num(n0), S, *[("p", ("obj", "s%d" % k), num(0)) for k in (1, 2, 3)])
                want = ref.restart(n0)
                if written() != want:
                    rep("restart:text", F + "restart does not write the scale with the leading strings")
                for k, s in enumerate(steps):
                    if isinstance(s, str):
                        mc.run("h_restart", O, num(int(s[1:])))
                        want = ref.restart(int(s[1:]))
                        if written() != want:
                            rep("restart:text", F + "restart does not write the scale with the leading strings")
                    else:
                        r = mc.run("h_inc", O) if s == 1 and k % 2 else mc.run("h_add", O, num(s))
                        want = ref.add(s)
                        got = written()
                        if r[0] == "i" and sem.uns(r[1], 64) != ref.count:
                            rep("result", F + "operator+= returns %d instead of %d" % (sem.uns(r[1], 64), ref.count))
                        if got != want:
                            rep("marks", F + "display_tic: with %d of %d counted the update by %d writes %r instead of %r" % (ref.count, ref.exp, s, got, want))
                    c, e = mc.run("h_count", O), mc.run("h_exp", O)
                    if c[0] == "i" and sem.uns(c[1], 64) != ref.count:
                        rep("count", F + "count() is %d after counting to %d" % (sem.uns(c[1], 64), ref.count))
                    if e[0] == "i" and sem.uns(e[1], 64) != ref.exp:
                        rep("expected", F + "expected_count() is %d instead of %d" % (sem.uns(e[1], 64), ref.exp))
                    ctx.count("history_steps")
            except Undecided as e:
                ctx.count("undecided")
                ctx.notes.append("history %s: %s" % (name, e))
            except Refuted as e:
                rep("history", F + " history %s (expected %d): %s" % (name, n0, e))
            except absx.Thrown as e:
                rep("history", F + " history %s (expected %d): throws %s" % (name, n0, e))
    for k, v in bad.items():
        ctx.viol(k, v)


ACQ = ("acquire", "acq_rel", "seq_cst")
REL = ("release", "acq_rel", "seq_cst")


def leaves(t, acc):
    if isinstance(t, tuple):
        if t and t[0] in ("u", "ld", "h", "clob"):
            acc.add(t)
            return acc
        for x in t:
            leaves(x, acc)
    return acc


def shared(a):
    """offset within the display, or None for local objects"""
    return a[2][1] if a[0] == "p" and a[1] == ("arg", 0) and a[2][0] == "i" else None


def events(p):
    """the events of a path in order, those of loop bodies once in between"""
    for e in p.events:
        if e[0] == "loop":
            for s in e[1].steps:
                for x in events(s):
                    yield ("in",) + (x,) if x[0] != "in" else x
        else:
            yield e


LOCK = ("lock", "try_lock")


def locking(ctx, m):
    """lockset of the accesses on every path of the updating operations"""
    an = {r: sem.Analysis(m, r) for r in ("h_add", "h_inc", "h_count", "h_exp")}
    # what the updates write
    written, atomics = set(), set()
    for r in ("h_add", "h_inc"):
        for p in an[r].paths:
            for e in events(p):
                e = e[1] if e[0] == "in" else e
                o = None
                if e[0] in ("store", "astore") or e[0] == "memset":
                    o = shared(e[1])
                elif e[0] == "rmw":
                    o = shared(e[2])
                elif e[0] == "cas":
                    o = shared(e[1])
                if o is not None:
                    written.add(o)
                    if e[0] in ("astore", "rmw", "cas"):
                        atomics.add(o)
    flags = set()
    for r in ("h_add", "h_inc"):
        for p in an[r].paths:
            held, acquired, released = None, False, False
            inside = set()
            for e in p.events:
                steps = e[1].steps if e[0] == "loop" else ()
                if steps:
                    sub = [x for s in steps for x in s.events]
                    if not held and any(x[0] in ("rmw", "cas", "aload", "load") for x in sub) and not any(x[0] in ("store", "out") and shared(x[1]) is not None for x in sub):
                        continue            # waiting for the lock
                    todo = sub
                else:
                    todo = [e]
                for x in todo:
                    if x[0] == "rmw" and x[1] == "xchg" and x[3] == num(1) and shared(x[2]) is not None and held is None and not acquired:
                        flags.add(shared(x[2]))
                        held = shared(x[2])
                        acquired = True
                        if not any(o in x[5] for o in ACQ):
                            ctx.viol(r + ":acquire", F + "operator+=: the lock is taken without acquire ordering")
                        continue
                    if x[0] == "cas" and x[4] and held is None and not acquired and shared(x[1]) is not None:
                        flags.add(shared(x[1]))
                        held, acquired = shared(x[1]), True
                        if not any(o in x[5] for o in ACQ):
                            ctx.viol(r + ":acquire", F + "operator+=: the lock is taken without acquire ordering")
                        continue
                    if x[0] == "call" and x[1].split("::")[-1] in ("lock", "pthread_mutex_lock", "__gthread_mutex_lock"):
                        held, acquired = "mutex", True
                        continue
                    if x[0] == "call" and x[1].split("::")[-1] in ("unlock", "pthread_mutex_unlock", "__gthread_mutex_unlock"):
                        if held is None:
                            ctx.viol(r + ":release", F + "operator+=: releases a lock it does not hold")
                        held = None
                        continue
                    if x[0] == "astore" and held is not None and shared(x[1]) == held:
                        if x[2] == num(0):
                            if not any(o in x[3] for o in REL):
                                ctx.viol(r + ":release", F + "operator+=: the lock is released without release ordering")
                            held = None
                        continue
                    if x[0] == "rmw" and x[1] in ("xchg", "and") and held is not None and shared(x[2]) == held and x[3] == num(0):
                        if not any(o in x[5] for o in REL):
                            ctx.viol(r + ":release", F + "operator+=: the lock is released without release ordering")
                        held = None
                        continue
                    ctx.count("accesses")
                    if x[0] in ("load", "store", "memset") and shared(x[1]) is not None:
                        o = shared(x[1])
                        if o in atomics and x[0] == "load" or o in written:
                            if held is None:
                                ctx.viol("unlocked:%s" % x[0], F + "operator+=: a member changed by updates is %s without holding the lock" % ("read" if x[0] == "load" else "written"))
                    if x[0] == "out" and held is None:
                        ctx.viol("unlocked:out", F + "operator+=: writes to the stream without holding the lock")
                    if x[0] in ("aload", "rmw") and shared(x[1] if x[0] == "aload" else x[2]) is not None and held is not None:
                        pass
                    if x[0] == "rmw":
                        inside.add(x[4])
                    if x[0] == "load" and held is not None:
                        inside.add(x[2])
            ctx.count("update_paths")
            if p.term[0] == "ret":
                if held is not None:
                    ctx.viol(r + ":held", F + "operator+=: returns with the lock held")
                if p.term[1] is not None:
                    # after the release another thread may already have counted further
                    after = late(p, flags)
                    for l in leaves(p.term[1], set()):
                        if l in after:
                            ctx.viol("result:late", F + "operator+=: the returned number is read again after the lock was released")
    # the count must advance by one operation: atomic, or a plain one under the lock (seen above)
    for r in ("h_count",):
        for p in an[r].paths:
            for e in events(p):
                e = e[1] if e[0] == "in" else e
                if e[0] == "load" and shared(e[1]) in written:
                    locked = any(x[0] in ("rmw", "cas", "call") for x in p.events)
                    if not locked:
                        ctx.viol("count:race", F + "count: reads the count without synchronisation while updates write it")
    # a split read-modify-write of an atomic outside the lock
    for r in ("h_add", "h_inc"):
        for p in an[r].paths:
            heldseen = False
            last = {}
            for e in p.events:
                if e[0] == "rmw" and e[1] == "xchg" and shared(e[2]) in flags or e[0] == "cas" and shared(e[1]) in flags or \
                        e[0] == "call" and e[1].split("::")[-1] in ("lock", "pthread_mutex_lock", "__gthread_mutex_lock"):
                    heldseen = True
                if e[0] == "aload" and not heldseen and shared(e[1]) is not None and shared(e[1]) in written and shared(e[1]) not in flags:
                    last[e[1]] = e
                if e[0] == "astore" and e[1] in last and not heldseen:
                    ctx.viol("split", F + "operator+=: reads and writes the count in two steps without holding the lock")


def late(p, flags):
    """values read from the shared state after the lock was released"""
    out, rel = set(), False
    held = False
    for e in p.events:
        if e[0] == "rmw" and e[1] == "xchg" and e[3] == num(1) and shared(e[2]) in flags: held = True
        elif e[0] == "cas" and shared(e[1]) in flags: held = True
        elif e[0] == "call" and e[1].split("::")[-1] in ("lock", "pthread_mutex_lock", "__gthread_mutex_lock"): held = True
        elif e[0] == "astore" and shared(e[1]) in flags and e[2] == num(0): rel = True
        elif e[0] == "rmw" and shared(e[2]) in flags and e[3] == num(0): rel = True
        elif e[0] == "call" and e[1].split("::")[-1] in ("unlock", "pthread_mutex_unlock", "__gthread_mutex_unlock"): rel = True
        elif rel and e[0] == "aload":
            v = e[-1]
            res = v.res if hasattr(v, "res") else None
            if res and res in p.env:
                out.add(p.env[res])
        elif rel and e[0] == "load" and shared(e[1]) is not None:
            out.add(e[2])
    return out


def check(ctx):
    m = cxx.build(ctx, "c07", HARNESS, ROOTS)
    ctx.notes += m.repo_funcs
    sequential(ctx, m)
    locking(ctx, m)
