import itertools
import cxx, sem, unf
from sem import num, scat
from unf import Undecided
from ir import AnalysisError

LEVEL = "proof"
EXPLANATION = ("The logger's operations and macros are summarised from the current source and unfolded on every combination of logger level "
               "(7) and message level (3), on logs of up to 4 entries with every assignment of levels, on indentations 0..4 and on containers "
               "of 0..4 elements; what is recorded, what goes to standard output and what is printed is compared with the reference. Entries "
               "and container elements are symbolic, the loops treat one element at a time and carry no state, so longer logs add no case.")
ASSUMPTIONS = ["tbb::concurrent_vector and the standard streams as specified"]

HARNESS = '''#include "src/utils/Logger.cpp"
extern "C" void *h_inst() { return &Logger::getInstance(); }
extern "C" const void *h_level() { return &Logger::getInstance().getLogLevel(); }
extern "C" const void *h_leveloff(const Logger &l) { return &l.getLogLevel(); }
extern "C" void h_set(Logger &l, const Logger::Verbosity &v) { l.setLogLevel(v); }
extern "C" void h_log(const std::string &s) { LOG(s); }
extern "C" void h_vlog(const std::string &s) { VLOG(s); }
extern "C" void h_plog(const std::string &s) { PLOG(s); }
extern "C" void h_indentmacro() { INDENT }
extern "C" void h_dedentmacro() { DEDENT }
extern "C" std::ostream &h_add(Logger &l, Logger::Verbosity v) { return l.addLogEntry(v); }
extern "C" std::ostream &h_print(const Logger &l, std::ostream &o, Logger::Verbosity v) { return l.printLog(o, v); }
extern "C" std::ostream &h_print0(const Logger &l, std::ostream &o) { return l.printLog(o); }
extern "C" std::ostream &h_out(std::ostream &o, const Logger &l) { return o << l; }
extern "C" void h_indent(const Logger &l, std::string &o) { o = l.indent(); }
extern "C" void h_inc(Logger &l) { l.incIndent(); }
extern "C" void h_dec(Logger &l) { l.decIndent(); }
extern "C" void h_seti(Logger &l, unsigned i) { l.setIndent(i); }
extern "C" unsigned h_geti(Logger &l) { return l.getIndent(); }
extern "C" void h_cont(const std::vector<int> &c, Logger::Verbosity v, const std::string &p, const std::string &s) { LOGGER.logContainer(c, v, p, s); }
extern "C" int e_LIVEPROLIX() { return (int)Logger::Verbosity::LIVEPROLIX; }
extern "C" int e_LIVEVERBOSE() { return (int)Logger::Verbosity::LIVEVERBOSE; }
extern "C" int e_LIVE() { return (int)Logger::Verbosity::LIVE; }
extern "C" int e_SILENT() { return (int)Logger::Verbosity::SILENT; }
extern "C" int e_NORMAL() { return (int)Logger::Verbosity::NORMAL; }
extern "C" int e_VERBOSE() { return (int)Logger::Verbosity::VERBOSE; }
extern "C" int e_PROLIX() { return (int)Logger::Verbosity::PROLIX; }
extern "C" bool h_silent() { return IS_SILENT; }
extern "C" bool h_normal() { return IS_NORMAL; }
extern "C" bool h_verbose() { return IS_VERBOSE; }
extern "C" bool h_prolix() { return IS_PROLIX; }
'''
# meaning of a level: sign = written at once, magnitude = how much is wanted
LEVELS = {-3: "LIVEPROLIX", -2: "LIVEVERBOSE", -1: "LIVE", 0: "SILENT", 1: "NORMAL", 2: "VERBOSE", 3: "PROLIX"}
VAL = {}


def model(an, i, st, fn, d, args):
    f = sem.cleanfn(fn)
    last = f.split("::")[-1]
    if f == "std::make_unique" and "stringstream" in d:
        p = ("new", an.next())
        st.mem[("p", p, num(0))] = ("stream", ())
        st.alias[("p", p, num(16))] = ("p", p, num(0))
        st.mem[an.addr(st, args[0])] = ("p", p, num(0))
        return None
    if f == "operator new" and args:
        return ("p", ("new", an.next()), num(0))
    if "concurrent_vector::" in f and last in ("emplace_back", "push_back", "grow_by"):
        sret = "sret(" in i.raw
        a = args[1:] if sret else args
        v = ("entry", an.next())
        if last == "emplace_back" and len(a) == 3:
            lev, src = an.load(st, a[1]), an.addr(st, a[2])
        elif last in ("push_back", "emplace_back") and len(a) == 2:
            b = an.addr(st, a[1])
            lev, src = an.load(st, b), ("p", b[1], sem.linadd(b[2], num(8)))
        else:
            raise AnalysisError("log entry construction")
        ptr = st.mem.get(src, ("ld", src, 0))
        st.mem[src] = ("null",)
        e = ("p", ("elem", v), num(0))
        st.mem[e] = lev
        st.mem[("p", ("elem", v), num(8))] = ptr
        st.ev("entry", a[0], lev, ptr, i)
        if sret:
            an.store(st, args[0], v)
            return None
        return v
    return sem.NI


class W(unf.World):
    def __init__(self, lev, level_addrs, indent, argv=None, entries=(), cont=None):
        super().__init__()
        self.lev, self.la, self.ind, self.argv = VAL[lev], level_addrs, indent, argv or {}
        self.entries = entries
        self.cont = cont
        if cont is not None:
            self.sizes[cont] = len(entries)

    def atom(self, t):
        if t[0] == "ld":
            if t[1] in self.la:
                return num(self.lev)
            if t[1] in ICELL:
                return num(self.ind)
            a = t[1]
            if a[0] == "p" and a[1][0] == "elem" and a[1][1][0] == "it" and a[1][1][1] == self.cont:
                k = a[1][1][2]
                if not 0 <= k < len(self.entries):
                    raise unf.Refuted("reads an entry behind the end")
                if a[2] == num(0):
                    return num(VAL[self.entries[k]])
                if a[2] == num(8):
                    return ("p", ("stream", k), num(0))
        if t[0] == "s" and t in self.argv:
            return self.argv[t]
        if t[0] == "streq":
            return self.streq(t)
        if t[0] == "len":
            return self.length(t)
        if t[0] == "fn" and t[1].endswith("basic_string::compare") or t[0] == "fn" and t[1] == "compare":
            return self.streq(t)
        return None

    def streq(self, t):
        return None

    def length(self, t):
        return None


ICELL = set()


def und(ctx, what, e):
    ctx.count("undecided")
    ctx.notes.append("%s: not decided (%s)" % (what, e))


def tabs(n):
    return (("l", "\t" * n),) if n else ()


def check(ctx):
    import re
    roots = re.findall(r'\b([he]_\w+)\(', HARNESS)
    m = cxx.build(ctx, "c06", HARNESS, roots)
    ctx.notes += m.repo_funcs
    A = {r: sem.Analysis(m, r, [model]) for r in roots}
    ctx.count("functions", len(A))
    for k, n in LEVELS.items():
        v = A["e_" + n].paths[0].term[1]
        ctx.need(v[0] == "i", "value of " + n)
        VAL[k] = v[1]
    if len(set(VAL.values())) != 7:
        ctx.viol("levels", "Logger.h Verbosity: two levels have the same value")
        return
    # ---- the single instance and its level
    inst, level = A["h_inst"].paths, A["h_level"].paths
    ctx.need(len(inst) == 1 and len(level) == 1, "getInstance")
    ip, lp = inst[0].term[1], level[0].term[1]
    if ip[0] == "p" and ip[1][0] != "glob":
        ctx.viol("instance", "Logger.cpp getInstance: does not return one object for the whole program (%s)" % sem.show(ip))
    if lp[0] != "p" or lp[1] != ip[1]:
        ctx.viol("level", "Logger.h getLogLevel: not the level of the instance (%s)" % sem.show(lp))
    lo = A["h_leveloff"].paths[0].term[1]
    la = {lp, lo}
    s = A["h_set"].paths
    v = s[0].mem.get(lo)
    if len(s) != 1 or v is None:
        ctx.viol("setLogLevel", "Logger.h setLogLevel: does not set the level")
    elif v != ("ld", ("p", ("arg", 1), num(0)), 0) and v[0] in ("i", "ld"):
        ctx.viol("setLogLevel", "Logger.h setLogLevel: stores %s" % sem.show(v))
    # ---- indentation cell
    g = A["h_geti"].paths
    ctx.need(len(g) == 1 and g[0].term[0] == "ret", "getIndent")
    gv = g[0].term[1]
    if gv[0] == "ld":
        ICELL.add(gv[1])
        if gv[1][1][0] != "tls":
            ctx.viol("thread", "Logger: the indentation is not kept per thread (%s)" % sem.show(gv))
    else:
        und(ctx, "getIndent", sem.show(gv))
        return
    cell = gv[1]
    for r, f in (("h_inc", lambda k: k + 1), ("h_dec", lambda k: k - 1), ("h_seti", lambda k: 7)):
        for k in (1, 2, 5) if r == "h_dec" else (0, 1, 5):
            w = W(1, la, k, {("s", "arg1"): num(7)})
            try:
                run = unf.Run(A[r].paths, w)
                v = run.cell(cell)
                if run.final.term[0] != "ret":
                    ctx.viol(r[2:], "Logger.h %s: fails at indentation %d" % (r[2:], k))
                elif v is None or v[0] != "i":
                    und(ctx, r, "value")
                elif v[1] != f(k):
                    ctx.viol(r[2:], "Logger.h %sIndent: indentation %d becomes %d, expected %d" % (r[2:5], k, v[1], f(k)))
                ctx.count("indent_cases")
            except unf.Refuted as e:
                ctx.viol(r[2:], "Logger.h %s: %s" % (r[2:], e))
            except Undecided as e:
                und(ctx, r, e)
    for r, f in (("h_indentmacro", 1), ("h_dedentmacro", -1)):
        for lev in LEVELS:
            w = W(lev, la, 5)
            try:
                run = unf.Run(A[r].paths, w)
                v = run.cell(cell)
                v = num(5) if v is None else v
                want = 5 + (f if lev != 0 else 0)
                if v[0] == "i" and v[1] != want:
                    ctx.viol(r[2:], "Logger.h %s at level %s: indentation 5 becomes %d, expected %d" % (r[2:-5].upper(), LEVELS[lev], v[1], want))
                ctx.count("indent_cases")
            except (Undecided, unf.Refuted) as e:
                und(ctx, r, e)
    for k in range(5):
        try:
            run = unf.Run(A["h_indent"].paths, W(1, la, k))
            v = run.cell(("p", ("arg", 1), num(0)))
            if v is None or v[0] != "str":
                raise Undecided("text")
            if scat(v[1]) != tabs(k) and all(p[0] == "l" for p in v[1]):
                ctx.viol("indent", "Logger.cpp indent: writes %r at indentation %d" % ("".join(p[1] for p in v[1]), k))
            ctx.count("indent_cases")
        except unf.Refuted as e:
            ctx.viol("indent", "Logger.cpp indent: %s" % e)
        except Undecided as e:
            und(ctx, "indent", e)
    # ---- level queries
    for r, f in (("h_silent", lambda l: l == 0), ("h_normal", lambda l: abs(l) >= 1), ("h_verbose", lambda l: abs(l) >= 2), ("h_prolix", lambda l: abs(l) >= 3)):
        for lev in LEVELS:
            try:
                v = unf.Run(A[r].paths, W(lev, la, 0)).ret
                if v[0] != "i":
                    raise Undecided("value")
                ctx.count("level_cases")
                if bool(v[1] & 1) != f(lev):
                    ctx.viol("IS_" + r[2:].upper(), "Logger.h IS_%s is %s at level %s" % (r[2:].upper(), bool(v[1] & 1), LEVELS[lev]))
            except Undecided as e:
                und(ctx, r, e)
    # ---- recording
    msg = (("v", ("obj", ("p", ("arg", 0), num(0)))),)
    for r, lev0 in (("h_log", 1), ("h_vlog", 2), ("h_plog", 3), ("h_add", None)):
        for lev in LEVELS:
            for mv in ((1, 2, 3) if lev0 is None else (lev0,)):
                for ind in (0, 2):
                    record(ctx, A[r], r, lev, mv, ind, la, msg, lev0)
    # ---- printing
    for r in ("h_print", "h_print0", "h_out"):
        printing(ctx, A[r], r, la, m)
    # ---- containers
    container(ctx, A["h_cont"], la)


def record(ctx, an, r, lev, mv, ind, la, msg, lev0):
    what = {"h_log": "LOG", "h_vlog": "VLOG", "h_plog": "PLOG", "h_add": "addLogEntry"}[r] + " of a %s message at level %s" % (LEVELS[mv], LEVELS[lev])
    w = W(lev, la, ind, {("s", "arg1"): num(VAL[mv])})
    try:
        run = unf.Run(an.paths, w)
    except unf.Refuted as e:
        ctx.viol(r[2:], "Logger.h/.cpp %s: %s" % (what, e))
        return
    except Undecided as e:
        und(ctx, what, e)
        return
    ctx.count("record_cases")
    if run.final.term[0] != "ret":
        ctx.viol(r[2:], "%s: does not return" % what)
        return
    entries = [e for e in run.events if e[0] == "entry"]
    cout = scat(*[e[2] for e in run.events if e[0] == "out" and e[1][0] == "p" and e[1][1] == ("glob", "_ZSt4cout")])
    live = lev < 0
    on = abs(lev) >= mv if lev0 else True
    text = scat(tabs(ind), msg if lev0 else ())
    if live and on:
        if entries:
            ctx.viol(r[2:], "%s: records an entry although messages are written at once" % what)
        elif cout != text:
            if not cout:
                ctx.viol(r[2:], "%s: nothing is written to standard output" % what)
            elif all(p[0] in ("l", "v") and (p[0] == "l" or p[1][0] == "obj") for p in cout):
                ctx.viol(r[2:], "%s at indentation %d: writes %s" % (what, ind, sem.show(cout)))
            else:
                und(ctx, what, "text " + sem.show(cout))
        if lev0 is None and run.ret != ("p", ("glob", "_ZSt4cout"), num(0)):
            ctx.viol(r[2:], "%s: the returned stream is %s" % (what, sem.show(run.ret)))
        return
    if cout:
        ctx.viol(r[2:], "%s: writes to standard output" % what)
    if not on:
        if entries:
            ctx.viol(r[2:], "%s: is recorded" % what)
        return
    if lev == 0:
        return
    if len(entries) != 1:
        ctx.viol(r[2:], "%s: %d entries are recorded" % (what, len(entries)))
        return
    e = entries[0]
    if e[2][0] == "i" and e[2][1] != VAL[mv]:
        ctx.viol(r[2:], "%s: recorded with level %d" % (what, e[2][1]))
    elif e[2][0] != "i":
        und(ctx, what, "entry level")
    if e[3][0] != "p":
        und(ctx, what, "entry stream")
        return
    got = run.cell(("p", e[3][1], num(0)))
    if got is None or got[0] != "stream":
        und(ctx, what, "entry text")
    elif scat(got[1]) != text:
        if not all(p[0] == "l" or p[0] == "v" and p[1][0] == "obj" for p in got[1]):
            und(ctx, what, "entry text " + sem.show(got[1])[:80])
            return
        ctx.viol(r[2:], "%s at indentation %d: the entry holds %s" % (what, ind, sem.show(got[1])))
    if lev0 is None and run.ret != ("p", e[3][1], num(16)):
        ctx.viol(r[2:], "%s: the returned stream is not the one of the entry" % what)


def printing(ctx, an, r, la, m):
    larg, oarg = (0, 1) if r != "h_out" else (1, 0)
    out = ("p", ("arg", oarg), num(0))
    lad = {("p", ("arg", larg), a[2]) for a in la}
    # the container is whatever the function iterates over inside the logger
    conts = set()

    def scan(t):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == "fn" and t[1] in ("begin", "end", "size") and isinstance(t[2], tuple) and t[2] and isinstance(t[2][0], tuple) and t[2][0][0] == "p":
                conts.add(t[2][0])
            for x in t:
                scan(x)
    for p in an.paths:
        scan(p.conds)
    conts = {c for c in conts if c[1] == ("arg", larg)}
    if len(conts) != 1:
        und(ctx, r, "log container")
        return
    cont = conts.pop()
    shapes = [s for n in range(4) for s in itertools.product((1, 2, 3), repeat=n)] + [(3, 1, 2, 1), (1, 2, 3, 2), (1, 1, 1, 1)]
    bad = 0
    for lev in LEVELS:
        for s in shapes:
            # the level of the logger itself must not matter when one is given
            w = W(lev if r != "h_print" else {-3: 3, -2: 1, -1: 2, 0: 3, 1: 3, 2: 1, 3: -1}[lev], lad, 0, {("s", "arg2"): num(VAL[lev])}, s, cont)
            try:
                run = unf.Run(an.paths, w)
            except unf.Refuted as e:
                ctx.viol("printLog", "Logger.cpp printLog: %s" % e)
                return
            except Undecided as e:
                und(ctx, r, e)
                return
            ctx.count("print_cases")
            got = scat(*[e[2] for e in run.events if e[0] == "out" and e[1] == out])
            other = [e for e in run.events if e[0] == "out" and e[1] != out and e[1][0] == "p" and e[1][1][0] != "alloca"]
            want = tuple(("v", ("content", ("p", ("stream", k), num(0)))) for k, l in enumerate(s) if lev > 0 and l <= lev)
            norm = tuple(p for p in got)
            if norm != want or other:
                if any("rdbuf" in repr(p) and p[0] == "n" for p in norm):
                    ctx.viol("printLog", "Logger.cpp printLog: moves the text out of the entries, it cannot be printed again")
                    return
                if any("content" in repr(e[2]) for e in other):
                    ctx.viol("printLog", "Logger.cpp printLog: writes entries to %s instead of the given stream" % sem.show(other[0][1]))
                    return
                # whole text of an entry may be obtained in other ways: compare only what is understood
                if all(p[0] == "l" or p[0] == "v" and p[1][0] == "content" and p[1][1][1][0] == "stream" for p in norm) and not other:
                    ctx.viol("printLog", "Logger.cpp %s at level %s of a log with levels %s: prints entries %s, expected %s" % (
                        {"h_print": "printLog(out, level)", "h_print0": "printLog(out)", "h_out": "operator<<"}[r], LEVELS[lev], list(s),
                        [p[1] if p[0] == "l" else p[1][1][1][1] for p in norm], [p[1][1][1][1] for p in want]))
                    return
                und(ctx, r, "output " + sem.show(norm)[:100])
                return
            if run.ret != out:
                ctx.viol("printLog", "Logger.cpp printLog: does not return the stream it was given")
                return


class WC(W):
    def __init__(self, lev, la, ind, argv, n, pre):
        super().__init__(lev, la, ind, argv)
        self.c = ("p", ("arg", 0), num(0))
        self.sizes[self.c] = n
        self.pre = pre

    def streq(self, t):
        p = (("v", ("obj", ("p", ("arg", 2), num(0)))),)
        a = [scat(x) if x and isinstance(x[0], tuple) else x for x in (t[1:] if t[0] == "streq" else t[2])]
        if p in a and () in a:
            return num(int(not self.pre)) if t[0] == "streq" else num(int(self.pre))
        return None

    def length(self, t):
        if t[1] == ("v", ("obj", ("p", ("arg", 2), num(0)))):
            return num(int(self.pre) * 5)
        return None


def container(ctx, an, la):
    for lev in LEVELS:
        for mv in (1, 2, 3):
            for n in range(5):
                for pre in (0, 1):
                    w = WC(lev, la, 0, {("s", "arg1"): num(VAL[mv])}, n, pre)
                    what = "Logger.h logContainer of %d elements%s, message level %s, level %s" % (n, " with a prefix" if pre else "", LEVELS[mv], LEVELS[lev])
                    try:
                        run = unf.Run(an.paths, w)
                    except unf.Refuted as e:
                        ctx.viol("logContainer", "%s: %s" % (what, e))
                        return
                    except Undecided as e:
                        und(ctx, what, e)
                        return
                    ctx.count("container_cases")
                    ent = [e for e in run.events if e[0] == "entry"]
                    got = scat(*[e[2] for e in run.events if e[0] == "out" and e[1][1] == ("glob", "_ZSt4cout")])
                    if ent and ent[0][3][0] == "p":
                        t = run.cell(("p", ent[0][3][1], num(0)))
                        got = scat(got, t[1] if t and t[0] == "stream" else (("v", ("u", "text", 0)),))
                    want = ()
                    if abs(lev) >= mv:
                        sep, p = (("v", ("obj", ("p", ("arg", 3), num(0)))),), (("v", ("obj", ("p", ("arg", 2), num(0)))),)
                        if pre:
                            want = scat(want, p, sep)
                        for k in range(n):
                            want = scat(want, sep if k else (), (("n", ("ld", ("p", ("elem", ("it", w.c, k)), num(0)), 0)),))
                        want = scat(want, (("l", "\n"),))
                    if not pre:
                        got = tuple(x for x in got if x != ("v", ("obj", ("p", ("arg", 2), num(0)))))
                    got = scat(tuple(("n", ("ld", x[1][1], 0)) if x[0] == "n" and x[1][0] == "ld" else x for x in got))
                    if got != want:
                        if all(x[0] == "l" or x[0] == "v" and x[1][0] == "obj" or x[0] == "n" and x[1][0] == "ld" for x in got):
                            ctx.viol("logContainer", "%s: writes %s, expected %s" % (what, sem.show(got), sem.show(want)))
                        else:
                            und(ctx, what, sem.show(got)[:120])
                        return
