import itertools
import cxx, sem, rx, unf
from sem import num, evaluate, atoms
from ir import AnalysisError

LEVEL = "proof"
EXPLANATION = ("The text classifiers are reduced to the set of texts they accept: every path of the current source is a conjunction of "
               "tests on the text (length, single characters, character classes, regular-expression matches), each test is a regular "
               "language over bytes, and the union over the accepting paths is compared with the reference automaton for exact "
               "equality. A difference is reported with a shortest text on which the code and the reference disagree.")
ASSUMPTIONS = ["\"C\" locale; std::regex implements the ECMAScript grammar it documents"]

INT = r"[-+]?[0-9]+"
FLT = r"[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([Ee][-+]?[0-9]+)?"
CTYPE = {"isdigit": "0123456789", "isspace": " \t\n\v\f\r", "isxdigit": "0123456789abcdefABCDEF"}
CTYPE["isalpha"] = "".join(chr(c) for c in range(128) if chr(c).isalpha())
CTYPE["isalnum"] = CTYPE["isalpha"] + CTYPE["isdigit"]
CTYPE["isupper"] = CTYPE["isalpha"][:26]
CTYPE["islower"] = CTYPE["isalpha"][26:]
CTYPE["isblank"] = " \t"
CTYPE["isprint"] = "".join(map(chr, range(32, 127)))
CTYPE["isgraph"] = CTYPE["isprint"][1:]
CTYPE["iscntrl"] = "".join(map(chr, range(32))) + chr(127)
CTYPE["ispunct"] = "".join(chr(c) for c in range(33, 127) if not chr(c).isalnum())


def lit(parts):
    parts = sem.scat(parts)
    if all(p[0] == "l" for p in parts):
        return "".join(p[1] for p in parts)
    return None


def model(an, i, st, fn, d, args):
    fn = sem.cleanfn(fn)
    if fn == "__cxa_guard_acquire":       # a local constant: its construction is looked at
        return num(1)
    if fn in ("__cxa_guard_release", "__cxa_atexit", "__cxa_guard_abort"):
        return None
    if fn == "std::basic_regex::basic_regex":
        ps = sem.params(d)
        text = None
        if ps and "char const*" in ps[0]:
            text = lit(an.cstring(st, args[1]))
        elif ps and "basic_string" in ps[0]:
            text = lit(an.string(st, args[1]))
        elif ps and "basic_regex" in ps[0]:
            v = st.mem.get(an.addr(st, args[1]))
            st.mem[an.addr(st, args[0])] = v if v and v[0] == "regex" else ("u", "regex", 0)
            return None
        flags = args[2] if len(args) > 2 else num(16)
        st.mem[an.addr(st, args[0])] = ("regex", text, flags)
        return None
    if fn in ("std::basic_regex::~basic_regex",):
        return None
    if fn in ("std::regex_match", "std::regex_search"):
        ps = sem.params(d)
        r = [a for a, p in zip(args, ps) if "basic_regex" in p]
        v = st.mem.get(an.addr(st, r[0])) if r else None
        s = None
        if ps and "basic_string" in ps[0]:
            s = an.string(st, args[0])
        elif ps and "char const*" in ps[0]:
            s = an.cstring(st, args[0])
        if v and v[0] == "regex" and s is not None:
            return ("lang", fn.split("_")[1], v[1], v[2], s, args[-1])
        return ("u", "regex", an.next())
    if fn in ("std::basic_string::find_first_not_of", "std::basic_string::find_first_of"):
        return sem.NI
    return sem.NI


class Text:
    def __init__(self, s):
        self.s = s
        self.size = sem.slen(s)

    def char(self, a):
        """position of the character a term denotes, or None"""
        if a[0] == "ld" and a[1][0] == "p" and a[1][1] == ("chars", self.s) and a[1][2][0] == "i":
            return a[1][2][1]
        if a[0] == "ld" and a[1][0] == "p" and a[1][1] == ("chars", self.s):
            d = sem.linadd(a[1][2], self.size, -1)
            if d == num(-1):
                return -1
        return None

    def lang(self, c):
        if c[0] == "i":
            return rx.FULL if c[1] & 1 else rx.EMPTY
        if c[0] == "not":
            return ~self.lang(c[1])
        if c[0] == "x" and c[1] in ("and", "or", "xor") and c[2] == 1:
            a, b = self.lang(c[3]), self.lang(c[4])
            return a & b if c[1] == "and" else a | b if c[1] == "or" else a ^ b
        if c[0] == "lang":
            kind, text, flags, s, mf = c[1:]
            if sem.scat(s) != sem.scat(self.s) or text is None or flags[0] != "i" or mf != num(0):
                raise rx.Unsupported("regular expression argument")
            f = flags[1]
            if f & ~(1 | 2 | 4 | 16):         # icase nosubs optimize ECMAScript
                raise rx.Unsupported("regular expression grammar")
            return rx.regex(text, bool(f & 1), kind == "search")
        if c[0] == "streq":
            o = c[2] if sem.scat(c[1]) == sem.scat(self.s) else c[1]
            t = lit(o)
            if t is None:
                raise rx.Unsupported("comparison")
            r = rx.length(lambda n: n == len(t))
            for k, ch in enumerate(t):
                r = r & rx.charat(k, rx.cls(ch), False)
            return r
        at = atoms(c)
        sub = {}
        for a in list(at):
            if a[0] == "fn" and a[1].split("::")[-1] in CTYPE and len(a[2]) == 1:
                at.discard(a)
                inner = atoms(a[2][0])
                sub[a] = a[2][0]
                at |= inner
        if at == {self.size}:
            return rx.length(lambda n: bool(evaluate(c, {self.size: n}) & 1))
        ff = [a for a in at if a[0] == "fn" and a[1] in ("find_first_not_of",) and sem.scat(a[2][0]) == sem.scat(self.s)]
        if ff and len(at) == 1 and lit(ff[0][2][1]) is not None and ff[0][2][2][0] == "i":
            a = ff[0]
            if c[1] in ("icmp.eq", "icmp.ne") and num(-1) in c[3:]:
                l = rx.only(rx.cls(lit(a[2][1])), a[2][2][1])
                return l if c[1] == "icmp.eq" else ~l
            raise rx.Unsupported("search result")
        ks = {self.char(a) for a in at}
        if len(ks) == 1 and None not in ks:
            k = ks.pop()
            mask = 0
            for b in range(256):
                env = {a: sem.wrap(b, 8) for a in at}
                for f, x in sub.items():
                    n = sem.uns(evaluate(x, env), 32)
                    env[f] = 1 if n < 256 and chr(n) in CTYPE[f[1].split("::")[-1]] else 0
                if evaluate(c, env) & 1:
                    mask |= 1 << b
            # s[size()] is the terminating zero
            return rx.charat(k, mask, bool(mask & 1)) if k >= 0 else rx.lastchar(mask, False)
        raise rx.Unsupported("condition " + sem.show(c)[:80])


def accepted(ctx, m, root, models=(), post=None):
    an = sem.Analysis(m, root, [model] + list(models))
    T = Text((("v", ("obj", ("p", ("arg", 0), num(0)))),))
    res = rx.EMPTY
    n = 0
    for p in an.paths:
        if p.term[0] != "ret":
            continue
        l = rx.FULL
        for c in p.conds:
            if c[0] == "in":
                raise rx.Unsupported("a scanning loop")
            l = l & T.lang(c)
        v = p.term[1]
        l = l & T.lang(("x", "icmp.ne", 8, v, num(0)) if v[0] == "x" and v[1] == "icmp.x" else v if v[0] != "s" else v)
        res = res | l
        n += 1
    return res, n


class Word(unf.World):
    """the argument is a given text"""

    def __init__(self, w):
        super().__init__()
        self.w = w
        self.s = (("v", ("obj", ("p", ("arg", 0), num(0)))),)
        self.size = sem.slen(self.s)
        self.sizes = {("p", ("arg", 0), num(0)): len(w)}

    def at(self, k):
        if k < 0 or k > len(self.w):
            return None
        return num(sem.wrap(ord(self.w[k]) if k < len(self.w) else 0, 8))

    def atom(self, t):
        if t == self.size:
            return num(len(self.w))
        if t[0] == "ld" and t[1][0] == "p" and t[1][2][0] == "i":
            b = t[1][1]
            if b == ("chars", self.s):
                return self.at(t[1][2][1])
            if b[0] == "elem" and b[1][0] == "it" and t[1][2][1] == 0:
                return self.at(b[1][2])
        if t[0] == "fn" and len(t[2]) == 1 and t[2][0][0] == "i":
            f = t[1].split("::")[-1]
            n = sem.uns(t[2][0][1], 32)
            if f in CTYPE:
                return num(int(n < 256 and chr(n) in CTYPE[f]))
            if f in ("tolower", "toupper") and n < 128:
                return num(ord(chr(n).lower() if f == "tolower" else chr(n).upper()))
        if t[0] == "lang" and t[2] is not None and sem.scat(t[4]) == sem.scat(self.s) and t[5] == num(0) and t[3][0] == "i" and not t[3][1] & ~(1 | 2 | 4 | 16):
            return num(int(rx.regex(t[2], bool(t[3][1] & 1), t[1] == "search").accepts(self.w.encode("latin1"))))
        return None


def words():
    """all texts up to three characters, then texts built from the parts of a number"""
    al = "+-.eE07x \n"
    for n in range(4):
        for w in itertools.product(al, repeat=n):
            yield "".join(w)
    for sg in ("", "+", "-", "+-"):
        for m in ("12", "1.", ".5", "12.50", "1.2.3", "."):
            for e in ("", "e", "e1", "E+10", "e-2", "e+", "ee1", "e1.", " ", "e1e1", "e--1"):
                yield sg + m + e


def scan(ctx, m, root, name, ref):
    an = sem.Analysis(m, root, [model])
    bad = None
    for w in words():
        try:
            r = unf.Run(an.paths, Word(w), limit=32).ret
        except (unf.Undecided, unf.Refuted):
            continue
        if r is None or r[0] != "i":
            continue
        ctx.count("decided_texts")
        if bool(r[1] & 1) != ref.accepts(w.encode("latin1")):
            bad = w if bad is None else bad
    return bad


HARNESS = '''#include "utils/StringUtils.h"
extern "C" bool h_int(const std::string &s) { return is_int(s); }
extern "C" bool h_float(const std::string &s) { return is_float(s); }
'''


def check(ctx):
    m = cxx.build(ctx, "c04", HARNESS, ["h_int", "h_float"])
    ctx.notes += m.repo_funcs
    for root, name, ref in (("h_int", "is_int", INT), ("h_float", "is_float", FLT)):
        ctx.count("classifiers")
        try:
            l, n = accepted(ctx, m, root)
        except rx.Unsupported as e:
            # not a boolean combination of regular tests: the loop summaries are unfolded on the shapes of a text instead
            ctx.count("undecided_languages")
            ctx.notes.append("%s: no automaton (%s)" % (name, e))
            w = scan(ctx, m, root, name, rx.regex(ref))
            if w is not None:
                ctx.viol(name, "include/utils/StringUtils.h %s: the text %r is classified wrongly" % (name, w))
            continue
        ctx.count("paths", n)
        r = rx.regex(ref)
        ctx.count("automaton_states", len(l.acc))
        w = (l ^ r).witness()
        if w is not None:
            yes = (l & ~r).witness() == w
            ctx.viol(name, "include/utils/StringUtils.h %s: the text %r is %s" % (
                name, w.decode("latin1"), "accepted although it is not such a number" if yes else "rejected although it is such a number"))
