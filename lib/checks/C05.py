import itertools
import cxx, sem, unf
from sem import num, scat
from unf import Undecided
from ir import AnalysisError

LEVEL = "proof"
EXPLANATION = ("ExperimentRun's writer, reader and comparison are summarised from the current source (path conditions, loop steps over "
               "symbolic strings). The writer's summary is unfolded on records of 0..4 symbolic traits (its loop state repeats after the "
               "first trait, so longer records add nothing new), the reader's summary on texts made of symbolic name, separator and value "
               "segments at affinely independent segment lengths (all positions are affine in the lengths), the comparison on all pairs of "
               "records over two ordinary and one ignored trait. Every unfolded result is compared with the reference: fields name+inner+value "
               "joined by the trait separator, exactly the non-ignored traits recovered, the ignored list, equal default separators.")
ASSUMPTIONS = ["trait names and values contain neither separator nor complete one together with it", "std::map and std::string as specified"]

HARNESS = '''#include "src/utils/Timings.cpp"
extern "C" void h_parse(ExperimentRun *self, const std::string &run, const std::string &ts, const std::string &is) { new (self) ExperimentRun(run, ts, is); }
extern "C" void h_parsed(ExperimentRun *self, const std::string &run) { new (self) ExperimentRun(run); }
extern "C" void h_str(const ExperimentRun &r, const std::string &ts, const std::string &is, bool meas, std::string &out) { out = r.str(ts, is, meas); }
extern "C" void h_strd(const ExperimentRun &r, std::string &out) { out = r.str(); }
extern "C" void h_print(std::ostream &o, const ExperimentRun &r) { o << r; }
extern "C" const void *h_traits(const ExperimentRun &r) { return &r.traits(); }
extern "C" const void *h_meas(const ExperimentRun &r) { return &r.measurements(); }
extern "C" bool h_eq(const ExperimentRun &a, const ExperimentRun &b) { return a == b; }
'''
IGNORED = {"git-rev", "start-time", "end-time", "run-number", "host"}
A0 = ("p", ("arg", 0), num(0))
A1 = ("p", ("arg", 1), num(0))


TOFF = num(0)


def T(k):
    """the trait map of record argument k"""
    return ("p", ("arg", k), TOFF)


def obj(k):
    return ("v", ("obj", ("p", ("arg", k), num(0))))


def traits_model(off):
    """calls on the trait map become events"""
    def model(an, i, st, fn, d, args):
        f = sem.cleanfn(fn)
        if f.startswith("std::map::") and args:
            m = f.split("::")[-1]
            sret = "sret(" in i.raw
            a = args[1:] if sret else args
            ps = sem.params(d)
            if m in ("emplace", "try_emplace", "insert_or_assign") and len(a) == 3:
                st.ev("trait", m, a[0], an.string(st, a[1]), an.string(st, a[2]), i)
                return ("u", "pair", an.next())
            if m == "insert" and len(a) == 2 and "pair" in (ps[0] if ps else ""):
                b = an.addr(st, a[1])
                st.ev("trait", m, a[0], an.string(st, b), an.string(st, ("p", b[1], sem.linadd(b[2], num(32)))), i)
                return ("u", "pair", an.next())
            if m == "operator[]" and len(a) == 2:
                return ("p", ("slot", a[0], an.string(st, a[1]), an.next()), num(0))
            if m == "map":
                st.ev("newmap", a[0], i)
                return None
        if f in ("std::basic_string::operator=", "std::basic_string::assign") and args[0][0] == "p" and args[0][1][0] == "slot":
            ps = sem.params(d)
            v = an.string(st, args[1]) if "basic_string" in ps[0] else an.cstring(st, args[1])
            st.ev("trait", "assign", args[0][1][1], args[0][1][2], v, i)
            return args[0]
        if f == "std::pair::pair" and len(args) == 3:
            ps = sem.params(d)
            b = an.addr(st, args[0])
            for k, off2 in ((1, 0), (2, 32)):
                if "basic_string" in ps[k - 1]:
                    st.mem[("p", b[1], sem.linadd(b[2], num(off2)))] = ("str", an.string(st, args[k]))
            return None
        return sem.NI
    return model


class W(unf.World):
    def __init__(self):
        super().__init__()
        self.sizes[("p", ("glob", "_ZN13ExperimentRun16c_ignored_fieldsB5cxx11E"), num(0))] = len(IGNORED)
        self.ign = sorted(IGNORED)

    def name(self, parts):
        """a trait name: ('l', text) for the ignored ones, ('name', k) for ordinary ones, or None"""
        parts = scat(parts)
        if len(parts) != 1:
            return None
        p = parts[0]
        if p[0] == "l":
            return p[1]
        if p[0] == "v" and p[1][0] == "obj":
            a = p[1][1]
            if a[0] == "p" and a[1][0] == "elem" and a[1][1][0] == "it" and self.is_ignored(a[1][1][1]) and a[2] == num(0):
                return self.ign[a[1][1][2]]
        return self.name1(p)

    def name1(self, p):
        return None

    def is_ignored(self, c):
        return c[0] == "p" and c[1][0] == "glob" and "c_ignored_fields" in c[1][1]

    def container(self, c):
        return c[1] if c[0] == "&" else c

    def text(self, a):
        """string parts named by a grounded call argument"""
        if a[0] == "&":
            a = a[1]
        if a[0] == "str":
            return a[1]
        if a[0] == "p":
            return (("v", ("obj", a)),)
        return None

    def atom(self, t):
        if t[0] == "streq":
            a, b = self.name(t[1]), self.name(t[2])
            if a is not None and b is not None:
                return num(int(a == b))
        if t[0] in ("fn", "call") and t[1].split("::")[-1] in ("find", "count", "any_of", "find_if") and t[1].startswith("std::") and len(t[2]) == 3 \
                and t[2][0][0] == "it" and t[2][1][0] == "it" and self.is_ignored(t[2][0][1]):
            s = self.text(t[2][2])
            n = self.name(s) if s is not None else None
            if n is None or t[1].split("::")[-1] not in ("find", "count"):
                return None
            rng = self.ign[t[2][0][2]:t[2][1][2]]
            if t[1].endswith("count"):
                return num(int(n in rng))
            return ("it", t[2][0][1], t[2][0][2] + rng.index(n) if n in rng else t[2][1][2])
        if t[0] in ("fn", "call") and t[1].endswith("map::operator!=") or t[0] in ("fn", "call") and t[1].endswith("operator!=") and len(t[2]) == 2:
            a, b = (x[1] if x[0] == "&" else x for x in t[2])
            if a[0] == "it" and b[0] == "it":
                return num(int(a != b))
        return self.more(t)

    def more(self, t):
        return None


# ------------------------------------------------------------------ writer
class WStr(W):
    def __init__(self, n, meas, meas_off, nmeas):
        super().__init__()
        self.sizes[T(0)] = n
        self.m = ("p", ("arg", 0), meas_off)
        self.sizes[self.m] = nmeas
        self.meas = meas
        for k in range(nmeas):
            self.sizes[("vals", k)] = len(VALS[k])

    def mkey(self, a):
        """index of the measurement whose name lies at address a"""
        if a[0] == "p" and a[1][0] == "elem" and a[1][1][0] == "it" and a[1][1][1] == self.m and a[2] == num(0):
            return a[1][1][2]
        return None

    def container(self, c):
        c = super().container(c)
        if c[0] in ("fn", "call") and c[1].endswith("::at"):
            a = c[2]
        elif c[0] == "p" and c[1][0] in ("fn", "call") and c[1][1].endswith("::at") and c[2] == num(0):
            a = c[1][2]
        elif c[0] == "p" and c[1][0] == "elem" and c[2] == num(32) and c[1][1][0] == "it" and c[1][1][1] == self.m:
            return ("vals", c[1][1][2])
        else:
            return c
        if a[0] == self.m:
            k = self.mkey(a[1])
            if k is not None:
                return ("vals", k)
        return c

    def more(self, t):
        if t == ("s", "arg3"):
            return num(self.meas)
        if t[0] == "ld" and t[1][0] == "p" and t[1][1][0] == "elem" and t[1][1][1][0] == "it" and t[1][1][1][1][0] == "vals":
            it = t[1][1][1]
            if 0 <= it[2] < len(VALS[it[1][1]]):
                return num(VALS[it[1][1]][it[2]])
        return None


VALS = [(1000003, 17, 900000000000), (41,), ()]


def writer(ctx, m, meas_off):
    for root, seps in (("h_str", None), ("h_strd", ("   ", ": ")), ("h_print", ("   ", ": "))):
        an = sem.Analysis(m, root, [traits_model(0)])
        for meas in ((0, 1) if root == "h_str" else (0,)):
            for n in range(5):
                nm = 3 if meas else 0
                w = WStr(n, meas, meas_off, nm)
                if root == "h_print":
                    w.sizes[T(1)] = n
                base = T(1 if root == "h_print" else 0)
                try:
                    r = unf.Run(an.paths, w)
                    if root == "h_print":
                        got = scat(*[e[2] for e in r.events if e[0] == "out" and e[1] == A0])
                    else:
                        out = r.cell(("p", ("arg", 4 if root == "h_str" else 1), num(0)))
                        if out is None or out[0] != "str":
                            raise Undecided("the result string")
                        got = out[1]
                except Undecided as e:
                    ctx.count("undecided")
                    ctx.notes.append("%s, %d traits: not decided (%s)" % (root, n, e))
                    continue
                ctx.count("writer_shapes")
                ts = (obj(1),) if seps is None else (("l", seps[0]),)
                si = (obj(2),) if seps is None else (("l", seps[1]),)
                want = ()
                for k in range(n):
                    e = ("elem", ("it", base, k))
                    want = scat(want, ts if k else (), (("v", ("obj", ("p", e, num(0)))),), si, (("v", ("obj", ("p", e, num(32)))),))
                if nm:
                    # measurements: names and averages
                    fields, rest = split_meas(got, want, ts, si, w.m, nm)
                    if fields is not None and n == 0:
                        continue          # a record always carries host and git-rev
                    if fields:
                        continue
                    if n == 0:
                        continue
                    if rest:
                        ctx.viol("str", "Timings.cpp ExperimentRun::str with measurements: %s" % rest)
                    else:
                        ctx.count("undecided")
                    continue
                if got != want:
                    if known(got):
                        ctx.viol("str", "Timings.cpp ExperimentRun::str (%s) writes %s for a record of %d traits, expected %s" % (
                            root, showp(got), n, showp(want)))
                    else:
                        ctx.count("undecided")
                        ctx.notes.append("%s, %d traits: unrecognised text %s" % (root, n, showp(got)[:200]))


def split_meas(got, want, ts, si, cont, n):
    """checks that the text continues with n measurement fields; (True, None) / (False, None) unknown / (False, why)"""
    got, want = list(got), list(want)
    # re-split literals is not needed: separators are symbolic in this run
    if got[:len(want)] != want:
        return (False, "the trait part is %s" % showp(tuple(got))) if known(tuple(got)) else (False, None)
    rest = got[len(want):]
    if not known(tuple(rest)):
        return False, None
    k = 0
    for j in range(n):
        e = ("p", ("elem", ("it", cont, j)), num(0))
        exp = list(ts) + [("v", ("obj", e))] + list(si)
        if rest[k:k + len(exp)] != exp:
            return False, "measurement field %d is written as %s" % (j, showp(tuple(rest)))
        k += len(exp)
        if k >= len(rest) or rest[k][0] != "n":
            return False, "measurement field %d has no value" % j
        want = sum(VALS[j]) // len(VALS[j]) if VALS[j] else 0
        if rest[k][1][0] == "i" and rest[k][1][1] != want:
            return False, "the average of the measurements %s is computed as %d" % (VALS[j], rest[k][1][1])
        if rest[k][1][0] != "i":
            return False, None
        k += 1
    if rest[k:]:
        return False, "text after the measurements"
    return True, None


def known(ps):
    return all(p[0] == "l" or p[0] == "v" and p[1][0] == "obj" or p[0] == "n" for p in ps)


def showp(ps):
    o = []
    for p in ps:
        if p[0] == "l": o.append(repr(p[1]))
        elif p[0] == "v" and p[1][0] == "obj":
            a = p[1][1]
            if a[1][0] == "elem" and a[1][1][0] == "it":
                o.append(("name%d" if a[2] == num(0) else "value%d") % a[1][1][2])
            elif a[1][0] == "arg": o.append("<separator argument %d>" % a[1][1])
            else: o.append(sem.show(a))
        elif p[0] in ("NAME", "VALUE", "TS", "IS"): o.append(p[0] + (str(p[1]) if len(p) > 1 else ""))
        else: o.append(sem.show(p)[:60])
    return "[" + " ".join(o) + "]"


# ------------------------------------------------------------------ reader
class WParse(W):
    """text = segments (name inner value) joined by the trait separator"""

    def __init__(self, segs, lens, tl, il, default):
        super().__init__()
        self.run = ("obj", ("p", ("arg", 1), num(0)))
        self.segs, self.lens, self.tl, self.il, self.default = segs, lens, tl, il, default
        pos, self.marks = 0, []
        for k, (nl, vl) in enumerate(lens):
            s = pos
            i = s + nl
            v = i + il
            e = v + vl
            self.marks.append((s, i, v, e))
            pos = e + tl
        self.total = self.marks[-1][3] if self.marks else 0

    def sep(self, parts):
        parts = scat(parts)
        if self.default:
            if len(parts) == 1 and parts[0][0] == "l":
                return parts[0][1]
            return None
        if parts == (obj(2),): return "t"
        if parts == (obj(3),): return "i"
        return None

    def isrun(self, parts):
        return scat(parts) == (("v", self.run),)

    def piece(self, p):
        """meaning of a substring of the text"""
        if p[0] == "sub" and self.isrun(p[1]) and p[2][0] == "i" and p[3][0] == "i":
            a, n = sem.uns(p[2][1], 64), sem.uns(p[3][1], 64)
            if a > self.total:
                raise unf.Refuted("takes a substring starting behind the end of the text (exception)")
            e = min(a + n, self.total)
            for k, (s, i, v, t) in enumerate(self.marks):
                if (a, e) == (s, i): return ("NAME", k)
                if (a, e) == (v, t): return ("VALUE", k)
            return ("PART", a, e)
        return None

    def name1(self, p):
        q = self.piece(p)
        if q and q[0] == "NAME":
            s = self.segs[q[1]]
            return s if s in IGNORED else ("name", q[1])
        return q

    def more(self, t):
        if t[0] == "len":
            p = t[1]
            if p == ("v", self.run): return num(self.total)
            if not self.default and p == obj(2): return num(self.tl)
            if not self.default and p == obj(3): return num(self.il)
            if p[0] == "sub":
                q = self.piece(p)
                if q:
                    a = sem.uns(p[2][1], 64)
                    return num(min(a + sem.uns(p[3][1], 64), self.total) - a)
        if t[0] == "fn" and t[1] in ("find", "rfind"):
            s, x, pos = t[2]
            k = self.sep(x)
            if k and pos[0] == "i":
                if self.isrun(s):
                    return num(self.search(k, sem.uns(pos[1], 64), t[1]))
                s = scat(s)
                if len(s) == 1 and s[0][0] == "sub" and self.isrun(s[0][1]) and s[0][2][0] == "i" and t[1] == "find" and s[0][3][0] == "i":
                    a = sem.uns(s[0][2][1], 64)
                    e = min(a + sem.uns(s[0][3][1], 64), self.total)
                    r = self.search(k, a + sem.uns(pos[1], 64), "find")
                    if r == -1 or r + (self.tl if k == "t" else self.il if k == "i" else len(k)) > e:
                        return num(-1)
                    return num(r - a)
        return None

    def search(self, k, pos, how):
        if self.default:
            # the default separators are known texts; names and values consist of other characters
            c = next(c for c in "nvxyzw" if c not in k)
            t = "   ".join(c * a + ": " + c * b for a, b in self.lens)
            return t.find(k, pos) if how == "find" else t.rfind(k, 0, pos + len(k))
        occ = [m[1] for m in self.marks] if k == "i" else [m[3] for m in self.marks[:-1]]
        if how == "find":
            c = [o for o in occ if o >= pos]
            return c[0] if c else -1
        c = [o for o in occ if o <= pos]
        return c[-1] if c else -1


def reader(ctx, m):
    shapes = []
    for k in range(4):
        for ig in itertools.product((0, 1), repeat=k):
            shapes.append(ig)
    for root, default in (("h_parse", False), ("h_parsed", True)):
        an = sem.Analysis(m, root, [traits_model(0)])
        for ig in shapes:
            n = len(ig)
            vals = [([(3, 5), (7, 2), (4, 11)][:n], 3, 2)]
            if not default:
                # affinely independent lengths
                vals += [([(4, 5), (7, 2), (4, 11)][:n], 3, 2), ([(3, 6), (7, 2), (4, 11)][:n], 3, 2), ([(3, 5), (8, 2), (4, 11)][:n], 3, 2),
                         ([(3, 5), (7, 3), (4, 11)][:n], 3, 2), ([(3, 5), (7, 2), (5, 11)][:n], 3, 2), ([(3, 5), (7, 2), (4, 12)][:n], 3, 2),
                         ([(3, 5), (7, 2), (4, 11)][:n], 4, 2), ([(3, 5), (7, 2), (4, 11)][:n], 3, 3), ([(1, 1), (1, 1), (1, 1)][:n], 1, 1),
                         ([(2, 1), (1, 40), (9, 1)][:n], 1, 6), ([(1, 0), (2, 0), (1, 0)][:n], 5, 1)]
            for lens, tl, il in vals:
                segs = [("start-time" if g else "?%d" % j) for j, g in enumerate(ig)]
                w = WParse(segs, lens, tl, il, default)
                try:
                    r = unf.Run(an.paths, w, keep=lambda e: e[0] in ("trait", "substr", "newmap"))
                except unf.Refuted as e:
                    ctx.viol("parse", "Timings.cpp ExperimentRun(text): %s, e.g. on a text of %d traits" % (e, n))
                    return
                except Undecided as e:
                    ctx.count("undecided")
                    ctx.notes.append("%s on %s: not decided (%s)" % (root, ig, e))
                    continue
                ctx.count("reader_shapes")
                if r.final.term[0] == "throw" or r.final.term[0] == "stop":
                    ctx.viol("parse", "Timings.cpp ExperimentRun(text): does not return on a text of %d traits" % n)
                    return
                got, odd = {}, None
                for e in r.events:
                    if e[0] == "substr" and e[1] == (("v", w.run),) and e[2][0] == "i" and sem.uns(e[2][1], 64) > w.total:
                        odd = "takes a substring starting behind the end of the text (exception)"
                    if e[0] != "trait" or e[2] != T(0):
                        continue
                    nm, v = scat(e[3]), scat(e[4])
                    if nm in ((("l", "host"),), (("l", "git-rev"),)):
                        got.setdefault(nm[0][1], None)
                        continue
                    try:
                        a = w.piece(nm[0]) if len(nm) == 1 else None
                        b = w.piece(v[0]) if len(v) == 1 else ("VALUE", None) if not v else None
                    except unf.Refuted as x:
                        odd = str(x)
                        break
                    if a is None or b is None:
                        odd = odd or "?"
                        continue
                    key = a
                    if key in got and e[1] in ("emplace", "insert", "try_emplace"):
                        continue
                    got[key] = b
                swapped = any(a is not None and a[0] != "NAME" and not (a[0] == "PART" and a[1] == a[2]) for a in got if not isinstance(a, str))
                if odd == "?" and not swapped:
                    ctx.count("undecided")
                    ctx.notes.append("%s on %s: unrecognised trait" % (root, ig))
                    continue
                want = {"host": None, "git-rev": None}
                for j in range(n):
                    if not ig[j]:
                        want[("NAME", j)] = ("VALUE", j)
                # an empty value may be an empty piece at the same place
                for kk in list(got):
                    if got[kk] and got[kk][0] == "PART" and got[kk][1] == got[kk][2] and kk in want and kk[0] == "NAME" and lens[kk[1]][1] == 0:
                        got[kk] = ("VALUE", kk[1])
                    if got[kk] == ("VALUE", None) and kk in want:
                        got[kk] = want[kk]
                if odd or got != want:
                    ctx.viol("parse", "Timings.cpp ExperimentRun(text)%s: a text of %d traits%s with segment lengths %s, separators %d/%d, is read as %s%s" % (
                        " with the default separators" if default else "", n, " (some ignored)" if any(ig) else "", lens, tl, il, desc(got), "; " + odd if odd else ""))
                    return


def desc(got):
    return "{" + ", ".join("%s=%s" % (k if isinstance(k, str) else " ".join(map(str, k)), "set" if v is None else " ".join(map(str, v))) for k, v in got.items()) + "}"


# ------------------------------------------------------------------ comparison
class WEq(W):
    def __init__(self, recs):
        super().__init__()
        self.recs = recs           # list of two lists [(name, value)]
        for k in (0, 1):
            self.sizes[T(k)] = len(recs[k])

    def elem(self, a):
        if a[0] == "p" and a[1][0] == "elem" and a[1][1][0] == "it" and a[1][1][1] in (T(0), T(1)):
            k = a[1][1][1][1][1]
            j = a[1][1][2]
            if 0 <= j < len(self.recs[k]):
                return self.recs[k][j][0 if a[2] == num(0) else 1]
        if a[0] == "p" and a[1][0] in ("fn", "call") and a[1][1].endswith("map::at"):
            return self.look(a[1][2])
        return None

    def name1(self, p):
        if p[0] == "v" and p[1][0] == "obj":
            return self.elem(p[1][1])
        if p[0] == "v" and p[1][0] == "ld":
            return self.elem(p[1][1])
        return None

    def rec(self, a):
        a = a[1] if a[0] == "&" else a
        return a[1][1] if a in (T(0), T(1)) else None

    def look(self, args):
        k = self.rec(args[0])
        s = self.text(args[1])
        n = self.name(s) if s is not None else None
        if k is None or n is None:
            return None
        d = dict(self.recs[k])
        if n not in d:
            raise unf.Refuted("looks up a trait that is not there (exception)")
        return d[n]

    def more(self, t):
        if t[0] in ("fn", "call") and t[1].endswith(("map::count", "map::contains")) and len(t[2]) == 2:
            k = self.rec(t[2][0])
            s = self.text(t[2][1])
            n = self.name(s) if s is not None else None
            if k is not None and n is not None:
                return num(int(n in dict(self.recs[k])))
        if t[0] in ("fn", "call") and t[1].endswith("map::find") and len(t[2]) == 2:
            k = self.rec(t[2][0])
            s = self.text(t[2][1])
            n = self.name(s) if s is not None else None
            if k is not None and n is not None:
                names = [x for x, _ in self.recs[k]]
                return ("it", T(k), names.index(n) if n in names else len(names))
        if t[0] == "p" and t[1][0] in ("fn", "call") and t[1][1].endswith("map::at"):
            return None
        return None


def compare(ctx, m):
    an = sem.Analysis(m, "h_eq")
    names = ["alg", "size", "host"]
    und = 0
    for combo in itertools.product((None, "v1", "v2"), repeat=6):
        recs = [[(n, v) for n, v in zip(names, combo[:3]) if v], [(n, v) for n, v in zip(names, combo[3:]) if v]]
        want = all(a == b for a, b in zip(combo[:2], combo[3:5]))
        w = WEq(recs)
        try:
            r = unf.Run(an.paths, w, keep=lambda e: False)
            v = r.ret
            if v[0] != "i":
                raise Undecided("result " + sem.show(v)[:100])
            got = bool(v[1] & 1)
            why = "gives %s" % got
        except unf.Refuted as e:
            got, why = not want, str(e)
        except Undecided as e:
            und += 1
            if und == 1:
                ctx.notes.append("operator==: not decided (%s)" % e)
            continue
        ctx.count("compared_pairs")
        if got != want:
            ctx.viol("operator==", "Timings.cpp ExperimentRun::operator== on %s and %s %s, expected %s (ignored: host)" % (recs[0], recs[1], why, want))
            break
    if und:
        ctx.count("undecided", und)


def ignored(ctx, m, root):
    lits = set()

    def model(an, i, st, fn, d, args):
        if "vector" in fn and "basic_string" in d:
            for k, v in st.mem.items():
                if v[0] == "str" and len(v[1]) == 1 and v[1][0][0] == "l":
                    lits.add(v[1][0][1])
        return sem.NI
    sem.Analysis(m, root, [model])
    ctx.count("ignored_fields", len(lits))
    if not lits:
        ctx.count("undecided")
        return
    for x in sorted(IGNORED - lits):
        ctx.viol("ignored:" + x, "Timings.cpp: the execution-specific field '%s' is not in the list of ignored fields" % x)
    for x in sorted(lits - IGNORED):
        ctx.viol("ignored:" + x, "Timings.cpp: the trait '%s' is ignored when records are loaded or compared" % x)


def check(ctx):
    m = cxx.build(ctx, "c05", HARNESS, ["h_parse", "h_parsed", "h_str", "h_strd", "h_print", "h_eq", "h_traits", "h_meas", "init:_ZN13ExperimentRun16c_ignored_fields\\w*"])
    ctx.notes += m.repo_funcs
    ignored(ctx, m, m.roots[-1])
    off = []
    for r in ("h_traits", "h_meas"):
        ps = sem.Analysis(m, r).paths
        ctx.need(len(ps) == 1 and ps[0].term[1][0] == "p" and ps[0].term[1][1] == ("arg", 0), "accessor of the trait or measurement map")
        off.append(ps[0].term[1][2])
    global TOFF
    TOFF = off[0]
    writer(ctx, m, off[1])
    reader(ctx, m)
    compare(ctx, m)
