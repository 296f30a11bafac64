"""Path-sensitive forward dataflow over the IR of one harness function (see cxx.py).

Abstract values are terms over the values at function entry; objects of the standard library (strings, streams,
iterators, containers) are abstract objects whose operations have transfer functions here.  Loops are cut at their
headers: everything a loop body may change is replaced by a header symbol (computed to a fixpoint), so a loop is
summarised by its initial values, its step (header symbols -> values at the back edge) and its exits; no loop is
ever unrolled and no input is ever chosen.
"""
import re
import ir
from ir import AnalysisError, const_int
from cxx import fname

MAXPATHS = 4000
NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult",
       "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult",
        "ule": "uge", "uge": "ule"}


def width(ty):
    if isinstance(ty, str) and ty.startswith("i") and ty[1:].isdigit():
        return int(ty[1:])
    return 64


def wrap(n, w):
    n &= (1 << w) - 1
    return n - (1 << w) if w > 1 and n >> (w - 1) else n


def uns(n, w):
    return n & ((1 << w) - 1)


class Loop:
    def __init__(self, header, line):
        self.header, self.line = header, line
        self.init = {}      # cell -> value on entry
        self.steps = []     # (state at the back edge; its events/conds are those of one iteration)
        self.varying = set()
        self.entry_conds = ()


class State:
    __slots__ = ("env", "mem", "conds", "events", "term", "alias", "havoc")

    def __init__(self):
        self.env, self.mem, self.conds, self.events, self.term = {}, {}, (), (), None
        self.alias = {}
        self.havoc = ()

    def copy(self):
        s = State.__new__(State)
        s.env, s.mem, s.conds, s.events, s.term = dict(self.env), dict(self.mem), self.conds, self.events, self.term
        s.alias = dict(self.alias)
        s.havoc = self.havoc
        return s

    def ev(self, *e):
        self.events = self.events + (e,)


class Quiet(State):
    """without a record of events"""
    __slots__ = ()

    def copy(self):
        s = Quiet.__new__(Quiet)
        s.env, s.mem, s.conds, s.events, s.term = dict(self.env), dict(self.mem), self.conds, self.events, self.term
        s.alias, s.havoc = dict(self.alias), self.havoc
        return s

    def ev(self, *e):
        pass


# ------------------------------------------------------------------ terms
def num(n):
    return ("i", n)


def is_num(t):
    return t[0] == "i"


def lin(t):
    """term -> ({atom: coeff}, const) for add/sub/mul by constant (64-bit wrap-around ignored)"""
    if t[0] == "i":
        return {}, t[1]
    if t[0] == "x" and t[1] in ("add", "sub"):
        a, ca = lin(t[3])
        b, cb = lin(t[4])
        s = 1 if t[1] == "add" else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
            if r[k] == 0:
                del r[k]
        return r, ca + s * cb
    if t[0] == "x" and t[1] == "mul":
        for p, q in ((3, 4), (4, 3)):
            if t[p][0] == "i":
                a, ca = lin(t[q])
                return {k: v * t[p][1] for k, v in a.items() if v * t[p][1]}, ca * t[p][1]
    if t[0] == "x" and t[1] == "shl" and t[4][0] == "i":
        a, ca = lin(t[3])
        return {k: v << t[4][1] for k, v in a.items()}, ca << t[4][1]
    return {t: 1}, 0


def unlin(d, c, w=64):
    r = None
    for k in sorted(d, key=repr):
        v = d[k]
        u = k if v == 1 else ("x", "mul", w, k, ("i", v))
        r = u if r is None else ("x", "add", w, r, u)
    if r is None:
        return ("i", c)
    return r if c == 0 else ("x", "add", w, r, ("i", c))


def linadd(a, b, s=1, w=64):
    da, ca = lin(a)
    db, cb = lin(b)
    r = dict(da)
    for k, v in db.items():
        r[k] = r.get(k, 0) + s * v
        if r[k] == 0:
            del r[k]
    return unlin(r, ca + s * cb, w)


def binop(op, w, a, b):
    if a[0] == "i" and b[0] == "i":
        x, y = a[1], b[1]
        ux, uy = uns(x, w), uns(y, w)
        if op == "add": return num(wrap(x + y, w))
        if op == "sub": return num(wrap(x - y, w))
        if op == "mul": return num(wrap(x * y, w))
        if op == "and": return num(wrap(ux & uy, w))
        if op == "or": return num(wrap(ux | uy, w))
        if op == "xor": return num(wrap(ux ^ uy, w))
        if op == "shl" and uy < w: return num(wrap(x << uy, w))
        if op == "lshr" and uy < w: return num(wrap(ux >> uy, w))
        if op == "ashr" and uy < w: return num(wrap(x >> uy, w))
        if op == "udiv" and uy: return num(wrap(ux // uy, w))
        if op == "urem" and uy: return num(wrap(ux % uy, w))
        if op == "sdiv" and y: return num(wrap(int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1), w))
        if op == "srem" and y: return num(wrap((abs(x) % abs(y)) * (-1 if x < 0 else 1), w))
    if op in ("add", "sub"):
        return linadd(a, b, 1 if op == "add" else -1, w)
    if op == "mul" and (a[0] == "i" or b[0] == "i"):
        d, c = lin(("x", "mul", w, a, b))
        return unlin(d, c, w)
    if op in ("and", "or", "xor", "mul") and repr(a) > repr(b):
        a, b = b, a
    if op in ("xor",) and w == 1:
        if a == num(-1) or a == num(1): return neg(b)
        if b == num(-1) or b == num(1): return neg(a)
    if op == "and" and w == 1:
        for p, q in ((a, b), (b, a)):
            if p[0] == "i": return q if p[1] else num(0)
        if a == b: return a
    if op == "or" and w == 1:
        for p, q in ((a, b), (b, a)):
            if p[0] == "i": return num(1) if p[1] else q
        if a == b: return a
    if op in ("udiv", "sdiv") and b == num(1): return a
    if op in ("or", "xor", "shl", "lshr", "ashr") and b == num(0): return a
    if op == "or" and a == num(0): return b
    return ("x", op, w, a, b)


def icmp(pred, w, a, b):
    if a[0] == "i" and b[0] == "i":
        if w == 1:
            x, y = a[1] & 1, b[1] & 1
            sx, sy = -x, -y
        else:
            x, y, sx, sy = uns(a[1], w), uns(b[1], w), a[1], b[1]
        return num(int({"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y,
                        "slt": sx < sy, "sle": sx <= sy, "sgt": sx > sy, "sge": sx >= sy}[pred]))
    if a == b:
        return num(int(pred in ("eq", "ule", "uge", "sle", "sge")))
    if a[0] == "p" and b[0] == "null" or a[0] == "null" and b[0] == "p":
        p = a if a[0] == "p" else b
        if isinstance(p[1], tuple) and p[1][0] in ("alloca", "glob", "heap", "arg", "tls"):
            if p[1][0] != "arg" or p[2] != num(0):
                return num(int(pred == "ne"))
    if a[0] == "p" and b[0] == "p" and a[1] == b[1]:
        return icmp(pred, 64, a[2], b[2])
    if w == 1 and b[0] == "i" and pred in ("eq", "ne"):
        return a if (pred == "eq") == bool(b[1] & 1) else neg(a)
    if b[0] == "i" and pred in ("eq", "ne") and a[0] == "x" and a[1] == "zext" and a[3] == 1:
        if b[1] == 0: return neg(a[4]) if pred == "eq" else a[4]
        if b[1] == 1: return a[4] if pred == "eq" else neg(a[4])
        return num(int(pred == "ne"))
    if pred in ("ugt", "uge", "sgt", "sge"):
        pred, a, b = SWAP[pred], b, a
    if b == num(0) and pred == "ult":
        return num(0)
    if a == num(0) and pred == "ule":
        return num(1)
    if a == num(0) and pred == "ult":
        pred = "ne"
        a, b = b, a
    elif b == num(1) and pred == "ult":
        pred, b = "eq", num(0)
    elif b == num(0) and pred == "ule":
        pred = "eq"
    elif b[0] == "i" and pred in ("sle", "ule") and (pred == "sle" or uns(b[1], w) + 1 < (1 << w)):
        pred, b = {"sle": "slt", "ule": "ult"}[pred], num(wrap(b[1] + 1, w))
    elif a[0] == "i" and pred in ("sle", "ule") and (pred == "sle" or uns(a[1], w) > 0):
        pred, a = {"sle": "slt", "ule": "ult"}[pred], num(wrap(a[1] - 1, w))
    if pred in ("eq", "ne") and repr(a) > repr(b) and b[0] != "i" or (pred in ("eq", "ne") and a[0] == "i"):
        a, b = b, a
    return ("x", "icmp." + pred, w, a, b)


def neg(c):
    if c[0] == "i":
        return num(1 - (c[1] & 1))
    if c[0] == "x" and c[1].startswith("icmp."):
        return icmp(NEG[c[1][5:]], c[2], c[3], c[4])
    if c[0] == "not":
        return c[1]
    return ("not", c)


def bounds(conds, t, w):
    """signed and unsigned interval of t implied by the comparisons with constants"""
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    ul, uh = 0, (1 << w) - 1
    ne = set()
    for c in conds:
        if c[0] != "x" or not c[1].startswith("icmp.") or c[2] != w:
            continue
        p, a, b = c[1][5:], c[3], c[4]
        if a == t and b[0] == "i":
            n = b[1]
            if p == "eq": lo = hi = n; ul = uh = uns(n, w)
            elif p == "ne": ne.add(n)
            elif p == "slt": hi = min(hi, n - 1)
            elif p == "sle": hi = min(hi, n)
            elif p == "ult": uh = min(uh, uns(n, w) - 1)
            elif p == "ule": uh = min(uh, uns(n, w))
        elif b == t and a[0] == "i":
            n = a[1]
            if p == "slt": lo = max(lo, n + 1)
            elif p == "sle": lo = max(lo, n)
            elif p == "ult": ul = max(ul, uns(n, w) + 1)
            elif p == "ule": ul = max(ul, uns(n, w))
    if uh < (1 << (w - 1)):
        lo, hi = max(lo, ul), min(hi, uh)
    if lo >= 0:
        ul, uh = max(ul, lo), min(uh, hi)
    if hi < 0:
        ul, uh = max(ul, uns(lo, w)), min(uh, uns(hi, w))
    return lo, hi, ul, uh, ne


def decide(conds, c):
    """True/False when the conditions imply c / not c, else None"""
    if c[0] == "i":
        return bool(c[1] & 1)
    if c in conds:
        return True
    n = neg(c)
    if n in conds:
        return False
    if c[0] == "x" and c[1].startswith("icmp."):
        p, w, a, b = c[1][5:], c[2], c[3], c[4]
        if b[0] == "i" or a[0] == "i":
            t, k, left = (a, b[1], True) if b[0] == "i" else (b, a[1], False)
            lo, hi, ul, uh, ne = bounds(conds, t, w)
            if lo > hi or ul > uh:
                return None
            if p in ("eq", "ne"):
                if k in ne or k < lo or k > hi or not ul <= uns(k, w) <= uh:
                    return p == "ne"
                if lo == hi == k:
                    return p == "eq"
                return None
            s = p[0] == "s"
            l, h = (lo, hi) if s else (ul, uh)
            k = k if s else uns(k, w)
            strict = p[1:] == "lt"
            if left:
                if h < k or (not strict and h <= k): return True
                if l > k or (strict and l >= k): return False
            else:
                if k < l or (not strict and k <= l): return True
                if k > h or (strict and k >= h): return False
            return None
        rel = {"lt", "eq", "gt"}
        srel, urel = set(rel), set(rel)
        for q in conds:
            if q[0] == "x" and q[1].startswith("icmp.") and q[2] == w:
                qq = q[1][5:]
                if (q[3], q[4]) == (a, b): pass
                elif (q[3], q[4]) == (b, a): qq = SWAP[qq]
                else: continue
                k = {"lt": {"lt"}, "le": {"lt", "eq"}, "gt": {"gt"}, "ge": {"gt", "eq"}}.get(qq[1:])
                if qq == "eq": srel &= {"eq"}; urel &= {"eq"}
                elif qq == "ne": srel -= {"eq"}; urel -= {"eq"}
                elif qq[0] == "s": srel &= k
                else: urel &= k
        if "eq" not in srel or "eq" not in urel:
            srel.discard("eq"); urel.discard("eq")
        want = {"eq": {"eq"}, "ne": {"lt", "gt"}, "lt": {"lt"}, "le": {"lt", "eq"}, "gt": {"gt"}, "ge": {"gt", "eq"}}
        k = want[p] if p in want else want[p[1:]]
        r = srel if p[0] == "s" else urel
        if r <= k: return True
        if not (r & k): return False
    return None


# ------------------------------------------------------------------ strings
def scat(*ss):
    out = []
    for s in ss:
        for p in s:
            if p[0] == "l" and not p[1]:
                continue
            if out and out[-1][0] == "l" and p[0] == "l":
                out[-1] = ("l", out[-1][1] + p[1])
            else:
                out.append(p)
    return tuple(out)


def slen(parts):
    r = num(0)
    for p in parts:
        r = linadd(r, num(len(p[1].encode("latin1", "replace"))) if p[0] == "l" else ("len", p))
    return r


# ------------------------------------------------------------------ types
class Layout:
    def __init__(self, mod):
        self.mod = mod
        self.cache = {}

    def parse(self, text):
        t = self.cache.get(("parse", text))
        if t is None:
            t = self.cache[("parse", text)] = ir.P(ir.tokens(text)).type()
        return t

    def body(self, ty):
        if ty[0] == "named":
            t = self.mod.structs.get(ty[1])
            if t is None:
                t = self.mod.structs.get('%"' + ty[1][1:].strip('"') + '"')
            if t is None or t == "opaque":
                return ("struct", ())
            return self.parse(t)
        return ty

    def size(self, ty):
        r = self.cache.get(ty)
        if r is None:
            r = self.cache[ty] = self._size(ty)
        return r

    def _size(self, ty):
        """(size, align)"""
        if isinstance(ty, str):
            if ty == "ptr": return 8, 8
            if ty == "double": return 8, 8
            if ty == "float": return 4, 4
            if ty == "x86_fp80": return 16, 16
            if ty.startswith("i") and ty[1:].isdigit():
                n = max(1, (int(ty[1:]) + 7) // 8)
                a = 1
                while a < n: a *= 2
                return a, min(a, 16)
            return 8, 8
        if ty[0] == "named":
            return self.size(self.body(ty))
        if ty[0] == "arr":
            s, a = self.size(ty[2])
            return s * ty[1], a
        if ty[0] == "vec":
            s, a = self.size(ty[2])
            return s * ty[1], s * ty[1]
        if ty[0] == "packed":
            return sum(self.size(e)[0] for e in ty[1][1]), 1
        if ty[0] == "struct":
            off, al = 0, 1
            for e in ty[1]:
                s, a = self.size(e)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        return 8, 8

    def field(self, ty, k):
        ty = self.body(ty)
        if ty[0] == "arr" or ty[0] == "vec":
            return self.size(ty[2])[0] * k, ty[2]
        packed = ty[0] == "packed"
        els = ty[1][1] if packed else ty[1]
        off = 0
        for j, e in enumerate(els):
            s, a = self.size(e)
            if not packed:
                off = (off + a - 1) // a * a
            if j == k:
                return off, e
            off += s
        raise AnalysisError("field %s of %s" % (k, ty))


class Analysis:
    """summary of one harness function"""

    def __init__(self, mod, fn, models=(), maxpaths=MAXPATHS, argvals=None):
        self.mod, self.f = mod, mod.funcs[fn]
        self.models = list(models)
        self.lay = Layout(mod)
        self.loops = {}
        self.seq = 0
        self.maxpaths = maxpaths
        ir.strip_unreachable(self.f)
        ir.lower_selects(self.f)
        ir.strip_unreachable(self.f)
        self.cfg = ir.CFG(self.f)
        self.headers = set(self.cfg.loops)
        self.paths = []
        self.calls = 0
        s = State()
        for k, (t, n) in enumerate(self.f.params):
            v = ("p", ("arg", k), num(0)) if t == "ptr" else ("s", "arg%d" % k)
            if argvals and k in argvals:
                v = argvals[k]
            s.env[n] = v
        self.paths = self.go(self.f.order[0], None, s, {})
        for p in self.paths:
            p.havoc = tuple(p.havoc)

    # ---- helpers
    def line(self, i):
        try:
            return ir.loc(self.mod, i.dbg)
        except Exception:
            return None

    def val(self, st, v, ty=None):
        if isinstance(v, str):
            if v[0] == "%":
                if v not in st.env:
                    raise AnalysisError("undefined value %s in %s" % (v, self.f.name))
                return st.env[v]
            return ("p", ("glob", v[1:].strip('"')), num(0))
        if v[0] == "const":
            t = v[1]
            n = const_int(v)
            if n is not None:
                return num(wrap(n, width(ty)) if isinstance(ty, str) and ty.startswith("i") and ty != "i1" else n)
            if t == "true": return num(1)
            if t == "false": return num(0)
            if t == "null": return ("null",)
            if t in ("zeroinitializer",): return num(0)
            if t in ("undef", "poison"): return ("undef",)
            return ("f", t)
        if v[0] == "cgep":
            base = self.val(st, v[2][0][1], "ptr")
            idx = [(t, self.val(st, x, t)) for t, x in v[2][1:]]
            return self.gep(base, v[1], idx)
        return ("k", repr(v))

    def gep(self, base, bty, idx):
        if base[0] != "p":
            base = ("p", base, num(0))
        off = base[2]
        ty = bty
        for k, (it, iv) in enumerate(idx):
            if k == 0:
                s = self.lay.size(ty)[0]
                off = linadd(off, binop("mul", 64, iv, num(s)))
                continue
            b = self.lay.body(ty)
            if b[0] in ("struct", "packed"):
                if iv[0] != "i":
                    raise AnalysisError("variable struct index")
                o, ty = self.lay.field(b, iv[1])
                off = linadd(off, num(o))
            else:
                e = b[2]
                off = linadd(off, binop("mul", 64, iv, num(self.lay.size(e)[0])))
                ty = e
        return ("p", base[1], off)

    def addr(self, st, a):
        if a[0] != "p":
            a = ("p", a, num(0))
        return st.alias.get(a, a)

    def load(self, st, a, ty=None):
        a = self.addr(st, a)
        if a in st.mem:
            return st.mem[a]
        g = self.global_init(a)
        if g is not None:
            return g
        v = ("ld", a, st.env.get("#epoch:" + repr(a[1]), 0))
        st.mem[a] = v
        return v

    def global_init(self, a):
        if a[1][0] == "glob" and a[2][0] == "i":
            g = self.mod.globals.get(a[1][1], "")
            m = re.search(r'\bconstant (i\d+|double|float) (\S+?)(?:,|$)', g)
            if m and a[2] == num(0):
                n = const_int(("const", m.group(2)))
                return num(n) if n is not None else ("f", m.group(2))
            s = self.cstr(a)
            if s is not None:
                return num(0) if s == "" else num(wrap(ord(s[0]), 8))
        return None

    def cstr(self, a):
        """text of a constant C string, or None"""
        if a[0] == "p" and a[1][0] == "glob" and a[2][0] == "i":
            g = self.mod.globals.get(a[1][1], "")
            m = re.search(r'\bconstant \[\d+ x i8\] c"([^"]*)"', g)
            if m:
                s = re.sub(r'\\(\\|[0-9A-Fa-f]{2})', lambda k: "\\" if k.group(1) == "\\" else chr(int(k.group(1), 16)), m.group(1))
                s = s[a[2][1]:]
                return s.split("\0")[0]
            m = re.search(r'\bconstant \[\d+ x i8\] zeroinitializer', g)
            if m:
                return ""
        return None

    def store(self, st, a, v, ty=None):
        a = self.addr(st, a)
        if a[2][0] != "i":
            for k in [k for k in st.mem if k[0] == "p" and k[1] == a[1] and k != a]:
                del st.mem[k]
            st.env["#epoch:" + repr(a[1])] = st.env.get("#epoch:" + repr(a[1]), 0) + 1
        else:
            for k in [k for k in st.mem if k[0] == "p" and k[1] == a[1] and k[2][0] != "i"]:
                del st.mem[k]
        st.mem[a] = v

    def clobber(self, st, a):
        """the object at exactly this address was modified by an unknown operation"""
        a = self.addr(st, a)
        self.seq += 1
        st.env["#ver:" + repr(a)] = self.seq
        st.mem[a] = ("clob", a, self.seq)

    def fresh(self, what):
        self.seq += 1
        return ("u", what, self.seq)

    # ---- execution
    def go(self, block, prev, st, active):
        f = self.f
        while True:
            b = f.blocks[block]
            phis = [i for i in b.ins if i.op == "phi"]
            vals = {}
            for i in phis:
                for v, fr in zip(i.args, i.attr["from"]):
                    if fr == prev:
                        vals[i.res] = self.val(st, v, i.ty)
            st.env.update(vals)
            if block in self.headers:
                if block in active:
                    active[block].steps.append(st)
                    st.term = ("back", block)
                    return []
                return self.enter_loop(block, phis, st, active)
            r = self.body(b, len(phis), st, active)
            if isinstance(r, list):
                return r
            prev, block = block, r

    def enter_loop(self, block, phis, st, active):
        b = self.f.blocks[block]
        pn = [i.res for i in phis]
        varying = set()
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12:
                raise AnalysisError("loop summary does not converge in " + self.f.name)
            lp = Loop(block, self.line(b.ins[-1]))
            marks = [(l, len(l.steps)) for l in active.values()]
            lp.entry_conds = st.conds
            s = st.copy()
            outer_events, s.events = s.events, ()
            for c in varying:
                sym = ("h", block, c)
                if c[0] == "r":
                    lp.init[c] = st.env[c[1]]
                    s.env[c[1]] = sym
                else:
                    lp.init[c] = st.mem.get(c[1], None)
                    s.mem[c[1]] = sym
            lp.varying = varying
            a2 = dict(active)
            a2[block] = lp
            s.conds = st.conds + (("in", block),)
            outs = self.body(b, len(phis), s, a2)
            if isinstance(outs, str):
                outs = self.go(outs, block, s, a2)
            new = set()
            for t in lp.steps:
                for n in pn:
                    want = s0 = ("h", block, ("r", n)) if ("r", n) in varying else st.env[n]
                    if t.env[n] != want:
                        new.add(("r", n))
                for k, v in t.mem.items():
                    c = ("m", k)
                    if c in varying:
                        continue
                    if k in st.mem:
                        if st.mem[k] != v:
                            new.add(c)
                    elif v != ("ld", k, 0) and not (k[0] == "p" and k[1][0] == "alloca" and k[1][2] == block):
                        new.add(c)
                for k in st.mem:
                    if k not in t.mem and ("m", k) not in varying:
                        new.add(("m", k))
            if new <= varying:
                break
            varying = varying | new
            for l, n in marks:              # not yet stable: forget what this round handed to the enclosing loops
                del l.steps[n:]
        for l, n in marks:
            for t in l.steps[n:]:
                t.events = outer_events + (("loop", lp),) + t.events
        self.loops.setdefault(block, []).append(lp)
        for o in outs:
            o.events = outer_events + (("loop", lp),) + o.events
        return outs

    def body(self, b, start, st, active):
        """runs the block; returns the next block name or the list of final states"""
        i = start
        return self.run(b, start, st, active)

    def run(self, b, k, st, active):
        while True:
            i = b.ins[k]
            if i.op in ("br", "switch", "ret", "unreachable", "invoke", "resume"):
                break
            outs = self.step(i, st)
            if outs is not None:            # the transfer function splits the state
                res = []
                for o in outs:
                    r = self.run(b, k + 1, o, active)
                    res += r if isinstance(r, list) else self.go(r, b.name, o, active)
                return res
            k += 1
        if len(self.paths) > self.maxpaths:
            raise AnalysisError("too many paths in " + self.f.name)
        if i.op == "ret":
            st.term = ("ret", self.val(st, i.args[0], i.ty) if i.args else None)
            self.npaths = getattr(self, "npaths", 0) + 1
            if self.npaths > self.maxpaths:
                raise AnalysisError("too many paths in " + self.f.name)
            return [st]
        if i.op in ("unreachable", "resume"):
            if not (st.term and st.term[0] == "throw"):
                st.term = ("stop",)
            return [st]
        if i.op == "br":
            if not i.args:
                return i.attr["to"][0]
            c = self.val(st, i.args[0], "i1")
            d = decide(st.conds, c)
            if d is not None:
                return i.attr["to"][0 if d else 1]
            s2 = st.copy()
            st.conds = st.conds + (c,)
            s2.conds = s2.conds + (neg(c),)
            return self.go(i.attr["to"][0], b.name, st, active) + self.go(i.attr["to"][1], b.name, s2, active)
        if i.op == "switch":
            v = self.val(st, i.args[0], i.ty)
            w = width(i.ty)
            outs = []
            cur = st
            for cv, lab in i.attr["cases"]:
                c = icmp("eq", w, v, self.val(cur, cv, i.ty))
                d = decide(cur.conds, c)
                if d is True:
                    return outs + self.go(lab, b.name, cur, active)
                if d is False:
                    continue
                s2 = cur.copy()
                s2.conds = s2.conds + (c,)
                outs += self.go(lab, b.name, s2, active)
                cur.conds = cur.conds + (neg(c),)
            return outs + self.go(i.attr["to"][0], b.name, cur, active)
        raise AnalysisError("terminator " + i.op)

    def step(self, i, st):
        op = i.op
        if op == "alloca":
            st.env[i.res] = ("p", ("alloca", i.res, i.block.name), num(0))
        elif op == "load" and self.guard(self.val(st, i.args[0], "ptr")):
            st.env[i.res] = num(1)      # the local static object is considered after its one-time construction
            st.ev("guard", self.val(st, i.args[0], "ptr"), i)
        elif op == "load":
            v = self.load(st, self.val(st, i.args[0], "ptr"), i.ty)
            st.env[i.res] = v
            if i.attr.get("atomic") or i.attr.get("volatile"):
                a = self.addr(st, self.val(st, i.args[0], "ptr"))
                st.ev("aload", a, " ".join(i.attr.get("rest", [])[:3]), i)
                if not self.isolated(a):
                    # another thread may have written in between: a fresh value at every atomic load
                    v = self.fresh(("aload", a))
                    st.env[i.res] = v
                    st.mem[a] = v
            else:
                st.ev("load", self.addr(st, self.val(st, i.args[0], "ptr")), v, i)
        elif op == "store":
            a = self.val(st, i.args[1], "ptr")
            v = self.val(st, i.args[0], i.ty)
            self.store(st, a, v, i.ty)
            st.ev("astore" if i.attr.get("atomic") else "store", self.addr(st, a), v, " ".join(i.attr.get("rest", [])[:3]), i)
        elif op == "gep":
            idx = [(t, self.val(st, x, t)) for t, x in zip(i.attr["tys"][1:], i.args[1:])]
            st.env[i.res] = self.gep(self.val(st, i.args[0], "ptr"), i.attr["base"], idx)
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            st.env[i.res] = binop(op, width(i.ty), self.val(st, i.args[0], i.ty), self.val(st, i.args[1], i.ty))
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = self.val(st, i.args[0], i.ty), self.val(st, i.args[1], i.ty)
            if op in ("fadd", "fmul") and repr(a) > repr(b):
                a, b = b, a
            st.env[i.res] = ("x", op, i.ty, a, b)
        elif op == "fneg":
            st.env[i.res] = ("x", "fneg", i.ty, self.val(st, i.args[0], i.ty))
        elif op == "icmp":
            ty = i.ty
            st.env[i.res] = icmp(i.attr["pred"], width(ty), self.val(st, i.args[0], ty), self.val(st, i.args[1], ty))
        elif op == "fcmp":
            st.env[i.res] = ("x", "fcmp." + i.attr["pred"], i.ty, self.val(st, i.args[0], i.ty), self.val(st, i.args[1], i.ty))
        elif op in ("zext", "sext", "trunc"):
            v = self.val(st, i.args[0], i.attr["from"])
            fw, tw = width(i.attr["from"]), width(i.ty)
            if v[0] == "i":
                n = v[1]
                if op == "zext": n = uns(n, fw)
                elif op == "sext" and fw == 1: n = -(n & 1)
                st.env[i.res] = num(wrap(n, tw) if tw > 1 else n & 1)
            elif v[0] == "x" and v[1] == "zext" and op == "trunc" and v[3] == tw:
                st.env[i.res] = v[4]
            elif v[0] == "x" and v[1] in ("zext", "sext") and op == "trunc" and v[3] < tw:
                st.env[i.res] = ("x", v[1], tw, v[3], v[4])
            elif v[0] == "x" and v[1] == "zext" and op in ("zext", "sext"):
                st.env[i.res] = ("x", "zext", tw, v[3], v[4])
            elif v[0] == "x" and v[1] == "sext" and op == "sext":
                st.env[i.res] = ("x", "sext", tw, v[3], v[4])
            else:
                st.env[i.res] = ("x", op, tw, fw, v)
        elif op in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast"):
            st.env[i.res] = self.val(st, i.args[0], i.attr["from"])
        elif op in ir.CAST:
            st.env[i.res] = ("x", op, i.ty, i.attr["from"], self.val(st, i.args[0], i.attr["from"]))
        elif op == "select":
            st.env[i.res] = ("x", "select", i.ty) + tuple(self.val(st, a, i.ty) for a in i.args)
        elif op == "freeze":
            st.env[i.res] = self.val(st, i.args[0], i.ty)
        elif op == "atomicrmw":
            a = self.addr(st, self.val(st, i.args[0], "ptr"))
            v = self.val(st, i.args[1], i.ty)
            old = self.fresh(("rmw", a))
            st.env[i.res] = old
            o = i.attr["rmw"]
            if o in ("add", "sub", "and", "or", "xor"):
                st.mem[a] = binop(o, width(i.ty), old, v)
            elif o == "xchg":
                st.mem[a] = v
            else:
                st.mem[a] = ("x", "rmw" + o, width(i.ty), old, v)
            st.ev("rmw", o, a, v, old, " ".join(i.attr.get("rest", [])[:3]), i)
        elif op == "cmpxchg":
            a = self.addr(st, self.val(st, i.args[0], "ptr"))
            exp, new = self.val(st, i.args[1], i.ty), self.val(st, i.args[2], i.ty)
            s2 = st.copy()
            old = self.fresh(("cas", a))
            st.env[i.res] = ("cas", exp, num(1))
            st.mem[a] = new
            st.ev("cas", a, exp, new, True, " ".join(i.attr.get("rest", [])[:4]), i)
            s2.env[i.res] = ("cas", old, num(0))
            s2.mem[a] = old
            s2.ev("cas", a, exp, new, False, " ".join(i.attr.get("rest", [])[:4]), i)
            return [st, s2]
        elif op == "extractvalue":
            v = self.val(st, i.args[0])
            ix = tuple(int(x) for x in i.attr["idx"] if x.isdigit())
            if v[0] == "cas" and len(ix) == 1:
                st.env[i.res] = v[1 + ix[0]]
            elif v[0] == "agg":
                st.env[i.res] = dict(v[1]).get(ix, ("ev", v, ix))
            else:
                st.env[i.res] = ("ev", v, ix)
        elif op == "insertvalue":
            v = self.val(st, i.args[0])
            ix = tuple(int(x) for x in i.attr["idx"] if x.isdigit())
            d = dict(v[1]) if v[0] == "agg" else {}
            d[ix] = self.val(st, i.args[1])
            st.env[i.res] = ("agg", tuple(sorted(d.items(), key=repr)))
        elif op == "call":
            return self.call(i, st)
        elif op == "fence" or op.startswith("?fence"):
            st.ev("fence", i)
        else:
            raise AnalysisError("instruction %s in %s" % (i.raw.strip()[:80], self.f.name))
        return None

    def guard(self, a):
        return a[0] == "p" and a[1][0] == "glob" and a[1][1].startswith("_ZGV")

    def isolated(self, a):
        return isinstance(a[1], tuple) and a[1][0] == "alloca"

    # ---- calls
    def call(self, i, st):
        cal = i.attr["callee"]
        tys = i.attr["tys"]
        args = [self.val(st, a, t) if t != "metadata" else ("md",) for a, t in zip(i.args, tys)]
        if isinstance(cal, str) and cal[0] == "@":
            n = cal[1:].strip('"')
            d = self.mod.dem.get(n, n)
        else:
            n, d = None, "(indirect)"
            v = self.val(st, cal, "ptr") if isinstance(cal, str) else ("asm",)
            if v[0] == "p" and v[1][0] == "glob":
                n = v[1][1]
                d = self.mod.dem.get(n, n)
            else:
                args = [v] + args
        if n and n.startswith("llvm."):
            return self.intrinsic(n, i, st, args)
        if n == "__cxa_throw":
            st.term = ("throw", self.mod.dem.get(args[1][1][1], args[1][1][1]) if args[1][0] == "p" else "?", args[0])
            st.ev("throw", st.term[1], i)
            return None
        fn = fname(d)
        self.calls += 1
        for m in self.models + [stdmodel]:
            r = m(self, i, st, fn, d, args)
            if r is NotImplemented:
                continue
            if isinstance(r, list):          # [(state, value)]
                out = []
                for s, v in r:
                    if i.res:
                        s.env[i.res] = v
                    out.append(s)
                return out
            if i.res:
                st.env[i.res] = r if r is not None else self.fresh(fn)
            return None
        return self.opaque(i, st, fn, d, args)

    def opaque(self, i, st, fn, d, args):
        vals = tuple(self.deref(st, a, d, k) for k, a in enumerate(args))
        const = d.endswith(" const") or fn in PURE
        sret = "sret(" in i.raw
        key = ("fn", fn, vals) if const else ("call", fn, vals, self.next())
        st.ev("call", fn, d, tuple(args), key, i)
        ptypes = params(d)
        off = 1 if sret else 0
        thisp = 0
        for k, a in enumerate(args):
            if a[0] != "p":
                continue
            if sret and k == 0:
                self.store(st, a, key)
                continue
            if const:
                continue
            # non-const reference or pointer parameters (and the object itself)
            if len(args) - off == len(ptypes) + 1:
                pt = None if k == off else ptypes[k - off - 1]
            elif len(args) - off == len(ptypes):
                pt = ptypes[k - off]
            else:
                pt = None
            if pt is None or not re.search(r'\bconst( ?[&*]+)?$', pt.strip()) and not re.search(r'const ?[&*]$', pt.strip()):
                if pt is None or "&" in pt or "*" in pt:
                    self.clobber(st, a)
        if i.res:
            st.env[i.res] = key
        return None

    def next(self):
        self.seq += 1
        return self.seq

    def deref(self, st, a, d, k):
        """argument as it appears in a call term: abstract objects by value"""
        if a[0] == "p":
            v = st.mem.get(self.addr(st, a))
            if v is not None and v[0] not in ("ld", "clob"):
                return ("&", v)
        return a

    def intrinsic(self, n, i, st, args):
        b = n[5:]
        if b.startswith(("lifetime", "dbg", "experimental.noalias", "assume", "donothing", "invariant", "prefetch", "trap")):
            return None
        if b.startswith("threadlocal.address"):
            st.env[i.res] = ("p", ("tls", args[0][1][1]), args[0][2])
            return None
        if b.startswith("expect"):
            st.env[i.res] = args[0]
            return None
        if b.startswith(("memcpy", "memmove")):
            d, s = self.addr(st, args[0]), self.addr(st, args[1])
            cells = [(k, v) for k, v in st.mem.items() if k[0] == "p" and k[1] == s[1] and k[2][0] == "i" and s[2][0] == "i"
                     and s[2][1] <= k[2][1] and (args[2][0] != "i" or k[2][1] < s[2][1] + args[2][1])]
            if d[2][0] == "i":
                for k in [k for k in st.mem if k[0] == "p" and k[1] == d[1] and k[2][0] == "i" and
                          d[2][1] <= k[2][1] and (args[2][0] != "i" or k[2][1] < d[2][1] + args[2][1])]:
                    del st.mem[k]
                for k, v in cells:
                    st.mem[("p", d[1], num(d[2][1] + k[2][1] - s[2][1]))] = v
                if not cells:
                    st.mem[d] = ("copy", self.load(st, s))
            st.ev("memcpy", d, s, args[2], i)
            return None
        if b.startswith("memset"):
            d = self.addr(st, args[0])
            st.ev("memset", d, args[1], args[2], i)
            if d[2][0] == "i" and args[2][0] == "i" and args[1] == num(0):
                for k in range(0, args[2][1], 8):
                    st.mem[("p", d[1], num(d[2][1] + k))] = num(0)
            else:
                self.clobber(st, args[0])
            return None
        if b.startswith(("umax", "umin", "smax", "smin")):
            w = width(i.ty)
            p = {"umax": "ugt", "umin": "ult", "smax": "sgt", "smin": "slt"}[b[:4]]
            c = icmp(p, w, args[0], args[1])
            d = decide(st.conds, c)
            if d is None:
                s2 = st.copy()
                st.conds += (c,)
                s2.conds += (neg(c),)
                st.env[i.res], s2.env[i.res] = args[0], args[1]
                return [st, s2]
            st.env[i.res] = args[0] if d else args[1]
            return None
        if b.startswith("abs"):
            w = width(i.ty)
            c = icmp("slt", w, args[0], num(0))
            d = decide(st.conds, c)
            if d is None:
                s2 = st.copy()
                st.conds += (c,)
                s2.conds += (neg(c),)
                st.env[i.res], s2.env[i.res] = binop("sub", w, num(0), args[0]), args[0]
                return [st, s2]
            st.env[i.res] = binop("sub", w, num(0), args[0]) if d else args[0]
            return None
        if b.startswith(("stacksave",)):
            st.env[i.res] = ("s", "stack")
            return None
        if b.startswith("stackrestore"):
            return None
        if i.res:
            st.env[i.res] = ("fn", n, tuple(args))
        return None

    # ---- abstract strings
    def string(self, st, a):
        """parts of the std::string object at address a"""
        a = self.addr(st, a)
        v = st.mem.get(a)
        if v is None:
            return (("v", ("obj", a)),)
        if v[0] == "str":
            return v[1]
        return (("v", v),)

    def cstring(self, st, a):
        s = self.cstr(a)
        if s is not None:
            return (("l", s),) if s else ()
        if a[0] == "data":
            return a[1]
        if a[0] == "p":
            v = st.mem.get(self.addr(st, a))
            if v is not None and v[0] == "str":
                return v[1]
        return (("v", ("cstr", a)),)


def params(d):
    """parameter types of a demangled signature"""
    i = d.rfind(")")
    if i < 0:
        return []
    depth, j = 0, i
    while j >= 0:
        if d[j] == ")":
            depth += 1
        elif d[j] == "(":
            depth -= 1
            if depth == 0:
                break
        j -= 1
    s = d[j + 1:i]
    out, cur, dep = [], "", 0
    for c in s:
        if c in "<([{":
            dep += 1
        elif c in ">)]}":
            dep -= 1
        if c == "," and dep == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return [x for x in out if x != "void"]


CCLS = ("isdigit", "isspace", "isxdigit", "isalpha", "isalnum", "ispunct", "isprint", "isgraph", "iscntrl", "isblank", "isupper", "islower")
PURE = {"strlen", "tolower", "toupper"} | set(CCLS) | {"std::" + f for f in CCLS}
NI = NotImplemented


def ischars(v):
    """a pointer into the characters of a string"""
    return v[0] == "p" and isinstance(v[1], tuple) and v[1][0] == "chars"


def charpart(v):
    if v[0] == "i":
        return (("l", chr(v[1] & 255)),)
    return (("c", v),)


def cleanfn(fn):
    return fn.replace("std::__cxx11::", "std::").replace("__gnu_cxx::", "")


ITER = re.compile(r'(?:^|::)(\w*iterator\w*)::(operator(?:\+\+|--|\*|->)|base)$')
PUREM = {"begin", "end", "cbegin", "cend", "size", "empty", "count", "capacity"}


def itval(an, st, a):
    """value of the iterator object at address a (or the register value itself)"""
    if a[0] == "p":
        return an.load(st, a)
    return a


def iterators(an, i, st, fn, d, args):
    m = ITER.search(fn)
    if m and args:
        op = m.group(2)
        v = an.load(st, args[0])
        if op in ("operator*", "operator->"):
            return v if ischars(v) else ("p", ("elem", v), num(0))
        if op in ("operator++", "operator--"):
            nv = ("p", v[1], linadd(v[2], num(1 if op == "operator++" else -1))) if ischars(v) else ("next" if op == "operator++" else "prev", v)
            ret = args[0]
            if params(d):                       # post-increment: returns the old value
                post_sret = "sret(" in i.raw
                if post_sret:
                    v = an.load(st, args[1])
                    nv = (nv[0], v)
                    an.store(st, args[0], v)
                    an.store(st, args[1], nv)
                    return None
                ret = v
            an.store(st, args[0], nv)
            return ret
    last = fn.split("::")[-1]
    if last in ("operator==", "operator!=") and len(args) == 2 and any("iterator" in x.split("<")[0] for x in params(d)):
        a, b = itval(an, st, args[0]), itval(an, st, args[1])
        r = icmp("eq" if last == "operator==" else "ne", 64, a, b)
        return r
    if last in PUREM and "::" in fn and not fn.startswith("std::basic_string::") and not params(d):
        sret = "sret(" in i.raw
        obj = args[1] if sret else args[0]
        t = ("fn", last.replace("cbegin", "begin").replace("cend", "end"), (obj, st.env.get("#ver:" + repr(obj), 0)))
        if last == "empty":
            t = icmp("eq", 64, ("fn", "size", t[2]), num(0))
        if sret:
            an.store(st, args[0], t)
            return None
        return t
    return NI


def stdmodel(an, i, st, fn, d, args):
    fn = cleanfn(fn)
    if fn in ("__cxa_guard_acquire", "__cxa_guard_release", "__cxa_atexit"):
        st.ev("call", fn, d, tuple(args), None, i)
        return num(0) if fn == "__cxa_guard_acquire" else None
    r = iterators(an, i, st, fn, d, args)
    if r is not NI:
        return r
    # ---------------------------------------------------------------- strings
    if fn.startswith("std::basic_string::"):
        m = fn[len("std::basic_string::"):]
        ps = params(d)
        sret = "sret(" in i.raw
        if m == "basic_string":
            a = args[0]
            if len(args) == 1 or (len(ps) == 1 and "allocator" in ps[0] and "string" not in ps[0]):
                v = ()
            elif ps and re.match(r'(std::__cxx11::)?(std::)?basic_string', ps[0]):
                v = an.string(st, args[1])
                if len(ps) >= 3 and "unsigned long" in ps[1]:
                    v = substr(an, st, v, args[2], args[3])
                elif len(ps) >= 2 and "unsigned long" in ps[1]:
                    v = substr(an, st, v, args[2], num(-1))
            elif ps and ("char const*" in ps[0]):
                v = an.cstring(st, args[1])
                if len(ps) >= 2 and "unsigned long" in ps[1]:
                    if args[2][0] == "i" and len(v) <= 1 and (not v or v[0][0] == "l"):
                        v = (("l", (v[0][1] if v else "")[:args[2][1]]),)
                    else:
                        v = (("v", ("fn", "nchars", (v, args[2]))),)
            elif ps and "unsigned long" in ps[0] and len(ps) >= 2 and "char" in ps[1]:
                if args[1][0] == "i" and args[2][0] == "i" and 0 <= args[1][1] < 100:
                    v = (("l", chr(args[2][1] & 255) * args[1][1]),)
                else:
                    v = (("rep", args[2], args[1]),)
            else:
                v = (("v", an.fresh("string")),)
            st.mem[an.addr(st, a)] = ("str", v)
            return None
        if m == "~basic_string":
            return None
        if m in ("operator=", "assign"):
            if ps and "basic_string" in ps[0] and len(ps) == 1:
                v = an.string(st, args[1])
            elif ps and "char const*" in ps[0] and len(ps) == 1:
                v = an.cstring(st, args[1])
            elif ps and ps[0] == "char":
                v = charpart(args[1])
            else:
                v = (("v", an.fresh("string")),)
            st.mem[an.addr(st, args[0])] = ("str", scat(v))
            return args[0]
        if m in ("operator+=", "append", "push_back"):
            o = an.string(st, args[0])
            if ps and "basic_string" in ps[0] and len(ps) == 1:
                v = an.string(st, args[1])
            elif ps and "char const*" in ps[0] and len(ps) == 1:
                v = an.cstring(st, args[1])
            elif ps and ps[0] == "char":
                v = charpart(args[1])
            elif ps and "basic_string" in ps[0] and len(ps) == 3:
                v = substr(an, st, an.string(st, args[1]), args[2], args[3])
            elif len(ps) == 2 and ps[0] == "unsigned long" and args[1][0] == "i" and args[2][0] == "i" and args[1][1] < 100:
                v = (("l", chr(args[2][1] & 255) * args[1][1]),)
            else:
                v = (("v", an.fresh("string")),)
            st.mem[an.addr(st, args[0])] = ("str", scat(o, v))
            return args[0]
        if m in ("c_str", "data"):
            return ("data", an.string(st, args[0]))
        if m in ("size", "length"):
            return slen(an.string(st, args[0]))
        if m == "empty":
            return icmp("eq", 64, slen(an.string(st, args[0])), num(0))
        if m in ("operator[]", "at", "front", "back"):
            s = an.string(st, args[0])
            if m == "front": k = num(0)
            elif m == "back": k = linadd(slen(s), num(1), -1)
            else: k = args[1]
            return ("p", ("chars", s), k)
        if m == "substr":
            s = an.string(st, args[1])
            st.mem[an.addr(st, args[0])] = ("str", substr(an, st, s, args[2], args[3]))
            st.ev("substr", s, args[2], args[3], i)
            return None
        if m in ("find", "rfind", "find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of"):
            s = an.string(st, args[0])
            if ps and "basic_string" in ps[0]:
                w = an.string(st, args[1])
            elif ps and ps[0] == "char":
                w = charpart(args[1])
            else:
                w = an.cstring(st, args[1])
            return ("fn", m, (s, w, args[2] if len(args) > 2 else num(0)))
        if m in ("clear",):
            st.mem[an.addr(st, args[0])] = ("str", ())
            return None
        if m == "pop_back":
            s = an.string(st, args[0])
            st.mem[an.addr(st, args[0])] = ("str", substr(an, st, s, num(0), linadd(slen(s), num(1), -1)))
            return None
        if m in ("erase", "resize") and len(args) >= 2:
            s = an.string(st, args[0])
            if m == "resize" and len(ps) == 1 or m == "erase" and len(ps) == 2 and args[2] == num(-1) and ps[0] == "unsigned long":
                st.mem[an.addr(st, args[0])] = ("str", substr(an, st, s, num(0), args[1]))
                return args[0]
        if m == "compare" and len(args) == 2 and ps:
            w = an.string(st, args[1]) if "basic_string" in ps[0] else an.cstring(st, args[1])
            return ("fn", "compare", (an.string(st, args[0]), w))
        if m in ("begin", "end", "cbegin", "cend"):
            return ("p", ("chars", an.string(st, args[0])), num(0) if "begin" in m else slen(an.string(st, args[0])))
        if m == "reserve" or m == "shrink_to_fit":
            return None
        if args and args[0][0] == "p" and not d.endswith(" const"):
            an.clobber(st, args[0])
        st.ev("call", fn, d, tuple(args), None, i)
        return an.fresh(fn) if i.res else None
    if fn == "std::operator+" and "basic_string" in d:
        ps = params(d)
        parts = []
        for p, a in zip(ps, args[1:]):
            parts.append(an.string(st, a) if "basic_string" in p else charpart(a) if p == "char" else an.cstring(st, a))
        st.mem[an.addr(st, args[0])] = ("str", scat(*parts))
        return None
    if fn in ("std::operator==", "std::operator!=") and any("basic_string" in x.split(">")[0] and "iterator" not in x.split("<")[0] for x in params(d)):
        ps = params(d)
        vs = [an.string(st, a) if "basic_string" in p else an.cstring(st, a) for p, a in zip(ps, args)]
        t = streq(vs[0], vs[1])
        return t if fn.endswith("==") else neg(t)
    if fn == "std::to_string":
        st.mem[an.addr(st, args[0])] = ("str", (("n", args[1]),))
        return None
    if fn in ("std::allocator::allocator", "std::allocator::~allocator", "std::__new_allocator::~__new_allocator",
              "std::__new_allocator::__new_allocator", "new_allocator::new_allocator"):
        return None
    # ---------------------------------------------------------------- streams
    m = re.match(r'std::basic_(stringstream|ostringstream|istringstream)::(\w+|~\w+|operator=)$', fn)
    if m:
        kind, mem = m.groups()
        if mem == "basic_" + kind:
            a = an.addr(st, args[0])
            if kind == "stringstream":
                st.alias[("p", a[1], linadd(a[2], num(16)))] = a
            ps = params(d)
            v = an.string(st, args[1]) if ps and "basic_string" in ps[0] else ()
            st.mem[a] = ("stream", v)
            return None
        if mem == "str":
            if "sret(" in i.raw:
                v = st.mem.get(an.addr(st, args[1]))
                s = v[1] if v and v[0] == "stream" else (("v", v),) if v else (("v", ("content", an.addr(st, args[1]))),)
                st.mem[an.addr(st, args[0])] = ("str", s)
            else:
                st.mem[an.addr(st, args[0])] = ("stream", an.string(st, args[1]))
            return None
        if mem.startswith("~"):
            st.ev("destroy", an.addr(st, args[0]), i)
            return None
    r = ostream(an, i, st, fn, d, args)
    if r is not NI:
        return r
    return NI


def streq(a, b):
    a, b = scat(a), scat(b)
    if a == b:
        return num(1)
    if all(p[0] == "l" for p in a + b):
        return num(0)
    if repr(a) > repr(b):
        a, b = b, a
    return ("streq", a, b)


def substr(an, st, s, pos, n):
    """substring of an abstract string; kept symbolic unless it falls on part boundaries"""
    s = scat(s)
    if pos == num(0) and (n == num(-1) or n == slen(s)):
        return s
    # cut a literal tail / head of known length
    if pos == num(0):
        cut = linadd(slen(s), n, -1)
        if cut[0] == "i" and s and s[-1][0] in ("l", "c") and cut[1] >= 0:
            k = cut[1]
            out = list(s)
            while k and out and out[-1][0] in ("l", "c"):
                if out[-1][0] == "c":
                    out.pop()
                    k -= 1
                    continue
                t = out[-1][1]
                if len(t) > k:
                    out[-1] = ("l", t[:-k])
                    k = 0
                else:
                    k -= len(t)
                    out.pop()
            if k == 0:
                return tuple(out)
    return (("sub", s, pos, n),)


def emit(an, i, st, a, parts):
    k = an.addr(st, a)
    v = st.mem.get(k)
    if v is not None and v[0] == "stream":
        st.mem[k] = ("stream", scat(v[1], parts))
    elif v is not None and v[0] in ("h", "clob", "u"):
        st.mem[k] = ("stream", scat((("v", v),), parts))
    else:
        if isinstance(k[1], tuple):
            st.mem[k] = ("stream", scat((("v", ("content", k)),), parts)) if k[1][0] not in ("glob",) else ("stream", parts)
    st.ev("out", k, parts, i)


def ostream(an, i, st, fn, d, args):
    if fn in ("std::operator<<",) and "basic_ostream" in d:
        ps = params(d)
        if len(ps) < 2 or "basic_ostream" not in ps[0]:
            return NI
        p = ps[1]
        if "basic_string" in p:
            v = an.string(st, args[1])
        elif p in ("char", "signed char", "unsigned char"):
            v = charpart(args[1])
        elif "char const*" in p:
            v = an.cstring(st, args[1])
        elif p.startswith("std::_Set"):
            st.ev("manip", an.addr(st, args[0]), p, args[1], i)
            return args[0]
        elif "thread::id" in p:
            v = (("n", args[1]),)
        else:
            v = (("n", args[1]),)
        emit(an, i, st, args[0], v)
        return args[0]
    if fn.startswith("std::basic_ostream::"):
        m = fn.split("::")[-1]
        if m == "operator<<":
            p = params(d)[0]
            if "(*)" in p:
                return manip(an, i, st, args[0], args[1])
            v = (("n", args[1]),)
            emit(an, i, st, args[0], v)
            return args[0]
        if m == "put":
            emit(an, i, st, args[0], charpart(args[1]))
            return args[0]
        if m == "write":
            emit(an, i, st, args[0], (("v", ("chars", args[1], args[2])),))
            return args[0]
        if m == "flush":
            st.ev("flush", an.addr(st, args[0]), i)
            return args[0]
    if fn in ("std::endl", "std::flush", "std::ends"):
        return manip(an, i, st, args[0], ("p", ("glob", fn), num(0)))
    return NI


def manip(an, i, st, s, f):
    n = f[1][1] if f[0] == "p" and f[1][0] == "glob" else "?"
    n = an.mod.dem.get(n, n)
    if "endl" in n:
        emit(an, i, st, s, (("l", "\n"),))
        st.ev("flush", an.addr(st, s), i)
    elif "flush" in n:
        st.ev("flush", an.addr(st, s), i)
    elif "ends" in n:
        emit(an, i, st, s, (("l", "\0"),))
    else:
        st.ev("manip", an.addr(st, s), n, None, i)
    return s


# ------------------------------------------------------------------ evaluation of terms (finite tables)
def evaluate(t, env, mask=True):
    """value of a term under an assignment of its atoms (env: atom -> int); raises KeyError on an unknown atom"""
    if t in env:
        return env[t]
    if t[0] == "i":
        return t[1]
    if t[0] == "null":
        return 0
    if t[0] == "not":
        return 1 - (evaluate(t[1], env) & 1)
    if t[0] == "x":
        op = t[1]
        if op.startswith("icmp."):
            return icmp(op[5:], t[2], num(wrap(evaluate(t[3], env), t[2]) if t[2] > 1 else evaluate(t[3], env)),
                        num(wrap(evaluate(t[4], env), t[2]) if t[2] > 1 else evaluate(t[4], env)))[1]
        if op in ("zext", "sext", "trunc"):
            n = evaluate(t[4], env)
            if op == "zext": n = uns(n, t[3])
            if op == "sext": n = wrap(n, t[3]) if t[3] > 1 else -(n & 1)
            return wrap(n, t[2]) if t[2] > 1 else n & 1
        if op == "select":
            return evaluate(t[4] if evaluate(t[3], env) & 1 else t[5], env)
        if op in ("uitofp", "sitofp"):
            n = evaluate(t[4], env)
            return float(uns(n, width(t[3])) if op == "uitofp" else n)
        if op in ("fptoui", "fptosi"):
            return int(evaluate(t[4], env))
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = evaluate(t[3], env), evaluate(t[4], env)
            return {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b}[op]()
        a, b = evaluate(t[3], env), evaluate(t[4], env)
        w = t[2]
        r = binop(op, w, num(wrap(a, w) if w > 1 else a), num(wrap(b, w) if w > 1 else b))
        if r[0] != "i":
            raise KeyError(t)
        return r[1]
    if t[0] == "f":
        import ir as _ir
        v = _ir.const_fp(("const", t[1]))
        if v is None:
            raise KeyError(t)
        return float(v)
    raise KeyError(t)


def atoms(t, acc=None):
    """maximal non-arithmetic subterms"""
    acc = set() if acc is None else acc
    if not isinstance(t, tuple) or not t:
        return acc
    if t[0] in ("i", "null", "f"):
        return acc
    if t[0] == "not":
        return atoms(t[1], acc)
    if t[0] == "x":
        for a in t[2:]:
            if isinstance(a, tuple):
                atoms(a, acc)
        return acc
    acc.add(t)
    return acc


def show(t, depth=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if k == "i": return str(t[1])
    if k == "s": return t[1]
    if k == "null": return "null"
    if k == "not": return "!(" + show(t[1]) + ")"
    if k == "p":
        o = show(t[2])
        return show(t[1]) + ("" if o == "0" else "+" + o)
    if k in ("arg", "alloca", "glob", "tls"): return "%s:%s" % (k, t[1])
    if k == "ld": return "*" + show(t[1])
    if k == "h": return "loop(%s)" % (t[2][1] if isinstance(t[2][1], str) else show(t[2][1]))
    if k == "x":
        op = t[1].replace("icmp.", "")
        return "(" + " ".join([op] + [show(a) for a in t[2:] if isinstance(a, tuple)]) + ")"
    if k == "l": return repr(t[1])
    if k in ("fn", "call"):
        return "%s(%s)" % (t[1].split("::")[-1], ", ".join(show(a) for a in t[2]))
    return "<" + " ".join(show(a) for a in t) + ">"
