"""Algebra used by the predicate analysis.

 * Poly     - sparse multivariate polynomials over exact rationals
 * Terms    - hash-consed floating point terms in SSA form; a *value* is a pair (c, n): a power of two
              (or its negative) times term n.  Scaling by powers of two and negation commute with
              rounding, so they are pulled outwards; that makes the value numbering independent of
              how a difference, a product or a doubling is spelled.
 * error free transformations - for a sum/product term x the roundoff term y with x + y == a op b
              exactly (Dekker, Knuth, Veltkamp); recognised in the term graph, not in the text.
"""
from fractions import Fraction as F
from ir import AnalysisError

ZERO = {}


def pconst(c):
    return {(): F(c)} if c else {}


def pvar(v):
    return {(v,): F(1)}


def padd(a, b, k=1):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + k * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def psub(a, b):
    return padd(a, b, -1)


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            x = r.get(m, 0) + c1 * c2
            if x:
                r[m] = x
            else:
                r.pop(m, None)
    return r


def psubst(p, sub):
    """simultaneous substitution var -> poly"""
    r = {}
    for m, c in p.items():
        if not any(v in sub for v in m):
            x = r.get(m, 0) + c
            if x:
                r[m] = x
            else:
                r.pop(m, None)
            continue
        t = {(): c}
        keep = tuple(v for v in m if v not in sub)
        for v in m:
            if v in sub:
                t = pmul(t, sub[v])
                if not t:
                    break
        for m2, c2 in t.items():
            mm = tuple(sorted(keep + m2))
            x = r.get(mm, 0) + c2
            if x:
                r[mm] = x
            else:
                r.pop(mm, None)
    return r


def pvars(p):
    s = set()
    for m in p:
        s.update(m)
    return s


def pstr(p, name=str, limit=12):
    if not p:
        return "0"
    out = []
    for m in sorted(p, key=lambda m: (len(m), m))[:limit]:
        c = p[m]
        s = "*".join(name(v) for v in m)
        if s and c == 1:
            out.append("+" + s)
        elif s and c == -1:
            out.append("-" + s)
        else:
            out.append(("+" if c > 0 else "") + str(c) + ("*" + s if s else ""))
    if len(p) > limit:
        out.append("... (%d terms)" % len(p))
    return " ".join(out)


def is_pow2(x):
    x = abs(F(x))
    if x == 0:
        return False
    n, d = x.numerator, x.denominator
    return (n & (n - 1)) == 0 and (d & (d - 1)) == 0


class Terms:
    """hash-consed terms"""

    def __init__(self):
        self.tab = {}
        self.node = []   # id -> key
        self.src = {}    # id -> a source position (first instruction that computed it)
        self._tails_done = 0
        self.tail = {}   # node id -> list of (kind, factor, x value, a value, b value)

    def mk(self, key):
        i = self.tab.get(key)
        if i is None:
            i = len(self.node)
            self.tab[key] = i
            self.node.append(key)
        return i

    # ---- constructors of values (c, n)
    def leaf(self, key):
        return (F(1), self.mk(key))

    def const(self, v, fp="double"):
        v = F(v)
        if v == 0:
            return (F(1), self.mk(("const", F(0))))
        # split off sign/power of two
        k = F(1)
        n, d = abs(v).numerator, abs(v).denominator
        while n % 2 == 0:
            n //= 2
            k *= 2
        while d % 2 == 0:
            d //= 2
            k /= 2
        return (k if v > 0 else -k, self.mk(("const", F(n, d))))

    def isconst(self, v):
        k = self.node[v[1]]
        return v[0] * k[1] if k[0] == "const" else None

    def neg(self, v):
        if self.isconst(v) == 0:
            return v
        return (-v[0], v[1])

    def add(self, u, v, fp):
        cu, cv = self.isconst(u), self.isconst(v)
        if cu == 0:
            return v
        if cv == 0:
            return u
        if u[1] == v[1]:
            s = u[0] + v[0]
            if s == 0:
                return self.const(0)
            if is_pow2(s):
                return (s, u[1])
        # canonical order by term id, then factor out the first operand's scale
        if (u[1], u[0]) > (v[1], v[0]):
            u, v = v, u
        k = u[0]
        return (k, self.mk(("add", (F(1), u[1]), (v[0] / k, v[1]), fp)))

    def sub(self, u, v, fp):
        return self.add(u, self.neg(v), fp)

    def mul(self, u, v, fp):
        cu, cv = self.isconst(u), self.isconst(v)
        if cu == 0 or cv == 0:
            return self.const(0)
        if cu is not None and is_pow2(cu):
            return (cu * v[0], v[1])
        if cv is not None and is_pow2(cv):
            return (cv * u[0], u[1])
        if u[1] > v[1]:
            u, v = v, u
        return (u[0] * v[0], self.mk(("mul", u[1], v[1], fp)))

    def div(self, u, v, fp):
        cv = self.isconst(v)
        if cv is not None and is_pow2(cv):
            return (u[0] / cv, u[1])
        return (u[0] / v[0], self.mk(("div", u[1], v[1], fp)))

    def abs(self, v):
        if self.node[v[1]][0] == "abs":
            return (abs(v[0]), v[1])
        if self.node[v[1]][0] == "const":
            return (abs(v[0]), v[1])
        return (abs(v[0]), self.mk(("abs", v[1])))

    # ---- error free transformations
    def compute_tails(self, splitter):
        """splitter: value of the splitting constant per fp type, dict fp -> value (c,n) or None"""
        todo = [i for i in range(self._tails_done, len(self.node))]
        self._tails_done = len(self.node)
        for i in todo:
            k = self.node[i]
            if k[0] == "add":
                a, b, fp = k[1], k[2], k[3]
                x = (F(1), i)
                for (p, q) in ((a, b), (b, a)):
                    bv = self.sub(x, p, fp)
                    av = self.sub(x, bv, fp)
                    y = self.add(self.sub(p, av, fp), self.sub(q, bv, fp), fp)
                    self._tail(y, ("two_sum", x, p, q))
                    y = self.sub(q, self.sub(x, p, fp), fp)
                    self._tail(y, ("fast_two_sum", x, p, q))
            elif k[0] == "mul":
                a, b, fp = (F(1), k[1]), (F(1), k[2]), k[3]
                x = (F(1), i)
                y = self.leaf(("fma", k[1], k[2], -1, i, fp))
                self._tail(y, ("two_product", x, a, b))
                s = splitter.get(fp)
                if s is None:
                    continue
                ahi, alo = self.split(a, s, fp)
                bhi, blo = self.split(b, s, fp)
                hh = self.mul(ahi, bhi, fp)
                lh = self.mul(alo, bhi, fp)
                hl = self.mul(ahi, blo, fp)
                ll = self.mul(alo, blo, fp)
                e1 = self.sub(x, hh, fp)
                for (u, v) in ((lh, hl), (hl, lh)):
                    e3 = self.sub(self.sub(e1, u, fp), v, fp)
                    self._tail(self.sub(ll, e3, fp), ("two_product", x, a, b))
                if k[1] == k[2]:
                    e3 = self.sub(e1, (hl[0] * 2, hl[1]), fp)
                    self._tail(self.sub(ll, e3, fp), ("two_product", x, a, b))
        self._tails_done = len(self.node)

    def split(self, a, s, fp):
        c = self.mul(s, a, fp)
        abig = self.sub(c, a, fp)
        ahi = self.sub(c, abig, fp)
        alo = self.sub(a, ahi, fp)
        return ahi, alo

    def _tail(self, y, info):
        if self.node[y[1]][0] == "const":
            return
        L = self.tail.setdefault(y[1], [])
        # y = (c, n):  c*n == a op b - x   =>  n == (a op b - x)/c
        e = (info[0], 1 / y[0]) + info[1:]
        if e not in L:
            L.append(e)

    def show(self, v, depth=3):
        c, n = v
        k = self.node[n]
        if k[0] == "const":
            return str(float(c * k[1]))
        if k[0] == "add" and depth:
            s = "(" + self.show(k[1], depth - 1) + " + " + self.show(k[2], depth - 1) + ")"
        elif k[0] == "mul" and depth:
            s = self.show((F(1), k[1]), depth - 1) + "*" + self.show((F(1), k[2]), depth - 1)
        elif k[0] == "abs" and depth:
            s = "|" + self.show((F(1), k[1]), depth - 1) + "|"
        elif k[0] in ("add", "mul", "abs"):
            s = "..."
        elif k[0] == "coord":
            s = "p%d[%d]" % (k[1], k[2])
        else:
            s = str(k[0]) + ":" + str(k[1])
        if c == 1:
            return s
        if c == -1:
            return "-" + s
        return str(c) + "*" + s
