"""Forward abstract interpretation of a predicate entry point.

State  = values of SSA names, content of every local array, facts (which terms are zero / non-zero / of known sign,
         comparisons that were taken).
Array  = either known cells (terms) or "an expansion whose exact value is the polynomial P and whose length is the
         value L"; P is a polynomial over the coordinates, the rounded differences D and their roundoffs T.
Joins  = polynomials modulo the facts of either side ("monomials containing a term known to be zero do not matter on
         that side"); what cannot be merged that way stays a guarded pair.

Every return is then certified: the sign of the returned value is the sign of the determinant of the geometric
definition, for all coordinates (no over-/underflow).
"""
import re
from fractions import Fraction as F
import ir
from ir import AnalysisError, CFG, const_int, const_fp, atomic_facts
from fpalg import Terms, padd, psub, pmul, pscale, psubst, pvars, pconst, pvar, is_pow2, pstr

FPT = ("float", "double")
EPS = {"float": F(1, 2 ** 24), "double": F(1, 2 ** 53)}
MAXSTATES = 48
# resolution of the error analysis.  The published constants are a little sharper than a coefficientwise count of rounding
# errors: by less than 4 eps (relative) for the first two filter stages, by less than 1/16 where the error is of second order.
FIRST_TOL, SECOND_TOL = 4, F(1, 16)


class Fail(Exception):
    """content that cannot be established (with the reason)"""


class Infeasible(Exception):
    """no path leads here under the facts assumed"""


def pkey(p):
    return frozenset(p.items())


class Facts:
    __slots__ = ("zero", "nonzero", "sign", "cmps")

    def __init__(self, zero=frozenset(), nonzero=frozenset(), sign=None, cmps=frozenset()):
        self.zero, self.nonzero, self.sign, self.cmps = zero, nonzero, sign or {}, cmps

    def join(self, o):
        return Facts(self.zero & o.zero, self.nonzero & o.nonzero,
                     {k: v & o.sign[k] if False else v | o.sign[k] for k, v in self.sign.items() if k in o.sign},
                     self.cmps & o.cmps)

    def meet(self, o):
        s = dict(self.sign)
        for k, v in o.sign.items():
            s[k] = s.get(k, frozenset((-1, 0, 1))) & v
        return Facts(self.zero | o.zero, self.nonzero | o.nonzero, s, self.cmps | o.cmps)

    def contradictory(self):
        return bool(self.zero & self.nonzero) or any(not v for v in self.sign.values())

    def same(self, o):
        return self.zero == o.zero and self.nonzero == o.nonzero and self.sign == o.sign and self.cmps == o.cmps


class State:
    def __init__(self):
        self.env = {}
        self.mem = {}
        self.facts = Facts()

    def copy(self):
        s = State()
        s.env, s.mem, s.facts = dict(self.env), dict(self.mem), self.facts
        return s


UNDEF = ("undef",)


class Entry:
    def __init__(self, front, key, consts, spec, disj=1):
        self.front, self.key = front, key
        self.disj = disj                # states kept apart per block before they are merged
        self.dim, self.name, self.fp = key
        self.mname = front.entries[key]
        self.f = front.mod.funcs[self.mname]
        self.consts = consts            # global name -> Fraction
        self.det = spec                 # polynomial over ("x",k,i)
        self.errors = []                # (rule, line, text)
        self.ob = {}
        self.cur = None
        self.joinfacts = {}             # J -> (facts0, facts1)
        self.njoin = 0
        self.nid = 0
        self.idub = {}
        self.polys = {}                 # leaf node -> polynomial (est, top)
        self.joinvals = {}              # leaf node -> (J, v0, v1)
        self.returns = 0
        self.certs = {}
        self._pv = {}
        self._mag = {}
        self._rec = {}
        self.tops = {}                  # node of the highest component -> components of a verified expansion
        self.states = 0

    # ------------------------------------------------------------------ reporting
    def err(self, rule, ins, text):
        line = ir.loc(self.front.mod, ins.dbg) if ins is not None and ins.dbg else None
        e = (rule, line, text)
        if e not in self.errors:
            self.errors.append(e)

    def ok(self, rule, n=1):
        self.ob[rule] = self.ob.get(rule, 0) + n

    # ------------------------------------------------------------------ run
    def run(self):
        f = self.f
        self.cfg = CFG(f)
        self.T = Terms()
        self.find_splitters()
        self.kparam = {n: k for k, (t, n) in enumerate(f.params)}
        self.lifetimes()
        self.liveness()
        self.tailonly = {}
        self.allocas = {}
        for b in f.order:
            for i in f.blocks[b].ins:
                if i.op == "alloca":
                    t = i.attr["aty"]
                    if isinstance(t, tuple) and t[0] == "arr" and t[2] in FPT:
                        self.allocas[i.res] = t[1]
                    elif t in FPT:
                        self.allocas[i.res] = 1
                    else:
                        self.err("UNMODELLED", i, "local object of unmodelled type in the predicate")
        self.prepass()
        inc = {b: [] for b in self.cfg.rpo}
        s = State()
        for a in self.allocas:
            s.mem[a] = ("cells", ())
        inc[self.cfg.rpo[0]] = [(None, s)]
        self.done_loops = set()
        for b in self.cfg.rpo:
            if b in self.done_loops or not inc[b]:
                continue
            sts = self.enter(b, inc[b])
            inc[b] = None
            if b in self.cfg.loops:
                for st in sts:
                    self.map_loop(b, st, inc)
                self.done_loops |= self.cfg.loops[b]
                continue
            for st in sts:
                self.states += 1
                self.block(b, st, inc)

    def lifetimes(self):
        pass

    def liveness(self):
        f = self.f
        use, dfn = {}, {}
        for b in self.cfg.rpo:
            u, d = set(), set()
            for i in f.blocks[b].ins:
                if i.op != "phi":
                    for a in i.args:
                        if isinstance(a, str) and a not in d:
                            u.add(a)
                    if i.op == "br" and i.args:
                        # the operands of the comparisons the branch is made of are looked at as well
                        todo, seen = [i.args[0]], set()
                        while todo:
                            a = todo.pop()
                            dd = f.defs.get(a) if isinstance(a, str) else None
                            if dd is None or a in seen or dd.op not in ("fcmp", "icmp", "and", "or", "xor", "select", "freeze"):
                                continue
                            seen.add(a)
                            for z in dd.args:
                                if isinstance(z, str):
                                    todo.append(z)
                                    if z not in d:
                                        u.add(z)
                if i.res:
                    d.add(i.res)
            use[b], dfn[b] = u, d
        live = {b: set() for b in self.cfg.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.cfg.rpo):
                o = set()
                for s in f.blocks[b].succs:
                    phis = [i for i in f.blocks[s].ins if i.op == "phi"]
                    o |= live[s] - set(p.res for p in phis)
                    for p in phis:
                        for a, fr in zip(p.args, p.attr["from"]):
                            if fr == b and isinstance(a, str):
                                o.add(a)
                n = use[b] | (o - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live

    def is_tail(self, b):
        """nothing but merging and returning happens from here on"""
        if b in self.tailonly:
            return self.tailonly[b]
        self.tailonly[b] = False
        r = True
        for i in self.f.blocks[b].ins:
            if i.op in ("phi", "br", "ret", "fneg"):
                continue
            if i.op == "call" and isinstance(i.attr["callee"], str) and "llvm.lifetime" in i.attr["callee"]:
                continue
            r = False
        if len(self.f.blocks[b].succs) > 1:
            r = False
        r = r and all(self.is_tail(s) for s in self.f.blocks[b].succs)
        self.tailonly[b] = r
        return r

    def prepass(self):
        """compute the terms of straight-line code once so that roundoff tails are known to polynomials"""
        pass

    # ------------------------------------------------------------------ merging
    def enter(self, b, inc):
        f = self.f
        phis = [i for i in f.blocks[b].ins if i.op == "phi"]
        sts = []
        for (p, s) in inc:
            if p is None:
                sts.append(s)
                continue
            s = s.copy()
            vals = []
            for i in phis:
                a = i.args[i.attr["from"].index(p)]
                vals.append((i.res, self.valof(s, a, i.ty)))
            for r, v in vals:
                s.env[r] = v
            keep = self.live[b] | set(i.res for i in phis)
            s.env = {k: v for k, v in s.env.items() if k in keep}
            sts.append(s)
        if self.is_tail(b):
            return sts
        groups = {}
        for s in sts:
            k = tuple(sorted((n, v) for n, v in s.env.items() if v and v[0] == "ptr"))
            groups.setdefault(k, []).append(s)
        out = []
        for k in groups:
            L = groups[k]
            while len(L) > self.disj:
                i, j = 0, 1
                if self.disj > 1:
                    i, j = min(((a, b) for b in range(len(L)) for a in range(b)), key=lambda p: self.distance(L[p[0]], L[p[1]]))
                m = self.merge(L[i], L[j])
                L = [m if n == i else x for n, x in enumerate(L) if n != j]
            out += L
        if len(out) > MAXSTATES:
            raise AnalysisError("too many abstract states in %s" % self.mname)
        return out

    def distance(self, a, b):
        """how much path knowledge merging the two states would lose; zero tests of roundoff tails weigh least"""
        d = 0
        for v in set(a.facts.sign) | set(b.facts.sign):
            if a.facts.sign.get(v) != b.facts.sign.get(v):
                d += 1 if v[0] == "T" else 50
        return d + sum(1 for m in a.mem if a.mem[m] != b.mem.get(m))

    def merge(self, a, b):
        self.njoin += 1
        J = self.njoin
        self.joinfacts[J] = (a.facts, b.facts)
        s = State()
        s.facts = a.facts.join(b.facts)
        for n in a.env:
            if n in b.env:
                s.env[n] = self.mergeval(J, a.env[n], b.env[n])
        for m in a.mem:
            s.mem[m] = self.mergemem(J, a.mem[m], b.mem[m])
        return s

    def mergeval(self, J, x, y):
        if x == y:
            return x
        if x is None or y is None:
            return None
        if x[0] == "fp" and y[0] == "fp":
            n = self.T.leaf(("join", J, x[1], y[1]))
            self.joinvals[n[1]] = (J, x[1], y[1])
            return ("fp", n)
        if x[0] == "int" and y[0] == "int":
            return ("int", ("join", J, x[1], y[1]))
        x, y = self.tobool(x), self.tobool(y)
        if x and y:
            return ("bool", ("join", J, x[1], y[1]))
        return None

    def mergemem(self, J, x, y):
        if x == y:
            return x
        if x[0] == "exp" and y[0] == "exp" and x[4] == y[4]:
            f0, f1 = self.joinfacts[J]
            p = self.union(x[1], f0, y[1], f1)
            if p is not None:
                l = x[2] if x[2] == y[2] else ("join", J, x[2], y[2])
                return self.mkexp(p, l, x[4])
        return ("join", J, x, y)

    def mkexp(self, p, l, off):
        return ("exp", p if isinstance(p, FP) else FP(p), l, None, off)

    def union(self, p, f0, q, f1):
        p, q = p.p, q.p
        if p == q:
            return FP(p)
        r = {}
        for m in set(p) | set(q):
            k0 = any(v in f0.zero for v in m)
            k1 = any(v in f1.zero for v in m)
            if k0 and k1:
                continue
            if k0:
                c = q.get(m, 0)
            elif k1:
                c = p.get(m, 0)
            else:
                c = p.get(m, 0)
                if c != q.get(m, 0):
                    return None
            if c:
                r[m] = c
        return FP(r)

    # ------------------------------------------------------------------ values
    def valof(self, s, a, ty):
        if ty in FPT:
            c = const_fp(a, ty)
            if c is not None:
                return ("fp", self.T.const(c))
        elif ty == "ptr":
            pass
        elif isinstance(ty, str) and ty[0] == "i":
            c = const_int(a)
            if ty == "i1":
                c = {("const", "false"): 0, ("const", "true"): 1}.get(a, c)
            if c is not None:
                return ("int", ("c", c))
        if isinstance(a, str):
            if a in s.env:
                return s.env[a]
            if a in self.allocas:
                return ("ptr", a, 0)
            if a in self.kparam:
                return ("ptr", a, 0)
        return None

    def fval(self, s, a, ty, ins=None):
        v = self.valof(s, a, ty)
        if v is None or v[0] != "fp":
            return self.T.leaf(("unknown", str(a)))
        return v[1]

    def alt(self, J, facts):
        """alternatives of join J that are consistent with the facts"""
        r = []
        for k in (0, 1):
            m = self.joinfacts[J][k].meet(facts)
            if not m.contradictory() and not self.sign_conflict(m):
                r.append(k)
        return r

    def sign_conflict(self, m):
        for v, s in m.sign.items():
            if v in m.zero and 0 not in s:
                return True
        return False

    def resolve(self, iv, facts):
        """drop alternatives contradicted by the facts; projects recursively"""
        while iv[0] == "join":
            ks = self.alt(iv[1], facts)
            if len(ks) == 1:
                iv = iv[2 + ks[0]]
                continue
            if not ks:
                raise Infeasible()
            r = []
            for k in ks:
                try:
                    r.append((k, self.resolve(iv[2 + k], facts)))
                except Infeasible:
                    pass
            if not r:
                raise Infeasible()
            if len(r) == 1 or r[0][1] == r[1][1]:
                return r[0][1]
            return ("join", iv[1], r[0][1], r[1][1])
        if iv[0] == "off":
            b = self.resolve(iv[1], facts)
            if b[0] == "c":
                return ("c", b[1] + iv[2])
            if b[0] == "off":
                return ("off", b[1], b[2] + iv[2])
            return ("off", b, iv[2])
        return iv

    def proj(self, iv, J, side):
        if iv[0] == "join":
            if iv[1] == J:
                return iv[2 + side]
            if iv[1] < J:
                return iv
            return ("join", iv[1], self.proj(iv[2], J, side), self.proj(iv[3], J, side))
        if iv[0] == "off":
            return self.addc(self.proj(iv[1], J, side), iv[2])
        return iv

    def addc(self, iv, k):
        if k == 0:
            return iv
        if iv[0] == "c":
            return ("c", iv[1] + k)
        if iv[0] == "off":
            return self.addc(iv[1], iv[2] + k)
        if iv[0] == "join":
            return ("join", iv[1], self.addc(iv[2], k), self.addc(iv[3], k))
        return ("off", iv, k)

    def bounds(self, iv, facts):
        try:
            return self.bounds1(iv, facts)
        except Infeasible:
            return None, None

    def bounds1(self, iv, facts):
        iv = self.resolve(iv, facts)
        if iv[0] == "c":
            return iv[1], iv[1]
        if iv[0] == "id":
            return 1, self.idub[iv[1]]
        if iv[0] == "off":
            l, u = self.bounds(iv[1], facts)
            return (l + iv[2] if l is not None else None, u + iv[2] if u is not None else None)
        if iv[0] == "join":
            rs = []
            for k in self.alt(iv[1], facts):
                try:
                    rs.append(self.bounds1(iv[2 + k], self.joinfacts[iv[1]][k].meet(facts)))
                except Infeasible:
                    pass
            if not rs:
                raise Infeasible()
            if any(r[0] is None or r[1] is None for r in rs) or not rs:
                return None, None
            return min(r[0] for r in rs), max(r[1] for r in rs)
        return None, None

    # ------------------------------------------------------------------ polynomials of terms
    def iscoord(self, n):
        return self.T.node[n][0] == "coord"

    def pval(self, v):
        return pscale(self.pnode(v[1]), v[0])

    def pnode(self, n, depth=0):
        if n in self._pv:
            return self._pv[n]
        T = self.T
        if T._tails_done < len(T.node):
            T.compute_tails(self.splitters())
        k = T.node[n]
        if k[0] == "coord":
            p = pvar(("x", k[1], k[2]))
        elif k[0] == "const":
            p = pconst(k[1])
        elif self.isdiff(n):
            p = pvar(("D", n))
        elif n in T.tail:
            p = self.tailpoly(n)
        else:
            return pvar(("X", n))
        self._pv[n] = p
        return p

    def isdiff(self, n):
        k = self.T.node[n]
        return k[0] == "add" and self.iscoord(k[1][1]) and self.iscoord(k[2][1])

    def exactdiff(self, n):
        k = self.T.node[n]
        return padd(pscale(self.pnode(k[1][1]), k[1][0]), pscale(self.pnode(k[2][1]), k[2][0]))

    def tailpoly(self, n):
        T = self.T
        best = None
        for (kind, c, x, p, q) in T.tail[n]:
            if kind == "fast_two_sum" and not self.fast_ok(p, q):
                continue
            if kind in ("two_sum", "fast_two_sum"):
                if self.isdiff(x[1]):
                    # the roundoff of a coordinate difference
                    r = pscale(pvar(("T", x[1])), c * x[0])
                else:
                    r = pscale(psub(padd(self.pval(p), self.pval(q)), self.pval(x)), c)
            else:
                r = pscale(psub(pmul(self.pval(p), self.pval(q)), self.pval(x)), c)
            return r
        return pvar(("X", n))

    def fast_ok(self, p, q):
        r = self.ratio(q, p)
        return r is not None and r <= 1

    def ratio(self, q, p, depth=0):
        """upper bound of |q|/|p|, or None"""
        if depth > 6:
            return None
        T = self.T
        if q[1] == p[1]:
            return abs(q[0] / p[0])
        best = None

        def better(r):
            nonlocal best
            if r is not None and (best is None or r < best):
                best = r
        for (kind, c, x, a, b) in T.tail.get(q[1], ()):
            if kind == "fast_two_sum":
                continue
            r = self.ratio(x, p, depth + 1)
            if r is not None:
                better(abs(q[0] * c) * r * EPS[self.fp])
        kq, kp = T.node[q[1]], T.node[p[1]]
        if kq[0] == "mul" and kp[0] == "mul":
            for a, b in ((kq[1], kq[2]), (kq[2], kq[1])):
                for c, d in ((kp[1], kp[2]), (kp[2], kp[1])):
                    r1, r2 = self.ratio((F(1), a), (F(1), c), depth + 1), self.ratio((F(1), b), (F(1), d), depth + 1)
                    if r1 is not None and r2 is not None:
                        e = EPS[kq[3]]
                        better(abs(q[0] / p[0]) * r1 * r2 * (1 + e) / (1 - e))
        if kq[0] == "add":
            r1, r2 = self.ratio(kq[1], p, depth + 1), self.ratio(kq[2], p, depth + 1)
            if r1 is not None and r2 is not None:
                better(abs(q[0]) * (r1 + r2) * (1 + EPS[kq[3]]))
        return best

    # ------------------------------------------------------------------ expansions given as cells
    def expansion(self, L):
        """L (values, lowest first) is a nonoverlapping expansion by construction"""
        L = list(L)
        if len(L) == 1:
            return True
        T = self.T
        if all(T.isconst(v) == 0 for v in L[:-1]):
            return True
        if len(L) == 2 and self.istail(L[0], L[1], full=True):
            return True
        if self.as_sum(L):
            return True
        if self.as_scale(L):
            return True
        return False

    def istail(self, y, x, full=False, ops=None):
        """y is the exact roundoff of x"""
        for (kind, c, xx, p, q) in self.T.tail.get(y[1], ()):
            if xx[1] == x[1] and y[0] * c * xx[0] == x[0]:
                if kind == "fast_two_sum" and not self.fast_ok(p, q):
                    if not full:
                        continue
                    continue
                return True
        return False

    def ops_of(self, y, x):
        """operand pairs (p,q), scaled so that x+y = p op q exactly, of the recognised tail y of x"""
        r = []
        for (kind, c, xx, p, q) in self.T.tail.get(y[1], ()):
            if xx[1] == x[1] and y[0] * c * xx[0] == x[0]:
                k = y[0] * c
                r.append((kind, (p[0] * k, p[1]), (q[0] * k, q[1]) if kind != "two_product" else q))
        return r

    def grow(self, L):
        """L = Grow-Expansion(E, b): all (E, b)"""
        res = []
        # walk from the top: x = L[-1], tail L[-2]
        def rec(i, x, E):
            # x is the running sum whose roundoff is L[i]
            for (kind, p, q) in self.ops_of(L[i], x):
                if kind not in ("two_sum", "fast_two_sum"):
                    continue
                if kind == "fast_two_sum" and not self.fast_ok(p, q):
                    continue
                for run, e in ((p, q), (q, p)):
                    if i == 0:
                        res.append(([e] + E, run))
                    else:
                        rec(i - 1, run, [e] + E)
        if len(L) >= 2:
            rec(len(L) - 2, L[-1], [])
        return res

    def as_sum(self, L, depth=0):
        """L = Expansion-Sum(E, F)"""
        n = len(L)

        def undo(H, k, Fs):
            # H[k:] = Grow(G, f_k) ; continue with H[:k] + G
            for (G, b) in self.grow(H[k:]):
                H2 = H[:k] + G
                F2 = [b] + Fs
                if k == 0:
                    if self.expansion(G) and self.expansion(F2):
                        return True
                else:
                    if undo(H2, k - 1, F2):
                        return True
            return False
        for m in range(1, n):
            # |F| = m, last grow starts at position m-1
            if n - m < 1:
                continue
            if undo(L, m - 1, []):
                return True
        return False

    def as_scale(self, L):
        """L = Scale-Expansion(E, b)"""
        n = len(L)
        if n % 2 or n < 4:
            return False
        T = self.T

        def prod_ops(lo, hi):
            r = []
            for (kind, p, q) in self.ops_of(lo, hi):
                if kind == "two_product":
                    # (component, factor): the sign goes to the component
                    k = p[0] * q[0]
                    r += [((k, p[1]), (F(1), q[1])), ((k, q[1]), (F(1), p[1]))]
            return r

        # from the top: hi_m = L[n-1]; pairs
        def rec(i, x, b, E):
            # x: running high part below which L[i] is its fast tail: x = prod (+) s ; L[i] = tail
            if i == 0:
                for (e, bb) in prod_ops(L[0], x):
                    if b is None or bb[1] == b[1]:
                        if self.expansion([e] + E):
                            return True
                return False
            for (kind, p, q) in self.ops_of2(L[i], x):
                for prod, s in ((p, q), (q, p)):
                    if T.node[prod[1]][0] != "mul":
                        continue
                    # s = Q (+) low(prod); L[i-1] is its tail
                    for (k2, u, v) in self.ops_of(L[i - 1], s):
                        for Q, low in ((u, v), (v, u)):
                            for (e, bb) in prod_ops(low, prod):
                                if b is not None and bb[1] != b[1]:
                                    continue
                                if rec(i - 2, Q, bb, [e] + E):
                                    return True
            return False
        return rec(n - 2, L[-1], None, [])

    def ops_of2(self, y, x):
        """as ops_of, but fast two-sum accepted when it is the one of a scaling step (|product| >= |carry|)"""
        r = []
        for (kind, c, xx, p, q) in self.T.tail.get(y[1], ()):
            if kind in ("two_sum", "fast_two_sum") and xx[1] == x[1] and y[0] * c * xx[0] == x[0]:
                k = y[0] * c
                r.append((kind, (p[0] * k, p[1]), (q[0] * k, q[1])))
        return r

    # ------------------------------------------------------------------ content of arrays
    def content(self, ent, off, length, facts):
        try:
            return self.content1(ent, off, length, facts)
        except Infeasible:
            raise Fail("no consistent path defines it")

    def content1(self, ent, off, length, facts):
        """polynomial of the expansion stored at ent[off .. off+length)"""
        length = self.resolve(length, facts)
        J = 0
        if ent[0] == "join":
            J = max(J, ent[1])
        J = max(J, self.topjoin(length))
        if J:
            rs = []
            why = None
            for k in self.alt(J, facts):
                fk = self.joinfacts[J][k].meet(facts)
                e = self.projmem(ent, J, k)
                try:
                    l = self.resolve(self.proj(length, J, k), fk)
                    rs.append((self.content1(e, off, l, fk), fk))
                except Infeasible:
                    pass
            if not rs:
                raise Infeasible()
            p, fp = rs[0]
            for q, fq in rs[1:]:
                u = self.union(p, fp, q, fq)
                if u is None:
                    raise Fail("the content depends on the path taken in a way the zero tests do not explain")
                p = u
            return p
        if ent[0] == "exp":
            if ent[4] != off:
                raise Fail("the expansion does not start at this offset")
            l = self.resolve(ent[2], facts)
            if l != length:
                raise Fail("the length passed is not the length of the expansion stored there")
            return ent[1]
        if ent[0] == "cells":
            if length[0] != "c":
                raise Fail("the length passed does not belong to this array")
            n = length[1]
            if n < 1:
                raise Fail("length %d" % n)
            d = dict(ent[1])
            L = []
            for i in range(off, off + n):
                if i not in d:
                    raise Fail("component %d is read but never written on some path" % i)
                L.append(d[i])
            for v in L:
                if self.T.node[v[1]][0] == "join":
                    raise Fail("component depends on the path taken")
            if self.expansion(L):
                self.tops.setdefault(L[-1][1], tuple(L))
            else:
                raise Fail("the %d components are not a nonoverlapping expansion of increasing magnitude" % n)
            p = {}
            for v in L:
                p = padd(p, self.pval(v))
            return FP(p)
        raise Fail("array content is not defined")

    def topjoin(self, iv):
        if iv[0] == "join":
            return iv[1]
        if iv[0] == "off":
            return self.topjoin(iv[1])
        return 0

    def projmem(self, e, J, side):
        if e[0] == "join":
            if e[1] == J:
                return e[2 + side]
            if e[1] > J:
                return ("join", e[1], self.projmem(e[2], J, side), self.projmem(e[3], J, side))
        if e[0] == "exp":
            return ("exp", e[1], self.proj(e[2], J, side), e[3], e[4])
        return e

    # ------------------------------------------------------------------ transfer
    def block(self, b, s, inc):
        f = self.f
        for i in f.blocks[b].ins:
            if i.op == "phi":
                continue
            if i is f.blocks[b].term:
                break
            self.ins(i, s)
        t = f.blocks[b].term
        if t.op == "ret":
            self.ret(t, s)
            return
        if t.op == "unreachable":
            return
        if t.op == "br" and not t.args:
            inc[t.attr["to"][0]].append((b, s))
            return
        if t.op == "br":
            to = t.attr["to"]
            if to[0] == to[1]:
                inc[to[0]].append((b, s))
                return
            for k in (0, 1):
                c = t.args[0]
                if not isinstance(c, str):
                    if (c == ("const", "true")) != (k == 0):
                        continue
                    s2 = s.copy()
                else:
                    s2 = s.copy()
                    if not self.assume(s2, c, k == 0):
                        continue
                    v = self.tobool(self.valof(s2, c, "i1"))
                    if v and v[1][0] != "cmp":
                        ws = self.worlds(v[1], k == 0, s2.facts)
                        if not ws:
                            continue
                        fs = ws[0]
                        for w in ws[1:]:
                            fs = fs.join(w)
                        s2.facts = fs
                inc[to[k]].append((b, s2))
            return
        self.err("UNMODELLED", t, "control transfer not modelled")

    def assume(self, s, cond, truth):
        """add the facts of a branch; False if the edge is infeasible"""
        for (c, t) in atomic_facts(self.f, cond, truth):
            if c.op == "fcmp":
                ty = c.ty
                a, b = self.fval(s, c.args[0], ty), self.fval(s, c.args[1], ty)
                pr = c.attr["pred"]
                base = pr[1:]
                table = {"gt": (1,), "lt": (-1,), "ge": (0, 1), "le": (-1, 0), "eq": (0,), "ne": (-1, 1)}
                if base not in table:
                    continue
                outcome = frozenset(table[base])
                if not t:
                    outcome = frozenset((-1, 0, 1)) - outcome
                # outcome: possible signs of a - b
                if not self.assume_sign(s, a, b, outcome):
                    return False
            elif c.op == "icmp":
                x, y = self.valof(s, c.args[0], c.ty), self.valof(s, c.args[1], c.ty)
                if x and y and x[0] == "int" and y[0] == "int":
                    lx, ux = self.bounds(x[1], s.facts)
                    ly, uy = self.bounds(y[1], s.facts)
                    if None in (lx, ux, ly, uy):
                        continue
                    pr = c.attr["pred"]
                    if not t:
                        pr = ir.NEGP[pr]
                    feas = {"eq": lx <= uy and ly <= ux, "ne": not (lx == ux == ly == uy), "slt": lx < uy, "sle": lx <= uy,
                            "sgt": ux > ly, "sge": ux >= ly}.get(pr, True)
                    if not feas:
                        return False
        return True

    def zvar(self, v):
        p = self.pnode(v[1])
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1:
                return m[0], (1 if c > 0 else -1) * (1 if v[0] > 0 else -1)
        return ("X", v[1]), (1 if v[0] > 0 else -1)

    def assume_sign(self, s, a, b, outcome):
        F_ = s.facts
        ca, cb = self.T.isconst(a), self.T.isconst(b)
        if ca is not None and cb is not None:
            sg = (ca > cb) - (ca < cb)
            return sg in outcome
        if cb == 0 or ca == 0:
            v = a if cb == 0 else b
            if ca == 0 and cb != 0:
                outcome = frozenset(-x for x in outcome)
            self.T.compute_tails(self.splitters())
            var, sg = self.zvar(v)
            out = frozenset(sg * x for x in outcome)
            old = F_.sign.get(var, frozenset((-1, 0, 1)))
            if var in F_.nonzero:
                old = old - {0}
            if var in F_.zero:
                old = old & {0}
            new = old & out
            if not new:
                return False
            sign = dict(F_.sign)
            sign[var] = new
            z, nz = F_.zero, F_.nonzero
            if new == {0}:
                z = z | {var}
            elif 0 not in new:
                nz = nz | {var}
            s.facts = Facts(z, nz, sign, F_.cmps)
            return True
        s.facts = Facts(F_.zero, F_.nonzero, F_.sign, F_.cmps | {(a, b, outcome)})
        return True

    def splitters(self):
        return self._spl

    def find_splitters(self):
        """the splitting constant is identified by its value, not by its name"""
        self._spl = {}
        for g, v in self.consts.items():
            t = self.front.mod.globals.get(g, "")
            m = re.search(r'\b(?:global|constant) (float|double) ', t)
            if m:
                p = {"float": 24, "double": 53}[m.group(1)]
                if v == 2 ** ((p + 1) // 2) + 1:
                    self._spl[m.group(1)] = self.T.leaf(("glob", g, m.group(1)))

    def ins(self, i, s):
        T = self.T
        if i.ty in FPT and i.op in ("fadd", "fsub", "fmul", "fdiv"):
            if i.attr.get("flags"):
                self.err("UNMODELLED", i, "floating point operation with value-changing flags")
            a, b = self.fval(s, i.args[0], i.ty), self.fval(s, i.args[1], i.ty)
            v = {"fadd": T.add, "fsub": T.sub, "fmul": T.mul, "fdiv": T.div}[i.op](a, b, i.ty)
            s.env[i.res] = ("fp", v)
        elif i.op == "fneg":
            s.env[i.res] = ("fp", T.neg(self.fval(s, i.args[0], i.ty)))
        elif i.op == "fpext":
            s.env[i.res] = ("fp", self.fval(s, i.args[0], i.attr["from"]))
        elif i.op == "fptrunc":
            v = self.fval(s, i.args[0], i.attr["from"])
            s.env[i.res] = ("fp", self.trunc(v, i.ty))
        elif i.op == "load":
            self.load(i, s)
        elif i.op == "store":
            self.store(i, s)
        elif i.op == "gep":
            self.gep(i, s)
        elif i.op == "alloca":
            pass
        elif i.op in ("add", "sub") and i.ty in ("i32", "i64"):
            x, y = self.valof(s, i.args[0], i.ty), self.valof(s, i.args[1], i.ty)
            s.env[i.res] = None
            if x and y and x[0] == "int" and y[0] == "int":
                if y[1][0] == "c":
                    s.env[i.res] = ("int", self.addc(x[1], y[1][1] if i.op == "add" else -y[1][1]))
                elif x[1][0] == "c" and i.op == "add":
                    s.env[i.res] = ("int", self.addc(y[1], x[1][1]))
        elif i.op in ("sext", "zext", "trunc", "freeze"):
            v = self.valof(s, i.args[0], i.attr.get("from", i.ty))
            if v and i.op == "trunc" and i.ty == "i1" and v[0] == "int":
                v = self.tobool(v)
            if v and i.op == "sext" and v[0] == "bool":
                v = None
            s.env[i.res] = v
        elif i.op in ("fcmp", "icmp", "and", "or", "xor", "select") and (i.ty in FPT or i.ty == "i1" or i.op in ("fcmp", "icmp") or i.ty in ("i8", "i32")):
            s.env[i.res] = self.boolean(i, s)
        elif i.op == "call":
            self.call(i, s)
        elif i.op in ("bitcast",):
            s.env[i.res] = self.valof(s, i.args[0], i.attr.get("from", i.ty))
        else:
            if i.res:
                s.env[i.res] = None
            if i.op not in ("phi",):
                self.err("UNMODELLED", i, "instruction not modelled: %s" % i.op)

    SIGNS = {"gt": (1,), "lt": (-1,), "ge": (0, 1), "le": (-1, 0), "eq": (0,), "ne": (-1, 1)}

    def tobool(self, v):
        """0/1 valued view of a value, or None"""
        if v is None or v[0] == "bool":
            return v
        if v[0] != "int":
            return None

        def conv(iv):
            if iv[0] == "c":
                return ("c", iv[1]) if iv[1] in (0, 1, -1) else None
            if iv[0] == "join":
                x, y = conv(iv[2]), conv(iv[3])
                return None if x is None or y is None else ("join", iv[1], x, y)
            return None
        b = conv(v[1])
        return ("bool", b) if b else None

    def boolean(self, i, s):
        """value of a comparison or of a combination of truth values: ('bool', tree)"""
        if i.op == "fcmp":
            base = i.attr["pred"][1:]
            if base not in self.SIGNS:
                return None
            return ("bool", ("cmp", self.fval(s, i.args[0], i.ty), self.fval(s, i.args[1], i.ty), frozenset(self.SIGNS[base])))
        if i.op == "icmp" and i.attr["pred"] in ("eq", "ne"):
            for a, b in ((0, 1), (1, 0)):
                k = {("const", "false"): 0, ("const", "true"): 1}.get(i.args[b], const_int(i.args[b]))
                v = self.valof(s, i.args[a], i.ty)
                if k in (0, 1) and v and v[0] == "bool":
                    return v if (k == 1) == (i.attr["pred"] == "eq") else ("bool", ("not", v[1]))
            return None
        if i.op == "xor" and i.ty in ("i1", "i8"):
            v = self.tobool(self.valof(s, i.args[0], i.ty))
            if v and (i.args[1] == ("const", "true") or const_int(i.args[1]) in (1, -1)):
                return ("bool", ("not", v[1]))
            return None
        if i.op in ("and", "or"):
            v = [self.tobool(self.boolconst(a) or self.valof(s, a, i.ty)) for a in i.args[:2]]
            if all(v):
                return ("bool", (i.op, v[0][1], v[1][1]))
        return None

    def boolconst(self, a):
        return {("const", "false"): ("bool", ("c", 0)), ("const", "true"): ("bool", ("c", 1))}.get(a)

    def worlds(self, b, want, facts, depth=0):
        """fact sets under which the truth value b is `want` (a cover of all of them)"""
        if depth > 40:
            return [facts]
        k = b[0]
        if k == "c":
            return [facts] if (b[1] != 0) == want else []
        if k == "cmp":
            s = State()
            s.facts = facts
            ok = self.assume_sign(s, b[1], b[2], b[3] if want else frozenset((-1, 0, 1)) - b[3])
            return [s.facts] if ok else []
        if k == "not":
            return self.worlds(b[1], not want, facts, depth + 1)
        if k in ("and", "or"):
            if (k == "and") == want:
                return [w2 for w in self.worlds(b[1], want, facts, depth + 1) for w2 in self.worlds(b[2], want, w, depth + 1)]
            return self.worlds(b[1], want, facts, depth + 1) + [
                w2 for w in self.worlds(b[1], not want, facts, depth + 1) for w2 in self.worlds(b[2], want, w, depth + 1)]
        if k == "join":
            r = []
            for side in self.alt(b[1], facts):
                r += self.worlds(b[2 + side], want, self.joinfacts[b[1]][side].meet(facts), depth + 1)
                if len(r) > 200:
                    return [facts]
            return r
        return [facts]

    def exactfloat(self, v):
        """value representable in single precision"""
        k = self.T.node[v[1]]
        if k[0] in ("coord", "est", "top"):
            return True
        if k[0] in ("add", "mul", "div", "round", "fma"):
            return k[-1] == "float"
        if k[0] == "glob":
            return k[2] == "float"
        if k[0] == "abs":
            return self.exactfloat((F(1), k[1]))
        if k[0] == "const":
            return k[1].numerator < 2 ** 24
        if k[0] == "join":
            return self.exactfloat(k[2]) and self.exactfloat(k[3])
        return False

    def trunc(self, v, ty):
        T = self.T
        if self.exactfloat(v):
            return v
        k = T.node[v[1]]
        if k[0] == "add" and k[3] == "double" and self.exactfloat(k[1]) and self.exactfloat(k[2]):
            r = T.add(k[1], k[2], ty)
            return (r[0] * v[0], r[1])
        if k[0] == "mul" and k[3] == "double" and self.exactfloat((F(1), k[1])) and self.exactfloat((F(1), k[2])):
            r = T.mul((F(1), k[1]), (F(1), k[2]), ty)
            return (r[0] * v[0], r[1])
        return (v[0], T.mk(("round", v[1], ty)))

    def ptr(self, s, a):
        v = self.valof(s, a, "ptr")
        return v if v and v[0] in ("ptr", "dyn") else None

    def gep(self, i, s):
        p = self.ptr(s, i.args[0])
        s.env[i.res] = None
        if p is None or p[0] != "ptr":
            if p is not None:
                s.env[i.res] = None
            return
        bty = i.attr["base"]
        idx = i.args[1:]
        tys = i.attr["tys"][1:]
        if isinstance(bty, tuple) and bty[0] == "arr" and bty[2] in FPT and len(idx) == 2 and const_int(idx[0]) == 0:
            x = self.valof(s, idx[1], tys[1])
        elif isinstance(bty, tuple) and bty[0] == "arr" and bty[2] in FPT and len(idx) == 1 and const_int(idx[0]) == 0:
            x = ("int", ("c", 0))
        elif bty in FPT and len(idx) == 1:
            x = self.valof(s, idx[0], tys[0])
        else:
            return
        if x is None or x[0] != "int":
            return
        if x[1][0] == "c":
            s.env[i.res] = ("ptr", p[1], p[2] + x[1][1])
        else:
            s.env[i.res] = ("dyn", p[1], p[2], x[1])

    def load(self, i, s):
        T = self.T
        a = i.args[0]
        if i.ty not in FPT:
            s.env[i.res] = None
            return
        if isinstance(a, str) and a.startswith("@"):
            s.env[i.res] = ("fp", T.leaf(("glob", a[1:].strip('"'), i.ty)))
            return
        p = self.ptr(s, a)
        if p is None:
            self.err("MEM", i, "read through a pointer the analysis cannot resolve")
            s.env[i.res] = ("fp", T.leaf(("unknown", i.res)))
            return
        if p[1] in self.kparam:
            k = self.kparam[p[1]]
            if p[0] != "ptr" or not (0 <= p[2] < self.dim):
                self.err("MEM", i, "coordinate %s of a %d-dimensional point is read" % (p[2] if p[0] == "ptr" else "?", self.dim))
                s.env[i.res] = ("fp", T.leaf(("unknown", i.res)))
                return
            self.ok("MEM")
            s.env[i.res] = ("fp", T.leaf(("coord", k, p[2])))
            return
        if p[0] == "dyn":
            root, off, iv = p[1], p[2], p[3]
            L = self.addc(iv, 1)
            lo, hi = self.bounds(L, s.facts)
            if lo is None or lo < 1 or off + hi > self.allocas[root]:
                self.err("MEM", i, "array element read at an index outside the array (length %s..%s of %d)" % (lo, hi, self.allocas[root]))
            else:
                self.ok("MEM")
            try:
                T.compute_tails(self.splitters())
                c = self.content(s.mem[root], off, L, s.facts)
                v = T.leaf(("top", c))
                self.polys[v[1]] = c.p
                s.env[i.res] = ("fp", v)
            except Fail as e:
                self.err("CONTENT", i, "the highest component read here is not the top of an expansion: %s" % e)
                s.env[i.res] = ("fp", T.leaf(("unknown", i.res)))
            return
        root, off = p[1], p[2]
        if not 0 <= off < self.allocas[root]:
            self.err("MEM", i, "array element %d of %d read" % (off, self.allocas[root]))
            s.env[i.res] = ("fp", T.leaf(("unknown", i.res)))
            return
        e = s.mem[root]
        if e[0] == "cells" and off in dict(e[1]):
            self.ok("MEM")
            s.env[i.res] = ("fp", dict(e[1])[off])
            return
        # a constant index may still be the top of an expansion of that constant length
        if e[0] == "cells":
            self.err("MEM", i, "array element %d is read before it is written" % off)
        s.env[i.res] = ("fp", T.leaf(("unknown", i.res)))

    def store(self, i, s):
        ty = None
        p = self.ptr(s, i.args[1])
        if p is None or p[0] != "ptr" or p[1] in self.kparam:
            self.err("MEM", i, "store through a pointer the analysis cannot resolve")
            return
        root, off = p[1], p[2]
        if not 0 <= off < self.allocas[root]:
            self.err("MEM", i, "array element %d of %d written" % (off, self.allocas[root]))
            return
        self.ok("MEM")
        v = self.fval(s, i.args[0], self.fp)
        e = s.mem[root]
        d = self.cells_of(e)
        d[off] = v
        s.mem[root] = ("cells", tuple(sorted(d.items())))

    def cells_of(self, e):
        if e[0] == "cells":
            return dict(e[1])
        if e[0] == "join":
            a, b = self.cells_of(e[2]), self.cells_of(e[3])
            r = {}
            for k in a:
                if k in b:
                    r[k] = self.mergeval(e[1], ("fp", a[k]), ("fp", b[k]))[1]
            return r
        return {}

    # ------------------------------------------------------------------ calls
    def call(self, i, s):
        T = self.T
        c = i.attr["callee"]
        if isinstance(c, str) and c.startswith("@llvm.lifetime"):
            if c.startswith("@llvm.lifetime.start"):
                p = self.ptr(s, i.args[-1])
                if p and p[1] in self.allocas:
                    s.mem[p[1]] = ("cells", ())
            return
        if isinstance(c, str) and (c.startswith("@llvm.fabs") or c.startswith("@fabs") or c.startswith("@fabsf")):
            s.env[i.res] = ("fp", T.abs(self.fval(s, i.args[0], i.ty)))
            return
        n = c[1:].strip('"') if isinstance(c, str) else None
        if n not in self.front.ops:
            self.err("UNMODELLED", i, "call of %s is not modelled" % c)
            if i.res:
                s.env[i.res] = None
            return
        kind = self.front.ops[n]
        T.compute_tails(self.splitters())
        f = self.front.mod.funcs[n]
        pairs = self.front.lenargs[n]      # array position -> length position
        tys = i.attr["tys"] if "tys" in i.attr else [t for t, _ in f.params]
        out = self.front.outarg.get(n)
        P = {}
        ub = {}
        roots = []
        bad = False
        for ap, lp in pairs.items():
            p = self.ptr(s, i.args[ap])
            lv = self.valof(s, i.args[lp], "i32")
            if p is None or p[0] != "ptr" or p[1] not in self.allocas or lv is None or lv[0] != "int":
                self.err("CONTENT", i, "argument %d of %s is not a local array with a known length" % (ap, self.short(n)))
                bad = True
                continue
            lo, hi = self.bounds(lv[1], s.facts)
            if lo is None or lo < 1:
                self.err("MEM", i, "the length passed to %s may be %s" % (self.short(n), lo))
                bad = True
                continue
            if p[2] < 0 or p[2] + hi > self.allocas[p[1]]:
                self.err("MEM", i, "%s reads %d components of an array of %d" % (self.short(n), hi, self.allocas[p[1]]))
            else:
                self.ok("MEM")
            ub[ap] = hi
            roots.append((p[1], p[2], hi))
            try:
                P[ap] = self.content(s.mem[p[1]], p[2], lv[1], s.facts)
                self.ok("CONTENT")
            except Fail as e:
                self.err("CONTENT", i, "argument %d of %s (array %s): %s" % (ap, self.short(n), p[1].split(".")[0].lstrip("%"), e))
                bad = True
        if kind == "estimate":
            if bad:
                s.env[i.res] = ("fp", T.leaf(("unknown", i.res)))
            else:
                q = list(P.values())[0]
                v = T.leaf(("est", q))
                self.polys[v[1]] = q.p
                s.env[i.res] = ("fp", v)
            return
        p = self.ptr(s, i.args[out])
        if p is None or p[0] != "ptr" or p[1] not in self.allocas:
            self.err("MEM", i, "result of %s goes to an unresolved array" % self.short(n))
            s.env[i.res] = None
            return
        self.nid += 1
        if kind == "sum":
            cap = sum(ub.values()) if len(ub) == 2 else None
        else:
            cap = 2 * list(ub.values())[0] if ub else None
        if cap is not None:
            if p[2] + cap > self.allocas[p[1]]:
                self.err("MEM", i, "result of %s may have %d components, the array has %d" % (self.short(n), cap, self.allocas[p[1]]))
            else:
                self.ok("MEM")
            for (r, o, h) in roots:
                if r == p[1] and not (o + h <= p[2] or p[2] + cap <= o):
                    self.err("MEM", i, "result array of %s overlaps an argument" % self.short(n))
                    bad = True
        self.idub[self.nid] = cap if cap is not None else 1
        l = ("id", self.nid)
        s.env[i.res] = ("int", l)
        if bad:
            s.mem[p[1]] = ("bad",)
            return
        if kind == "sum":
            a, b = P.values()
            q = FP(padd(a.p, b.p))
        else:
            a, = P.values()
            bpos = [k for k, (t, _) in enumerate(f.params) if t in FPT][0]
            bv = self.fval(s, i.args[bpos], f.params[bpos][0])
            q = FP(pmul(a.p, self.pval(bv)))
        s.mem[p[1]] = self.mkexp(q, l, p[2])

    def short(self, n):
        d = self.front.dem.get(n, n)
        return d.split("(")[0].split("::")[-1]

    # ------------------------------------------------------------------ loops that map over an expansion
    def map_loop(self, h, s, inc):
        """for (i = 0; i < len; ++i) q[i] = +-p[i]"""
        f = self.f
        body = self.cfg.loops[h]
        hb = f.blocks[h]
        info = self.loop_shape(h, body)
        exits = [(b, x) for b in body for x in f.blocks[b].succs if x not in body]
        if info is None or len(exits) != 1:
            self.err("UNMODELLED", hb.term, "loop not recognised as an element-wise copy or negation of an expansion")
            for (b, x) in exits:
                s2 = s.copy()
                for blk in body:
                    for i in f.blocks[blk].ins:
                        if i.res:
                            s2.env[i.res] = None
                for a in s2.mem:
                    s2.mem[a] = ("bad",)
                inc[x].append((b, s2))
            return
        lenv, src, dst, sign, pre, store = info
        for i in pre:
            self.ins(i, s)
        L = self.valof(s, lenv, "i32")
        ps, pd = self.ptr(s, src), self.ptr(s, dst)
        ok = L and ps and pd and L[0] == "int" and ps[0] == pd[0] == "ptr" and ps[1] in self.allocas and pd[1] in self.allocas
        if not ok:
            self.err("UNMODELLED", store, "loop over an array the analysis cannot resolve")
        else:
            lo, hi = self.bounds(L[1], s.facts)
            if lo is None or lo < 0 or pd[2] + hi > self.allocas[pd[1]] or ps[2] + hi > self.allocas[ps[1]]:
                self.err("MEM", store, "loop runs over %s components of an array of %d" % (hi, self.allocas[pd[1]]))
            else:
                self.ok("MEM")
            self.T.compute_tails(self.splitters())
            try:
                p = self.content(s.mem[ps[1]], ps[2], L[1], s.facts)
                s.mem[pd[1]] = self.mkexp(FP(pscale(p.p, sign)), L[1], pd[2])
                self.ok("CONTENT")
            except Fail as e:
                self.err("CONTENT", store, "element-wise loop over %s: %s" % (src, e))
                s.mem[pd[1]] = ("bad",)
        b, x = exits[0]
        s2 = s.copy()
        for blk in body:
            for i in f.blocks[blk].ins:
                if i.res and i.res not in s2.env:
                    s2.env[i.res] = None
        inc[x].append((b, s2))

    def loop_shape(self, h, body):
        f = self.f
        hb = f.blocks[h]
        phis = [i for i in hb.ins if i.op == "phi"]
        if len(phis) != 1:
            return None
        phi = phis[0]
        t = hb.term
        if t.op != "br" or not t.args:
            return None
        inv = set()
        for b in body:
            for i in f.blocks[b].ins:
                if i.res:
                    inv.add(i.res)
        init = nxt = None
        for a, p in zip(phi.args, phi.attr["from"]):
            if p in body:
                nxt = a
            else:
                init = a

        def idx(v):
            """v == phi (through casts)?"""
            d = f.defs.get(v) if isinstance(v, str) else None
            while d is not None and d.op in ("sext", "zext", "trunc"):
                v = d.args[0]
                d = f.defs.get(v)
            return v == phi.res
        nd = f.defs.get(nxt)
        if nd is None or nd.op not in ("add", "sub"):
            return None
        step = const_int(nd.args[1])
        if step is None or not idx(nd.args[0]):
            return None
        step = step if nd.op == "add" else -step
        cond = f.defs.get(t.args[0])
        if cond is None or cond.op != "icmp":
            return None
        stay = t.attr["to"][0] in body
        pr = cond.attr["pred"] if stay else ir.NEGP[cond.attr["pred"]]
        a, b = cond.args
        lenv = None
        if step == 1 and const_int(init) == 0:
            if idx(a) and pr in ("slt", "ult", "ne"):
                lenv = b
            elif idx(b) and pr in ("sgt", "ugt", "ne"):
                lenv = a
        if lenv is None or (isinstance(lenv, str) and lenv in inv):
            d = f.defs.get(lenv) if isinstance(lenv, str) else None
            if d is None or d.op not in ("sext", "zext") or d.args[0] in inv:
                return None
            lenv = d.args[0]
        d = f.defs.get(lenv) if isinstance(lenv, str) else None
        if d is not None and d.op in ("sext", "zext"):
            lenv = d.args[0]
        store = load = None
        for blk in body:
            for i in f.blocks[blk].ins:
                if i.op == "store":
                    if store:
                        return None
                    store = i
                elif i.op == "load":
                    if load:
                        return None
                    load = i
                elif i.op in ("call", "fadd", "fsub", "fmul", "fdiv"):
                    return None
        if not store or not load:
            return None
        pre = []

        def base(p):
            g = f.defs.get(p)
            if g is None or g.op != "gep" or not idx(g.args[-1]):
                return None
            if len(g.args) == 3 and const_int(g.args[1]) != 0:
                return None
            if g.args[0] in inv:
                return None
            return g.args[0]
        src, dst = base(load.args[0]), base(store.args[1])
        if src is None or dst is None:
            return None
        v = store.args[0]
        sign = 1
        while isinstance(v, str) and v != load.res:
            d = f.defs.get(v)
            if d is None:
                return None
            if d.op == "fneg":
                sign = -sign
                v = d.args[0]
            elif d.op in ("fpext", "fptrunc"):
                v = d.args[0]
            else:
                return None
        if v != load.res:
            return None
        return lenv, src, dst, sign, pre, store

    # ------------------------------------------------------------------ returns
    def ret(self, t, s):
        self.returns += 1
        self.T.compute_tails(self.splitters())
        v = self.fval(s, t.args[0], self.fp)
        why = self.certify(v, s.facts, 3)
        if why is None:
            self.ok("SIGN")
        else:
            self.err("SIGN", self.retsite(t, v), "returned value %s: %s" % (self.T.show(v, 2)[:80], why))

    def retsite(self, t, v):
        return t

    def certify(self, v, facts, depth):
        T = self.T
        k = T.node[v[1]]
        if k[0] == "join":
            J, a, b = self.joinvals[v[1]]
            for side, x in ((0, a), (1, b)):
                if side in self.alt(J, facts):
                    w = self.certify((x[0] * v[0], x[1]), self.joinfacts[J][side].meet(facts), depth)
                    if w:
                        return w
            return None
        errs = []
        for rule in (self.r_top, self.r_est, self.r_sign, self.r_guard):
            w = rule(v, facts)
            if w is None:
                self.certs[rule.__name__] = self.certs.get(rule.__name__, 0) + 1
                return None
            if w:
                errs.append(w)
        return errs[-1] if errs else "not derived from the determinant"

    # canonical form: everything in coordinates
    def canon(self, p, facts):
        sub = {}
        for var in pvars(p):
            if var[0] == "T":
                if var in facts.zero:
                    sub[var] = {}
                else:
                    sub[var] = psub(self.exactdiff(var[1]), pvar(("D", var[1])))
            elif var[0] == "D" and ("T", var[1]) in facts.zero:
                sub[var] = self.exactdiff(var[1])
        return psubst(p, sub) if sub else p

    def killed(self, p, facts):
        return {m: c for m, c in p.items() if not any(v in facts.zero for v in m)}

    def same_as_det(self, p, facts):
        """p == k*DET with k > 0 under the facts"""
        p = self.killed(p, facts)
        q = self.canon(p, facts)
        d = self.det
        if not q:
            return None
        m = next(iter(d))
        if m not in q:
            return None
        k = q[m] / d[m]
        if k <= 0 or any(q.get(mm, 0) != k * c for mm, c in d.items()) or len(q) != len(d):
            return None
        return k

    def r_top(self, v, facts):
        k = self.T.node[v[1]]
        if k[0] != "top":
            return ""
        p = pscale(self.polys[v[1]], v[0])
        if self.same_as_det(p, facts):
            return None
        d = psub(self.canon(self.killed(p, facts), facts), self.det)
        return "the expansion whose top component is returned does not sum to the determinant (difference has %d terms: %s)" % (
            len(d), pstr(d, self.vname, 4))

    def vname(self, v):
        if v[0] == "x":
            return "%s%s" % ("abcde"[v[1]], "xyz"[v[2]])
        if v[0] in "DT":
            k = self.T.node[v[1]]
            def cn(x):
                kk = self.T.node[x[1]]
                return "%s%s" % ("abcde"[kk[1]], "xyz"[kk[2]])
            return ("fl" if v[0] == "D" else "tail") + "(%s-%s)" % (cn(k[1]), cn(k[2]))
        return "t%s" % (v[1],)

    def r_est(self, v, facts):
        """an estimate of an expansion has the sign of the expansion only if it is exact or guarded; with all tails zero
        the expansion is the determinant, and an estimate always has the sign of its expansion"""
        k = self.T.node[v[1]]
        if k[0] != "est":
            return ""
        p = pscale(self.polys[v[1]], v[0])
        if self.same_as_det(p, facts):
            return None
        return "the estimate returned is of an expansion that is not the determinant under the tests passed"

    # ---- sign-exact subtraction
    def sign_exact(self, n):
        """(exact polynomial) if fl-value n has exactly the sign of the polynomial"""
        k = self.T.node[n]
        if k[0] == "coord":
            return self.pnode(n)
        if k[0] == "const":
            return pconst(k[1])
        if self.isdiff(n):
            return self.exactdiff(n)
        if k[0] == "mul":
            a, b = self.sign_exact(k[1]), self.sign_exact(k[2])
            if a is not None and b is not None:
                return pmul(a, b)
        return None

    def sgn(self, v, facts):
        var, sg = self.zvar(v)
        S = facts.sign.get(var, frozenset((-1, 0, 1)))
        if var in facts.zero:
            S = S & {0}
        if var in facts.nonzero:
            S = S - {0}
        c = self.T.isconst(v)
        if c is not None:
            return frozenset(((c > 0) - (c < 0),))
        return frozenset(sg * x for x in S)

    def r_sign(self, v, facts):
        k = self.T.node[v[1]]
        if k[0] != "add":
            p = self.sign_exact(v[1])
            if p is None:
                return ""
            p = pscale(p, v[0])
            return None if p == self.det else ""
        a, b = (k[1][0] * v[0], k[1][1]), (k[2][0] * v[0], k[2][1])
        p, q = self.sign_exact(a[1]), self.sign_exact(b[1])
        if p is None or q is None:
            return ""
        if padd(pscale(p, a[0]), pscale(q, b[0])) != self.det:
            return ""
        sa, sb = self.sgn(a, facts), self.sgn(b, facts)
        if sa == {0} or sb == {0}:
            return None
        if sa <= {0, 1} and sb <= {0, 1} or sa <= {0, -1} and sb <= {0, -1}:
            return None
        return "returned without an error test although cancellation is possible"

    # ---- guarded returns
    def abscmp(self, v, facts):
        """bounds E with |v| >= E known from the comparisons passed"""
        out = []
        for (a, b, outcome) in facts.cmps:
            # a - b in outcome
            rev = frozenset(-z for z in outcome)
            na, nb = (-a[0], a[1]), (-b[0], b[1])
            for x, e, oc in ((a, b, outcome), (b, a, rev), (nb, na, outcome), (na, nb, rev)):
                if not oc <= {0, 1}:
                    continue
                # x >= e
                kx = self.T.node[x[1]]
                if x[1] == v[1]:
                    if abs(x[0]) == abs(v[0]):
                        out.append(e)
                elif kx[0] == "abs" and kx[1] == v[1] and x[0] == abs(v[0]):
                    out.append(e)
        return out

    def r_guard(self, v, facts):
        Es = self.abscmp(v, facts)
        if not Es:
            return "no error bound test passed on this path"
        last = ""
        for e in Es:
            w = self.guard_ok(v, e, facts)
            if w is None:
                return None
            last = w
        return last

    def guard_ok(self, v, e, facts):
        try:
            return self._guard_ok(v, e, facts)
        except Fail as x:
            return str(x)

    def _guard_ok(self, v, e, facts):
        T = self.T
        slack = F(1)     # need Err_s < |s|, |s| >= |v| * slack
        x = v
        # peel final roundings
        while True:
            k = T.node[x[1]]
            if k[0] == "round":
                slack /= 1 + EPS[k[2]]
                x = (x[0], k[1])
            else:
                break
        k = T.node[x[1]]
        if k[0] == "add":
            slack /= 1 + EPS[k[3]]
            P1, E1 = self.rec((k[1][0] * x[0], k[1][1]), facts)
            P2, E2 = self.rec((k[2][0] * x[0], k[2][1]), facts)
            P, Err = padd(P1, P2), padd(E1, E2)
        elif k[0] == "est":
            # the value tested is the estimate, the quantity that must not change sign is the expansion itself
            P, Err = pscale(self.polys[x[1]], x[0]), {}
            slack /= 1 + self.est_rho()
        else:
            P, Err = self.rec(x, facts)
        lbE = self.lower(e, facts)
        # determinant in terms of D and T
        det = self.det_in(P, x, facts)
        if det is None:
            return "the determinant cannot be expressed in the differences used"
        diff = self.killed(psub(det, P), facts)
        for var in pvars(diff):
            if var[0] == "x":
                return "the guarded value does not approximate the determinant (a coordinate remains: %s)" % self.vname(var)
        tot = padd(self.maj(diff), Err)
        tot = self.tsub(tot)
        lbE = pscale(self.tsub_low(lbE), slack)
        worst = None
        for m, c in tot.items():
            l = lbE.get(m, 0)
            if l:
                self.second = max(getattr(self, "second", F(-100)), min((c / l - 1) / EPS[self.fp], F(10 ** 6)))
            tol = SECOND_TOL if c < EPS[self.fp] else FIRST_TOL * EPS[self.fp]
            if not c < l * (1 + tol):
                w = (m, c, l)
                if worst is None or l == 0 or (worst[2] and c / l > worst[1] / worst[2]):
                    worst = w
        if worst:
            m, c, l = worst
            return "error bound too small: coefficient of %s in the error is %.17g, the bound tested guarantees only %.17g" % (
                "*".join(self.vname(z) for z in m) or "1", float(c), float(l))
        return None

    def det_in(self, P, x, facts):
        """substitute a = fl(a-e) + tail + e for the differences x is made of"""
        ds = set()
        self.support(x[1], ds, set())
        for var in pvars(P):
            if var[0] in "DT":
                ds.add(var[1])
        sub = {}
        for n in sorted(ds):
            k = self.T.node[n]
            (c1, n1), (c2, n2) = k[1], k[2]
            # D+T = c1*x1 + c2*x2 ; solve for the coordinate whose point is not the common reference
            p1, p2 = self.T.node[n1], self.T.node[n2]
            sub.setdefault(n, (c1, p1, c2, p2))
        # reference point: the one occurring in all differences
        cnt = {}
        for (c1, p1, c2, p2) in sub.values():
            for p in (p1, p2):
                cnt[p[1]] = cnt.get(p[1], 0) + 1
        refs = [r for r, c in cnt.items() if c == len(sub)]
        if not refs:
            return None
        for ref in refs:
            S = {}
            good = True
            for n, (c1, p1, c2, p2) in sub.items():
                if p1[1] == ref:
                    c1, p1, c2, p2 = c2, p2, c1, p1
                if p2[1] != ref or p1[1] == ref:
                    good = False
                    break
                dt = padd(pvar(("D", n)), {} if ("T", n) in facts.zero else pvar(("T", n)))
                val = pscale(padd(dt, pscale(pvar(("x", p2[1], p2[2])), c2), -1), 1 / c1)
                key = ("x", p1[1], p1[2])
                if key in S and S[key] != val:
                    good = False
                S[key] = val
            if good:
                return psubst(self.det, S)
        return None

    def support(self, n, ds, seen):
        if n in seen:
            return
        seen.add(n)
        if self.isdiff(n):
            ds.add(n)
            return
        k = self.T.node[n]
        if k[0] == "add":
            self.support(k[1][1], ds, seen)
            self.support(k[2][1], ds, seen)
        elif k[0] == "mul":
            self.support(k[1], ds, seen)
            self.support(k[2], ds, seen)
        elif k[0] in ("abs", "round"):
            self.support(k[1], ds, seen)

    def maj(self, p):
        return {m: abs(c) for m, c in p.items()}

    def merge_abs(self, p):
        return p

    def tsub(self, p):
        """upper bound: |T| <= eps |D|"""
        r = {}
        for m, c in p.items():
            mm = []
            for v in m:
                if v[0] == "T":
                    c = c * EPS[self.T.node[v[1]][3]]
                    mm.append(("D", v[1]))
                elif v[0] in ("D", "EST"):
                    mm.append(v)
                else:
                    raise Fail("the error involves a quantity without a bound (%s)" % (v,))
            mm = tuple(sorted(mm))
            r[mm] = r.get(mm, 0) + c
        return r

    def tsub_low(self, p):
        return {m: c for m, c in p.items() if all(v[0] in ("D", "EST") for v in m)}

    def rec(self, v, facts):
        P, E = self.recn(v[1], facts)
        return pscale(P, v[0]), pscale(E, abs(v[0]))

    def recn(self, n, facts):
        """(exact polynomial intended, majorant of the deviation) of term n"""
        T = self.T
        key = n
        if key in self._rec:
            return self._rec[key]
        k = T.node[n]
        if k[0] == "coord" or k[0] == "const" or self.isdiff(n):
            r = self.pnode(n), {}
        elif k[0] == "est":
            r = self.polys[n], {(("EST", n),): self.est_rho()}
        elif n in self.tops and len(self.tops[n]) > 1:
            # the highest component of an expansion stands for the expansion, the rest is the error
            L = self.tops[n]
            c = L[-1][0]
            P, E = {}, {}
            for v in L:
                P = padd(P, pscale(self.pval(v), 1 / c))
            for v in L[:-1]:
                E = padd(E, pscale(self.mag(v[1]), abs(v[0] / c)))
            if any(v[0] not in "DT" for v in pvars(P)):
                raise Fail("the error analysis does not know the exact value of an expansion")
            r = P, E
        elif n in T.tail:
            p = self.tailpoly(n)
            if all(v[0] in "DT" for v in pvars(p)):
                r = p, {}
            else:
                raise Fail("a roundoff term other than that of a coordinate difference is used in the guarded value")
        elif k[0] == "add":
            e = EPS[k[3]]
            (P1, E1), (P2, E2) = self.rec(k[1], facts), self.rec(k[2], facts)
            P = padd(P1, P2)
            if any(T.node[x[1]][0] == "est" for x in (k[1], k[2])):
                raise Fail("an estimate is combined before the last operation")
            E = padd(E1, E2)
            E = padd(E, pscale(padd(self.maj(P), E), e))
            r = P, E
        elif k[0] == "mul":
            e = EPS[k[3]]
            (P1, E1), (P2, E2) = self.recn(k[1], facts), self.recn(k[2], facts)
            P = pmul(P1, P2)
            E = padd(padd(pmul(self.maj(P1), E2), pmul(self.maj(P2), E1)), pmul(E1, E2))
            E = padd(E, pscale(padd(self.maj(P), E), e))
            r = P, E
        elif k[0] == "round":
            e = EPS[k[2]]
            P, E = self.recn(k[1], facts)
            r = P, padd(E, pscale(padd(self.maj(P), E), e))
        else:
            raise Fail("the guarded value contains a term the error analysis does not model (%s)" % k[0])
        self._rec[key] = r
        return r

    def mag(self, n):
        """majorant of |term n| in terms of |D|, |T|"""
        if n in self._mag:
            return self._mag[n]
        T = self.T
        k = T.node[n]
        if k[0] in ("coord", "const") or self.isdiff(n):
            r = self.maj(self.pnode(n))
        elif n in T.tail:
            p = self.tailpoly(n)
            if len(p) == 1 and all(v[0] in "DT" for v in pvars(p)):
                r = self.maj(p)
            else:
                (kind, c, x, a, b) = T.tail[n][0]
                r = pscale(self.mag(x[1]), abs(c * x[0]) * EPS[T.node[x[1]][3]])
        elif k[0] == "add":
            r = padd(pscale(self.mag(k[1][1]), abs(k[1][0])), pscale(self.mag(k[2][1]), abs(k[2][0])))
            r = pscale(r, 1 + EPS[k[3]])
        elif k[0] == "mul":
            r = pscale(pmul(self.mag(k[1]), self.mag(k[2])), 1 + EPS[k[3]])
        else:
            raise Fail("no magnitude known for a term of kind %s" % k[0])
        self._mag[n] = r
        return r

    def est_rho(self):
        """an estimate errs by less than an ulp of the expansion"""
        eps = EPS[self.fp]
        return 2 * eps / (1 - 2 * eps)

    # lower bound of a non-negative value
    def lower(self, v, facts):
        r = self.low(v, facts, 0)
        if r is None:
            raise Fail("the error bound tested is not provably non-negative")
        return r

    def low(self, v, facts, depth):
        """polynomial (in |D|, |EST|) below the value v, None if v may be negative"""
        T = self.T
        c, n = v
        k = T.node[n]
        cst = T.isconst(v)
        if cst is not None:
            return pconst(cst) if cst >= 0 else None
        if k[0] == "glob":
            g = self.consts.get(k[1])
            if g is None or c * g < 0:
                return None
            return pconst(c * g)
        if k[0] == "abs":
            return pscale(self.lowabs(k[1], facts), c) if c > 0 else None
        if k[0] == "join":
            J, a, b = self.joinvals[n]
            rs = []
            for side, x in ((0, a), (1, b)):
                if side in self.alt(J, facts):
                    r = self.low((x[0] * c, x[1]), self.joinfacts[J][side].meet(facts), depth + 1)
                    if r is None:
                        return None
                    rs.append(r)
            out = rs[0]
            for r in rs[1:]:
                out = {m: min(x, r.get(m, 0)) for m, x in out.items() if r.get(m, 0) > 0}
            return out
        S = self.sgn(v, facts)
        if k[0] == "add":
            a = self.low((k[1][0] * c, k[1][1]), facts, depth + 1)
            b = self.low((k[2][0] * c, k[2][1]), facts, depth + 1)
            if a is not None and b is not None:
                return pscale(padd(a, b), 1 - EPS[k[3]])
        if k[0] == "round":
            a = self.low((c, k[1]), facts, depth + 1)
            return None if a is None else pscale(a, 1 - EPS[k[2]])
        if k[0] == "mul":
            e = EPS[k[3]]
            if k[1] == k[2] and c > 0:
                a = self.lowabs(k[1], facts)
                return pscale(pmul(a, a), c * (1 - e))
            for sg in (1, -1):
                a = self.low((F(sg), k[1]), facts, depth + 1)
                b = self.low((sg * c, k[2]), facts, depth + 1)
                if a is not None and b is not None:
                    return pscale(pmul(a, b), (1 - e))
        if S <= {0, 1}:
            return pscale(self.lowabs(n, facts), abs(c))
        return None

    def lowabs(self, n, facts):
        T = self.T
        k = T.node[n]
        if self.isdiff(n):
            return pvar(("D", n))
        if k[0] == "est":
            return pvar(("EST", n))
        if k[0] == "mul":
            return pscale(pmul(self.lowabs(k[1], facts), self.lowabs(k[2], facts)), 1 - EPS[k[3]])
        if k[0] == "abs":
            return self.lowabs(k[1], facts)
        if k[0] in ("add", "round", "glob", "const", "join"):
            for sg in (1, -1):
                r = self.low((F(sg), n), facts, 1) if not (k[0] == "add" and False) else None
                if r is not None:
                    return r
        return {}


class FP:
    """hashable polynomial"""
    __slots__ = ("p", "h")

    def __init__(self, p):
        self.p = p
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.p.items()))
        return self.h

    def __eq__(self, o):
        return isinstance(o, FP) and self.p == o.p

    def __repr__(self):
        return "FP(%d terms)" % len(self.p)

    def __lt__(self, o):
        return id(self) < id(o)


# ---------------------------------------------------------------------- geometric definitions
def x(k, i):
    return pvar(("x", k, i))


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    r = {}
    for j in range(n):
        if M[0][j]:
            m = det([row[:j] + row[j + 1:] for row in M[1:]])
            r = padd(r, pmul(M[0][j], m), 1 if j % 2 == 0 else -1)
    return r


def spec(dim, name):
    n = {(2, "orient"): 3, (3, "orient"): 4, (2, "insphere"): 4, (3, "insphere"): 5}[(dim, name)]
    ref = n - 1
    rows = []
    for k in range(n - 1):
        d = [psub(x(k, i), x(ref, i)) for i in range(dim)]
        if name == "insphere":
            l = {}
            for c in d:
                l = padd(l, pmul(c, c))
            d.append(l)
        rows.append(d)
    D = det(rows)
    return D


def prepare(front, ops):
    """argument roles of the expansion operations, as established by their own verification"""
    front.lenargs, front.outarg = {}, {}
    for o in ops:
        f = o.f
        names = [n for _, n in f.params]
        front.lenargs[f.name] = o.lenargs() if getattr(o, "lens", None) else {}
        if getattr(o, "out", None):
            front.outarg[f.name] = names.index(o.out)
