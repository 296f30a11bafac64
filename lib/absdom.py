"""Two numeric abstract domains used on LLVM IR: zones (difference bounds) and Karr's affine equalities."""
from fractions import Fraction as F

INF = None


class Zone:
    """x - y <= c ; the variable '0' is the constant zero.  Bottom is represented by .bot"""

    def __init__(self, d=None, bot=False):
        self.d = d if d is not None else {}
        self.bot = bot

    def copy(self):
        return Zone(dict(self.d), self.bot)

    def get(self, x, y):
        if x == y:
            return 0
        return self.d.get((x, y))

    def vars(self):
        s = set()
        for x, y in self.d:
            s.add(x)
            s.add(y)
        return s

    def add(self, x, y, c):
        """x - y <= c"""
        if self.bot:
            return
        if x == y:
            if c < 0:
                self.bot = True
            return
        old = self.d.get((x, y))
        if old is not None and old <= c:
            return
        r = self.get(y, x)
        if r is not None and r + c < 0:
            self.bot = True
            return
        # incremental closure
        into = [(u, w) for (u, v), w in self.d.items() if v == x] + [(x, 0)]
        outof = [(v, w) for (u, v), w in self.d.items() if u == y] + [(y, 0)]
        for u, w1 in into:
            for v, w2 in outof:
                if u == v:
                    if w1 + c + w2 < 0:
                        self.bot = True
                        return
                    continue
                n = w1 + c + w2
                o = self.d.get((u, v))
                if o is None or n < o:
                    self.d[(u, v)] = n

    def forget(self, x):
        for k in [k for k in self.d if x in k]:
            del self.d[k]

    def keep(self, vs):
        for k in [k for k in self.d if (k[0] not in vs and k[0] != '0') or (k[1] not in vs and k[1] != '0')]:
            del self.d[k]

    def assign(self, x, y, c):
        """x := y + c"""
        if x == y:
            if c == 0:
                return
            for k in list(self.d):
                if k[0] == x:
                    self.d[k] += c
                elif k[1] == x:
                    self.d[k] -= c
            return
        self.forget(x)
        self.add(x, y, c)
        self.add(y, x, -c)

    def parallel(self, pairs):
        """simultaneous x := y + c"""
        tmp = []
        for i, (x, y, c) in enumerate(pairs):
            self.assign("#%d" % i, y, c)
            tmp.append((x, "#%d" % i))
        for x, t in tmp:
            self.forget(x)
        for x, t in tmp:
            self.assign(x, t, 0)
        for x, t in tmp:
            self.forget(t)

    def havoc(self, x):
        self.forget(x)

    def join(self, o):
        if self.bot:
            return o.copy()
        if o.bot:
            return self.copy()
        d = {}
        for k, c in self.d.items():
            e = o.d.get(k)
            if e is not None:
                d[k] = max(c, e)
        return Zone(d)

    def widen(self, o):
        if self.bot:
            return o.copy()
        if o.bot:
            return self.copy()
        d = {}
        for k, c in self.d.items():
            e = o.d.get(k)
            if e is not None and e <= c:
                d[k] = c
        return Zone(d)

    def leq(self, o):
        if self.bot:
            return True
        if o.bot:
            return False
        for k, c in o.d.items():
            e = self.d.get(k)
            if e is None or e > c:
                return False
        return True


class Karr:
    """affine equalities  sum c_i x_i = 0  (the variable 1 is the constant), reduced row echelon form"""

    def __init__(self, rows=None, bot=False):
        self.rows = rows if rows is not None else {}   # pivot -> {var: coef} with coef[pivot] == 1
        self.bot = bot

    def copy(self):
        return Karr({p: dict(r) for p, r in self.rows.items()}, self.bot)

    def reduce(self, e):
        e = {v: F(c) for v, c in e.items() if c}
        for v in list(e):
            if v in e and v in self.rows:
                c = e[v]
                for u, k in self.rows[v].items():
                    x = e.get(u, 0) - c * k
                    if x:
                        e[u] = x
                    else:
                        e.pop(u, None)
        return e

    def add(self, e):
        if self.bot:
            return
        e = self.reduce(e)
        if not e:
            return
        piv = None
        for v in e:
            if v != 1:
                if piv is None or key(v) > key(piv):
                    piv = v
        if piv is None:
            self.bot = True
            return
        c = e[piv]
        e = {v: k / c for v, k in e.items()}
        for p, r in self.rows.items():
            if piv in r:
                k = r[piv]
                for v, q in e.items():
                    x = r.get(v, 0) - k * q
                    if x:
                        r[v] = x
                    else:
                        r.pop(v, None)
        self.rows[piv] = e

    def entails(self, e):
        return self.bot or not self.reduce(e)

    def forget(self, x):
        if x in self.rows:
            del self.rows[x]
            return
        hit = [p for p, r in self.rows.items() if x in r]
        if not hit:
            return
        # make x a pivot of one row, substitute in the others, drop it
        p0 = hit[0]
        r0 = self.rows.pop(p0)
        c = r0[x]
        e = {v: k / c for v, k in r0.items()}
        for p in hit[1:]:
            r = self.rows[p]
            k = r[x]
            for v, q in e.items():
                y = r.get(v, 0) - k * q
                if y:
                    r[v] = y
                else:
                    r.pop(v, None)
        # rows may have lost canonical shape w.r.t. p0 appearing in others: renormalise
        rows = list(self.rows.values())
        self.rows = {}
        for r in rows:
            self.add(r)

    def keep(self, ok):
        """project on the variables satisfying ok"""
        rows = list(self.rows.values())
        dead = set(v for r in rows for v in r if v != 1 and not ok(v))
        if not dead:
            return
        # eliminate dead variables: order them as preferred pivots
        live = []
        elim = {}
        for r in rows:
            r = dict(r)
            ch = True
            while ch:
                ch = False
                for v in list(r):
                    if v in elim and v in r:
                        c = r[v]
                        for u, k in elim[v].items():
                            x = r.get(u, 0) - c * k
                            if x:
                                r[u] = x
                            else:
                                r.pop(u, None)
                        ch = True
            d = [v for v in r if v in dead]
            if d:
                p = d[0]
                c = r[p]
                elim[p] = {v: k / c for v, k in r.items()}
            elif r:
                live.append(r)
        self.rows = {}
        for r in live:
            self.add(r)

    def assign(self, x, e):
        """x := e (affine expression dict without x or with x)"""
        if x in e:
            t = ("#tmp",)
            self.add_def(t, e)
            self.forget(x)
            self.add_def(x, {t: 1})
            self.forget(t)
        else:
            self.forget(x)
            self.add_def(x, e)

    def add_def(self, x, e):
        d = {v: -F(c) for v, c in e.items()}
        d[x] = d.get(x, F(0)) + 1
        self.add(d)

    def parallel(self, pairs):
        tmp = []
        for i, (x, e) in enumerate(pairs):
            t = ("#", i)
            self.add_def(t, e)
            tmp.append((x, t))
        for x, t in tmp:
            self.forget(x)
        for x, t in tmp:
            self.add_def(x, {t: 1})
        for x, t in tmp:
            self.forget(t)

    def join(self, o):
        if self.bot:
            return o.copy()
        if o.bot:
            return self.copy()
        # row spaces A, B.  Intersection: combinations of A that reduce to 0 modulo B.
        A = list(self.rows.values())
        res = [o.reduce(r) for r in A]
        # nullspace of the residual matrix (rows combos that cancel)
        comb = []
        basis = []  # (pivotvar, residual, combination)
        for i, r in enumerate(res):
            r = dict(r)
            c = {i: F(1)}
            for pv, br, bc in basis:
                if pv in r:
                    k = r[pv]
                    for v, q in br.items():
                        x = r.get(v, 0) - k * q
                        if x:
                            r[v] = x
                        else:
                            r.pop(v, None)
                    for j, q in bc.items():
                        x = c.get(j, 0) - k * q
                        if x:
                            c[j] = x
                        else:
                            c.pop(j, None)
            if r:
                pv = next(iter(r))
                k = r[pv]
                r = {v: q / k for v, q in r.items()}
                c = {j: q / k for j, q in c.items()}
                basis.append((pv, r, c))
            else:
                comb.append(c)
        out = Karr()
        for c in comb:
            e = {}
            for j, q in c.items():
                for v, k in A[j].items():
                    x = e.get(v, 0) + q * k
                    if x:
                        e[v] = x
                    else:
                        e.pop(v, None)
            out.add(e)
        return out

    def leq(self, o):
        """self implies o"""
        if self.bot:
            return True
        if o.bot:
            return False
        return all(self.entails(r) for r in o.rows.values())

    def __str__(self):
        return "; ".join(" + ".join("%s*%s" % (c, v) for v, c in r.items()) for r in self.rows.values())


def key(v):
    return str(v)
