"""Regular languages over bytes: regular expressions (the ECMAScript subset used with std::regex) to automata, boolean
operations, equality with a shortest witness."""

ALL = (1 << 256) - 1


def cls(chars):
    m = 0
    for c in chars:
        m |= 1 << (c if isinstance(c, int) else ord(c))
    return m


DIGIT = cls("0123456789")
WORD = DIGIT | cls("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
SPACE = cls(" \t\n\v\f\r")
NAMED = {"digit": DIGIT, "d": DIGIT, "w": WORD, "s": SPACE, "space": SPACE, "alpha": WORD & ~DIGIT & ~cls("_"), "alnum": WORD & ~cls("_"),
         "xdigit": DIGIT | cls("abcdefABCDEF"), "upper": cls("ABCDEFGHIJKLMNOPQRSTUVWXYZ"), "lower": cls("abcdefghijklmnopqrstuvwxyz"),
         "punct": cls("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")}


class Unsupported(Exception):
    pass


class NFA:
    def __init__(self):
        self.eps, self.tr = [], []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1


class Parser:
    """recursive descent; builds an NFA fragment (start, end)"""

    def __init__(self, text, icase=False):
        self.t, self.k, self.n, self.icase = text, 0, NFA(), icase

    def peek(self):
        return self.t[self.k] if self.k < len(self.t) else None

    def take(self):
        c = self.t[self.k]
        self.k += 1
        return c

    def parse(self):
        f = self.alt()
        if self.k != len(self.t):
            raise Unsupported("trailing " + self.t[self.k:])
        return f

    def alt(self):
        n = self.n
        s, e = n.new(), n.new()
        while True:
            a, b = self.seq()
            n.eps[s].append(a)
            n.eps[b].append(e)
            if self.peek() == "|":
                self.take()
                continue
            return s, e

    def seq(self):
        n = self.n
        s = e = n.new()
        while self.peek() not in (None, "|", ")"):
            a, b = self.rep()
            n.eps[e].append(a)
            e = b
        return s, e

    def rep(self):
        n = self.n
        start = self.k
        a, b = self.atom()
        stop = self.k
        while self.peek() in ("*", "+", "?", "{"):
            c = self.take()
            if c == "{":
                j = self.t.index("}", self.k)
                body = self.t[self.k:j]
                self.k = j + 1
                lo, _, hi = body.partition(",")
                lo = int(lo)
                hi = lo if "," not in body else (int(hi) if hi else None)
            else:
                lo, hi = {"*": (0, None), "+": (1, None), "?": (0, 1)}[c]
            if self.peek() == "?":      # non-greedy: the same language
                self.take()
            if max(lo, hi or 0) > 50:
                raise Unsupported("repetition count")
            end = self.k

            def again():
                save = self.k
                self.k = start
                r = self.atom()
                self.k = save
                return r
            s = e = n.new()
            first = True
            for _ in range(lo):
                x, y = (a, b) if first else again()
                first = False
                n.eps[e].append(x)
                e = y
            if hi is None:
                x, y = (a, b) if first else again()
                z = n.new()
                n.eps[e].append(z)
                n.eps[z].append(x)
                n.eps[y].append(z)
                e = z
            else:
                fin = n.new()
                for _ in range(hi - lo):
                    n.eps[e].append(fin)
                    x, y = (a, b) if first else again()
                    first = False
                    n.eps[e].append(x)
                    e = y
                n.eps[e].append(fin)
                e = fin
            a, b = s, e
            if self.peek() in ("*", "+", "{"):
                raise Unsupported("stacked repetition")
        return a, b

    def one(self, m):
        n = self.n
        if self.icase:
            for k in range(26):
                u, l = 1 << (65 + k), 1 << (97 + k)
                if m & (u | l):
                    m |= u | l
        s, e = n.new(), n.new()
        n.tr[s].append((m & ALL, e))
        return s, e

    def atom(self):
        c = self.take()
        if c == "(":
            if self.t.startswith("?:", self.k):
                self.k += 2
            elif self.peek() == "?":
                raise Unsupported("assertion")
            f = self.alt()
            if self.peek() != ")":
                raise Unsupported("parenthesis")
            self.take()
            return f
        if c == "[":
            return self.one(self.bracket())
        if c == ".":
            return self.one(ALL & ~cls("\n\r"))
        if c == "\\":
            return self.one(self.escape(False))
        if c in "^$":
            raise Unsupported("anchor")
        if c in "*+?{":
            raise Unsupported("quantifier")
        return self.one(cls(c))

    def escape(self, inb):
        c = self.take()
        if c in "dws":
            return NAMED[c]
        if c in "DWS":
            return ALL & ~NAMED[c.lower()]
        if c == "n": return cls("\n")
        if c == "t": return cls("\t")
        if c == "r": return cls("\r")
        if c == "f": return cls("\f")
        if c == "v": return cls("\v")
        if c == "0": return 1
        if c == "x":
            v = int(self.t[self.k:self.k + 2], 16)
            self.k += 2
            return 1 << v
        if c == "b" and inb: return cls("\b")
        if c.isalnum():
            raise Unsupported("escape " + c)
        return cls(c)

    def bracket(self):
        m, inv = 0, False
        if self.peek() == "^":
            self.take()
            inv = True
        prev = None
        while True:
            c = self.take()
            if c == "]":
                break
            if c == "[" and self.peek() == ":":
                j = self.t.index(":]", self.k)
                m |= NAMED[self.t[self.k + 1:j]]
                self.k = j + 2
                prev = None
                continue
            if c == "[" and self.peek() in (".", "="):
                raise Unsupported("collation")
            if c == "-" and prev is not None and self.peek() != "]":
                hi = self.take()
                if hi == "\\":
                    x = self.escape(True)
                    if bin(x).count("1") != 1:
                        raise Unsupported("range")
                    hi = chr(x.bit_length() - 1)
                if ord(hi) < ord(prev):
                    raise Unsupported("range order")
                m |= cls(range(ord(prev), ord(hi) + 1))
                prev = None
                continue
            if c == "\\":
                x = self.escape(True)
                m |= x
                prev = chr(x.bit_length() - 1) if bin(x).count("1") == 1 else None
                continue
            m |= cls(c)
            prev = c
        return ALL & ~m if inv else m


class DFA:
    """complete automaton: trans[q] = [(mask, q')], masks partition the bytes"""

    def __init__(self, trans, acc):
        self.trans, self.acc = trans, acc

    def __and__(self, o): return product(self, o, lambda a, b: a and b)
    def __or__(self, o): return product(self, o, lambda a, b: a or b)
    def __xor__(self, o): return product(self, o, lambda a, b: a != b)
    def __invert__(self): return DFA(self.trans, [not a for a in self.acc])

    def accepts(self, text):
        q = 0
        for b in text:
            q = next(r for m, r in self.trans[q] if m >> b & 1)
        return self.acc[q]

    def witness(self):
        """a shortest accepted byte string, or None"""
        seen, todo = {0: b""}, [0]
        while todo:
            nxt = []
            for q in todo:
                if self.acc[q]:
                    return seen[q]
                for m, r in self.trans[q]:
                    if r not in seen:
                        seen[r] = seen[q] + bytes([pick(m)])
                        nxt.append(r)
            todo = nxt
        return None


def pick(m):
    for p in (DIGIT, cls("+-.eE"), WORD, cls(range(32, 127))):
        if m & p:
            m &= p
            break
    return (m & -m).bit_length() - 1


def refine(groups):
    parts = [ALL]
    for m in groups:
        np = []
        for p in parts:
            for x in (p & m, p & ~m):
                if x:
                    np.append(x)
        parts = np
    return parts


def product(a, b, f):
    idx, trans, acc = {(0, 0): 0}, [], []
    todo = [(0, 0)]
    while todo:
        q = todo.pop(0)
        x, y = q
        row = []
        acc.append(f(a.acc[x], b.acc[y]))
        for m1, r1 in a.trans[x]:
            for m2, r2 in b.trans[y]:
                m = m1 & m2
                if m:
                    if (r1, r2) not in idx:
                        idx[(r1, r2)] = len(idx)
                        todo.append((r1, r2))
                    row.append((m, idx[(r1, r2)]))
        trans.append(row)
    return DFA(trans, acc)


def determinise(n, s, e):
    def close(st):
        st, todo = set(st), list(st)
        while todo:
            for x in n.eps[todo.pop()]:
                if x not in st:
                    st.add(x)
                    todo.append(x)
        return frozenset(st)
    q0 = close([s])
    idx, todo, trans, acc = {q0: 0}, [q0], [], []
    while todo:
        q = todo.pop(0)
        acc.append(e in q)
        mv = [t for x in q for t in n.tr[x]]
        row = []
        for p in refine([m for m, _ in mv]):
            r = close([t for m, t in mv if m & p])
            if r not in idx:
                idx[r] = len(idx)
                todo.append(r)
            row.append((p, idx[r]))
        trans.append(row)
    return DFA(trans, acc)


def regex(text, icase=False, search=False):
    # anchors at both ends are redundant in a full match
    t = text
    pre = post = search
    if t.startswith("^"):
        if "|" in t and not _grouped(t[1:].rstrip("$")):
            raise Unsupported("anchored alternative")
        t, pre = t[1:], False
    if t.endswith("$") and not t.endswith("\\$"):
        if "|" in t and not _grouped(t[:-1]):
            raise Unsupported("anchored alternative")
        t, post = t[:-1], False
    p = Parser(t, icase)
    s, e = p.parse()
    n = p.n
    if pre:
        z = n.new()
        n.tr[z].append((ALL, z))
        n.eps[z].append(s)
        s = z
    if post:
        z = n.new()
        n.tr[z].append((ALL, z))
        n.eps[e].append(z)
        e = z
    return determinise(n, s, e)


def _grouped(t):
    d, k = 0, 0
    while k < len(t):
        c = t[k]
        if c == "\\":
            k += 2
            continue
        if c == "[":
            j = t.index("]", k + 2)
            k = j
        if c == "(": d += 1
        if c == ")": d -= 1
        if c == "|" and d == 0:
            return False
        k += 1
    return True


EMPTY = DFA([[(ALL, 0)]], [False])
FULL = DFA([[(ALL, 0)]], [True])


def length(pred, limit=40):
    """strings whose length satisfies pred (constant beyond `limit`)"""
    tr = [[(ALL, min(k + 1, limit))] for k in range(limit + 1)]
    return DFA(tr, [bool(pred(k)) for k in range(limit + 1)])


def charat(k, mask, past):
    """strings whose byte k is in the mask; `past`: verdict when the string is not that long"""
    tr = [[(ALL, j + 1)] for j in range(k)]
    tr.append([x for x in ((mask, k + 1), (ALL & ~mask, k + 2)) if x[0]])
    tr += [[(ALL, k + 1)], [(ALL, k + 2)]]
    return DFA(tr, [past] * (k + 1) + [True, False])


def lastchar(mask, empty):
    row = [x for x in ((mask, 1), (ALL & ~mask, 2)) if x[0]]
    return DFA([row, row, row], [empty, True, False])


def only(mask, frm=0):
    """strings all of whose bytes from position frm on are in the mask"""
    tr = [[(ALL, j + 1)] for j in range(frm)]
    tr.append([x for x in ((mask, frm), (ALL & ~mask, frm + 1)) if x[0]])
    tr.append([(ALL, frm + 1)])
    return DFA(tr, [True] * (frm + 1) + [False])


def loopdfa(start, step, accept, maxstates=400):
    """automaton given by a step function on states and byte classes: step(state) -> [(mask, state')]"""
    idx, todo, trans, acc = {start: 0}, [start], [], []
    while todo:
        q = todo.pop(0)
        acc.append(bool(accept(q)))
        row = []
        for m, r in step(q):
            if r not in idx:
                if len(idx) >= maxstates:
                    raise Unsupported("scanner states")
                idx[r] = len(idx)
                todo.append(r)
            row.append((m, idx[r]))
        trans.append(row)
    return DFA(trans, acc)
