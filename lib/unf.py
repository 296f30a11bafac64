"""Unfolding of path/loop summaries (sem.py) on abstract inputs: containers hold a stated number of opaque elements,
strings are sequences of opaque segments, every decision must follow from the abstract input (an undecidable branch
raises Undecided). Used to compare a summary with a reference on all members of a finite family of shapes."""
import sem
from sem import num, binop, icmp, linadd, scat


class Undecided(Exception):
    pass


class Refuted(Exception):
    pass


class World:
    """the abstract input; subclasses answer what the terms over the input mean"""

    def __init__(self):
        self.sizes = {}          # container term -> number of elements

    def atom(self, t):
        """meaning of a grounded term, or None"""
        return None

    # containers and iterators
    def container(self, c):
        """canonical name of a container (object address term)"""
        return c

    def std(self, t):
        if t[0] == "fn":
            f, a = t[1], t[2]
            last = f.split("::")[-1]
            if last in ("begin", "end", "size") and len(a) == 2:
                n = self.sizes.get(self.container(a[0]))
                if n is not None:
                    if last == "size":
                        return num(n)
                    return ("it", self.container(a[0]), 0 if last == "begin" else n)
        if t[0] in ("fn", "call") and len(t[2]) == 2 and t[1].split("::")[-1] in ("operator[]", "at") and t[2][1][0] == "i":
            c = self.container(t[2][0])
            if c in self.sizes:
                return ("p", ("elem", ("it", c, t[2][1][1])), num(0))
        if t[0] in ("next", "prev") and t[1][0] == "it":
            return ("it", t[1][1], t[1][2] + (1 if t[0] == "next" else -1))
        if t[0] in ("next", "prev") and sem.ischars(t[1]):
            return ("p", t[1][1], linadd(t[1][2], num(1 if t[0] == "next" else -1)))
        if t[0] == "p" and isinstance(t[1], tuple) and t[1][0] == "elem" and sem.ischars(t[1][1]):
            return ("p", t[1][1][1], linadd(t[1][1][2], t[2]))
        return None


FOLD = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"}


def lins(t):
    return t


def ground(t, env, w, memo=None):
    if not isinstance(t, tuple) or not t:
        return t
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    memo[t] = r = ground1(t, env, w, memo)
    return r


def ground1(t, env, w, memo):
    if t in env:
        return env[t]
    k = t[0]
    if k in ("i", "null", "f", "l", "arg", "glob", "tls", "alloca", "undef", "md"):
        r = w.atom(t)
        return t if r is None else r
    g = lambda x: ground(x, env, w, memo)
    if k == "h":
        raise Undecided("loop value " + sem.show(t)[:60])
    if k == "not":
        v = g(t[1])
        return num(1 - (v[1] & 1)) if v[0] == "i" else ("not", v)
    if k == "str":
        return ("str", parts(t[1], g))
    if k == "stream":
        return ("stream", parts(t[1], g))
    if k == "x":
        op = t[1]
        if op == "select":
            c = g(t[3])
            if c[0] != "i":
                raise Undecided("select")
            return g(t[4] if c[1] & 1 else t[5])
        args = [g(x) if isinstance(x, tuple) else x for x in t[2:]]
        if op.startswith("icmp."):
            a, b = args[1], args[2]
            r = cmpterms(op[5:], args[0], a, b)
            if r is not None:
                return num(r)
            q = ("x", op, args[0], a, b)
            r = w.atom(q)
            return q if r is None else r
        if op in ("zext", "sext", "trunc") and args[2][0] == "i":
            return num(sem.evaluate(("x", op, args[0], args[1], args[2]), {}))
        if op in FOLD:
            if all(x[0] == "i" for x in args[1:]):
                return num(sem.evaluate(("x", op) + tuple(args), {}))
            r = binop(op, args[0], args[1], args[2])
        else:
            r = ("x", op) + tuple(args)
        a = w.atom(r)
        return r if a is None else a
    if k == "streq":
        a, b = parts(t[1], g), parts(t[2], g)
        q = ("streq", a, b)
        r = w.atom(q)
        if r is not None:
            return r
        return num(1) if a == b else q
    if k == "len" and isinstance(t[1], tuple):
        q = ("len", gp(t[1], g))
        r = w.atom(q)
        return q if r is None else r
    out = tuple(g(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                tuple(g(y) for y in x) if isinstance(x, tuple) else x for x in t)
    if k == "p" and out[2][0] == "i" and isinstance(out[1], tuple) and out[1][0] == "p":
        out = ("p", out[1][1], linadd(out[1][2], out[2]))
    if k in ("fn", "call"):
        out = (t[0], t[1], tuple(ground_arg(x, g) for x in t[2])) + tuple(t[3:])
    r = w.std(out)
    if r is None:
        r = w.atom(out)
    return out if r is None else r


def ground_arg(x, g):
    if isinstance(x, tuple) and x and isinstance(x[0], tuple):
        if all(isinstance(p, tuple) and p and p[0] in ("v", "l", "sub", "n", "c", "rep") for p in x):      # string parts
            return parts(x, g)
        return tuple(ground_arg(y, g) for y in x)
    return g(x) if isinstance(x, tuple) else x


def gp(p, g):
    q = parts((p,), g)
    return q[0] if len(q) == 1 else ("cat", q)


def parts(ps, g):
    out = []
    for p in ps:
        if p[0] == "v":
            v = g(p[1])
            if v[0] in ("str", "stream"):
                out += list(v[1])
            else:
                out.append(("v", v))
        elif p[0] == "l":
            out.append(p)
        elif p[0] == "sub":
            q = ("sub", parts(p[1], g), g(p[2]), g(p[3]))
            out.append(q)
        elif p[0] == "n":
            out.append((p[0], g(p[1])))
        elif p[0] == "c":
            v = g(p[1])
            out.append(("l", chr(v[1] & 255)) if v[0] == "i" else ("c", v))
        elif p[0] == "rep":
            c, n = g(p[1]), g(p[2])
            out.append(("l", chr(c[1] & 255) * sem.uns(n[1], 64)) if c[0] == "i" and n[0] == "i" and sem.uns(n[1], 64) < 1000 else ("rep", c, n))
        else:
            out.append(tuple(g(x) if isinstance(x, tuple) else x for x in p))
    return scat(tuple(out))


def cmpterms(pred, w, a, b):
    if a[0] == "i" and b[0] == "i":
        return icmp(pred, w, a, b)[1]
    if pred in ("eq", "ne"):
        if a == b:
            return int(pred == "eq")
        if a[0] == "it" and b[0] == "it":
            return int((a == b) == (pred == "eq"))
        if {a[0], b[0]} <= {"p", "null"} and a[0] != b[0]:
            return int(pred == "ne")
    r = icmp(pred, w, a, b)
    return r[1] if r[0] == "i" else None


class Run:
    """unfolds the paths of an analysis; .final is the chosen path, .events the grounded events in order"""

    def __init__(self, paths, w, keep=None, limit=64):
        self.w, self.limit = w, limit
        self.env = {}
        self.events = []
        self.keep = keep
        self.iters = {}
        self.final = self.walk([(p, 0, 0) for p in paths])[0]
        self.ret = None
        if self.final.term[0] == "ret" and self.final.term[1] is not None:
            self.ret = self.g(self.final.term[1])

    def g(self, t):
        return ground(t, self.env, self.w)

    def cell(self, a):
        """final content of a memory cell"""
        v = self.final.mem.get(a)
        return None if v is None else self.g(v)

    def note(self, evs):
        for e in evs:
            if e[0] == "loop":
                continue
            if self.keep is None or self.keep(e):
                self.events.append((e[0],) + tuple(ground_arg(x, self.g) for x in e[1:]))

    def holds(self, c):
        v = self.g(c)
        if v[0] != "i":
            raise Undecided("branch on " + sem.show(v)[:120])
        return bool(v[1] & 1)

    def walk(self, cands):
        """cands: (state, next condition, next event); all agree on what was already decided"""
        while True:
            ends = [c for c in cands if len(c[0].conds) == c[1]]
            if ends:
                if len(cands) > 1:
                    raise Undecided("nondeterministic choice")
                self.note(ends[0][0].events[ends[0][2]:])
                return ends[0]
            heads = {}
            for c in cands:
                heads.setdefault(c[0].conds[c[1]], []).append(c)
            ins = [c for c in heads if c[0] == "in"]
            if ins:
                if len(heads) != 1:
                    raise Undecided("branch shape")
                return self.loop(ins[0][1], cands)
            live = None
            for c, ps in heads.items():
                if self.holds(c):
                    live = ps
                    break
            if live is None:
                raise Undecided("no branch applies")
            cands = [(p, k + 1, n) for p, k, n in live]

    def loop(self, h, cands):
        new = []
        lp = None
        for p, k, n in cands:
            j = next((j for j in range(n, len(p.events)) if p.events[j][0] == "loop" and p.events[j][1].header == h), None)
            if j is None:
                # the back edge of this very loop is not an exit of it
                continue
            if lp is None:
                lp = p.events[j][1]
                self.note(p.events[n:j])
            new.append((p, k + 1, j + 1))
        if lp is None:
            raise Undecided("loop event")
        cands = new
        init = {}
        for c in lp.varying:
            v = lp.init.get(c)
            if v is None:
                if c[0] != "m":
                    raise Undecided("loop entry")
                v = self.initial(c[1])
            try:
                init[("h", h, c)] = self.g(v)
            except Undecided:
                pass
        for c in lp.varying:
            self.env.pop(("h", h, c), None)
        self.env.update(init)
        ke = len(lp.entry_conds) + 1
        n, seen = 0, set()
        steps = [(s, ke, 0) for s in lp.steps]
        while True:
            n += 1
            key = tuple(sorted(((repr(c), self.env.get(("h", h, c))) for c in lp.varying), key=lambda x: x[0]))
            if key in seen and all(v is not None for _, v in key):
                raise Refuted("a loop does not end")
            seen.add(key)
            if n > self.limit:
                raise Undecided("loop does not end on this input")
            r = self.walk(steps + cands)
            s = next((x for x in lp.steps if x is r[0]), None)
            if s is None:
                return r
            self.iters[h] = self.iters.get(h, 0) + 1
            new = {}
            for c in lp.varying:
                v = s.env.get(c[1]) if c[0] == "r" else s.mem.get(c[1])
                if v is None:
                    continue
                try:
                    new[("h", h, c)] = self.g(v)
                except Undecided:
                    new[("h", h, c)] = None
            for q, v in new.items():
                if v is None:
                    self.env.pop(q, None)
                else:
                    self.env[q] = v

    def initial(self, a):
        return ("ld", a, 0)
