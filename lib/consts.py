"""Constant propagation through the static initialisers: the values of the error bound constants, epsilon and the
splitter, in the precision they are computed in.  Every value in the initialiser is a known constant (no input), so the
propagation follows exactly one path; anything it cannot fold is an unknown and is reported by whoever needs it."""
import re, struct
from fractions import Fraction as F
import ir
from ir import AnalysisError, const_int, const_fp

STEPS = 20000


def fround(x, ty):
    if ty == "float":
        return struct.unpack("f", struct.pack("f", x))[0]
    return x


class Prop:
    def __init__(self, mod, text):
        self.mod = mod
        self.alias = dict(re.findall(r'^@"?([-\w.$]+)"? = .*\balias\b.*, ptr @"?([-\w.$]+)"?$', text, re.M))
        self.mem = {}
        self.writers = {}
        self.steps = 0
        m = re.search(r'^@llvm\.global_ctors = .*$', text, re.M)
        self.roots = []
        if m:
            rs = re.findall(r'\{ i32 (\d+), ptr @"?([-\w.$]+)"?', m.group(0))
            self.roots = [r for _, r in sorted(rs, key=lambda t: int(t[0]))]

    def init(self, g):
        t = self.mod.globals.get(g)
        if t is None:
            return None
        mm = re.search(r'\b(?:global|constant) (float|double|i\d+) (\S+?),', t)
        if not mm:
            return None
        if mm.group(2) == "zeroinitializer":
            return 0
        c = ("const", mm.group(2))
        if mm.group(1) in ("float", "double"):
            v = const_fp(c)
            return None if v is None else float(v)
        return const_int(c)

    def run(self):
        for r in self.roots:
            self.call(r, [], 0)
        return self.mem

    def call(self, name, args, depth):
        name = self.alias.get(name, name)
        f = self.mod.funcs.get(name)
        if f is None or depth > 8:
            return None
        env = {n: a for (t, n), a in zip(f.params, args)}
        b, prev = f.order[0], None

        def val(a, ty):
            if isinstance(a, str):
                if a.startswith("@"):
                    return ("g", a[1:].strip('"'))
                return env.get(a)
            if ty in ("float", "double"):
                c = const_fp(a)
                return None if c is None else float(c)
            if a == ("const", "true"):
                return 1
            if a == ("const", "false"):
                return 0
            return const_int(a)
        while True:
            nxt = None
            blk = f.blocks[b]
            ph = {}
            for i in blk.ins:
                if i.op == "phi":
                    ph[i.res] = val(i.args[i.attr["from"].index(prev)], i.ty)
            env.update(ph)
            for i in blk.ins:
                self.steps += 1
                if self.steps > STEPS:
                    raise AnalysisError("static initialiser does not terminate within the propagation bound")
                if i.op == "phi":
                    continue
                a = [val(x, i.ty) for x in i.args] if i.op not in ("call", "load", "store", "gep") else None
                r = None
                if i.op in ("fadd", "fsub", "fmul", "fdiv") and None not in a:
                    if i.attr["flags"]:
                        r = None
                    else:
                        x, y = a
                        try:
                            r = {"fadd": x.__add__, "fsub": x.__sub__, "fmul": x.__mul__, "fdiv": x.__truediv__}[i.op](y)
                            r = fround(r, i.ty)
                        except (ZeroDivisionError, OverflowError):
                            r = None
                elif i.op == "fneg" and a[0] is not None:
                    r = -a[0]
                elif i.op in ("fpext", "fptrunc"):
                    x = val(i.args[0], i.attr["from"])
                    r = None if x is None else fround(x, i.ty)
                elif i.op in ("sitofp", "uitofp"):
                    x = val(i.args[0], i.attr["from"])
                    r = None if x is None else fround(float(x), i.ty)
                elif i.op in ("zext", "sext", "trunc", "freeze"):
                    r = val(i.args[0], i.attr.get("from", i.ty))
                elif i.op in ("add", "sub", "mul", "and", "or", "xor", "shl") and None not in a:
                    x, y = a
                    r = {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y,
                         "shl": x << y if 0 <= y < 64 else None}[i.op]
                    if i.op == "xor" and i.ty == "i1":
                        r &= 1
                elif i.op == "icmp" and None not in a and not isinstance(a[0], tuple):
                    x, y = a
                    p = i.attr["pred"].lstrip("us") if i.attr["pred"] not in ("eq", "ne") else i.attr["pred"]
                    r = int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p])
                elif i.op == "fcmp" and None not in a:
                    x, y = a
                    r = int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}.get(i.attr["pred"][1:], 0))
                elif i.op == "select":
                    c = val(i.args[0], "i1")
                    r = None if c is None else val(i.args[1 if c else 2], i.ty)
                elif i.op == "load":
                    p = val(i.args[0], "ptr")
                    if isinstance(p, tuple):
                        r = self.mem[p[1]] if p[1] in self.mem else self.init(p[1])
                elif i.op == "store":
                    p = val(i.args[1], "ptr")
                    if isinstance(p, tuple):
                        self.mem[p[1]] = val(i.args[0], i.ty)
                        self.writers.setdefault(p[1], set()).add(name)
                elif i.op == "alloca":
                    r = ("g", "%s/%s" % (name, i.res))
                elif i.op in ("call", "invoke"):
                    c = i.attr["callee"]
                    if isinstance(c, str) and c.startswith("@"):
                        n = c[1:].strip('"')
                        av = [val(x, t) for x, t in zip(i.args, i.attr["tys"])]
                        if n.startswith("llvm.fabs") or n in ("fabs", "fabsf"):
                            r = None if av[0] is None else abs(av[0])
                        else:
                            r = self.call(n, av, depth + 1)
                    if i.op == "invoke":
                        nxt = i.attr["to"][0]
                elif i.op == "br":
                    if not i.args:
                        nxt = i.attr["to"][0]
                    else:
                        c = val(i.args[0], "i1")
                        if c is None:
                            # an unknown branch: everything written from here on is unknown
                            self.unknown_rest(f, b)
                            return None
                        nxt = i.attr["to"][0 if c else 1]
                elif i.op == "ret":
                    return val(i.args[0], i.ty) if i.args else None
                elif i.op == "unreachable":
                    return None
                if i.res:
                    env[i.res] = r
            if nxt is None:
                self.unknown_rest(f, b)
                return None
            prev, b = b, nxt

    def unknown_rest(self, f, b):
        for g in list(self.mem):
            self.mem[g] = None
        for bb in f.blocks.values():
            for i in bb.ins:
                if i.op == "store" and isinstance(i.args[1], str) and i.args[1].startswith("@"):
                    self.mem[i.args[1][1:].strip('"')] = None


def constants(front):
    """({global: exact value}, set of functions that write them during static initialisation,
        [(global, function, ins)] other stores to floating point globals)"""
    text = open(front.p3).read()
    p = Prop(front.mod, text)
    mem = p.run()
    consts = {}
    for g, v in mem.items():
        t = front.mod.globals.get(g, "")
        if isinstance(v, float) and v == v and abs(v) != float("inf") and re.search(r'\bglobal (float|double) ', t):
            consts[g] = F(v)
    # constants never written at run time and given by their initialiser
    late = []
    init = set(w for s in p.writers.values() for w in s)
    written = set(mem)
    for n, f in front.mod.funcs.items():
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == "store" and isinstance(i.args[1], str) and i.args[1].startswith("@"):
                    g = i.args[1][1:].strip('"')
                    written.add(g)
                    if n not in init and n not in p.roots and g in mem:
                        late.append((g, n, i))
    for g, t in front.mod.globals.items():
        if g not in written and re.search(r'\b(global|constant) (float|double) ', t):
            v = p.init(g)
            if v is not None:
                consts[g] = F(v)
    return consts, init, late
