"""Reader for the textual LLVM IR that clang/opt emit, plus the usual CFG facts.

Only the subset of IR that C++ front-end output (after mem2reg/sroa) contains is modelled; an
instruction that is not understood is kept as op '?' and makes the analyses that meet it give up
explicitly (AnalysisError), never silently.
"""
import re, subprocess, os, sys, shlex


class AnalysisError(Exception):
    """The analysis cannot interpret the code: an error of the check, not a verdict."""


class Ins:
    __slots__ = ("res", "op", "ty", "args", "attr", "line", "block", "idx", "dbg", "raw")

    def __init__(self, res, op, ty, args, attr=None, raw=""):
        self.res, self.op, self.ty, self.args, self.attr = res, op, ty, args, attr or {}
        self.raw = raw
        self.block = None
        self.idx = -1
        self.dbg = None

    def __repr__(self):
        return self.raw.strip()


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []
        self.preds = []
        self.succs = []

    @property
    def term(self):
        return self.ins[-1]

    def __repr__(self):
        return "<" + self.name + ">"


class Func:
    def __init__(self, name, rty, params):
        self.name, self.rty, self.params = name, rty, params  # params: [(type,name)]
        self.blocks = {}
        self.order = []
        self.defs = {}
        self.dbg = None
        self.attrs = ""

    def entry(self):
        return self.blocks[self.order[0]]


class Module:
    def __init__(self):
        self.funcs = {}
        self.globals = {}
        self.locs = {}
        self.meta = {}
        self.decls = set()
        self.structs = {}


TOK = re.compile(r'%"[^"]*"|@"[^"]*"|%[-a-zA-Z$._0-9]+|@[-a-zA-Z$._0-9]+|c"(?:[^"])*"|"[^"]*"|![0-9a-zA-Z._]*|'
                 r'0x[0-9A-Fa-f]+|-?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?|-?[0-9]+|[a-zA-Z_][-a-zA-Z0-9_.]*|#[0-9]+|\.\.\.|[^\s]')


def tokens(s):
    return TOK.findall(s)


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise AnalysisError("IR: expected %r, got %r in %r" % (x, self.peek(), " ".join(self.t)))

    # types -----------------------------------------------------------------
    def type(self):
        t = self.next()
        if t == "[" or t == "<":
            close = "]" if t == "[" else ">"
            if t == "<" and self.peek() == "{":
                base = self.type()
                self.expect(">")
                ty = ("packed", base)
            else:
                n = self.next()
                if n == "vscale":
                    raise AnalysisError("vscale")
                self.expect("x")
                e = self.type()
                self.expect(close)
                ty = ("arr" if t == "[" else "vec", int(n), e)
        elif t == "{":
            els = []
            while not self.accept("}"):
                els.append(self.type())
                self.accept(",")
            ty = ("struct", tuple(els))
        elif t.startswith("%"):
            ty = ("named", t)
        elif t == "ptr":
            ty = "ptr"
            if self.peek() == "addrspace":
                self.i += 4
        else:
            ty = t
        while self.peek() == "*":
            self.next()
            ty = "ptr"
        if self.peek() == "(" and ty != "asm":
            # function type
            save = self.i
            self.next()
            depth = 1
            while depth:
                x = self.next()
                if x == "(":
                    depth += 1
                elif x == ")":
                    depth -= 1
            ty = ("fn", ty)
        return ty

    PATTR = {"noundef", "dead_on_unwind", "allocalign", "dead_on_return", "swifterror", "swiftasync", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "readonly", "readnone",
             "writeonly", "returned", "immarg", "nest", "swiftself", "writable", "nofree", "allocptr", "nonnull"}
    PATTR_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "range",
                 "preallocated", "inalloca", "byref", "allocsize", "captures", "initializes"}

    def pattrs(self):
        while True:
            p = self.peek()
            if p in self.PATTR:
                self.next()
            elif p in self.PATTR_ARG:
                self.next()
                if self.peek() == "(":
                    self.parens()
                else:
                    self.next()
            else:
                return

    def parens(self):
        self.expect("(")
        depth = 1
        out = []
        while depth:
            x = self.next()
            if x == "(":
                depth += 1
            elif x == ")":
                depth -= 1
            if depth:
                out.append(x)
        return out

    # values: names '%x' / '@g', ('const', text), ('cexpr', ...)
    def value(self, ty):
        t = self.peek()
        if t is None:
            raise AnalysisError("IR: value expected")
        if t[0] in "%@":
            return self.next()
        if t in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "addrspacecast", "trunc", "zext", "sext", "sub",
                 "add", "mul", "icmp", "select"):
            self.next()
            if t == "icmp":
                self.next()
            while self.peek() in ("inbounds", "nuw", "nsw", "nusw") or self.peek() == "inrange":
                self.next()
                if self.peek() == "(" and self.t[self.i - 1] == "inrange":
                    self.parens()
            inner = self.parens()
            if t == "getelementptr":
                q = P(inner)
                bty = q.type()
                q.expect(",")
                args = []
                while True:
                    while q.peek() == "inrange":
                        q.next()
                    at = q.type()
                    args.append((at, q.value(at)))
                    if not q.accept(","):
                        break
                return ("cgep", bty, tuple(args))
            return ("cexpr", t, tuple(inner))
        if t in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[t]
            depth = 0
            out = []
            while True:
                x = self.next()
                out.append(x)
                if x in "[{<":
                    depth += 1
                elif x in "]}>":
                    depth -= 1
                    if depth == 0:
                        break
            return ("agg", tuple(out))
        if t == "asm":
            out = []
            while self.peek() is not None and self.peek() != "(":
                out.append(self.next())
            return ("asm", tuple(out))
        if t in ("blockaddress", "dso_local_equivalent", "no_cfi"):
            self.next()
            self.parens()
            return ("const", t)
        return ("const", self.next())


FASTMATH = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}
BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub",
       "fmul", "fdiv", "frem"}
CAST = {"zext", "sext", "trunc", "fpext", "fptrunc", "fptosi", "fptoui", "sitofp", "uitofp", "bitcast", "inttoptr",
        "ptrtoint", "addrspacecast"}


def parse_ins(line, lineno):
    m = re.match(r'\s*(?:(%"[^"]*"|%[-a-zA-Z$._0-9]+)\s*=\s*)?(.*)$', line)
    res, body = m.group(1), m.group(2)
    md = re.findall(r', !(\w+) (!\d+|!\{[^}]*\})', body)
    dbg = None
    for k, v in md:
        if k == "dbg":
            dbg = v
    body = re.sub(r', ![\w.]+ (?:!\d+|!\{[^}]*\})', '', body)
    p = P(tokens(body))
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    ins = None
    if op in BIN:
        flags = set()
        while p.peek() in ("nuw", "nsw", "exact", "disjoint") or p.peek() in FASTMATH:
            flags.add(p.next())
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        ins = Ins(res, op, ty, [a, b], {"flags": flags})
    elif op == "fneg":
        flags = set()
        while p.peek() in FASTMATH:
            flags.add(p.next())
        ty = p.type()
        ins = Ins(res, op, ty, [p.value(ty)], {"flags": flags})
    elif op in ("fcmp", "icmp"):
        flags = set()
        while p.peek() in FASTMATH or p.peek() == "samesign":
            flags.add(p.next())
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        ins = Ins(res, op, ty, [a, b], {"pred": pred, "flags": flags})
    elif op in CAST:
        while p.peek() in ("nuw", "nsw", "nneg") or p.peek() in FASTMATH:
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect("to")
        to = p.type()
        ins = Ins(res, op, to, [a], {"from": ty})
    elif op == "phi":
        while p.peek() in FASTMATH:
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(ty)
            p.expect(",")
            b = p.next()
            p.expect("]")
            inc.append((v, b[1:].strip('"')))
            if not p.accept(","):
                break
        ins = Ins(res, op, ty, [v for v, _ in inc], {"from": [b for _, b in inc]})
    elif op == "br":
        if p.accept("label"):
            ins = Ins(None, "br", None, [], {"to": [p.next()[1:].strip('"')]})
        else:
            p.expect("i1")
            c = p.value("i1")
            p.expect(",")
            p.expect("label")
            a = p.next()[1:].strip('"')
            p.expect(",")
            p.expect("label")
            b = p.next()[1:].strip('"')
            ins = Ins(None, "br", None, [c], {"to": [a, b]})
    elif op == "switch":
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        p.expect("label")
        dflt = p.next()[1:].strip('"')
        ins = Ins(None, "switch", ty, [v], {"to": [dflt], "cases": []})
        # cases follow, possibly on later lines (handled by the caller joining lines)
        p.expect("[")
        while not p.accept("]"):
            ct = p.type()
            cv = p.value(ct)
            p.expect(",")
            p.expect("label")
            l = p.next()[1:].strip('"')
            ins.attr["cases"].append((cv, l))
            ins.attr["to"].append(l)
    elif op == "ret":
        if p.accept("void"):
            ins = Ins(None, "ret", "void", [])
        else:
            ty = p.type()
            ins = Ins(None, "ret", ty, [p.value(ty)])
    elif op == "unreachable":
        ins = Ins(None, op, None, [])
    elif op == "load":
        vol = False
        atomic = False
        while p.peek() in ("volatile", "atomic"):
            x = p.next()
            vol |= x == "volatile"
            atomic |= x == "atomic"
        ty = p.type()
        p.expect(",")
        pt = p.type()
        a = p.value(pt)
        rest = p.t[p.i:]
        ins = Ins(res, op, ty, [a], {"volatile": vol, "atomic": atomic, "rest": rest})
    elif op == "store":
        vol = False
        atomic = False
        while p.peek() in ("volatile", "atomic"):
            x = p.next()
            vol |= x == "volatile"
            atomic |= x == "atomic"
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        pt = p.type()
        a = p.value(pt)
        ins = Ins(None, op, ty, [v, a], {"volatile": vol, "atomic": atomic, "rest": p.t[p.i:]})
    elif op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nsw", "nusw"):
            p.next()
        bty = p.type()
        p.expect(",")
        args = []
        tys = []
        while True:
            at = p.type()
            args.append(p.value(at))
            tys.append(at)
            if not p.accept(","):
                break
        ins = Ins(res, "gep", "ptr", args, {"base": bty, "tys": tys})
    elif op == "alloca":
        p.accept("inalloca")
        ty = p.type()
        n = 1
        if p.accept(","):
            if p.peek() != "align" and p.peek() != "addrspace":
                t2 = p.type()
                n = p.value(t2)
        ins = Ins(res, op, "ptr", [], {"aty": ty, "n": n})
    elif op == "select":
        while p.peek() in FASTMATH:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(",")
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        p.type()
        b = p.value(ty)
        ins = Ins(res, op, ty, [c, a, b])
    elif op == "freeze":
        ty = p.type()
        ins = Ins(res, op, ty, [p.value(ty)])
    elif op in ("call", "invoke"):
        while p.peek() in FASTMATH or p.peek() in ("fastcc", "ccc", "coldcc"):
            p.next()
        p.pattrs()
        ty = p.type()
        if isinstance(ty, tuple) and ty[0] == "fn":
            ty = ty[1]
        callee = p.value("ptr")
        inner = p.parens()
        args = []
        tys = []
        if inner:
            q = P(inner)
            while q.peek() is not None:
                if q.peek() == "metadata":
                    args.append(("const", "metadata"))
                    tys.append("metadata")
                    break
                at = q.type()
                q.pattrs()
                args.append(q.value(at))
                tys.append(at)
                if not q.accept(","):
                    break
        ins = Ins(res, op, ty, args, {"callee": callee, "tys": tys})
        if op == "invoke":
            tail = p.t[p.i:]
            j = [i for i, x in enumerate(tail) if x == "label"]
            ins.attr["to"] = [tail[i + 1][1:].strip('"') for i in j]
    elif op == "landingpad":
        ins = Ins(res, op, p.type(), [])
    elif op == "resume":
        ty = p.type()
        ins = Ins(None, op, ty, [p.value(ty)])
    elif op in ("extractvalue",):
        ty = p.type()
        v = p.value(ty)
        idx = [x for x in p.t[p.i:] if x != ","]
        ins = Ins(res, op, ty, [v], {"idx": idx})
    elif op in ("insertvalue",):
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        t2 = p.type()
        w = p.value(t2)
        ins = Ins(res, op, ty, [v, w], {"idx": [x for x in p.t[p.i:] if x != ","]})
    elif op == "atomicrmw":
        if p.accept("volatile"):
            pass
        o = p.next()
        p.type()
        a = p.value("ptr")
        p.expect(",")
        ty = p.type()
        v = p.value(ty)
        ins = Ins(res, op, ty, [a, v], {"rmw": o, "rest": p.t[p.i:]})
    elif op == "cmpxchg":
        while p.peek() in ("weak", "volatile"):
            p.next()
        p.type()
        a = p.value("ptr")
        p.expect(",")
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        p.type()
        w = p.value(ty)
        ins = Ins(res, op, ty, [a, v, w], {"rest": p.t[p.i:]})
    else:
        ins = Ins(res, "?" + op, None, [])
    ins.dbg = dbg
    ins.raw = line
    return ins


def parse(text):
    m = Module()
    cur = None
    blk = None
    lines = text.split("\n")
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if cur is None:
            if ln.startswith("define"):
                head = ln
                cur = parse_define(head)
                m.funcs[cur.name] = cur
                blk = None
            elif ln.startswith("declare"):
                mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                if mm:
                    m.decls.add(mm.group(1).strip('"'))
            elif ln.startswith("@"):
                mm = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)', ln)
                m.globals[mm.group(1).strip('"')] = mm.group(2)
            elif ln.startswith("%"):
                mm = re.match(r'(%"[^"]*"|%[-a-zA-Z$._0-9]+) = type (.*)', ln)
                if mm:
                    m.structs[mm.group(1)] = mm.group(2)
            elif ln.startswith("!"):
                mm = re.match(r'(!\d+) = (.*)', ln)
                if mm:
                    m.meta[mm.group(1)] = mm.group(2)
            continue
        if ln.startswith("}"):
            finish(cur)
            cur = None
            continue
        s = ln.strip()
        if not s or s.startswith(";") or s.startswith("#dbg"):
            continue
        mm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
        if mm:
            blk = Block(mm.group(1).strip('"'))
            cur.blocks[blk.name] = blk
            cur.order.append(blk.name)
            continue
        if blk is None:
            blk = Block("%entry")
            cur.blocks[blk.name] = blk
            cur.order.append(blk.name)
        if re.match(r'\s*switch ', ln) and ln.rstrip().endswith("["):
            while not lines[i].strip().startswith("]"):
                ln += " " + lines[i].strip()
                i += 1
            ln += " " + lines[i].strip()
            i += 1
        while (re.match(r'\s*(%\S+ = )?(landingpad|invoke) ', ln)) and i < n and re.match(r'\s+(cleanup|catch|filter|to label|unwind)', lines[i]):
            ln += " " + lines[i].strip()
            i += 1
        ins = parse_ins(ln, i)
        ins.block = blk
        ins.idx = len(blk.ins)
        blk.ins.append(ins)
        if ins.res:
            cur.defs[ins.res] = ins
    return m


def parse_define(head):
    mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', head)
    name = mm.group(1).strip('"')
    pre = head[:mm.start()]
    rest = head[mm.end() - 1:]
    p = P(tokens(rest))
    inner = p.parens()
    params = []
    q = P(inner)
    while q.peek() is not None:
        if q.peek() == "...":
            q.next()
            break
        t = q.type()
        q.pattrs()
        nm = q.next() if q.peek() and q.peek().startswith("%") else "%" + str(len(params))
        params.append((t, nm))
        if not q.accept(","):
            break
    toks = tokens(pre)
    f = Func(name, toks[-1] if toks else "", params)
    mm = re.search(r'!dbg (!\d+)', head)
    f.dbg = mm.group(1) if mm else None
    f.attrs = head
    return f


def finish(f):
    for b in f.blocks.values():
        if not b.ins:
            raise AnalysisError("empty block in " + f.name)
        for s in dict.fromkeys(b.term.attr.get("to", [])):
            b.succs.append(s)
            f.blocks[s].preds.append(b.name)
    # numbering of unnamed entry block used by phis
    if "%entry" in f.blocks:
        nums = set()
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == "phi":
                    for x in i.attr["from"]:
                        if x not in f.blocks:
                            nums.add(x)
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == "phi":
                    i.attr["from"] = ["%entry" if x in nums else x for x in i.attr["from"]]


# ---------------------------------------------------------------- CFG facts
class CFG:
    def __init__(self, f):
        self.f = f
        self.rpo = self._rpo()
        self.rank = {b: i for i, b in enumerate(self.rpo)}
        self.idom = self._idom()
        self.children = {}
        for b, d in self.idom.items():
            if d is not None and d != b:
                self.children.setdefault(d, []).append(b)
        self._num()
        self.backedges = [(b, s) for b in self.rpo for s in f.blocks[b].succs if self.dom(s, b)]
        self.loops = self._loops()

    def _rpo(self):
        f = self.f
        seen = set()
        out = []
        st = [(f.order[0], iter(f.blocks[f.order[0]].succs))]
        seen.add(f.order[0])
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(f.blocks[s].succs)))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def preds(self, b):
        return [p for p in self.f.blocks[b].preds if p in self.rank]

    def _idom(self):
        entry = self.rpo[0]
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.preds(b):
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        idom[entry] = None
        return idom

    def _inter(self, idom, a, b):
        while a != b:
            while self.rank[a] > self.rank[b]:
                a = idom[a]
            while self.rank[b] > self.rank[a]:
                b = idom[b]
        return a

    def _num(self):
        self.tin, self.tout = {}, {}
        t = 0
        st = [(self.rpo[0], 0)]
        while st:
            b, k = st.pop()
            if k == 0:
                self.tin[b] = t
                t += 1
                st.append((b, 1))
                for c in self.children.get(b, []):
                    st.append((c, 0))
            else:
                self.tout[b] = t
                t += 1

    def dom(self, a, b):
        return a in self.tin and b in self.tin and self.tin[a] <= self.tin[b] and self.tout[b] <= self.tout[a]

    def _loops(self):
        loops = {}
        for (b, h) in self.backedges:
            body = loops.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(self.preds(x))
        return loops


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **kw)
    if r.returncode != 0:
        raise AnalysisError("command failed (%d): %s\n%s" % (r.returncode, " ".join(map(shlex.quote, cmd)), r.stderr[-4000:]))
    return r.stdout


def loc(mod, ref):
    """!dbg reference -> (line, scope chain text)"""
    if ref is None:
        return None
    t = mod.meta.get(ref, "")
    m = re.search(r'line: (\d+)', t)
    return int(m.group(1)) if m else None


def demangle(names):
    names = list(names)
    if not names:
        return {}
    out = subprocess.run(["c++filt"], input="\n".join(names) + "\n", stdout=subprocess.PIPE, universal_newlines=True).stdout.split("\n")
    return dict(zip(names, out))


# ---------------------------------------------------------------- normalisation
def thread_phi_branches(f):
    """A block that only merges an i1 and branches on it (the shape of && and || in a loop condition)
    is bypassed: each predecessor branches on its own incoming value.  Keeps the CFG facts exact."""
    changed = True
    while changed:
        changed = False
        for name in list(f.order):
            b = f.blocks[name]
            t = b.term
            if t.op != "br" or len(t.attr["to"]) != 2 or not b.preds:
                continue
            phis = [i for i in b.ins if i.op == "phi"]
            if len(phis) != 1 or len(b.ins) != 2 or t.args[0] != phis[0].res:
                continue
            phi = phis[0]
            uses = 0
            for bb in f.blocks.values():
                for i in bb.ins:
                    uses += sum(1 for a in i.args if a == phi.res)
            if uses != 1 or name in t.attr["to"]:
                continue
            # successors' phis must be extended for every new edge
            newname = 0
            for v, pn in list(zip(phi.args, phi.attr["from"])):
                p = f.blocks[pn]
                tag = "%s.thr.%s" % (name, pn)
                nb = Block(tag)
                if v == ("const", "true"):
                    br = Ins(None, "br", None, [], {"to": [t.attr["to"][0]]}, raw="br (threaded)")
                elif v == ("const", "false"):
                    br = Ins(None, "br", None, [], {"to": [t.attr["to"][1]]}, raw="br (threaded)")
                else:
                    br = Ins(None, "br", None, [v], {"to": list(t.attr["to"])}, raw="br (threaded)")
                br.dbg = t.dbg
                br.block = nb
                br.idx = 0
                nb.ins = [br]
                f.blocks[tag] = nb
                f.order.insert(f.order.index(name), tag)
                p.term.attr["to"] = [tag if x == name else x for x in p.term.attr["to"]]
                for s in set(br.attr["to"]):
                    for i in f.blocks[s].ins:
                        if i.op == "phi" and name in i.attr["from"]:
                            k = i.attr["from"].index(name)
                            i.args.append(i.args[k])
                            i.attr["from"].append(tag)
            for s in set(t.attr["to"]):
                for i in f.blocks[s].ins:
                    if i.op == "phi" and name in i.attr["from"]:
                        k = i.attr["from"].index(name)
                        del i.args[k]
                        del i.attr["from"][k]
            del f.blocks[name]
            f.order.remove(name)
            del f.defs[phi.res]
            rebuild_edges(f)
            changed = True
            break


def split_logical_branches(f):
    """br (a && b), T, F  ->  br a, N, F; N: br b, T, F   (and the dual for ||), so that each edge carries its own fact"""
    n = 0
    again = True
    while again:
        again = False
        for name in list(f.order):
            b = f.blocks[name]
            t = b.term
            if t.op != "br" or len(t.attr["to"]) != 2 or t.attr["to"][0] == t.attr["to"][1] or not isinstance(t.args[0], str):
                continue
            d = f.defs.get(t.args[0])
            if d is None or d.ty != "i1":
                continue
            T, Fl = t.attr["to"]
            if d.op == "select" and d.args[2] == ("const", "false") or d.op == "and":
                x, y, short, is_and = d.args[0], d.args[1], Fl, True
            elif d.op == "select" and d.args[1] == ("const", "true"):
                x, y, short, is_and = d.args[0], d.args[2], T, False
            elif d.op == "or":
                x, y, short, is_and = d.args[0], d.args[1], T, False
            elif d.op == "xor" and d.args[1] in (("const", "true"), ("const", "-1")):
                t.args[0] = d.args[0]
                t.attr["to"] = [Fl, T]
                again = True
                break
            else:
                continue
            n += 1
            nb = Block("log%d.%s" % (n, name))
            br = Ins(None, "br", None, [y], {"to": [T, Fl]}, raw="br (logical)")
            br.dbg, br.block, br.idx = t.dbg, nb, 0
            nb.ins = [br]
            f.blocks[nb.name] = nb
            f.order.insert(f.order.index(name) + 1, nb.name)
            t.args[0] = x
            t.attr["to"] = [nb.name, Fl] if is_and else [T, nb.name]
            for s in (T, Fl):
                for i in f.blocks[s].ins:
                    if i.op == "phi" and name in i.attr["from"]:
                        k = i.attr["from"].index(name)
                        if s == short:
                            i.args.append(i.args[k])
                            i.attr["from"].append(nb.name)
                        else:
                            i.attr["from"][k] = nb.name
            rebuild_edges(f)
            again = True
            break


def rebuild_edges(f):
    for b in f.blocks.values():
        b.preds, b.succs = [], []
    for n in f.order:
        b = f.blocks[n]
        for s in dict.fromkeys(b.term.attr.get("to", [])):
            b.succs.append(s)
            f.blocks[s].preds.append(n)


def strip_unreachable(f):
    seen = set()
    st = [f.order[0]]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(f.blocks[x].term.attr.get("to", []))
    dead = [b for b in f.order if b not in seen]
    for d in dead:
        for i in f.blocks[d].ins:
            if i.res:
                f.defs.pop(i.res, None)
        del f.blocks[d]
    f.order = [b for b in f.order if b in seen]
    for b in f.blocks.values():
        for i in b.ins:
            if i.op == "phi":
                keep = [k for k, x in enumerate(i.attr["from"]) if x in seen]
                i.args = [i.args[k] for k in keep]
                i.attr["from"] = [i.attr["from"][k] for k in keep]
    rebuild_edges(f)


def lower_selects(f):
    """x = select c, a, b  ->  a diamond with a phi (so that path facts cover conditional expressions)."""
    n = 0
    again = True
    while again:
        again = False
        for name in list(f.order):
            b = f.blocks[name]
            for k, i in enumerate(b.ins):
                if i.op == "select" and i.ty != "i1" and isinstance(i.args[0], str):
                    n += 1
                    bt, be, bj = Block("sel%d.t" % n), Block("sel%d.f" % n), Block("sel%d.j" % n)
                    rest = b.ins[k + 1:]
                    b.ins = b.ins[:k]
                    br = Ins(None, "br", None, [i.args[0]], {"to": [bt.name, be.name]}, raw="br (select)")
                    br.dbg = i.dbg
                    b.ins.append(br)
                    for x in (bt, be):
                        x.ins = [Ins(None, "br", None, [], {"to": [bj.name]}, raw="br (select)")]
                    phi = Ins(i.res, "phi", i.ty, [i.args[1], i.args[2]], {"from": [bt.name, be.name]}, raw=i.raw)
                    phi.dbg = i.dbg
                    bj.ins = [phi] + rest
                    f.defs[i.res] = phi
                    for x in (bt, be, bj):
                        f.blocks[x.name] = x
                    p = f.order.index(name)
                    f.order[p + 1:p + 1] = [bt.name, be.name, bj.name]
                    for s in set(bj.term.attr.get("to", [])):
                        for j in f.blocks[s].ins:
                            if j.op == "phi":
                                j.attr["from"] = [bj.name if x == name else x for x in j.attr["from"]]
                    for x in (b, bt, be, bj):
                        for q, j in enumerate(x.ins):
                            j.block, j.idx = x, q
                    again = True
                    break
            if again:
                break
    rebuild_edges(f)


def const_int(v):
    if isinstance(v, tuple) and v[0] == "const":
        try:
            return int(v[1])
        except ValueError:
            return None
    return None


def const_fp(v, ty="double"):
    """IR floating constant -> Fraction (exact) or None"""
    import struct
    from fractions import Fraction
    if not (isinstance(v, tuple) and v[0] == "const"):
        return None
    t = v[1]
    if t.startswith("0x"):
        d = struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0]
        if d != d or d in (float("inf"), float("-inf")):
            return None
        return Fraction(d)
    try:
        return Fraction(float(t))
    except ValueError:
        return None


NEGP = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult",
        "ugt": "ule", "ule": "ugt"}


def atomic_facts(f, cond, truth, depth=0):
    """branch condition -> list of (ins, truth) of comparison instructions that must hold (conjunction);
    disjunctions are dropped (weaker, hence sound for a may-analysis)."""
    if not isinstance(cond, str) or depth > 20:
        return []
    i = f.defs.get(cond)
    if i is None:
        return []
    if i.op in ("icmp", "fcmp"):
        # icmp ne (zext c), 0
        if i.op == "icmp" and i.attr["pred"] in ("eq", "ne"):
            for a, b in ((i.args[0], i.args[1]), (i.args[1], i.args[0])):
                k = const_int(b)
                if b == ("const", "false"):
                    k = 0
                if b == ("const", "true"):
                    k = 1
                if k is not None and isinstance(a, str):
                    d = f.defs.get(a)
                    if d is not None and (d.op in ("zext", "sext", "trunc") and is_bool(f, a)) or i.ty == "i1":
                        src = a if i.ty == "i1" else bool_src(f, a)
                        if src is not None and k in (0, 1):
                            want = (k == 1) == (i.attr["pred"] == "eq")
                            return atomic_facts(f, src, truth == want, depth + 1)
        return [(i, truth)]
    if i.op == "xor" and i.args[1] in (("const", "true"), ("const", "-1")):
        return atomic_facts(f, i.args[0], not truth, depth + 1)
    if i.op == "freeze":
        return atomic_facts(f, i.args[0], truth, depth + 1)
    if i.op == "and" and truth or i.op == "or" and not truth:
        return atomic_facts(f, i.args[0], truth, depth + 1) + atomic_facts(f, i.args[1], truth, depth + 1)
    if i.op == "select" and i.ty == "i1":
        if truth and i.args[2] == ("const", "false"):
            return atomic_facts(f, i.args[0], True, depth + 1) + atomic_facts(f, i.args[1], True, depth + 1)
        if not truth and i.args[1] == ("const", "true"):
            return atomic_facts(f, i.args[0], False, depth + 1) + atomic_facts(f, i.args[2], False, depth + 1)
    if i.op == "trunc" and is_bool(f, i.args[0]):
        s = bool_src(f, i.args[0])
        if s:
            return atomic_facts(f, s, truth, depth + 1)
    return []


def bool_src(f, v):
    """i1 value behind zext/sext/trunc chains, or None"""
    d = f.defs.get(v) if isinstance(v, str) else None
    n = 0
    while d is not None and n < 10:
        if d.ty == "i1" and d.op not in ("trunc",):
            return d.res
        if d.op in ("zext", "sext", "trunc") and isinstance(d.args[0], str):
            d = f.defs.get(d.args[0])
            n += 1
            continue
        return None
    return None


def is_bool(f, v):
    return bool_src(f, v) is not None
