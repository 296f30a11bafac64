"""Verification of the expansion operations (sum of two expansions, product with a scalar, estimate).

For every operation the following is derived from its IR:

  SUM     final content of h, cells [0,ret), adds up to the exact sum of all input components, resp. b times it
          (affine equalities over the reals; each fl(a+b) is unconstrained, each recognised roundoff tail t of x
          contributes t = (a op b) - x)
  ORDER   components are consumed in increasing magnitude, and whenever a component is consumed everything
          already produced lies below the output cursor (so the output is ordered)
  FAST    the cheap two-sum is used only where its precondition |a|>=|b| is given by the merge order
  TOP     the last component is non-zero unless it is the only one
  MEM     loads stay inside [0,len), stores inside the result capacity, 1 <= ret <= capacity
"""
from fractions import Fraction as F
import ir
from ir import AnalysisError, CFG, const_int, const_fp, atomic_facts, NEGP
from absdom import Zone, Karr
from fpalg import Terms

FPT = ("float", "double")
INTT = ("i16", "i32", "i64")


class Violation(Exception):
    pass


class Op:
    def __init__(self, front, name, kind):
        self.front, self.name, self.kind = front, name, kind
        self.f = front.mod.funcs[name]
        self.dem = front.dem.get(name, name)
        self.errors = []      # (rule, line, text)
        self.ob = {}          # rule -> number of obligations discharged

    def err(self, rule, ins, text):
        line = ir.loc(self.front.mod, ins.dbg) if ins is not None and ins.dbg else None
        e = (rule, line, text)
        if e not in self.errors:
            self.errors.append(e)

    def ok(self, rule, n=1):
        self.ob[rule] = self.ob.get(rule, 0) + n

    # ------------------------------------------------------------------ structure
    def run(self):
        f = self.f
        self.cfg = CFG(f)
        self.params = {n: t for t, n in f.params}
        self.fp = [t for t, n in f.params if t in FPT] or None
        self.ptrs = [n for t, n in f.params if t == "ptr"]
        self.ints = [n for t, n in f.params if t in INTT]
        self.b = next((n for t, n in f.params if t in FPT), None)
        self.roots = {}
        # innermost loops of blocks
        self.loops_of = {b: frozenset(h for h, body in self.cfg.loops.items() if b in body) for b in f.order}
        stored, loaded = set(), set()
        for b in f.order:
            for i in f.blocks[b].ins:
                if i.op[0] == "?":
                    raise AnalysisError("unmodelled instruction in %s: %s" % (self.dem, i))
                if i.op == "load" and i.ty in FPT:
                    r = self.addr(i.args[0])
                    if r and r[0] in self.ptrs:
                        loaded.add(r[0])
                if i.op == "store":
                    r = self.addr(i.args[1])
                    if r and r[0] in self.ptrs:
                        stored.add(r[0])
                    else:
                        self.err("MEM", i, "store to something that is not the output array")
                if i.op in ("call", "invoke"):
                    c = i.attr["callee"]
                    if not (isinstance(c, str) and (c.startswith("@llvm.fabs") or c.startswith("@llvm.lifetime"))):
                        self.err("SUM", i, "call of %s inside an expansion operation is not modelled" % (c,))
        if self.kind == "estimate":
            self.inputs, self.out = list(self.ptrs), None
            if stored:
                self.err("SUM", None, "estimate writes to the expansion")
        else:
            outs = [p for p in self.ptrs if p in stored]
            if len(outs) != 1 or outs[0] in loaded:
                self.err("SUM", None, "expected exactly one pure output array, found stores to %s" % sorted(stored))
                return
            self.out = outs[0]
            self.inputs = [p for p in self.ptrs if p != self.out]
        if self.errors:
            return
        self.lens = self.match_lengths()
        self.terms_pass()
        self.webs()
        self.live()
        self.zones()
        self.karr()
        self.obligations()

    def match_lengths(self):
        """which integer parameter bounds which input array: by position (len precedes its array)"""
        order = [n for t, n in self.f.params]
        res = {}
        free = list(self.ints)
        for p in self.inputs:
            cands = [n for n in free if order.index(n) < order.index(p)]
            if not cands:
                cands = free
            res[p] = cands[-1]
            free.remove(cands[-1])
        return res

    def lenargs(self):
        order = [n for t, n in self.f.params]
        return {order.index(p): order.index(l) for p, l in self.lens.items()}

    # integer values in normal form (var or None, const)
    def ival(self, v, depth=0):
        c = const_int(v)
        if c is not None:
            return (None, c)
        if not isinstance(v, str):
            return None
        d = self.f.defs.get(v)
        if d is None:
            if self.params.get(v) == "ptr":
                return (None, 0)
            return (v, 0) if v in self.params else None
        if d.op in ("sext", "zext", "trunc") and d.attr["from"] != "i1" and depth < 20:
            return self.ival(d.args[0], depth + 1)
        if d.op == "gep" or (d.op == "phi" and d.ty == "ptr"):
            r = self.addr(v)
            return r[1] if r else None
        return (v, 0)

    def addr(self, v):
        """pointer -> (root, offset normal form) in elements"""
        if v in self.params:
            return (v, (None, 0))
        if not isinstance(v, str) or v.startswith("@"):
            return None
        if v in self.roots:
            return self.roots[v]
        d = self.f.defs.get(v)
        if d is None:
            return None
        if d.op == "gep" and len(d.args) == 2:
            if d.attr["base"] not in FPT:
                return None
            r = self.addr(d.args[0])
            if r is None:
                return None
            base, off = r
            k = self.ival(d.args[1])
            if k is None:
                return None
            if off == (None, 0):
                res = (base, k)
            elif k == (None, 0):
                res = (base, off)
            else:
                res = (base, (v, 0))
            self.roots[v] = res
            return res
        if d.op == "phi" and d.ty == "ptr":
            self.roots[v] = None
            root = None
            # optimistic: assume a common root, verify afterwards
            for a in d.args:
                rr = self.root_only(a, {v})
                if rr == "self":
                    continue
                if rr is None or (root is not None and rr != root):
                    return None
                root = rr
            self.roots[v] = (root, (v, 0)) if root else None
            return self.roots[v]
        return None

    def root_only(self, v, seen):
        if v in self.params:
            return v
        if v in seen:
            return "self"
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if d is None:
            return None
        if d.op == "gep":
            return self.root_only(d.args[0], seen)
        if d.op == "phi":
            root = None
            for a in d.args:
                r = self.root_only(a, seen | {v})
                if r == "self":
                    continue
                if r is None or (root is not None and r != root):
                    return None
                root = r
            return root or "self"
        return None

    def idef(self, i):
        """integer/pointer-offset definition: (var, base var or None, const) or None when opaque"""
        if i.res is None:
            return None
        if i.op in ("add", "sub") and i.ty in INTT:
            a, b = self.ival(i.args[0]), self.ival(i.args[1])
            if a and b:
                if b[0] is None:
                    return (i.res, a[0], a[1] + (b[1] if i.op == "add" else -b[1]))
                if a[0] is None and i.op == "add":
                    return (i.res, b[0], b[1] + a[1])
            return None
        if i.op == "gep":
            r = self.addr(i.res)
            if r and r[1] == (i.res, 0):
                o = self.addr(i.args[0])
                k = self.ival(i.args[1])
                if o and k and k[0] is None:
                    return (i.res, o[1][0], o[1][1] + k[1])
                if o and k and o[1][0] is None:
                    return (i.res, k[0], k[1] + o[1][1])
        return None

    # ------------------------------------------------------------------ terms
    def terms_pass(self):
        T = self.T = Terms()
        self.val = {}
        f = self.f
        fpty = None
        for b in self.cfg.rpo:
            for i in f.blocks[b].ins:
                if i.ty in FPT or (i.op == "fcmp"):
                    fpty = fpty or (i.ty if i.ty in FPT else None)
                self.value_def(i)
        sp = {}
        for t in FPT:
            for k in range(len(T.node)):
                if T.node[k][0] == "glob" and T.node[k][2] == t and "splitter" in self.front.dem.get(T.node[k][1], T.node[k][1]):
                    sp[t] = (F(1), k)
        T.compute_tails(sp)
        # node -> defining SSA names
        self.names = {}
        for s, v in self.val.items():
            self.names.setdefault(v[1], []).append(s)
        self.tailinfo = {}   # ssa -> list of (kind, factor, x, p, q)
        for s, v in self.val.items():
            if v[1] in T.tail and T.node[v[1]][0] in ("add", "fma"):
                L = []
                for (kind, c, x, p, q) in T.tail[v[1]]:
                    # v = v0 * node ; node = c*(p op q - x)
                    L.append((kind, c * v[0], x, p, q))
                self.tailinfo[s] = L

    def fval(self, v, ty):
        c = const_fp(v, ty)
        if c is not None:
            return self.T.const(c)
        if v in self.val:
            return self.val[v]
        if v in self.params:
            return self.T.leaf(("param", v))
        return self.T.leaf(("ssa", v if isinstance(v, str) else str(v)))

    def value_def(self, i):
        T = self.T
        if i.res is None or i.ty not in FPT:
            return
        if i.op in ("fadd", "fsub", "fmul", "fdiv"):
            if i.attr.get("flags"):
                self.err("SUM", i, "floating point operation compiled with value-changing flags %s" % sorted(i.attr["flags"]))
            a, b = self.fval(i.args[0], i.ty), self.fval(i.args[1], i.ty)
            v = {"fadd": T.add, "fsub": T.sub, "fmul": T.mul, "fdiv": T.div}[i.op](a, b, i.ty)
        elif i.op == "fneg":
            v = T.neg(self.fval(i.args[0], i.ty))
        elif i.op == "fpext":
            v = self.fval(i.args[0], i.ty)
        elif i.op == "fptrunc":
            d = self.f.defs.get(i.args[0])
            v = None
            if d is not None and d.op == "fpext" and d.attr["from"] == i.ty:
                v = self.fval(d.args[0], i.ty)
            elif d is not None and d.op in ("fadd", "fsub", "fmul") and all(self.exact_in(a, i.ty) for a in d.args):
                # double rounding of a single operation on floats is innocuous (2p+2 <= 53)
                a, b = self.fval(d.args[0], i.ty), self.fval(d.args[1], i.ty)
                v = {"fadd": T.add, "fsub": T.sub, "fmul": T.mul}[d.op](a, b, i.ty)
            else:
                v = T.leaf(("ssa", i.res))
        elif i.op == "load":
            a = i.args[0]
            if isinstance(a, str) and a.startswith("@"):
                v = T.leaf(("glob", a[1:].strip('"'), i.ty))
            else:
                v = T.leaf(("ssa", i.res))
        elif i.op == "call" and isinstance(i.attr["callee"], str) and i.attr["callee"].startswith("@llvm.fabs"):
            v = T.abs(self.fval(i.args[0], i.ty))
        else:
            v = T.leaf(("ssa", i.res))
        self.val[i.res] = v

    def exact_in(self, a, ty):
        if const_fp(a) is not None:
            return True
        d = self.f.defs.get(a)
        return d is not None and d.op == "fpext" and d.attr["from"] == ty

    # ------------------------------------------------------------------ webs, liveness
    def webs(self):
        """cursor variables per array: integers used to address it, closed under phi and +-const"""
        f = self.f
        self.cursors = {p: set() for p in self.ptrs}
        self.access = []      # (ins, root, ival, is_store)
        for b in self.cfg.rpo:
            for i in f.blocks[b].ins:
                if i.op in ("load", "store"):
                    r = self.addr(i.args[-1])
                    if r and r[0] in self.ptrs:
                        self.access.append((i, r[0], r[1], i.op == "store"))
                        if r[1][0]:
                            self.cursors[r[0]].add(r[1][0])
        for p in self.ptrs:
            S = self.cursors[p]
            ch = True
            while ch:
                ch = False
                for b in self.cfg.rpo:
                    for i in f.blocks[b].ins:
                        if i.op == "phi" and (i.ty in INTT or i.ty == "ptr"):
                            vs = [self.ival(a) for a in i.args]
                            members = [v[0] for v in vs if v and v[0]] + [i.res]
                            if any(m in S for m in members):
                                for m in members:
                                    if m not in S and m not in self.ints:
                                        S.add(m)
                                        ch = True
                        d = self.idef(i)
                        if d and d[1] and abs(d[2]) <= 2:
                            if d[0] in S and d[1] not in S and d[1] not in self.ints:
                                S.add(d[1])
                                ch = True
                            if d[1] in S and d[0] not in S:
                                S.add(d[0])
                                ch = True
            # the returned count is a cursor of the output
        if self.out:
            for b in self.cfg.rpo:
                t = f.blocks[b].term
                if t.op == "ret" and t.args:
                    v = self.ival(t.args[0])
                    if v and v[0] and v[0] not in self.cursors[self.out]:
                        self.err("SUM", t, "the returned length is not the output cursor")

    def live(self):
        f = self.f
        use, dfn, phiuse = {}, {}, {}
        self.virt = {}
        for s, L in self.tailinfo.items():
            u = []
            for (_, _, x, p, q) in L:
                for v in (x, p, q):
                    u += self.names.get(v[1], [])
            self.virt[s] = u
        lows = {}
        for s, L in self.tailinfo.items():
            for (kind, _, x, p, q) in L:
                if kind == "two_product":
                    lows.setdefault(x[1], []).append(s)
        for s, v in self.val.items():
            nd = self.T.node[v[1]]
            if nd[0] == "add" and (nd[1][1] in lows or nd[2][1] in lows):
                self.virt[s] = self.virt.get(s, []) + lows.get(nd[1][1], []) + lows.get(nd[2][1], [])
                for m in (nd[1][1], nd[2][1]):
                    if m in lows:
                        for o in self.T.node[m][1:3]:
                            self.virt[s] = self.virt[s] + self.names.get(o, [])
        for b in self.cfg.rpo:
            u, d = set(), set()
            for i in f.blocks[b].ins:
                if i.op == "phi":
                    d.add(i.res)
                    for a, p in zip(i.args, i.attr["from"]):
                        if isinstance(a, str):
                            phiuse.setdefault(p, set()).add(a)
                    continue
                ex = []
                for a in i.args:
                    if isinstance(a, str) and a[0] == "%":
                        ex.append(a)
                ex += self.virt.get(i.res, [])
                # the cursor behind a cast or pointer is used as well
                for a in list(ex):
                    v = self.ival(a) if a in f.defs and f.defs[a].ty in INTT + ("ptr",) else None
                    if v and v[0]:
                        ex.append(v[0])
                    if a in self.val:
                        ex += [n for n in self.names.get(self.val[a][1], []) if n in f.defs and self.cfg.dom(f.defs[n].block.name, b)][:3]
                u |= set(a for a in ex if a not in d)
                if i.res:
                    d.add(i.res)
            use[b], dfn[b] = u, d
        li = {b: set() for b in self.cfg.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.cfg.rpo):
                o = set(phiuse.get(b, ()))
                for s in f.blocks[b].succs:
                    o |= li[s]
                n = use[b] | (o - dfn[b])
                if n != li[b]:
                    li[b] = n
                    ch = True
        # close liveness over the cursor behind casts
        for b in li:
            add = set()
            for a in li[b]:
                d = f.defs.get(a)
                if d is not None and d.ty in INTT + ("ptr",):
                    v = self.ival(a)
                    if v and v[0]:
                        add.add(v[0])
            li[b] |= add
        self.livein = li

    # ------------------------------------------------------------------ zones with partitioning
    def zone_cond(self, z, cond, truth):
        for (c, t) in atomic_facts(self.f, cond, truth):
            if c.op != "icmp":
                continue
            if c.ty == "ptr":
                ra, rb = self.addr(c.args[0]), self.addr(c.args[1])
                if not ra or not rb or ra[0] != rb[0]:
                    continue
            a, b = self.ival(c.args[0]), self.ival(c.args[1])
            if not a or not b:
                continue
            pred = c.attr["pred"] if t else NEGP[c.attr["pred"]]
            x, cx = a[0] or '0', a[1]
            y, cy = b[0] or '0', b[1]
            if pred[0] == "u" and pred not in ("une",):
                # unsigned comparison: only sound as signed when both sides are known non-negative
                if z.bot:
                    continue
                if not (self.nonneg(z, x, cx) and self.nonneg(z, y, cy)):
                    continue
                pred = "s" + pred[1:]
            # x + cx  pred  y + cy
            if pred in ("slt",):
                z.add(x, y, cy - cx - 1)
            elif pred == "sle":
                z.add(x, y, cy - cx)
            elif pred == "sgt":
                z.add(y, x, cx - cy - 1)
            elif pred == "sge":
                z.add(y, x, cx - cy)
            elif pred == "eq":
                z.add(x, y, cy - cx)
                z.add(y, x, cx - cy)
            elif pred == "ne":
                if z.get(x, y) is not None and z.get(x, y) == cy - cx:
                    z.add(x, y, cy - cx - 1)
                if z.get(y, x) is not None and z.get(y, x) == cx - cy:
                    z.add(y, x, cx - cy - 1)

    def nonneg(self, z, x, c):
        w = z.get('0', x)
        return w is not None and -w + c >= 0

    def zkey(self, z, vs):
        k = []
        for arr, l in sorted(self.lens.items()):
            for v in sorted(vs & self.cursors[arr]):
                a, b = z.get(v, l), z.get(l, v)
                k.append(1 if b is not None and b <= 0 else -1 if a is not None and a <= -1 else 0)
        return tuple(k)

    def zones(self):
        f = self.f
        ivars = set(self.ints)
        init = Zone()
        for l in self.ints:
            init.add('0', l, -1)
        state = {b: {} for b in self.cfg.rpo}
        visits = {}
        entry = self.cfg.rpo[0]
        state[entry][()] = init
        work = [entry]
        n = 0
        while work:
            work.sort(key=lambda b: self.cfg.rank[b], reverse=True)
            b = work.pop()
            n += 1
            if n > 5000:
                raise AnalysisError("zone analysis does not converge in " + self.dem)
            for s in f.blocks[b].succs:
                for z0 in list(state[b].values()):
                    z = self.zone_block(z0.copy(), b)
                    z = self.zone_edge(z, b, s)
                    if z.bot:
                        continue
                    keepv = self.livein[s] | ivars | set(i.res for i in f.blocks[s].ins if i.op == "phi")
                    z.keep(keepv)
                    k = self.zkey(z, keepv)
                    old = state[s].get(k)
                    if old is None:
                        state[s][k] = z
                    else:
                        if z.leq(old):
                            continue
                        j = old.join(z)
                        if s in self.cfg.loops:
                            visits[(s, k)] = visits.get((s, k), 0) + 1
                            if visits[(s, k)] > 3:
                                j = old.widen(j)
                        state[s][k] = j
                    if s not in work:
                        work.append(s)
        self.zin = state

    def zone_block(self, z, b, upto=None):
        for i in self.f.blocks[b].ins:
            if upto is not None and i is upto:
                break
            if i.op == "phi":
                continue
            d = self.idef(i)
            if d:
                z.assign(d[0], d[1] or '0', d[2])
            elif i.res and (i.ty in INTT or i.ty == "ptr"):
                z.havoc(i.res)
        return z

    def zone_edge(self, z, b, s):
        t = self.f.blocks[b].term
        if t.op == "br" and t.args:
            to = t.attr["to"]
            if to[0] != to[1]:
                self.zone_cond(z, t.args[0], s == to[0])
        elif t.op == "switch":
            pass
        if z.bot:
            return z
        pairs, hav = [], []
        for i in self.f.blocks[s].ins:
            if i.op != "phi" or not (i.ty in INTT or i.ty == "ptr"):
                continue
            a = i.args[i.attr["from"].index(b)]
            v = self.ival(a)
            if v is None:
                hav.append(i.res)
            else:
                pairs.append((i.res, v[0] or '0', v[1]))
        for h in hav:
            z.havoc(h)
        z.parallel(pairs)
        return z

    def zat(self, ins):
        """zones that hold just before the instruction"""
        b = ins.block.name
        return [self.zone_block(z.copy(), b, ins) for z in self.zin.get(b, {}).values()]

    def zedge(self, b, s):
        r = []
        for z in self.zin.get(b, {}).values():
            zz = self.zone_edge_nophi(self.zone_block(z.copy(), b), b, s)
            if not zz.bot:
                r.append(zz)
        return r

    def zone_edge_nophi(self, z, b, s):
        t = self.f.blocks[b].term
        if t.op == "br" and t.args and t.attr["to"][0] != t.attr["to"][1]:
            self.zone_cond(z, t.args[0], s == t.attr["to"][0])
        return z

    # ------------------------------------------------------------------ affine equalities
    def S(self, arr, v):
        return ("S", arr) + v

    def C(self, arr, v):
        return ("C", arr) + v

    def fexpr(self, v, ty):
        """floating point value -> affine expression over SSA names"""
        c = const_fp(v, ty)
        if c is not None:
            return {1: c} if c else {}
        return {self.falias(v): F(1)}

    def falias(self, v):
        d = self.f.defs.get(v)
        n = 0
        while d is not None and n < 10:
            if d.op == "fpext":
                v = d.args[0]
            elif d.op == "fptrunc" and self.f.defs.get(d.args[0]) is not None and self.f.defs[d.args[0]].op == "fpext" \
                    and self.f.defs[d.args[0]].attr["from"] == d.ty:
                v = self.f.defs[d.args[0]].args[0]
            else:
                break
            d = self.f.defs.get(v)
            n += 1
        return v

    def ssa_for(self, node, at):
        """an SSA name carrying the term node, computed in the same iteration as instruction `at`"""
        T = self.T
        k = T.node[node]
        if k[0] == "param":
            return k[1]
        for s in self.names.get(node, []):
            d = self.f.defs[s]
            db, ab = d.block.name, at.block.name
            if (db == ab and d.idx < at.idx) or (db != ab and self.cfg.dom(db, ab)):
                if self.loops_of[db] <= self.loops_of[ab]:
                    return self.falias(s)
        return None

    def vexpr(self, val, at):
        c = self.T.isconst(val)
        if c is not None:
            return {1: c} if c else {}
        s = self.ssa_for(val[1], at)
        if s is None:
            return None
        cs = self.val[s][0] if s in self.val else F(1)
        return {s: val[0] / cs}

    def prod_expr(self, p, q, at):
        """real product p*q -> affine expression over product ghosts (one factor must be the scalar b)"""
        if self.b is None:
            return None
        bn = self.fval(self.b, None)[1]
        if p[1] == bn:
            p, q = q, p
        if q[1] != bn:
            return None
        e = self.vexpr((F(1), p[1]), at)
        if e is None:
            return None
        k = p[0] * q[0]
        out = {}
        for s, c in e.items():
            if s == 1:
                out[("bb",)] = c * k
            else:
                out[("P", s)] = c * k
        return out

    def karr(self):
        f = self.f
        init = Karr()
        for arr in self.ptrs:
            init.add({self.S(arr, (None, 0)): 1})
            for k in range(0, 3):
                init.add({self.S(arr, (None, k + 1)): 1, self.S(arr, (None, k)): -1, self.C(arr, (None, k)): -1})
            if self.kind == "scale" and arr != self.out:
                init.add({("B", ) + self.S(arr, (None, 0)): 1})
                for k in range(0, 3):
                    init.add({("B",) + self.S(arr, (None, k + 1)): 1, ("B",) + self.S(arr, (None, k)): -1, ("B",) + self.C(arr, (None, k)): -1})
        state = {b: None for b in self.cfg.rpo}
        entry = self.cfg.rpo[0]
        state[entry] = init
        self.kin = state
        work = [entry]
        n = 0
        while work:
            work.sort(key=lambda b: self.cfg.rank[b], reverse=True)
            b = work.pop()
            n += 1
            if n > 3000:
                raise AnalysisError("affine analysis does not converge in " + self.dem)
            out = self.karr_block(state[b].copy(), b)
            for s in f.blocks[b].succs:
                if not self.zedge(b, s):
                    continue
                k = self.karr_edge(out.copy(), b, s)
                if k.bot:
                    continue
                self.karr_project(k, s)
                old = state[s]
                if old is None:
                    state[s] = k
                else:
                    if k.leq(old):
                        continue
                    state[s] = old.join(k)
                if s not in work:
                    work.append(s)

    def karr_project(self, k, s):
        live = self.livein[s] | set(self.params) | set(i.res for i in self.f.blocks[s].ins if i.op == "phi")

        def ok(v):
            if v == 1:
                return True
            if isinstance(v, tuple):
                if v[0] in ("S", "C"):
                    return v[2] is None or v[2] in live
                if v[0] == "B":
                    return v[3] is None or v[3] in live
                if v[0] == "P":
                    return v[1] in live
                if v[0] == "bb":
                    return True
                return False
            return v in live
        k.keep(ok)

    def kset(self, k, x, e):
        k.assign(x, e) if e is not None else k.forget(x)

    def karr_block(self, k, b, upto=None):
        for i in self.f.blocks[b].ins:
            if upto is not None and i is upto:
                break
            if i.op == "phi" or i.res is None and i.op != "store":
                continue
            if i.op == "store":
                r = self.addr(i.args[1])
                if r and r[0] == self.out:
                    e = self.fexpr(i.args[0], i.ty)
                    d = {v: -c for v, c in e.items()}
                    d[self.C(self.out, r[1])] = F(1)
                    k.add(d)
                continue
            if i.ty in INTT or i.ty == "ptr":
                d = self.idef(i)
                x = i.res
                if self.ival(x) != (x, 0):
                    continue
                k.forget(x)
                for arr in self.ptrs:
                    if x in self.cursors[arr]:
                        for g in (self.S(arr, (x, 0)), self.C(arr, (x, 0))):
                            k.forget(g)
                            k.forget(("B",) + g)
                if d:
                    e = {x: F(1)}
                    if d[1]:
                        e[d[1]] = F(-1)
                    if d[2]:
                        e[1] = F(-d[2])
                    k.add(e)
                    for arr in self.ptrs:
                        if x not in self.cursors[arr]:
                            continue
                        y = (d[1], 0) if d[1] else None
                        pre = [()] + ([("B",)] if self.kind == "scale" and arr != self.out else [])
                        for pp in pre:
                            if y is None:
                                k.add({pp + self.S(arr, (x, 0)): 1, pp + self.S(arr, (None, d[2])): -1})
                                k.add({pp + self.C(arr, (x, 0)): 1, pp + self.C(arr, (None, d[2])): -1})
                            elif d[2] == 1:
                                k.add({pp + self.S(arr, (x, 0)): 1, pp + self.S(arr, y): -1, pp + self.C(arr, y): -1})
                            elif d[2] == 0:
                                k.add({pp + self.S(arr, (x, 0)): 1, pp + self.S(arr, y): -1})
                                k.add({pp + self.C(arr, (x, 0)): 1, pp + self.C(arr, y): -1})
                            elif d[2] == -1:
                                k.add({pp + self.S(arr, y): 1, pp + self.S(arr, (x, 0)): -1, pp + self.C(arr, (x, 0)): -1})
                continue
            if i.ty in FPT:
                x = i.res
                if self.falias(x) != x:
                    continue
                k.forget(x)
                k.forget(("P", x))
                if i.op == "load":
                    r = self.addr(i.args[0])
                    if r and r[0] in self.inputs:
                        k.add({x: 1, self.C(r[0], r[1]): -1})
                        if self.kind == "scale":
                            k.add({("P", x): 1, ("B",) + self.C(r[0], r[1]): -1})
                elif i.op == "fneg":
                    e = self.fexpr(i.args[0], i.ty)
                    k.add_def(x, {v: -c for v, c in e.items()})
                    if isinstance(i.args[0], str):
                        k.add({("P", x): 1, ("P", self.falias(i.args[0])): 1})
                elif i.op in ("fadd", "fsub") and self.kind == "estimate":
                    e = self.fexpr(i.args[0], i.ty)
                    for v, c in self.fexpr(i.args[1], i.ty).items():
                        e[v] = e.get(v, 0) + (c if i.op == "fadd" else -c)
                    k.add_def(x, e)
                for (kind, c, xx, p, q) in self.tailinfo.get(x, ()):
                    ex = self.vexpr(xx, i)
                    if ex is None:
                        continue
                    if kind == "two_product":
                        ep = self.prod_expr(p, q, i)
                        if ep is None:
                            continue
                    else:
                        e1, e2 = self.vexpr(p, i), self.vexpr(q, i)
                        if e1 is None or e2 is None:
                            continue
                        ep = dict(e1)
                        for v, cc in e2.items():
                            ep[v] = ep.get(v, 0) + cc
                    if kind == "fast_two_sum" and any(t[0] == "two_sum" for t in self.tailinfo[x]):
                        continue
                    # x = c*(ep - ex)
                    d = {v: -c * cc for v, cc in ep.items()}
                    for v, cc in ex.items():
                        d[v] = d.get(v, 0) + c * cc
                    d[x] = d.get(x, 0) + 1
                    k.add(d)
        return k

    def karr_edge(self, k, b, s):
        f = self.f
        t = f.blocks[b].term
        zs = self.zedge(b, s)
        if t.op == "br" and t.args and t.attr["to"][0] != t.attr["to"][1]:
            for (c, tr) in atomic_facts(f, t.args[0], s == t.attr["to"][0]):
                if c.op == "fcmp":
                    pr = c.attr["pred"]
                    eq = (pr in ("oeq", "ueq") and tr) or (pr in ("une", "one") and not tr)
                    if eq:
                        e = self.fexpr(c.args[0], "double")
                        for v, cc in self.fexpr(c.args[1], "double").items():
                            e[v] = e.get(v, 0) - cc
                        k.add(e)
                elif c.op == "icmp":
                    pr = c.attr["pred"] if tr else NEGP[c.attr["pred"]]
                    same = True
                    if c.ty == "ptr":
                        ra, rb = self.addr(c.args[0]), self.addr(c.args[1])
                        same = bool(ra and rb and ra[0] == rb[0])
                    if pr == "eq" and same:
                        a, bb = self.ival(c.args[0]), self.ival(c.args[1])
                        if a and bb:
                            e = {}
                            for v, sg in ((a, 1), (bb, -1)):
                                if v[0]:
                                    e[v[0]] = e.get(v[0], 0) + sg
                                e[1] = e.get(1, 0) + sg * v[1]
                            k.add(e)
        # cursor known to equal the length: prefix sums coincide
        for arr, l in self.lens.items():
            pre = [()] + ([("B",)] if self.kind == "scale" else [])
            cands = [(v, 0) for v in self.cursors[arr]] + [(None, c) for c in (1, 2, 3)]
            for v in cands:
                if all(self.eqlen(z, v, l) for z in zs):
                    for pp in pre:
                        k.add({pp + self.S(arr, v): 1, pp + ("S", arr, l, 0): -1})
        # stale look-ahead value: beyond the length the content ghost is free, bind it to the stale value
        phis = [i for i in f.blocks[s].ins if i.op == "phi"]
        bound = set()
        for i in phis:
            if i.ty not in FPT:
                continue
            mine = i.args[i.attr["from"].index(b)]
            for a in i.args:
                d = f.defs.get(a) if isinstance(a, str) else None
                if d is None or d.op != "load" or a == mine:
                    continue
                r = self.addr(d.args[0])
                if not r or r[0] not in self.inputs or (r in bound):
                    continue
                l = self.lens[r[0]]
                if zs and all(self.geq(z, r[1], l) for z in zs):
                    e = self.fexpr(mine, i.ty)
                    g = self.C(r[0], r[1])
                    if not any(g in row for row in k.rows.values()) or True:
                        # only when the ghost is not already committed to a value
                        kk = k.copy()
                        d1 = {v: -c for v, c in e.items()}
                        d1[g] = F(1)
                        kk.add(d1)
                        if not kk.bot and self.free_in(k, g):
                            k.rows = kk.rows
                            if self.kind == "scale" and isinstance(mine, str):
                                g2 = ("B",) + g
                                if self.free_in(k, g2):
                                    k.add({g2: 1, ("P", self.falias(mine)): -1})
                            bound.add(r)
        # phis
        pairs = []
        for i in phis:
            a = i.args[i.attr["from"].index(b)]
            if i.ty in FPT:
                pairs.append((i.res, self.fexpr(a, i.ty)))
                if self.kind == "scale":
                    if isinstance(a, str):
                        pairs.append((("P", i.res), {("P", self.falias(a)): F(1)}))
            elif i.ty in INTT or i.ty == "ptr":
                v = self.ival(a)
                if v is None:
                    pairs.append((i.res, {("unk", i.res): F(1)}))
                    continue
                e = {}
                if v[0]:
                    e[v[0]] = F(1)
                if v[1]:
                    e[1] = F(v[1])
                pairs.append((i.res, e))
                for arr in self.ptrs:
                    if i.res in self.cursors[arr]:
                        src = v if (v[0] is None or v[1] == 0) else None
                        pre = [()] + ([("B",)] if self.kind == "scale" and arr != self.out else [])
                        for pp in pre:
                            for G in (self.S, self.C):
                                tgt = pp + G(arr, (i.res, 0))
                                if src is None or (src[0] and src[0] not in self.cursors[arr]):
                                    pairs.append((tgt, {("unk", tgt): F(1)}))
                                else:
                                    pairs.append((tgt, {pp + G(arr, src): F(1)}))
        k.parallel(pairs)
        for x, e in pairs:
            for v in e:
                if isinstance(v, tuple) and v[0] == "unk":
                    k.forget(v)
        return k

    def free_in(self, k, g):
        """the ghost only occurs in its defining prefix-sum equation (S' = S + C): it is otherwise unconstrained"""
        rows = [r for r in k.rows.values() if g in r]
        for r in rows:
            if all((isinstance(v, tuple) and v[0] in ("S", "B")) or v == g or v == 1 for v in r):
                continue
            # after substitution the ghost may appear in a row with other variables; allowed when some prefix
            # ghost for the next position is in the row (that is what absorbs it)
            if any(isinstance(v, tuple) and v[0] == "S" or (isinstance(v, tuple) and v[0] == "B") for v in r):
                continue
            return False
        return True

    def eqlen(self, z, v, l):
        x, c = v[0] or '0', v[1]
        a, b = z.get(x, l), z.get(l, x)
        return a is not None and b is not None and a + c <= 0 and b - c <= 0

    def geq(self, z, v, l):
        b = z.get(l, v[0] or '0')
        return b is not None and b - v[1] <= 0

    # ------------------------------------------------------------------ obligations
    def kat(self, ins):
        b = ins.block.name
        if self.kin.get(b) is None:
            return None
        return self.karr_block(self.kin[b].copy(), b, ins)

    def live_at(self, ins, arr):
        """cursor candidates of an array visible at an instruction"""
        out = [(None, 0), (None, 1), (None, 2)]
        if arr in self.lens:
            out.append((self.lens[arr], 0))
        for v in self.cursors[arr]:
            d = self.f.defs.get(v)
            if d is None:
                continue
            db, ab = d.block.name, ins.block.name
            if (db == ab and d.idx < ins.idx) or (db != ab and self.cfg.dom(db, ab)):
                out.append((v, 0))
        return out

    def next_at(self, ins, arr):
        """candidates for the position of the next unconsumed component: the start, or a cursor"""
        return [v for v in self.live_at(ins, arr) if v == (None, 0) or (v[0] and v[0] != self.lens.get(arr))]

    def obligations(self):
        self.ob_mem()
        self.ob_final()
        if self.kind != "estimate":
            self.ob_chain()
            self.ob_top()
            self.ob_single_store()
        self.ob_fast()

    def reach(self, i):
        return bool(self.zin.get(i.block.name))

    def ob_mem(self):
        for (i, arr, v, st) in self.access:
            if not self.reach(i):
                continue
            for z in self.zat(i):
                if z.bot:
                    continue
                x, c = v[0] or '0', v[1]
                lo = z.get('0', x)
                if not (lo is not None and lo - c <= 0):
                    self.err("MEM", i, "index into %s may be negative" % arr)
                    continue
                if st:
                    continue
                hi = z.get(x, self.lens[arr])
                if not (hi is not None and hi + c <= -1):
                    self.err("MEM", i, "load from %s at an index not known to be below its length %s" % (arr, self.lens[arr]))
                else:
                    self.ok("MEM")
        if self.out:
            self.ob_capacity()

    def capacity(self):
        """result capacity as (sum of len coefficients): sum -> elen+flen, scale -> 2*elen"""
        return {l: (1 if self.kind == "sum" else 2) for l in self.lens.values()}

    def ob_capacity(self):
        """slack D = sum coef*consumed - produced along every path; stores need slack >= 1, see MEM"""
        f = self.f
        coef = {arr: (1 if self.kind == "sum" else 2) for arr in self.inputs}
        # state: (frozenset of names equal to the current cursor per array) and the minimal slack
        entry = self.cfg.rpo[0]
        st = {entry: ({a: frozenset([(None, 0)]) for a in self.ptrs}, 0)}
        cnt = {}
        work = [entry]
        self.slack_at = {}
        bad = False
        while work:
            work.sort(key=lambda b: self.cfg.rank[b], reverse=True)
            b = work.pop()
            cur, sl = dict(st[b][0]), st[b][1]
            for i in f.blocks[b].ins:
                if i.op == "phi":
                    continue
                if i.op == "store":
                    r = self.addr(i.args[1])
                    if r and r[0] == self.out:
                        v = r[1]
                        if v in cur[self.out]:
                            need = sl
                        elif (v[0], v[1]) in self.prev.get(b, {}).get(self.out, ()):  # not used
                            need = sl
                        else:
                            # store through an older version of the cursor: h[c++] computes c+1 first
                            older = [w for w in cur[self.out] if self.older(w, v)]
                            if older:
                                need = sl + 1
                            else:
                                self.err("MEM", i, "store through an output index that is not the current output cursor")
                                bad = True
                                continue
                        # components not yet consumed still contribute to the capacity
                        zs = self.zat(i)
                        for a in self.inputs:
                            rem = 0
                            for w in cur[a]:
                                ms = [z.get(w[0] or '0', self.lens[a]) for z in zs if not z.bot]
                                if ms and all(m is not None for m in ms):
                                    rem = max(rem, -max(ms) - w[1])
                            need += coef[a] * rem
                        self.slack_at[i] = min(self.slack_at.get(i, need), need)
                    continue
                d = self.idef(i)
                if d:
                    for a in self.ptrs:
                        if d[0] in self.cursors[a]:
                            src = (d[1], 0) if d[1] else (None, 0)
                            c = d[2]
                            if src in cur[a]:
                                if c == 0:
                                    cur[a] = cur[a] | {(d[0], 0)}
                                elif self.supersedes(i, a):
                                    cur[a] = frozenset([(d[0], 0)])
                                    sl += c * (coef[a] if a != self.out else -1)
            for s in f.blocks[b].succs:
                if not self.zedge(b, s):
                    continue
                cur2, sl2 = dict(cur), sl
                for a in self.ptrs:
                    names = set(n for n in cur[a])
                    new = set()
                    phis = [i for i in f.blocks[s].ins if i.op == "phi" and i.res in self.cursors[a]]
                    delta = None
                    for i in phis:
                        v = self.ival(i.args[i.attr["from"].index(b)])
                        if v is None:
                            continue
                        if v in cur[a]:
                            new.add((i.res, 0))
                            delta = 0 if delta in (None, 0) else delta
                        elif v[0] is None and any(n[0] is None for n in cur[a]):
                            c0 = [n[1] for n in cur[a] if n[0] is None][0]
                            new.add((i.res, 0))
                            delta = v[1] - c0
                            new.add(v)
                    if delta:
                        cur2[a] = frozenset(new)
                        sl2 += delta * (coef[a] if a != self.out else -1)
                    else:
                        cur2[a] = frozenset(names | new)
                if s in st:
                    oc, os_ = st[s]
                    nc = {}
                    for a in self.ptrs:
                        nc[a] = oc[a] & cur2[a]
                    ns = min(os_, sl2)
                    if nc == oc and ns == os_:
                        continue
                    cnt[s] = cnt.get(s, 0) + 1
                    if cnt[s] > 20:
                        ns = -10 ** 6
                        if cnt[s] > 30:
                            continue
                    st[s] = (nc, ns)
                else:
                    st[s] = (cur2, sl2)
                if s not in work:
                    work.append(s)
        for i, need in self.slack_at.items():
            if need < 1:
                self.err("MEM", i, "output cursor may reach the result capacity before this store (%s)"
                         % ("produced more components than twice the consumed ones" if self.kind == "scale" else "produced more components than consumed"))
            else:
                self.ok("MEM")

    prev = {}

    def older(self, w, v):
        d = self.f.defs.get(w[0]) if w[0] else None
        if d is None:
            return w[0] is None and v[0] is None and w[1] == v[1] + 1
        dd = self.idef(d)
        return bool(dd) and ((dd[1], 0) == v if dd[1] else (None, 0) == v) and dd[2] == 1

    def supersedes(self, i, a):
        return True

    def ob_single_store(self):
        """between two stores to h the cursor moved: every cell gets its final value once"""
        f = self.f
        stores = [(i, v) for (i, arr, v, st) in self.access if st]
        for (i, v) in stores:
            for (j, w) in stores:
                if i is j and not self.loops_of[i.block.name]:
                    continue
                if not self.may_follow(i, j):
                    continue
                # a later store j after i: zone at j must know cursor(j) >= something fresh; decided by the affine
                # domain: contradictory contents show up as bottom, so only identity of the cursor value matters
                if v == w and self.same_value_path(i, j, v):
                    self.err("SUM", j, "an output cell may be written twice")
        self.ok("SUM")

    def may_follow(self, i, j):
        if i.block is j.block and i.idx < j.idx:
            return True
        seen, stk = set(), list(self.f.blocks[i.block.name].succs)
        while stk:
            b = stk.pop()
            if b in seen:
                continue
            seen.add(b)
            if b == j.block.name:
                return True
            stk.extend(self.f.blocks[b].succs)
        return False

    def same_value_path(self, i, j, v):
        """path from i to j on which the SSA name v is not redefined"""
        if v[0] is None:
            return self.may_follow(i, j)
        db = self.f.defs[v[0]].block.name if v[0] in self.f.defs else None
        if i.block is j.block and i.idx < j.idx:
            return True
        seen, stk = set(), [s for s in self.f.blocks[i.block.name].succs]
        while stk:
            b = stk.pop()
            if b in seen or b == db:
                continue
            seen.add(b)
            if b == j.block.name:
                return True
            stk.extend(self.f.blocks[b].succs)
        return False

    def total(self):
        e = {}
        for arr, l in self.lens.items():
            g = ("S", arr, l, 0)
            if self.kind == "scale":
                g = ("B",) + g
            e[g] = F(-1)
        return e

    def ob_final(self):
        n = 0
        for b in self.cfg.rpo:
            t = self.f.blocks[b].term
            if t.op != "ret" or self.kin.get(b) is None:
                continue
            n += 1
            k = self.kat(t)
            e = self.total()
            if self.kind == "estimate":
                for v, c in self.fexpr(t.args[0], t.ty).items():
                    e[v] = e.get(v, 0) + c
            else:
                v = self.ival(t.args[0])
                if v is None or (v[0] and v[0] not in self.cursors[self.out]):
                    self.err("SUM", t, "returned length is not the output cursor")
                    continue
                e[self.S(self.out, v)] = F(1)
                for z in self.zat(t):
                    lo = z.get('0', v[0] or '0')
                    if not (lo is not None and lo - v[1] <= -1):
                        self.err("MEM", t, "an empty expansion may be returned")
                    else:
                        self.ok("MEM")
            if not k.entails(e):
                self.err("SUM", t, "cannot derive that the result adds up to the exact %s"
                         % {"sum": "sum of both expansions", "scale": "product of expansion and scalar", "estimate": "sum of all components"}[self.kind])
            else:
                self.ok("SUM")
        if n == 0:
            self.err("SUM", None, "no reachable return")

    def dom_facts(self, bname, edge=None):
        """comparison facts that dominate a block (plus those of an edge bname->edge)"""
        f = self.f
        facts = []
        if edge is not None:
            t = f.blocks[bname].term
            if t.op == "br" and t.args and t.attr["to"][0] != t.attr["to"][1]:
                facts += atomic_facts(f, t.args[0], edge == t.attr["to"][0])
        b = bname
        while b is not None:
            d = self.cfg.idom.get(b)
            if d is None:
                break
            t = f.blocks[d].term
            if t.op == "br" and t.args and t.attr["to"][0] != t.attr["to"][1]:
                for k, s in enumerate(t.attr["to"]):
                    if self.edge_dom(d, s, b):
                        facts += atomic_facts(f, t.args[0], k == 0)
            b = d
        return facts

    def edge_dom(self, p, s, b):
        """edge p->s dominates b"""
        if not self.cfg.dom(s, b):
            return False
        return all(q == p or self.cfg.dom(s, q) for q in self.cfg.preds(s))

    # magnitude comparison facts -------------------------------------------------
    def truth_cases(self, conds, a, b):
        """order types (va, vb) consistent with the conditions, which compare only the values a, b, -a, -b, |a|, |b|"""
        T = self.T
        na, nb = a[1], b[1]
        res = []
        used = [c for c in conds if self.only_on(c, na, nb)]
        for va in (-2, -1, 0, 1, 2):
            for vb in (-2, -1, 0, 1, 2):
                if all(self.ev(c, {na: va, nb: vb}) == t for (c, t) in used):
                    res.append((abs(a[0]) * abs(va), abs(b[0]) * abs(vb)))
        return res

    def ev(self, s, env):
        """evaluate an i1/int SSA value over the order type"""
        if not isinstance(s, str):
            if s == ("const", "true"):
                return True
            if s == ("const", "false"):
                return False
            return const_int(s)
        i = self.f.defs[s]
        if i.op == "fcmp":
            def num(v):
                val = self.fval(v, "double") if not isinstance(v, str) or v not in self.val else self.val[v]
                c = self.T.isconst(val)
                if c is not None:
                    return c
                k = self.T.node[val[1]]
                if k[0] == "abs":
                    return val[0] * abs(env[k[1]])
                return val[0] * env[val[1]]
            x, y = num(i.args[0]), num(i.args[1])
            p = i.attr["pred"]
            return {"ogt": x > y, "ugt": x > y, "olt": x < y, "ult": x < y, "oge": x >= y, "uge": x >= y, "ole": x <= y,
                    "ule": x <= y, "oeq": x == y, "ueq": x == y, "one": x != y, "une": x != y}[p]
        if i.op == "icmp":
            x, y = self.ev(i.args[0], env), self.ev(i.args[1], env)
            p = i.attr["pred"]
            x, y = int(x), int(y)
            return {"eq": x == y, "ne": x != y, "slt": x < y, "sgt": x > y, "sle": x <= y, "sge": x >= y, "ult": x < y,
                    "ugt": x > y, "ule": x <= y, "uge": x >= y}[p]
        if i.op in ("zext", "sext", "trunc", "freeze"):
            return self.ev(i.args[0], env)
        if i.op in ("xor", "and", "or"):
            x, y = int(self.ev(i.args[0], env)), int(self.ev(i.args[1], env))
            return bool({"xor": x ^ y, "and": x & y, "or": x | y}[i.op])
        if i.op == "select":
            return self.ev(i.args[1] if self.ev(i.args[0], env) else i.args[2], env)
        raise AnalysisError("condition not evaluable: %s" % i)

    def only_on(self, ct, na, nb):
        s = ct[0]
        ok, hit = self._only(s, na, nb, 0)
        return ok and hit

    def _only(self, s, na, nb, depth):
        if not isinstance(s, str):
            return True, False
        if depth > 20 or s not in self.f.defs:
            return False, False
        i = self.f.defs[s]
        if i.op == "fcmp":
            hit = False
            for v in i.args:
                if not isinstance(v, str):
                    if const_fp(v) is None:
                        return False, False
                    if const_fp(v) != 0:
                        return False, False
                    continue
                val = self.fval(v, "double")
                n = val[1]
                if self.T.node[n][0] == "abs":
                    n = self.T.node[n][1]
                if abs(val[0]) != 1 or n not in (na, nb):
                    return False, False
                hit = True
            return True, hit
        if i.op in ("icmp", "zext", "sext", "trunc", "freeze", "xor", "and", "or", "select"):
            h = False
            for a in i.args:
                o, hh = self._only(a, na, nb, depth + 1)
                if not o:
                    return False, False
                h |= hh
            return True, h
        return False, False

    def branch_conds(self, bname, edge=None):
        """raw (cond ssa, truth) of branches dominating a block or edge"""
        f = self.f
        out = []
        if edge is not None:
            t = f.blocks[bname].term
            if t.op == "br" and t.args and t.attr["to"][0] != t.attr["to"][1]:
                out.append((t.args[0], edge == t.attr["to"][0]))
        b = bname
        while b is not None:
            d = self.cfg.idom.get(b)
            if d is None:
                break
            t = f.blocks[d].term
            if t.op == "br" and t.args and t.attr["to"][0] != t.attr["to"][1]:
                for k, s in enumerate(t.attr["to"]):
                    if self.edge_dom(d, s, b):
                        out.append((t.args[0], k == 0))
            b = d
        return out

    def content_of(self, k, u, arr, cands):
        e = self.fexpr(u, None)
        res = []
        for v in cands:
            d = {x: -c for x, c in e.items()}
            d[self.C(arr, v)] = F(1)
            if k.entails(d):
                res.append(v)
        return res

    def chain_adds(self):
        """fadd/fsub instructions x that have a recognised tail y in the function: list (ins x, p, q, kinds)"""
        out = []
        T = self.T
        bynode = {}
        for s, L in self.tailinfo.items():
            for (kind, c, x, p, q) in L:
                if kind in ("two_sum", "fast_two_sum"):
                    bynode.setdefault(x[1], []).append((kind, s, p, q))
        for n, L in bynode.items():
            for s in self.names.get(n, []):
                d = self.f.defs[s]
                if d.op in ("fadd", "fsub"):
                    out.append((d, L))
        return out

    def ob_chain(self):
        """ORDER: at each accumulation q (+) u everything produced so far and q itself equal the consumed prefix"""
        f, T = self.f, self.T
        # which terms are merely steps of a recognised tail computation?
        cnt = 0
        for (i, L) in self.chain_adds():
            if not self.is_accumulation(i, L):
                continue
            k = self.kat(i)
            if k is None:
                continue
            ops = [a for a in i.args]
            good = False
            why = ""
            for q, u in ((0, 1), (1, 0)):
                r, w = self.chain_at(i, k, ops[q], ops[u])
                if r:
                    good = True
                    break
                if w and not (why and "magnitude" in why):
                    why = w
            if good:
                cnt += 1
                self.ok("ORDER")
            else:
                self.err("ORDER", i, why or "accumulation step does not consume the next component in order")
        if self.kind == "sum":
            self.ob_selection()
        if cnt == 0:
            self.err("ORDER", None, "no accumulation step recognised")

    def ob_selection(self):
        """a value selected from either input (the start of the sum, or the next component) is the smaller one"""
        for b in self.cfg.rpo:
            for d in self.f.blocks[b].ins:
                if d.op != "phi" or d.ty not in FPT:
                    continue
                per = []
                for a, p in zip(d.args, d.attr["from"]):
                    if self.kin.get(p) is None or not isinstance(a, str):
                        per = None
                        break
                    t = self.f.blocks[p].term
                    kk = self.karr_block(self.kin[p].copy(), p)
                    hit = [(arr, v) for arr in self.inputs for v in self.live_at(t, arr) if self.content_of(kk, a, arr, [v])]
                    arrs = set(x for x, _ in hit)
                    if len(arrs) != 1:
                        per = None
                        break
                    per.append((a, p, t, kk, hit[0][0]))
                if not per or len(set(x[4] for x in per)) < 2:
                    continue
                for (a, p, t, kk, arr) in per:
                    other = [x for x in self.inputs if x != arr][0]
                    if any(self.not_larger(t, kk, a, other, w, self.branch_conds(p, b), self.zedge(p, b)) for w in self.next_at(t, other)):
                        self.ok("ORDER")
                    else:
                        self.err("ORDER", d, "component of %s selected where it may be larger in magnitude than the next component of %s" % (arr, other))

    def is_accumulation(self, i, L):
        """the roundoff of this addition is kept: its tail reaches an output store (directly or through phis / zero test)"""
        tails = set(s for (_, s, _, _) in L)
        for (st, arr, v, isst) in self.access:
            if isst and self.flows(st.args[0], tails):
                return True
        # tail feeding another accumulation (scale: product low part) does not count
        return False

    def flows(self, v, targets, seen=None):
        seen = seen or set()
        if not isinstance(v, str) or v in seen:
            return False
        seen.add(v)
        if v in targets:
            return True
        d = self.f.defs.get(v)
        if d is not None and d.op == "phi":
            return any(self.flows(a, targets, seen) for a in d.args)
        return False

    def chain_at(self, i, k, q, u):
        T = self.T
        eq = self.fexpr(q, i.ty)
        if self.kind == "sum":
            e_arr, f_arr = self.inputs
            for kv in self.live_at(i, self.out):
                for ev in self.live_at(i, e_arr):
                    for fv in self.live_at(i, f_arr):
                        d = {x: c for x, c in eq.items()}
                        for g, c in ((self.S(self.out, kv), 1), (self.S(e_arr, ev), -1), (self.S(f_arr, fv), -1)):
                            d[g] = d.get(g, 0) + c
                        if not k.entails(d):
                            continue
                        ok, why = self.consumes(i, k, u, {e_arr: ev, f_arr: fv})
                        if not ok:
                            return False, why
                        for arr in self.inputs:
                            other = [a for a in self.inputs if a != arr][0]
                            if self.content_of(k, q, arr, [(None, 0)]) and not self.content_of(k, q, other, [(None, 0)]):
                                if not self.not_larger(i, k, q, other, (None, 0), self.branch_conds(i.block.name), []):
                                    return False, "the sum starts with the first component of %s although the first of %s may be smaller" % (arr, other)
                        return True, None
            return False, "output produced so far plus the running sum is not the consumed prefix"
        # scale
        arr = self.inputs[0]
        bn = self.fval(self.b, None)[1]
        for kv in self.live_at(i, self.out):
            for ev in self.live_at(i, arr):
                d = {x: c for x, c in eq.items()}
                for g, c in ((self.S(self.out, kv), 1), (("B",) + self.S(arr, ev), -1)):
                    d[g] = d.get(g, 0) + c
                # u is the low part of b*C[ev]
                for (kind, c, x, p, qq) in self.tailinfo.get(u, ()):
                    if kind == "two_product" and bn in (p[1], qq[1]):
                        o = p if qq[1] == bn else qq
                        s = self.ssa_for(o[1], i)
                        if s and self.content_of(k, s, arr, [ev]) and k.entails(d):
                            return True, None
                # u is the high part; q = previous + low part
                vu = self.val.get(u)
                if vu and T.node[vu[1]][0] == "mul" and bn in T.node[vu[1]][1:3]:
                    nd = T.node[vu[1]]
                    o = nd[1] if nd[2] == bn else nd[2]
                    s = self.ssa_for(o, i)
                    if not s or not self.content_of(k, s, arr, [ev]):
                        continue
                    for lo, L in self.tailinfo.items():
                        dl = self.f.defs[lo]
                        if not ((dl.block is i.block and dl.idx < i.idx) or (dl.block is not i.block and self.cfg.dom(dl.block.name, i.block.name))):
                            continue
                        if any(kind == "two_product" and x[1] == vu[1] for (kind, c, x, p, qq) in L):
                            dd = dict(d)
                            dd[lo] = dd.get(lo, 0) - 1
                            if k.entails(dd):
                                return True, None
        return False, "output produced so far plus the running sum is not the scaled consumed prefix"

    def consumes(self, i, k, u, pos):
        """u is the next component of one input and not larger than the next one of the other"""
        f = self.f
        d = f.defs.get(u)
        for arr in self.inputs:
            if self.content_of(k, u, arr, [pos[arr]]):
                other = [a for a in self.inputs if a != arr][0]
                if self.not_larger(i, k, u, other, pos[other], self.branch_conds(i.block.name), self.zat(i)):
                    return True, None
                return False, "component of %s consumed where it may be larger in magnitude than the next component of %s" % (arr, other)
        if d is not None and d.op == "phi":
            # a selected element: each incoming edge must choose the smaller one
            allok = True
            for a, p in zip(d.args, d.attr["from"]):
                kk = self.karr_block(self.kin[p].copy(), p) if self.kin.get(p) is not None else None
                if kk is None:
                    continue
                t = f.blocks[p].term
                ok = False
                for arr in self.inputs:
                    for v in self.live_at(t, arr):
                        if self.content_of(kk, a, arr, [v]):
                            other = [x for x in self.inputs if x != arr][0]
                            for w in self.next_at(t, other):
                                if self.not_larger(t, kk, a, other, w, self.branch_conds(p, d.block.name), self.zedge(p, d.block.name)):
                                    ok = True
                if not ok:
                    allok = False
            if allok:
                return True, None
            return False, "selected component may be the larger one in magnitude"
        return False, "value added is not the next component of either input"

    def not_larger(self, i, k, u, other, w, conds, zs):
        l = self.lens[other]
        if zs and all(self.geq(z, w, l) for z in zs):
            return True
        # find compare facts against a value equal to C[other,w]
        uv = self.fval(u, "double")
        for n, ss in self.names.items():
            for s in ss:
                if s == u or self.f.defs[s].ty not in FPT:
                    continue
                if n == uv[1]:
                    continue
                if not self.content_of(k, s, other, [w]):
                    continue
                cases = self.truth_cases(conds, uv, self.val[s])
                if len(cases) < 25 and all(a <= b for a, b in cases):
                    return True
        return False

    def ob_top(self):
        """TOP: every stored component is non-zero, or it is stored as the very first one"""
        for (i, arr, v, st) in self.access:
            if not st or not self.reach(i):
                continue
            b = i.block.name
            if self.nonzero_facts(i.args[0], self.dom_facts(b)):
                self.ok("TOP")
                continue
            preds = self.cfg.preds(b)
            ok = bool(preds)
            for p in preds:
                zs = self.zedge(p, b)
                if not zs:
                    continue
                if self.nonzero_facts(i.args[0], self.dom_facts(p, b)):
                    continue
                x, c = v[0] or '0', v[1]
                if all(z.get(x, '0') is not None and z.get(x, '0') + c <= 0 for z in zs):
                    continue
                if v[0] is None and v[1] == 0:
                    continue
                ok = False
            if ok:
                self.ok("TOP")
            elif self.followed_by_nonzero(i):
                self.ok("TOP")
            else:
                self.err("TOP", i, "a zero component may be stored above non-zero ones (it would decide the sign)")

    def followed_by_nonzero(self, i):
        return False

    def nonzero_facts(self, v, facts):
        for (c, t) in facts:
            if c.op != "fcmp":
                continue
            pr = c.attr["pred"]
            a, b = c.args
            for x, y in ((a, b), (b, a)):
                if const_fp(y) == 0 and isinstance(x, str) and isinstance(v, str) and self.fval(x, "double")[1] == self.fval(v, "double")[1]:
                    if (pr in ("une", "one") and t) or (pr in ("oeq", "ueq") and not t) or (pr in ("ogt", "olt", "ugt", "ult") and t) \
                            or (pr in ("oge", "ole", "uge", "ule") and not t):
                        return True
        return False

    def ob_fast(self):
        """FAST: precondition of the branch-free Fast_Two_Sum"""
        if self.kind == "estimate":
            return
        T = self.T
        for s, L in self.tailinfo.items():
            fast = [t for t in L if t[0] == "fast_two_sum"]
            full = [t for t in L if t[0] == "two_sum"]
            if not fast or full:
                continue
            used = any(isst and self.flows(st.args[0], {s}) for (st, a, v, isst) in self.access)
            if not used:
                continue
            i = self.f.defs[s]
            ok = False
            for (kind, c, x, p, q) in fast:
                if self.kind == "scale":
                    bn = self.fval(self.b, None)[1]
                    nd = T.node[p[1]]
                    if nd[0] == "mul" and bn in nd[1:3]:
                        qn = T.node[q[1]]
                        # q = Q (+) low part of the same product
                        if qn[0] == "add":
                            for o in (qn[1], qn[2]):
                                for (kk, cc, xx, pp, qq) in T.tail.get(o[1], ()):
                                    if kk == "two_product" and xx[1] == p[1]:
                                        ok = True
                else:
                    k = self.kat(i)
                    xs = self.ssa_for(x[1], i)
                    xi = self.f.defs.get(xs) if xs else None
                    if k is None or xi is None:
                        continue
                    e_arr, f_arr = self.inputs
                    ps, qs = self.ssa_for(p[1], xi), self.ssa_for(q[1], xi)
                    kx = self.kat(xi)
                    if not ps or not qs:
                        continue
                    for ev in self.live_at(xi, e_arr):
                        for fv in self.live_at(xi, f_arr):
                            d = self.fexpr(qs, None)
                            d = dict(d)
                            for g, cc in ((self.S(e_arr, ev), -1), (self.S(f_arr, fv), -1)):
                                d[g] = d.get(g, 0) + cc
                            if not kx.entails(d):
                                continue
                            n = {}
                            for v in (ev, fv):
                                if v[0]:
                                    n[v[0]] = n.get(v[0], 0) + 1
                                n[1] = n.get(1, 0) + v[1]
                            n[1] = n.get(1, 0) - 1
                            if kx.entails(n) and (self.content_of(kx, ps, e_arr, [ev]) or self.content_of(kx, ps, f_arr, [fv])):
                                ok = True
            if ok:
                self.ok("FAST")
            else:
                self.err("FAST", i, "fast two-sum used where its first operand is not known to be the larger one")


def verify_all(front):
    """every operation is verified on its plain IR; where that fails, on equivalent IR after jump threading (path
    correlations made explicit).  A proof on either is a proof about the source."""
    res = []
    alt = None
    for n, kind in sorted(front.ops.items()):
        o = Op(front, n, kind)
        o.run()
        if o.errors:
            alt = alt or front.threaded()
            try:
                o2 = Op(alt, n, kind)
                o2.run()
                if not o2.errors:
                    o = o2
            except AnalysisError:
                pass
        res.append(o)
    return res
