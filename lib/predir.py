"""Front end of the predicate checks: /repo/src/utils/Predicates.cpp -> IR in which every public entry
is one function containing only its own arithmetic and calls to expansion operations."""
import os, re, tempfile, shutil
import ir
from ir import AnalysisError

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src/utils/Predicates.cpp"
INC = ["-I" + REPO + "/include", "-I" + REPO + "/include/utils", "-I" + REPO]

ENTRIES = {  # demangled prefix -> number of point arguments, dimension, kind
    (2, "orient"): 3, (3, "orient"): 4, (2, "insphere"): 4, (3, "insphere"): 5,
}


def clang_ir(src, out, extra=(), opt="-O1"):
    ir.run(["clang++", "-std=c++17", opt, "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", "-gline-tables-only",
            "-fno-discard-value-names", "-ffp-contract=off", "-funroll-loops", "-w"] + INC + list(extra) + [src, "-o", out])


def opt(inp, out, passes, extra=()):
    ir.run(["opt-18", "-S"] + list(extra) + ["-passes=" + passes, inp, "-o", out])


def sig(f):
    n = {"i": 0, "p": 0, "f": 0}
    for t, _ in f.params:
        if t in ("i32", "i64", "i16"):
            n["i"] += 1
        elif t == "ptr":
            n["p"] += 1
        elif t in ("float", "double"):
            n["f"] += 1
        else:
            return None
    r = "i" if f.rty in ("i32", "i64", "i16") else "f" if f.rty in ("float", "double") else "v"
    return (n["i"], n["p"], n["f"], r)


KINDS = {(2, 3, 0, "i"): "sum", (1, 2, 1, "i"): "scale", (1, 1, 0, "f"): "estimate"}


def calls(f):
    for b in f.blocks.values():
        for i in b.ins:
            if i.op in ("call", "invoke") and isinstance(i.attr["callee"], str) and i.attr["callee"][0] == "@":
                yield i.attr["callee"][1:].strip('"'), i


class Front:
    def threaded(self):
        """the same functions after jump threading"""
        p4 = self.p3.replace("p3.ll", "p4.ll")
        opt(self.p3, p4, "function(jump-threading,sroa,early-cse,loop-simplify,lcssa)",
            ["-jump-threading-threshold=1000", "-jump-threading-phi-threshold=1000"])
        r = Front()
        r.mod = ir.parse(open(p4).read())
        r.dem, r.entries, r.ops = self.dem, self.entries, self.ops
        r.normalise()
        return r

    def normalise(self):
        for n in list(self.ops) + list(self.entries.values()):
            f = self.mod.funcs[n]
            ir.strip_unreachable(f)
            ir.lower_selects(f)
            ir.split_logical_branches(f)
            ir.thread_phi_branches(f)
            ir.strip_unreachable(f)


def load(workdir):
    w = workdir
    p0, p1, p2, p3 = (os.path.join(w, x) for x in ("p0.ll", "p1.ll", "p2.ll", "p3.ll"))
    clang_ir(SRC, p0)
    opt(p0, p1, "function(sroa,early-cse)")
    txt = open(p1).read()
    m = ir.parse(txt)
    dem = ir.demangle(m.funcs)
    entries = {}
    for n, d in dem.items():
        mm = re.match(r'^(?:.* )?Predicates<(\d)u?, (float|double)>::(\w+)\((.*)\)$', d)
        if mm and (int(mm.group(1)), mm.group(3)) in ENTRIES:
            want = ENTRIES[(int(mm.group(1)), mm.group(3))]
            fp = mm.group(2)
            ps = [p for t, p in m.funcs[n].params]
            if len(ps) == want and all(t == "ptr" for t, _ in m.funcs[n].params):
                entries[(int(mm.group(1)), mm.group(3), fp)] = n
    if len(entries) != 8:
        raise AnalysisError("expected 8 public predicate entry points, found %s" % sorted(entries))
    cg = {n: {c for c, _ in calls(f) if c in m.funcs} for n, f in m.funcs.items()}
    reach = set()
    st = list(entries.values())
    cand = set()
    while st:
        x = st.pop()
        if x in reach:
            continue
        reach.add(x)
        f = m.funcs[x]
        if x not in entries.values() and sig(f) in KINDS and contains_loop(m, cg, x):
            cand.add(x)
            continue
        st.extend(cg[x])

    # reads of scalars that were never assigned: visible as undef operands before any simplification
    pu = os.path.join(w, "pu.ll")
    opt(p0, pu, "function(mem2reg,dce)")
    mu = ir.parse(open(pu).read())
    uninit = []
    for n in sorted(reach):
        f = mu.funcs.get(n)
        if f is None:
            continue
        for b in f.blocks.values():
            for i in b.ins:
                if i.op != "phi" and not i.raw.lstrip().startswith("call void @llvm.") and re.search(r'\b(undef|poison)\b', i.raw) \
                        and not re.search(r'\b(insertvalue|insertelement|shufflevector)\b', i.raw):
                    uninit.append((n, i))

    # reachable ends of a non-void function without a return
    noret = []
    nr = noreturn_names(txt)
    for n in sorted(reach):
        f = m.funcs[n]
        ir.strip_unreachable(f)
        for b in f.blocks.values():
            if b.term.op == "unreachable" and not noreturn_call(b, nr) \
                    and not any(f.blocks[p].term.op == "switch" for p in b.preds):
                noret.append((n, b.preds))

    def sub(mm):
        l = mm.group(0)
        nm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l).group(1).strip('"')
        at = "noinline" if nm in cand or nm in entries.values() or nm.startswith("__cxx_global") else "alwaysinline"
        return re.sub(r'(\)) ((?:local_)?unnamed_addr )?#', lambda k: k.group(1) + ' ' + (k.group(2) or '') + at + ' #', l, count=1)

    t2 = re.sub(r'^attributes #.*$', lambda mm: re.sub(r'\bnoinline\b|\boptnone\b', '', mm.group(0)), txt, flags=re.M)
    t2 = re.sub(r'^define.*$', sub, t2, flags=re.M)
    open(p2, "w").write(t2)
    opt(p2, p3, "always-inline,function(sroa,early-cse,loop-simplify,lcssa,loop(loop-unroll-full),sroa,early-cse)",
        ["-unroll-threshold=100000"])
    m3 = ir.parse(open(p3).read())
    r = Front()
    r.mod = m3
    r.dem = ir.demangle(list(m3.funcs) + list(m3.globals))
    r.entries = entries
    r.ops = {n: KINDS[sig(m.funcs[n])] for n in cand}
    r.p3 = p3
    r.uninit = [(ir.demangle([n])[n], ir.loc(mu, i.dbg)) for n, i in uninit]
    r.noreturn = [ir.demangle([n])[n] for n, _ in noret]
    r.normalise()
    return r


def noreturn_names(txt):
    groups = set(re.findall(r'^attributes (#\d+) = \{[^\n]*\bnoreturn\b', txt, flags=re.M))
    names = set()
    for l in re.findall(r'^(?:define|declare) [^\n]*', txt, flags=re.M):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
        if m and groups & set(re.findall(r'#\d+', l)):
            names.add(m.group(1).strip('"'))
    return groups, names


def noreturn_call(b, nr):
    for i in reversed(b.ins[:-1]):
        if i.op in ("call", "invoke"):
            c = i.attr["callee"]
            if isinstance(c, str) and re.match(r'@llvm\.(lifetime|dbg|stackrestore)', c):
                continue
            return bool(nr[0] & set(re.findall(r'#\d+', i.raw))) or isinstance(c, str) and c[1:].strip('"') in nr[1]
        return False
    return False


def contains_loop(m, cg, x):
    seen = set()
    st = [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if ir.CFG(m.funcs[y]).loops:
            return True
        st.extend(cg[y])
    return False


def workdir():
    return tempfile.mkdtemp(prefix="pardetria-check-")
