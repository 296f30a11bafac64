"""Front end of the utility checks: a harness translation unit that calls the API under analysis is compiled to
IR; every function whose source file belongs to the repository (or is the harness itself, or is one of a short
list of transparent standard-library wrappers) is inlined into the harness function, everything else stays an
opaque call named by its demangled signature."""
import functools, os, re
import ir
from ir import AnalysisError
import predir

# standard-library wrappers that only move values around: inlined so that the analyses see through them
# (matched against the function's own qualified name, template arguments and parameters removed)
INLINE = re.compile(
    r'^(?:'
    r'std::(?:__)?(?:move|forward|addressof|get|min|max|abs|exchange|as_const|make_pair|__get_helper|swap|launder|forward_as_tuple)'
    r'|std::array::.*|std::__array_traits::.*'
    r'|std::(?:__)?atomic[a-z_]*::.*|std::operator[&|]|std::__cmpexch_failure_order2?|std::__is_valid_cmpexch_failure_order'
    r'|std::pair::.*'
    r'|std::unique_ptr::.*|std::__uniq_ptr_\w+::.*|std::_?tuple::.*|std::_Tuple_impl::.*|std::_Head_base::.*|std::default_delete::.*'
    r'|std::chrono::.*|std::common_type::.*'
    r'|std::initializer_list::.*'
    r'|std::(?:lock_guard|scoped_lock|unique_lock)::.*'
    r'|std::numeric_limits::.*'
    r'|std::(?:sqrt|floor|ceil|fabs|isnan|isinf|isfinite|is(?:digit|space|xdigit|alpha|alnum|punct|print|graph|cntrl|blank|upper|lower)|__niter_base|__iterator_category)'
    r')$')


@functools.lru_cache(maxsize=None)
def fname(d):
    """qualified name of a demangled signature, without return type, template arguments and parameters"""
    out, depth, i = [], 0, 0
    d = d.replace("(anonymous namespace)", "{anon}")
    while i < len(d):
        c = d[i]
        m = re.match(r'operator(\(\)|<<=?|>>=?|<=>|->\*?|<=?|>=?|\[\]|[-+*/%^&|~!=,]+=?)', d[i:]) \
            if depth == 0 and d.startswith("operator", i) and (i == 0 or not (d[i - 1].isalnum() or d[i - 1] == "_")) else None
        if m:
            out.append(m.group(0))
            i += len(m.group(0))
            continue
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0 and c == "(":
            if out and "".join(out).strip().endswith("decltype"):
                k = 0
                while i < len(d):
                    k += (d[i] == "(") - (d[i] == ")")
                    i += 1
                    if k == 0:
                        break
                continue
            break
        elif depth == 0:
            out.append(c)
        i += 1
    n = "".join(out).strip()
    k = n.find("operator ")
    if k >= 0:                      # conversion or allocation operator
        pre = n[:k].split(" ")[-1]
        return pre + n[k:]
    return n.split(" ")[-1]


NOINLINE = re.compile(r"^(?:\w+ )*std::(?:\w+::)*swap<.*\(.*(?:basic_string|std::vector|std::map|std::list|std::deque)")


def build(ctx, name, src, roots, extra=(), inline=None, opaque=None, passes="function(sroa,early-cse,sccp,early-cse)", lang="c++", flags=None, recursive=False):
    """-> (Module, demangled names). roots: names of the harness functions (extern "C")."""
    w = ctx.work
    cpp = os.path.join(w, name + (".cpp" if lang == "c++" else ".c"))
    with open(cpp, "w") as f:
        f.write(src)
    p0, p1, p2, p3 = (os.path.join(w, "%s.%d.ll" % (name, k)) for k in range(4))
    comp = ["clang++", "-std=c++17", "-fno-access-control"] if lang == "c++" else ["clang", "-std=gnu11"]
    ir.run(comp + ["-O1", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", "-gline-tables-only", "-fno-discard-value-names",
                   "-ffp-contract=off", "-w"] + predir.INC + list(extra) + [cpp, "-o", p0])
    txt = open(p0).read()
    # complete constructors/destructors may be aliases of the base ones
    for m in re.finditer(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = [^\n]*?\balias [^\n]*?, ptr @("[^"]*"|[-a-zA-Z$._0-9]+)\s*$', txt, flags=re.M):
        txt = re.sub(r'@%s(?=\()' % re.escape(m.group(1)), lambda k: "@" + m.group(2), txt)
    meta = dict(re.findall(r'^(!\d+) = (.*)$', txt, flags=re.M))

    def srcfile(ref):
        m = meta.get(ref, "")
        k = re.search(r'\bfile: (!\d+)', m)
        fm = meta.get(k.group(1), "") if k else ""
        g = re.search(r'filename: "([^"]*)", directory: "([^"]*)"', fm)
        return os.path.realpath(os.path.join(g.group(2), g.group(1))) if g else ""

    defs = re.findall(r'^define [^\n]*?@("[^"]*"|[-a-zA-Z$._0-9]+)\([^\n]*', txt, flags=re.M)
    lines = {m.group(1).strip('"'): m.group(0) for m in
             re.finditer(r'^define [^\n]*?@("[^"]*"|[-a-zA-Z$._0-9]+)\([^\n]*', txt, flags=re.M)}
    dem = ir.demangle(lines)
    repo = os.path.realpath(predir.REPO) + "/"
    inl, files = set(), {}
    for n, l in lines.items():
        m = re.search(r'!dbg (!\d+)', l)
        sf = srcfile(m.group(1)) if m else ""
        files[n] = sf
        d = dem[n]
        if sf.startswith(repo) or sf == os.path.realpath(cpp):
            if not (opaque and opaque.search(d)):
                inl.add(n)
        elif (INLINE.match(fname(d)) and not NOINLINE.search(d)) or (inline and inline.search(d)):
            inl.add(n)
    # "init:<symbol regex>": the dynamic initialiser of that variable
    roots = list(roots)
    for k, r in enumerate(roots):
        if r.startswith("init:"):
            hit = [n for n, body in re.findall(r'^define [^\n]*?@("[^"]*"|[-a-zA-Z$._0-9]+)\([^\n]*\{\n(.*?)^\}', txt, flags=re.M | re.S)
                   if "__cxx_global_var_init" in n and re.search(r'@%s\b' % r[5:], body)]
            if len(hit) != 1:
                raise AnalysisError("initialiser of %s not found" % r[5:])
            roots[k] = hit[0].strip('"')
    for r in roots:
        if r not in lines:
            raise AnalysisError("harness function %s was not compiled" % r)

    def sub(mm):
        l = mm.group(0)
        nm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l).group(1).strip('"')
        at = "alwaysinline" if nm in inl and nm not in roots else "noinline"
        l = re.sub(r'^define (available_externally )', 'define linkonce_odr ', l)
        return re.sub(r'(\)) ((?:local_)?unnamed_addr )?#', lambda k: k.group(1) + ' ' + (k.group(2) or '') + at + ' #', l, count=1)

    t2 = re.sub(r'^attributes #.*$', lambda mm: re.sub(r'\b(noinline|optnone|alwaysinline)\b', '', mm.group(0)), txt, flags=re.M)
    t2 = re.sub(r'^define.*$', sub, t2, flags=re.M)
    # call sites carry attributes of their own
    open(p1, "w").write(t2)
    predir.opt(p1, p2, "function(lowerinvoke),always-inline," + passes)
    args = ["llvm-extract-18", "-S"] + (["--recursive"] if recursive else [])
    for r in roots:
        args += ["--func=" + r]
    if recursive:
        # functions whose address is taken (tasks, callbacks)
        left = set(x.strip('"') for x in re.findall(r'^define [^\n]*?@("[^"]*"|[-a-zA-Z$._0-9]+)\(', open(p2).read(), flags=re.M))
        virt = set()
        for k in re.finditer(r'^@(?:"_ZTV[^"]*"|_ZTV[-a-zA-Z$._0-9]+) = (.*)$', open(p2).read(), flags=re.M):
            virt.update(x.strip('"') for x in re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', k.group(1)))
        for k in re.finditer(r'call void @vf_tasks\((.*)$', open(p2).read(), flags=re.M):
            virt.update(x.strip('"') for x in re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', k.group(1)))
        args += ["--func=" + n for n in sorted((inl | virt) & left) if n not in roots]
    ir.run(args + [p2, "-o", p3])
    m = ir.parse(open(p3).read())
    # constants that the extraction turned into declarations
    for k in re.finditer(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', open(p2).read(), flags=re.M):
        m.globals[k.group(1).strip('"')] = k.group(2)
    for r in roots:
        if r not in m.funcs:
            raise AnalysisError("harness function %s vanished" % r)
        ir.strip_unreachable(m.funcs[r])
    names = set(m.funcs) | set(m.globals)
    for f in m.funcs.values():
        for b in f.blocks.values():
            for i in b.ins:
                for g in re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', i.raw):
                    names.add(g.strip('"'))
    m.dem = ir.demangle(names)
    m.roots = roots
    m.src = files
    m.text = open(p3).read()
    m.full = t2
    m.repo_funcs = sorted(dem[n] for n in inl if files[n].startswith(repo))
    return m
