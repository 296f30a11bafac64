"""Library containers for absx.Machine: maps and sequences with exact content, elements in cells of their own."""
import re
import sem
from sem import num
from unf import Undecided, Refuted
from absx import Thrown

MAPS = ("std::map::", "std::unordered_map::", "::concurrent_unordered_map::", "::concurrent_unordered_base::", "::concurrent_map::", "::concurrent_hash_map::")
SEQS = ("::concurrent_vector::", "::segment_table::~segment_table")
QUEUES = ("std::queue::", "::concurrent_queue::", "::concurrent_bounded_queue::", "std::stack::", "std::deque::", "std::list::")


class Library:
    def __init__(self):
        self.maps = {}       # address -> {key: node base}
        self.seqs = {}       # address -> [element base]
        self.log = []        # (operation, container kind, address)
        self.n = 0

    def key(self, an, st, a, p):
        if "basic_string" in p or p in ("key_type",):
            return an.string(st, a)
        return an.load(st, a, "i64")

    def known(self, k):
        if not all(p[0] == "l" for p in k):
            raise Undecided("map key " + repr(k)[:80])
        return k

    def map(self, a):
        if a[0] == "null" or a[1] == ("null",):
            raise Refuted("uses a container through a null pointer")
        return self.maps.setdefault(a, {})

    def seq(self, a):
        if a[0] == "null" or a[1] == ("null",):
            raise Refuted("uses a container through a null pointer")
        return self.seqs.setdefault(a, [])

    def node(self):
        self.n += 1
        return ("node", self.n)

    def put(self, an, st, a, k):
        m = self.map(a)
        self.known(k)
        if k not in m:
            m[k] = self.node()
            st.mem[("p", m[k], num(0))] = ("str", k)
            an.fills.setdefault(m[k], []).append((32, 4096, 0))
            return ("p", m[k], num(32)), True
        return ("p", m[k], num(32)), False

    def __call__(self, an, i, st, fn, d, args):
        f = sem.cleanfn(fn)
        f = f[f.find("tbb"):] if "tbb" in f else f
        last = f.split("::")[-1]
        sret = "sret(" in i.raw
        if "iterator" in d and args:
            r = self.iterop(an, st, f, last, d, args, sret)
            if r is not NotImplemented:
                return r
        if fn.startswith("_ZNSt4pairI") and len(args) == 3 and "C2I" in fn:
            try:
                k = an.string(st, args[1])
            except Undecided:
                return NotImplemented
            dst = an.addr(st, args[0])
            st.mem[dst] = ("str", k)
            self.assign(an, st, ("p", dst[1], sem.linadd(dst[2], num(32))), args[2], fn)
            return None
        if any(k in "::" + f or f.startswith(k) for k in MAPS) and args and "iterator" not in f:
            an.point()
            return self.mapop(an, i, st, f, last, d, args, sret)
        if any(k in "::" + f for k in SEQS) and args and "iterator" not in f:
            an.point()
            return self.seqop(an, i, st, f, last, d, args, sret)
        if any(k in "::" + f or f.startswith(k) for k in QUEUES) and args and "iterator" not in f:
            an.point()
            return self.queueop(an, i, st, f, last, d, args, sret)
        return NotImplemented

    def order(self, a, d):
        ks = list(self.map(a))
        return sorted(ks, key=lambda k: "".join(p[1] for p in k)) if "_Rb_tree" in d or "std::map" in d else ks

    def iterop(self, an, st, f, last, d, args, sret):
        """iterators of maps"""
        m = last in ("operator->", "operator*", "operator==", "operator!=", "operator++") or last.endswith("iterator") and sem.params(d)
        if not m:
            return NotImplemented
        b = args[1] if sret else args[0]
        ar = an.addr(st, b)
        if last.endswith("iterator"):
            src = st.mem.get(an.addr(st, args[1])) if len(args) == 2 and args[1][0] == "p" else args[1] if len(args) == 2 else None
            if not src or src[0] != "mapit":
                return NotImplemented
            an.store(st, args[0], src, "ptr")
            return None
        it = st.mem.get(ar)
        if it is None or it[0] != "mapit":
            return NotImplemented
        if last in ("operator->", "operator*"):
            if it[2] is None or it[2] not in self.map(it[1]):
                raise Refuted("uses an iterator that leads nowhere")
            return ("p", self.map(it[1])[it[2]], num(0))
        if last == "operator++":
            ks = self.order(it[1], d)
            if it[2] not in ks:
                raise Refuted("advances an iterator that leads nowhere")
            j = ks.index(it[2]) + 1
            new = ("mapit", it[1], ks[j] if j < len(ks) else None)
            an.store(st, ar, new, "ptr")
            if len(args) > (2 if sret else 1):
                if sret:
                    an.store(st, args[0], it, "ptr")
                    return None
                return it
            return b
        o = st.mem.get(an.addr(st, args[1]))
        if o is None or o[0] != "mapit":
            return NotImplemented
        return num(int((it == o) == (last == "operator==")))

    def mapop(self, an, i, st, f, last, d, args, sret):
        cls = f.split("::")[-2]
        a = an.addr(st, args[1] if sret else args[0])
        rest = args[2:] if sret else args[1:]
        ps = sem.params(d)
        if last == cls:
            if not rest:
                self.maps[a] = {}
                return None
            raise Undecided("map construction")
        if last.startswith("~"):
            return None
        self.log.append((last, cls, a, i))
        if last in ("operator[]", "at", "count", "contains", "find"):
            k = self.known(an.string(st, rest[0]))
            if last == "operator[]":
                v, new = self.put(an, st, a, k)
                if new and not st.mem.get(v):
                    self.zero(an, st, v, d)
                return v
            if last == "at":
                if k not in self.map(a):
                    raise Thrown("std::out_of_range")
                return ("p", self.map(a)[k], num(32))
            if last in ("count", "contains"):
                return num(int(k in self.map(a)))
            it = ("mapit", a, k if k in self.map(a) else None)
            if sret:
                an.store(st, args[0], it, "ptr")
                return None
            return it
        if last in ("begin", "end", "cbegin", "cend"):
            ks = self.order(a, d)
            it = ("mapit", a, ks[0] if ks and "begin" in last else None)
            if sret:
                an.store(st, args[0], it, "ptr")
                return None
            return it
        if last in ("emplace", "try_emplace", "insert_or_assign", "insert"):
            if last == "insert":
                p = rest[0]
                k, src = an.string(st, p), ("p", p[1], sem.linadd(p[2], num(32)))
                str2 = True
            else:
                if len(rest) != 2:
                    raise Undecided("map insertion")
                k, src = an.string(st, rest[0]), rest[1]
            v, new = self.put(an, st, a, k)
            if new or last == "insert_or_assign":
                self.assign(an, st, v, src, d)
            if sret:
                an.store(st, args[0], ("mapit", a, k), "ptr")
                an.store(st, ("p", args[0][1], sem.linadd(args[0][2], num(8))), num(int(new)), "i8")
                return None
            return ("agg", (((0,), ("mapit", a, k)), ((1,), num(int(new)))))
        if last in ("size", "empty", "unsafe_size"):
            n = len(self.map(a))
            return num(int(n == 0)) if last == "empty" else num(n)
        if last == "clear":
            self.maps[a] = {}
            return None
        raise Undecided("map operation " + last)

    def zero(self, an, st, v, d):
        """value-initialised mapped object"""
        m = re.search(r'map<std::(?:__cxx11::)?(?:basic_string<.*?> >|string), (\S+)', d)
        t = m.group(1) if m else ""
        if "basic_string" in t:
            st.mem[v] = ("str", ())

    def assign(self, an, st, v, src, d):
        q = an.addr(st, src)
        s = st.mem.get(q)
        if s is not None and s[0] == "str":
            st.mem[v] = s
        elif q in self.seqs:
            va = an.addr(st, v)
            self.seqs[va] = []
            for b in self.seqs[q]:
                c = self.node()
                an.store(st, ("p", c, num(0)), an.load(st, ("p", b, num(0)), self.elty), self.elty)
                self.seqs[va].append(c)
        elif "basic_string" in d.split("emplace<")[-1]:
            st.mem[v] = ("str", an.string(st, src))
        else:
            w = an.cw.get(q, 8)
            an.store(st, v, an.load(st, src, "i%d" % (8 * w)), "i64")

    def seqop(self, an, i, st, f, last, d, args, sret):
        cls = f.split("::")[-2]
        a = an.addr(st, args[1] if sret else args[0])
        rest = args[2:] if sret else args[1:]
        if last == cls:
            if not rest:
                self.seqs[a] = []
                return None
            if len(sem.params(d)) >= 2 and len(rest) >= 2 and rest[0][0] == "i" and 0 <= rest[0][1] < 64:
                v = an.load(st, rest[1], "i64")
                self.seqs[a] = []
                for _ in range(rest[0][1]):
                    b = self.node()
                    an.store(st, ("p", b, num(0)), v, "i64")
                    self.seqs[a].append(b)
                return None
            raise Undecided("sequence construction")
        if last.startswith("~"):
            return None
        self.log.append((last, cls, a, i))
        if last in ("push_back", "emplace_back"):
            if len(rest) != 1:
                raise Undecided("element construction")
            b = self.node()
            v = an.load(st, rest[0], "i64")
            an.store(st, ("p", b, num(0)), v, "i64")
            self.seq(a).append(b)
            return ("seqit", a, len(self.seq(a)) - 1)
        if last in ("size", "empty"):
            n = len(self.seq(a))
            return num(int(n == 0)) if last == "empty" else num(n)
        if last in ("operator[]", "at"):
            k = an.simp(rest[0])
            if k[0] != "i":
                raise Undecided("index")
            if not 0 <= k[1] < len(self.seq(a)):
                raise Thrown("std::out_of_range")
            return ("p", self.seq(a)[k[1]], num(0))
        raise Undecided("sequence operation " + last)

    def queueop(self, an, i, st, f, last, d, args, sret):
        cls = f.split("::")[-2]
        a = an.addr(st, args[1] if sret else args[0])
        rest = args[2:] if sret else args[1:]
        if last == cls:
            self.seqs[a] = []
            return None
        if last.startswith("~"):
            return None
        self.log.append((last, cls, a, i))
        q = self.seq(a)
        ty = self.elty
        if last in ("push", "emplace", "push_back", "emplace_back"):
            b = self.node()
            an.store(st, ("p", b, num(0)), an.load(st, rest[0], ty), ty)
            q.append(b)
            return None
        if last in ("push_front", "emplace_front"):
            b = self.node()
            an.store(st, ("p", b, num(0)), an.load(st, rest[0], ty), ty)
            q.insert(0, b)
            return None
        if last == "empty":
            return num(int(not q))
        if last in ("size", "unsafe_size"):
            return num(len(q))
        stack = cls == "stack"
        if last in ("front", "back", "top"):
            if not q:
                raise Refuted("reads the %s element of an empty container" % last)
            return ("p", q[0] if last == "front" else q[-1], num(0))
        if last in ("pop", "pop_front", "pop_back"):
            if not q:
                raise Refuted("removes an element of an empty container")
            q.pop() if stack or last == "pop_back" else q.pop(0)
            return None
        if last == "try_pop":
            if not q:
                return num(0)
            b = q.pop(0)
            an.store(st, rest[0], an.load(st, ("p", b, num(0)), ty), ty)
            return num(1)
        if last == "clear":
            self.seqs[a] = []
            return None
        raise Undecided("queue operation " + last)

    elty = "i64"
