"""Tasks for absx.Machine: std::async, std::future, std::thread. A task may run any time between its start and its join, so
what it does must not depend on when: it is run at its start, what it touches is recorded for the caller to compare."""
import re
import sem, absx
from sem import num
from unf import Undecided, Refuted


class Tasks:
    def __init__(self):
        self.st = {}            # future or thread object -> task
        self.tasks = []
        self.cur = [None]

    def target(self, an, st, d, args):
        """-> (function name, arguments) of a callable and its arguments"""
        p = args[0]
        w = st.mem.get(an.addr(st, p)) if p[0] == "p" else None
        if w is None and p[0] == "p" and isinstance(p[1], tuple) and p[1][0] == "glob":
            w = p
        if w is not None and w[0] == "x" and w[1] == "ptrtoint":
            w = w[-1]
        if w is not None and w[0] == "p" and isinstance(w[1], tuple) and w[1][0] == "glob":
            rest = [an.load(st, a, "ptr" if an.cw.get(an.addr(st, a)) in (8, None) else "i%d" % (8 * an.cw[an.addr(st, a)])) for a in args[1:]]
            return w[1][1], rest
        m = re.search(r'std::(?:async|thread::thread)<(.*?\{lambda\(\)#\d+\})', d)
        if m and len(args) == 1:
            own = m.group(1)
            for n in an.mod.funcs:
                x = an.mod.dem.get(n, n)
                if x.startswith(own + "::operator()()"):
                    # the closure is copied: later changes of captured copies are not seen
                    c = an.new(None, "obj")
                    src = an.addr(st, p)
                    for k, v in list(st.mem.items()):
                        if k[0] == "p" and k[1] == src[1] and k[2][0] == "i" and src[2][0] == "i" and k[2][1] >= src[2][1]:
                            st.mem[("p", c[1], num(k[2][1] - src[2][1]))] = v
                            if k in an.cw: an.cw[("p", c[1], num(k[2][1] - src[2][1]))] = an.cw[k]
                    return n, [c]
        raise Undecided("task " + d[:80])

    def execute(self, an, t):
        if t["done"]:
            return
        t["done"] = True
        self.cur.append(t)
        try:
            an.run(t["fn"], *t["args"])
        except absx.Thrown as e:
            t["exc"] = e
        finally:
            self.cur.pop()

    def join(self, an, t, rethrow=False):
        if t is None:
            raise Refuted("waits for a future without a task")
        self.execute(an, t)
        t["joined"] = True
        if rethrow and t["exc"] is not None:
            t["told"] = True
            raise t["exc"]

    def __call__(self, an, i, st, fn, d, args):
        f = sem.cleanfn(fn)
        if f == "std::async":
            a = args[1:]
            pol = 3
            if "std::launch," in d[d.rfind("async"):] or re.search(r'\(std::launch\b', d):
                if a[0][0] != "i":
                    raise Undecided("launch policy")
                pol = a[0][1]
                a = a[1:]
            n, rest = self.target(an, st, d, a)
            t = {"fn": n, "args": rest, "done": False, "joined": False, "exc": None, "told": False, "policy": pol, "parent": self.cur[-1]}
            self.tasks.append(t)
            self.st[an.addr(st, args[0])] = t
            if pol == 1:
                self.execute(an, t)
            return None
        if f.startswith("std::future::") or f.startswith("std::__basic_future::"):
            m = f.split("::")[-1]
            o = an.addr(st, args[0])
            if m in ("future",):
                if len(args) == 2:
                    self.st[o] = self.st.pop(an.addr(st, args[1]), None)
                else:
                    self.st[o] = None
                return None
            if m == "operator=":
                self.drop(an, self.st.get(o))
                self.st[o] = self.st.pop(an.addr(st, args[1]), None)
                return args[0]
            if m.startswith("~"):
                self.drop(an, self.st.pop(o, None))
                return None
            if m in ("wait", "get"):
                t = self.st.get(o)
                if m == "get":
                    self.st[o] = None
                self.join(an, t, m == "get")
                return None
            if m == "valid":
                return num(int(self.st.get(o) is not None))
            raise Undecided("future " + m)
        if f.startswith("std::thread::"):
            m = f.split("::")[-1]
            o = an.addr(st, args[0])
            if m == "thread":
                if len(args) == 2 and "thread&&" in d:
                    self.st[o] = self.st.pop(an.addr(st, args[1]), None)
                    return None
                if len(args) == 1:
                    self.st[o] = None
                    return None
                n, rest = self.target(an, st, d, args[1:])
                t = {"fn": n, "args": rest, "done": False, "joined": False, "exc": None, "told": False, "policy": 1, "parent": self.cur[-1]}
                self.tasks.append(t)
                self.st[o] = t
                self.execute(an, t)
                if t["exc"] is not None:
                    raise absx.Thrown("terminate")
                return None
            if m == "join":
                self.join(an, self.st.get(o))
                self.st[o] = None
                return None
            if m.startswith("~"):
                if self.st.pop(o, None) is not None:
                    raise absx.Thrown("terminate")
                return None
            if m == "joinable":
                return num(int(self.st.get(o) is not None))
            raise Undecided("thread " + m)
        return NotImplemented

    def drop(self, an, t):
        """a future goes away: an asynchronous task is waited for, a deferred one never runs"""
        if t is None or t["joined"]:
            return
        if t["policy"] == 1:
            t["joined"] = True
        # otherwise the task may never run: what it should have done stays undone
