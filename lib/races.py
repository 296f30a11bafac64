"""Accesses of the tasks of a parallel loop to the memory they share: two tasks must not access the same bytes, one of them writing,
unless both accesses are atomic or hold a common lock. Objects made within the loop belong to the task that makes them."""
import sem
from absx import Refuted


class Races:
    def __init__(self, mc):
        self.mc, self.regions = mc, []
        self.loops = self.shared = 0
        mc.watch = self.seen

    def fork(self):
        self.regions.append([self.mc.seq, {}, None, len(self.mc.frames)])

    def task(self, t):
        self.regions[-1][2] = t

    def seen(self, mc, writes, obj, off, n, atomic):
        if not self.regions or mc.guards:
            return
        if not isinstance(obj, tuple) or obj[0] not in ("new", "alloca", "obj", "glob", "exc") or off[0] != "i":
            return
        if any("concurrent_unordered" in f for f in mc.frames):     # indivisible operations of that container
            return
        if any("10_M_dispose" in f or "16_Sp_counted_base" in f and "10_M_release" in f for f in mc.frames):     # ordered by reference counts
            return
        locks = frozenset(mc.locked)
        for seq, recs, t, _ in self.regions:
            if t is None or (obj[0] != "glob" and isinstance(obj[1], int) and obj[1] > seq):
                continue
            k = (writes, atomic, locks)
            cells = recs.setdefault(obj, {})
            for b in range(off[1], off[1] + n):
                c = cells.get(b)
                if c is None:
                    c = cells[b] = {}
                d = c.setdefault(t, {})
                if k not in d:
                    d[k] = mc.frames[-1] if mc.frames else "?"

    def join(self, who=None):
        seq, recs, _, depth = self.regions.pop()
        self.loops += 1
        for obj, cells in recs.items():
            for b, by in cells.items():
                if len(by) < 2:
                    continue
                self.shared += 1
                ts = sorted(by)
                for x in range(len(ts)):
                    for y in range(x + 1, len(ts)):
                        for (w, a, l), f in by[ts[x]].items():
                            for (v, c, m), g in by[ts[y]].items():
                                if (a or c) and obj in self.mc.freed and 8 <= b < 16:       # reference counts, set plainly by the last holder
                                    continue
                                if (w or v) and not (a and c) and not (l & m):
                                    raise Refuted("%s access the same memory, %s in %s and %s in %s, without atomic operations or a common lock" % (
                                        who or "two tasks of the parallel loop in " + self.owner(depth), "written" if w else "read", self.name(f), "written" if v else "read", self.name(g)))

    def name(self, f):
        return sem.fname(self.mc.mod.dem.get(f, f))

    def owner(self, depth):
        for f in self.mc.frames[:depth][::-1]:
            n = self.name(f)
            if not n.startswith(("tbb::", "vf", "std::", "_ZN3tbb", "_ZN2vf", "_ZSt")):
                return n
        return "?"
