"""Lock discipline on path summaries (sem.Analysis without splitting of atomics): walks a path and says what is held."""
from sem import num

ACQ = ("acquire", "acq_rel", "seq_cst")
LOCKFN = ("lock", "pthread_mutex_lock", "__gthread_mutex_lock", "pthread_spin_lock", "acquire", "lock_shared")
UNLOCKFN = ("unlock", "pthread_mutex_unlock", "__gthread_mutex_unlock", "pthread_spin_unlock", "release", "unlock_shared")


CHANGING = ("push_back", "emplace_back", "pop_back", "insert", "emplace", "erase", "clear", "resize", "reserve", "assign", "operator=", "swap")


def flat(p):
    """events of a path, loop bodies once in between"""
    for e in p.events:
        if e[0] == "loop":
            for s in e[1].steps:
                for x in flat(s):
                    yield x
        else:
            yield e


def guarded(p):
    """(event, held) in program order; held: a lock of a known kind is held"""
    held = 0
    flags = set()
    for e in p.events:
        if e[0] == "loop":
            for s in e[1].steps:
                for x in flat(s):
                    yield x, held > 0
            continue
        if e[0] == "rmw" and e[1] == "xchg" and e[3] == num(1):
            flags.add(e[2])
            held += 1
            continue
        if e[0] == "call" and e[1].split("::")[-1] in LOCKFN:
            held += 1
            continue
        if e[0] == "call" and e[1].split("::")[-1] in UNLOCKFN:
            held -= 1
            continue
        if e[0] == "astore" and e[1] in flags and e[2] == num(0):
            held -= 1
            continue
        yield e, held > 0


def base(a):
    """outermost object an address belongs to: ("arg", k), ("glob", n), ("tls", n), ("alloca", ...) or None"""
    while isinstance(a, tuple) and a:
        if a[0] == "p":
            a = a[1]
        elif a[0] in ("arg", "glob", "tls", "alloca", "new"):
            return a
        elif a[0] in ("fn", "call") and a[2]:
            a = a[2][0]
        elif a[0] == "ld":
            a = a[1]
        elif a[0] in ("elem", "next", "prev", "slot", "&"):
            a = a[1]
        else:
            return None
    return None


def isshared(a):
    b = base(a)
    return b is not None and b[0] in ("arg", "glob")


def unsynchronised(p, shared=isshared, plain_ok=()):
    """(kind, event) of accesses that another thread doing the same races with: plain writes, atomic read-modify-write in two
    steps, changes of containers that are not made for concurrent use"""
    out, read = [], {}
    for e, held in guarded(p):
        if held:
            continue
        if e[0] in ("store", "memset", "memcpy") and shared(e[1]):
            out.append(("plain write", e))
        elif e[0] == "aload" and shared(e[1]):
            read[e[1]] = e
        elif e[0] == "astore" and shared(e[1]) and e[1] in read:
            out.append(("read and write in two steps", e))
        elif e[0] == "call" and e[3] and shared(e[3][0]) and e[1].startswith("std::") and not e[2].endswith(" const"):
            m = e[1].split("::")
            if m[-2] in ("map", "unordered_map", "vector", "deque", "queue", "set", "unordered_set", "list", "stack") and \
                    m[-1] not in ("begin", "end", "find", "at", "size", "data", "front", "back") or m[-2:] == ["vector", "operator[]"] and "bool" in e[2]:
                out.append(("%s::%s" % (m[-2], m[-1]), e))
    return out
