"""Evaluates independent obligations in forked processes."""
import multiprocessing, os

_TASKS = []
_KEYS, _SEEN = None, None


def _one(i):
    from unf import Undecided, Refuted
    from absx import Thrown, Blocked
    from ir import AnalysisError
    k = _KEYS[i] if _KEYS else None
    if k is not None and _SEEN[k]:
        return i, "skipped", "its construct is refuted already"
    try:
        return i, "ok", _TASKS[i]()
    except (Refuted, Thrown) as e:
        if k is not None:
            _SEEN[k] = 1
        return i, "refuted", str(e) if isinstance(e, Refuted) else "throws " + str(e.what)
    except (Undecided, Blocked) as e:
        return i, "undecided", str(e)
    except AnalysisError as e:
        return i, "error", str(e)


def each(thunks, jobs=None, keys=None):
    """-> [(index, verdict, value or text)] in order of the index; once a key is refuted, its other obligations are skipped"""
    global _TASKS, _KEYS, _SEEN
    _KEYS = _SEEN = None
    if keys is not None:
        names = sorted(set(keys))
        _KEYS = [names.index(k) for k in keys]
        _SEEN = multiprocessing.get_context("fork").Array("b", max(1, len(names)))
    _TASKS = list(thunks)
    n = min(jobs or min(7, os.cpu_count() or 1), max(1, len(_TASKS)))
    if n == 1:
        return [_one(i) for i in range(len(_TASKS))]
    with multiprocessing.get_context("fork").Pool(n) as p:
        return sorted(p.imap_unordered(_one, range(len(_TASKS))))
