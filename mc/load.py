"""Load the code under test from /repo's current working tree (never from stale bytecode)."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


def prepare():
    sys.dont_write_bytecode = True
    # never read .pyc files written for another version of the tree
    sys.pycache_prefix = "/nonexistent/verif-pycache"
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)


def lunar():
    """import and return the lunar_python package of REPO"""
    prepare()
    import lunar_python
    where = os.path.realpath(os.path.dirname(lunar_python.__file__))
    want = os.path.realpath(os.path.join(REPO, "lunar_python"))
    if where != want:
        raise RuntimeError("lunar_python loaded from %s, wanted %s" % (where, want))
    return lunar_python


def memo_lunar_year(lp, cap=400):
    """Replace LunarYear.fromYear (a pure lookup by year; its purity is property C22) by a memo, so that sweeps
    do not recompute the same year thousands of times.  The wrapped function is still the real one."""
    real = lp.LunarYear.fromYear
    table = {}

    def from_year(lunar_year):
        if type(lunar_year) is not int:
            return real(lunar_year)
        y = table.get(lunar_year)
        if y is None:
            if len(table) >= cap:
                table.clear()
            y = table[lunar_year] = real(lunar_year)
        return y

    lp.LunarYear.fromYear = staticmethod(from_year)
    return real


def memo_julian(lp, cap=20000):
    """Same for Solar.fromJulianDay, keyed by the exact float (its result has no public mutator)."""
    real = lp.Solar.fromJulianDay
    table = {}

    def from_jd(julian_day):
        s = table.get(julian_day)
        if s is None:
            if len(table) >= cap:
                table.clear()
            s = table[julian_day] = real(julian_day)
        return s

    lp.Solar.fromJulianDay = staticmethod(from_jd)
    return real


class Snapshot(object):
    """Data held by the package's modules and classes (class attributes, module globals and everything reachable from them), so
    that a history can start from the freshly imported state without importing the package again.  Locks, functions and classes
    are left alone; containers and objects of the package are put back in place, so every alias sees the restored content."""

    ATOMS = (str, int, float, bool, type(None), bytes, type)

    def __init__(self, only=None):
        self.saved = []         # (holder, name, value)
        self.caches = []
        self.nodes = {}         # id -> (container or object, shallow copy of its content)
        holders_all = []
        for name, m in sorted(sys.modules.items()):
            if name.split(".")[0] != "lunar_python" or m is None or (only and not name.endswith(only)):
                continue
            holders = [m] + [c for c in vars(m).values() if isinstance(c, type) and getattr(c, "__module__", "").startswith("lunar_python")]
            for h in holders:
                holders_all.append(h)
                for k, v in list(vars(h).items()):
                    if k.startswith("__"):
                        continue
                    f = getattr(v, "__func__", v)
                    if hasattr(f, "cache_clear"):
                        self.caches.append(f.cache_clear)
                        continue
                    self.saved.append((h, k, v))
                    self.reach(v)
                    for c in (getattr(f, "__closure__", None) or ()):
                        try:
                            self.reach(c.cell_contents)
                        except ValueError:
                            pass
                    for d in (getattr(f, "__defaults__", None) or ()):
                        self.reach(d)
        self.names = {id(h): (h, set(vars(h))) for h in holders_all}

    def reach(self, v):
        todo = [v]
        while todo:
            v = todo.pop()
            if isinstance(v, self.ATOMS) or id(v) in self.nodes:
                continue
            if isinstance(v, dict):
                self.nodes[id(v)] = (v, dict(v))
                todo += list(v.values())
            elif isinstance(v, list):
                self.nodes[id(v)] = (v, list(v))
                todo += v
            elif isinstance(v, set):
                self.nodes[id(v)] = (v, set(v))
            elif isinstance(v, (tuple, frozenset)):
                self.nodes[id(v)] = (v, None)
                todo += v
            elif type(v).__module__.startswith("lunar_python") and hasattr(v, "__dict__"):
                self.nodes[id(v)] = (v, dict(vars(v)))
                todo += list(vars(v).values())

    def restore(self):
        for h, names in self.names.values():
            for k in set(vars(h)) - names:
                delattr(h, k)
        for f in self.caches:
            f()
        for h, k, v in self.saved:
            if vars(h).get(k, self) is not v:
                setattr(h, k, v)
        for v, c in self.nodes.values():
            if c is None:
                continue
            w = v if isinstance(v, (dict, list, set)) else vars(v)
            if w != c or (isinstance(w, dict) and list(w) != list(c)):
                if isinstance(w, list):
                    w[:] = c
                else:
                    w.clear()
                    w.update(c)

    def adopt(self):
        """make the current values of immutable data (lazily decoded tables) part of the restored state"""
        for i, (h, k, v) in enumerate(self.saved):
            w = vars(h).get(k)
            if w is not v and isinstance(v, (str, tuple, bytes)) and type(w) is type(v):
                self.saved[i] = (h, k, w)
        return self

    def diff(self):
        """what differs now from the snapshot, as comparable text"""
        out = []
        for h, names in self.names.values():
            for k in sorted(set(vars(h)) - names):
                if not k.startswith("__"):
                    out.append("%s.%s=%s" % (h.__name__, k, self.show(vars(h)[k])))
        for f in self.caches:
            info = getattr(getattr(f, "__self__", None), "cache_info", None)
            if info is not None and info().currsize:
                out.append("%s %d" % (f.__self__.__name__, info().currsize))
        for h, k, v in self.saved:
            w = vars(h).get(k, self)
            if w is not v:
                out.append("%s.%s=%s" % (h.__name__, k, self.show(w)))
        for i, (v, c) in enumerate(self.nodes.values()):
            if c is None:
                continue
            w = v if isinstance(v, (dict, list, set)) else vars(v)
            if w != c or (isinstance(w, dict) and list(w) != list(c)):
                out.append("#%d=%s" % (i, self.show(w)))
        return "\n".join(out)

    def show(self, v, depth=0, seen=None):
        if isinstance(v, self.ATOMS):
            return repr(v)
        seen = seen or ()
        if id(v) in seen or depth > 6:
            return "..."
        seen = seen + (id(v),)
        if isinstance(v, dict):
            return "{%s}" % ",".join("%s:%s" % (self.show(a, depth + 1, seen), self.show(b, depth + 1, seen)) for a, b in v.items())
        if isinstance(v, (list, tuple)):
            return "[%s]" % ",".join(self.show(a, depth + 1, seen) for a in v)
        if isinstance(v, (set, frozenset)):
            return "<%s>" % ",".join(sorted(self.show(a, depth + 1, seen) for a in v))
        if type(v).__module__.startswith("lunar_python") and hasattr(v, "__dict__"):
            return "%s(%s)" % (type(v).__name__, self.show(vars(v), depth + 1, seen))
        return type(v).__name__
