"""Controlled scheduler: explores the thread interleavings of real library calls, up to a preemption bound.

Scheduling points are the bytecode instructions of the package that touch state several threads can share, plus every lock
operation.  What is shared is found by inspecting the loaded code and by watching the package during solo runs:
  - class attributes and module globals that some function rebinds, or whose container some line mutates, or that hold an object,
  - attributes of the objects reachable from those, and attributes written outside __init__,
  - closure cells holding mutated containers,
and, on the lines touching them, every call, subscript, containment test and iteration step.  All other code runs between two points
without interference being possible, so exploring switches only there loses no behaviour for the shared state so identified.

Locks made by the package are replaced by stand-ins the scheduler knows, so blocking and deadlock are visible to it.
"""
import _thread
import ast
import collections
import dis
import sys
import threading
import time
import types

MUT = {"append", "extend", "insert", "pop", "popitem", "clear", "update", "setdefault", "add", "remove", "discard", "sort", "reverse", "move_to_end", "appendleft", "popleft"}
NAME_OPS = {"LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR", "LOAD_GLOBAL", "STORE_GLOBAL", "DELETE_GLOBAL", "LOAD_DEREF", "STORE_DEREF", "LOAD_METHOD"}
STORES = {"STORE_ATTR", "DELETE_ATTR", "STORE_GLOBAL", "DELETE_GLOBAL", "STORE_DEREF"}
LINE_OPS = {"CALL", "CALL_FUNCTION_EX", "BINARY_SUBSCR", "STORE_SUBSCR", "DELETE_SUBSCR", "CONTAINS_OP", "FOR_ITER", "BINARY_SLICE", "STORE_SLICE"}
IMMUTABLE = (str, int, float, bool, type(None), bytes, complex, frozenset, range)
CONTAINERS = (list, dict, set, collections.deque)


class Abort(BaseException):
    pass


CURRENT = None      # the running Engine execution, for the lock stand-ins


class CLock(object):
    """non-reentrant lock known to the scheduler"""
    REENTRANT = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        ex = CURRENT
        t = ex.me() if ex is not None else None
        if t is None:
            if self.owner is not None and not (self.REENTRANT and self.owner == "main"):
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError("lock left locked, acquired outside the exploration")
            self.owner = "main"
            self.count += 1
            return True
        ex.point(t, "lock")
        while self.owner is not None and not (self.REENTRANT and self.owner == t):
            if not blocking:
                return False
            ex.block(t, self)
        self.owner = t
        self.count += 1
        return True

    def release(self):
        ex = CURRENT
        t = ex.me() if ex is not None else None
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
        if t is not None:
            ex.unblock(self)
            ex.point(t, "unlock")

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        return self


class CRLock(CLock):
    REENTRANT = True


class Proxy(types.ModuleType):
    """threading as seen by the package"""

    def __init__(self):
        types.ModuleType.__init__(self, "threading")
        self.Lock = CLock
        self.RLock = CRLock

    def __getattr__(self, k):
        return getattr(threading, k)


def import_package(load):
    """import lunar_python with its locks replaced by stand-ins"""
    import inspect, functools      # noqa: F401  (make sure the standard modules keep real locks)
    real = threading.Lock, threading.RLock, _thread.allocate_lock
    threading.Lock, threading.RLock, _thread.allocate_lock = CLock, CRLock, CLock
    try:
        lp = load.lunar()
    finally:
        threading.Lock, threading.RLock, _thread.allocate_lock = real
    proxy = Proxy()
    for m in package_modules():
        for k, v in list(vars(m).items()):
            if v is threading:
                setattr(m, k, proxy)
            elif v is _thread:
                setattr(m, k, proxy)
    return lp


def package_modules():
    return [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "lunar_python" and m is not None]


def package_classes():
    out = {}
    for m in package_modules():
        for c in vars(m).values():
            if isinstance(c, type) and getattr(c, "__module__", "").startswith("lunar_python"):
                out[id(c)] = c
    return list(out.values())


def codes():
    """all function code objects of the package, with nested ones"""
    seen = {}

    def add(co):
        if co in seen:
            return
        seen[co] = 1
        for k in co.co_consts:
            if isinstance(k, types.CodeType):
                add(k)

    for h in package_modules() + package_classes():
        for v in list(vars(h).values()):
            f = v
            for _ in range(8):
                if isinstance(f, (staticmethod, classmethod)):
                    f = f.__func__
                elif isinstance(f, property):
                    for g in (f.fget, f.fset, f.fdel):
                        if g is not None and hasattr(g, "__code__"):
                            add(g.__code__)
                    break
                elif hasattr(f, "__wrapped__"):
                    if hasattr(f, "__code__") and f.__code__.co_filename.find("lunar_python") >= 0:
                        add(f.__code__)
                    f = f.__wrapped__
                else:
                    break
            if hasattr(f, "__code__") and "lunar_python" in f.__code__.co_filename:
                add(f.__code__)
            cl = getattr(v, "__closure__", None) or getattr(getattr(v, "__func__", None), "__closure__", None) or ()
            for cell in cl:
                try:
                    g = cell.cell_contents
                except ValueError:
                    continue
                if hasattr(g, "__code__") and "lunar_python" in g.__code__.co_filename:
                    add(g.__code__)
    return list(seen)


def instructions(co):
    """[(line, instruction)]"""
    line = co.co_firstlineno
    out = []
    for i in dis.get_instructions(co):
        if i.starts_line is not None:
            line = i.starts_line
        elif i.positions is not None and i.positions.lineno:
            line = i.positions.lineno
        out.append((line, i))
    return out


def mangle(cls, n):
    return "_%s%s" % (cls.lstrip("_"), n) if cls and n.startswith("__") and not n.endswith("__") else n


class Mutations(ast.NodeVisitor):
    """names whose container some statement of a function changes, with the lines: {(file, line): {names}}"""

    def __init__(self, filename):
        self.file = filename
        self.cls = []
        self.alias = None
        self.out = collections.defaultdict(set)

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        self.generic_visit(n)
        self.cls.pop()

    def visit_FunctionDef(self, n):
        old = self.alias
        self.alias = collections.defaultdict(set, {k: set(v) for k, v in (old or {}).items()})
        for x in ast.walk(n):
            if isinstance(x, ast.Assign) and isinstance(x.value, (ast.Attribute, ast.Name, ast.Subscript, ast.Call)):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        self.alias[t.id] |= self.resolve(x.value, False)
        self.generic_visit(n)
        self.alias = old

    visit_AsyncFunctionDef = visit_FunctionDef

    def resolve(self, x, deep=True):
        c = self.cls[-1] if self.cls else ""
        if isinstance(x, ast.Attribute):
            return {mangle(c, x.attr)}
        if isinstance(x, ast.Name):
            return {x.id} | (self.alias.get(x.id, set()) if deep and self.alias is not None else set())
        if isinstance(x, ast.Subscript):
            return self.resolve(x.value, deep)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            return self.resolve(x.func.value, deep) if x.func.attr in MUT | {"get", "copy", "items", "values", "keys"} else set()
        return set()

    def note(self, x, node):
        if self.alias is not None:
            for line in range(node.lineno, (node.end_lineno or node.lineno) + 1):
                self.out[(self.file, line)] |= self.resolve(x)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
            self.note(n.func.value, n)
        self.generic_visit(n)

    def target(self, t, node):
        if isinstance(t, ast.Subscript):
            self.note(t.value, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.target(e, node)

    def visit_Assign(self, n):
        for t in n.targets:
            self.target(t, n)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.target(n.target, n)
        if isinstance(n.target, (ast.Attribute, ast.Name)):
            self.note(n.target, n)
        self.generic_visit(n)

    def visit_Delete(self, n):
        for t in n.targets:
            self.target(t, n)
        self.generic_visit(n)


class Points(object):
    """the scheduling points of the loaded package"""

    def __init__(self, warm=()):
        cs = codes()
        self.ins = ins = {co: instructions(co) for co in cs}
        holders = package_modules() + package_classes()
        owned = {}
        for h in holders:
            for k, v in vars(h).items():
                if not (k.startswith("__") and k.endswith("__")):
                    owned.setdefault(k, []).append(v)
        self.mut = mut = {}
        for m in package_modules():
            f = getattr(m, "__file__", None)
            if f and f.endswith(".py"):
                with open(f, encoding="utf-8") as h:
                    v = Mutations(f)
                    v.visit(ast.parse(h.read()))
                    mut.update(v.out)
        mutated = set().union(*mut.values()) if mut else set()
        shared, lazy, cells = set(), set(), set()
        for co in cs:
            prev = None
            for line, i in ins[co]:
                if i.opname in ("STORE_ATTR", "DELETE_ATTR"):
                    n = i.argval
                    if n in owned:
                        shared.add(n)
                    elif prev is None or prev.argval != "self":
                        lazy.add(n)
                    elif co.co_name != "__init__":
                        lazy.add(n)
                elif i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                    shared.add(i.argval)
                elif i.opname == "LOAD_DEREF" and i.argval in mutated and i.argval != "__class__":
                    cells.add(i.argval)
                elif i.opname == "STORE_DEREF" and i.argval in co.co_freevars:
                    cells.add(i.argval)
                if i.opname not in ("CACHE", "EXTENDED_ARG"):
                    prev = i
        shared |= {k for k in mutated if any(isinstance(v, CONTAINERS) for v in owned.get(k, ()))}
        for k, vs in owned.items():
            if any(self.is_object(v) for v in vs):
                shared.add(k)
        before = self.prints(holders)
        for f in warm:
            try:
                f()
            except Exception:
                pass
        after = self.prints(holders)
        for k in after:
            if after[k] != before.get(k):
                shared.add(k[1])
        # attributes of objects reachable from shared state
        inst = set()
        todo = [vars(h)[k] for h in holders for k in shared if k in vars(h)]
        seen = set()
        while todo:
            v = todo.pop()
            if id(v) in seen or isinstance(v, IMMUTABLE):
                continue
            seen.add(id(v))
            if isinstance(v, dict):
                todo += list(v.values())
            elif isinstance(v, (list, tuple, set, collections.deque)):
                todo += list(v)[:200]
            elif type(v).__module__.startswith("lunar_python") and hasattr(v, "__dict__"):
                inst |= set(vars(v))
                todo += list(vars(v).values())
        self.cells = cells
        self.shared = shared | cells
        self.names = {"class": self.shared, "inst": self.shared | inst, "lazy": self.shared | lazy}

    def table(self, level, written):
        """code -> {offset: (is a point, names written there)}; points are accesses to names some thread of the scenario writes"""
        names = self.names[level]
        out = {}
        for co, l in self.ins.items():
            hot = collections.defaultdict(set)
            for line, i in l:
                if i.opname in NAME_OPS and i.argval in names and (i.opname not in ("LOAD_DEREF", "STORE_DEREF") or i.argval in self.cells):
                    hot[line].add(i.argval)
            t = {}
            for line, i in l:
                if line not in hot:
                    continue
                mutating = self.mut.get((co.co_filename, line), set()) & names
                if i.opname in NAME_OPS and i.argval in hot[line]:
                    w = frozenset([i.argval]) if i.opname in STORES else frozenset()
                    t[i.offset] = (i.argval in written, w)
                elif i.opname in LINE_OPS:
                    t[i.offset] = (bool(hot[line] & written), frozenset(mutating))
            t = {k: v for k, v in t.items() if v[0] or v[1]}
            if t:
                out[co] = t
        return out

    @staticmethod
    def is_object(v):
        if isinstance(v, IMMUTABLE + CONTAINERS + (tuple, type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, staticmethod, classmethod, property, CLock)):
            return False
        return not callable(v)

    @staticmethod
    def prints(holders):
        out = {}
        for h in holders:
            for k, v in vars(h).items():
                if k.startswith("__") and k.endswith("__"):
                    continue
                if isinstance(v, CONTAINERS):
                    out[(id(h), k)] = (id(v), len(v), repr(v)[:100000])
                elif not callable(v):
                    out[(id(h), k)] = id(v)
        return out


MON = sys.monitoring
TOOL = 3
EMPTY = {}
WATCHED = []


def watch(table):
    """report the instructions of the table (code -> offsets) to the running execution"""
    if MON.get_tool(TOOL) is not None:
        MON.free_tool_id(TOOL)
    MON.use_tool_id(TOOL, "verif-sched")
    dis_able = MON.DISABLE
    ids = _thread.get_ident

    def on(code, offset):
        e = table.get(code, EMPTY).get(offset)
        if e is None:
            return dis_able
        ex = CURRENT
        if ex is not None:
            t = ex.ident.get(ids())
            if t is not None:
                if e[1]:
                    ex.writes |= e[1]
                if e[0]:
                    ex.point(t)

    MON.register_callback(TOOL, MON.events.INSTRUCTION, on)
    for co in WATCHED:
        MON.set_local_events(TOOL, co, 0)
    WATCHED[:] = list(table)
    for co in table:
        MON.set_local_events(TOOL, co, MON.events.INSTRUCTION)
    MON.restart_events()


class Run(object):
    """one execution under a given schedule"""
    LIMIT = 400000

    def __init__(self, ops, decisions):
        self.ops = ops
        self.n = len(ops)
        self.decisions = decisions
        self.step = 0
        self.trace = []                      # (step, running, alternatives, forced)
        self.batons = [_thread.allocate_lock() for _ in range(self.n)]
        for b in self.batons:
            b.acquire()
        self.finish = _thread.allocate_lock()
        self.finish.acquire()
        self.state = ["ready"] * self.n      # ready, blocked, done
        self.waiting = [None] * self.n
        self.result = [None] * self.n
        self.ident = {}
        self.deadlock = False
        self.aborting = False
        self.writes = set()

    def me(self):
        return self.ident.get(_thread.get_ident())

    # ---- decisions
    def others(self, t):
        return [u for u in range(self.n) if u != t and self.state[u] == "ready"]

    def point(self, t, why=""):
        if self.aborting:
            return
        self.step += 1
        if self.step > self.LIMIT:
            self.aborting = True
            raise Abort()
        o = self.others(t)
        if not o:
            return
        self.trace.append((self.step, t, o, False))
        u = self.decisions.get(self.step)
        if u is not None and u in o:
            self.switch(t, u)

    def switch(self, t, u):
        self.batons[u].release()
        self.batons[t].acquire()
        if self.aborting and self.state[t] != "done":
            raise Abort()

    def forced(self, t):
        """t cannot continue: choose another thread (None when there is none)"""
        self.step += 1
        o = self.others(t)
        if not o:
            return None
        o.sort(key=lambda u: (u - t) % self.n)
        self.trace.append((self.step, t, o, True))
        u = self.decisions.get(self.step)
        return u if u in o else o[0]

    def block(self, t, lock):
        if self.aborting:
            raise Abort()
        self.state[t] = "blocked"
        self.waiting[t] = lock
        u = self.forced(t)
        if u is None:
            self.deadlock = True
            self.aborting = True
            self.state[t] = "ready"
            raise Abort()
        self.switch(t, u)

    def unblock(self, lock):
        for u in range(self.n):
            if self.state[u] == "blocked" and self.waiting[u] is lock:
                self.state[u] = "ready"
                self.waiting[u] = None

    # ---- threads
    def body(self, t):
        self.ident[_thread.get_ident()] = t
        self.batons[t].acquire()
        try:
            if not self.aborting:
                self.result[t] = ("ok", self.ops[t]())
        except Abort:
            self.result[t] = ("aborted", None)
        except Exception as e:
            self.result[t] = ("error", type(e).__name__)
        except BaseException as e:
            self.result[t] = ("fatal", repr(e))
        self.state[t] = "done"
        self.next_or_end(t)

    def next_or_end(self, t):
        if self.aborting:
            rest = [u for u in range(self.n) if self.state[u] != "done"]
            u = rest[0] if rest else None
        else:
            u = self.forced(t)
            if u is None and any(s == "blocked" for s in self.state):
                self.deadlock = True
                self.aborting = True
                u = next(v for v in range(self.n) if self.state[v] != "done")
        if u is None:
            self.finish.release()
        else:
            self.batons[u].release()

    def go(self):
        global CURRENT
        CURRENT = self
        try:
            for t in range(self.n):
                _thread.start_new_thread(self.body, (t,))
            u = self.decisions.get(0, 0)
            self.trace.append((0, None, list(range(self.n)), True))
            self.batons[u].release()
            self.finish.acquire()
        finally:
            CURRENT = None
        return self


def explore(points, level, make, bound, reset, visit, part=(0, 1), limit=None, delay=False, seconds=None):
    """All schedules of make()'s operations with at most `bound` preemptions; visit(run) after each.  Part (i, n) takes the i-th of n
    parts of the first-level branches.  With delay, choosing another than the next thread at a forced switch counts as a preemption.  The names the threads write are found while exploring: when a schedule writes a new one,
    accesses to it become points and the exploration starts over.  Returns (schedules, points of the default schedule, complete); limit and seconds cut the exploration short."""
    written = set()
    end = time.monotonic() + seconds if seconds else None
    watch(points.table(level, written))
    for _ in range(3):
        reset()
        r = Run(make(), {}).go()
        if r.writes <= written:
            break
        written |= r.writes
        watch(points.table(level, written))
    for _ in range(6):
        count = base = 0
        again = False
        stack = [({}, -1, 0)]
        while stack:
            dec, last, used = stack.pop()
            reset()
            run = Run(make(), dec).go()
            count += 1
            if not base:
                base = len(run.trace)
            visit(run)
            if not run.writes <= written:
                written |= run.writes
                watch(points.table(level, written))
                again = True
                break
            kids = []
            for step, t, alts, forced in run.trace:
                if step <= last:
                    continue
                for u in alts:
                    if forced:
                        if u != alts[0]:
                            cost = 1 if delay and step else 0
                            if used + cost <= bound:
                                kids.append((step, u, cost))
                    elif used < bound:
                        kids.append((step, u, 1))
            if not dec:
                kids = kids[part[0]::part[1]]
            for step, u, cost in kids:
                d = dict(dec)
                d[step] = u
                stack.append((d, step, used + cost))
            if limit and count >= limit or end and time.monotonic() > end:
                return count, base, False
        if not again:
            return count, base, True
    return count, base, False
