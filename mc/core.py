"""Exploration driver shared by every check.

A check module provides
    ID, TITLE          property id and title
    plan(tier)         -> list of units (small JSON-able lists); together they cover the bounded space of the tier
    run(ctx, unit)     explores one unit completely on the real code, calling ctx.viol(...) on disagreement
    setup()            optional, executed once in the parent before forking (imports the code under test)
    ASSUMPTIONS        optional list of strings
    BOUNDS             dict tier -> text
Units are independent, so they are explored by a pool of forked workers.
"""
import collections
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UNIT_CPU_LIMIT = 220      # seconds of CPU for one unit: far above any normal unit, so reaching it means "does not terminate"
UNIT_WALL_LIMIT = 420     # seconds of wall time: catches blocked (deadlocked) units that use no CPU
QUICK_DEADLINE = 600
THOROUGH_DEADLINE = 6 * 3600


class StopUnit(Exception):
    pass


class DidNotTerminate(BaseException):
    pass


class Ctx(object):
    MAX_VIOL = 6

    def __init__(self, known=(), tier="quick", seed=1):
        self.known = set(known)
        self.tier = tier
        self.seed = seed
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.outcomes = set()
        self.counters = collections.Counter()
        self.viols = []
        self.known_hits = {}
        self.capped = 0       # units cut short by a budget
        self.here = None      # description of the current state, for exceptions escaping from the code

    def st(self, n=1):
        self.states += n

    def tr(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, x):
        if len(self.outcomes) < 20000:
            self.outcomes.add(hash(x))

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text)

    def viol(self, key, msg, repro=None):
        key = str(key)
        if key in self.known:
            self.known_hits[key] = msg
            return
        self.viols.append({"key": key, "msg": msg, "repro": repro})
        if len(self.viols) >= self.MAX_VIOL:
            raise StopUnit()

    def eq(self, key, what, got, want, repro=None):
        """one compared transition"""
        self.transitions += 1
        if got != want:
            self.viol(key, "%s: code gives %s, model says %s" % (what, short(got), short(want)), repro)
            return False
        return True


def short(x):
    t = repr(x)
    return t if len(t) < 1500 else t[:1000] + " ... " + t[-400:]


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for e in json.load(f).get("findings", []):
                if e["property"] == prop:
                    out.append(e)
    return out


TICK = 20
IDLE = {}


def _on_timer(signum, frame):
    if signum == signal.SIGALRM:
        # only time in which the unit neither computes nor is suspended counts: a tick is missed while the process is stopped
        c = time.process_time()
        idle = c - IDLE["cpu"] < 0.05 * TICK
        IDLE["cpu"] = c
        IDLE["s"] += TICK if idle else 0
        if IDLE["s"] < IDLE["limit"]:
            return
    raise DidNotTerminate("unit exceeded its %s limit" % ("CPU" if signum == signal.SIGPROF else "waiting"))


def limits(mod, tier):
    return getattr(mod, "UNIT_LIMITS", {}).get(tier, (UNIT_CPU_LIMIT, UNIT_WALL_LIMIT) if tier == "quick" else (7 * UNIT_CPU_LIMIT, 7 * UNIT_WALL_LIMIT))


def run_unit(mod, unit, known, tier, seed):
    ctx = Ctx(known, tier, seed)
    err = None
    signal.signal(signal.SIGPROF, _on_timer)
    signal.signal(signal.SIGALRM, _on_timer)
    cpu, wall = limits(mod, tier)
    begun = time.process_time()
    signal.setitimer(signal.ITIMER_PROF, cpu)
    IDLE.update({"cpu": begun, "s": 0, "limit": wall})
    signal.setitimer(signal.ITIMER_REAL, TICK, TICK)
    try:
        mod.run(ctx, unit)
    except StopUnit:
        pass
    except DidNotTerminate as e:
        where = "".join(traceback.format_tb(e.__traceback__)[-3:])
        ctx.viols.append({"key": "nonterm:%s" % json.dumps(unit), "repro": None,
                          "msg": "did not terminate at %s (%s)\n%s" % (ctx.here, e, where)})
    except (MemoryError, KeyboardInterrupt, OSError):
        err = traceback.format_exc()
    except Exception as e:
        # the explored operations are all inside the documented domain: no exception may escape
        try:
            ctx.viol("exception:%s:%s" % (type(e).__name__, ctx.here if ctx.here is not None else json.dumps(unit)),
                     "unexpected %s: %s at %s\n%s" % (type(e).__name__, e, ctx.here,
                                                    "".join(traceback.format_tb(e.__traceback__)[-4:])))
        except StopUnit:
            pass
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {"unit": unit, "states": ctx.states, "transitions": ctx.transitions, "traces": ctx.traces,
            "samples": ctx.samples, "outcomes": ctx.outcomes, "counters": dict(ctx.counters),
            "viols": ctx.viols, "known_hits": ctx.known_hits, "err": err, "capped": ctx.capped,
            "cpu": time.process_time() - begun}


# ---------------------------------------------------------------- worker pool
def _send(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack("<Q", len(b)) + b
    while b:
        n = os.write(fd, b[:1 << 16])
        b = b[n:]


def _recv_exact(fd, n):
    out = []
    while n:
        b = os.read(fd, min(n, 1 << 16))
        if not b:
            raise EOFError()
        out.append(b)
        n -= len(b)
    return b"".join(out)


def _recv(fd):
    n = struct.unpack("<Q", _recv_exact(fd, 8))[0]
    return pickle.loads(_recv_exact(fd, n))


def cover(mod):
    """development aid (tools/mutate.py): note which lines of the package a worker executes"""
    d = os.environ.get("VERIF_COVER")
    if not d:
        return
    mon = sys.monitoring
    mon.use_tool_id(1, "verif-cover")
    f = open(os.path.join(d, "%s.%d" % (mod.ID, os.getpid())), "w", 1)
    from mc import load

    def line(code, n):
        if code.co_filename.startswith(load.REPO):
            f.write("%s:%d\n" % (os.path.relpath(code.co_filename, load.REPO), n))
        return mon.DISABLE
    mon.register_callback(1, mon.events.LINE, line)
    mon.set_events(1, mon.events.LINE)


class Pool(object):
    def __init__(self, mod, n, known, tier, seed):
        self.workers = []
        for _ in range(n):
            pr, pw = os.pipe()
            cr, cw = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(pw)
                os.close(cr)
                for w in self.workers:
                    os.close(w["w"])
                    os.close(w["r"])
                try:
                    cover(mod)
                    while True:
                        unit = _recv(pr)
                        if unit is None:
                            os._exit(0)
                        _send(cw, run_unit(mod, unit, known, tier, seed))
                except EOFError:
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
            os.close(pr)
            os.close(cw)
            self.workers.append({"pid": pid, "w": pw, "r": cr, "unit": None, "waited": 0.0})

    def close(self):
        for w in self.workers:
            try:
                os.kill(w["pid"], signal.SIGKILL)
            except ProcessLookupError:
                pass
        for w in self.workers:
            try:
                os.waitpid(w["pid"], 0)
            except ChildProcessError:
                pass


def explore(mod, tier, seed, jobs, deadline_s, only=None):
    t0 = time.time()
    if hasattr(mod, "setup"):
        mod.setup()
    known = [k for e in load_known(mod.ID) for k in e["keys"]]
    units = list(only) if only is not None else list(mod.plan(tier))
    total_units = len(units)
    if not getattr(mod, "KEEP_ORDER", False):
        random.Random(seed).shuffle(units)
    agg = {"states": 0, "transitions": 0, "traces": 0, "samples": [], "outcomes": set(), "units_done": 0,
           "units_total": total_units, "viols": [], "known_hits": {}, "errors": [], "capped": False,
           "counters": collections.Counter(), "jobs": jobs, "slowest": 0.0}
    queue = collections.deque(units)
    pool = Pool(mod, min(jobs, max(1, total_units)), known, tier, seed)
    try:
        for w in pool.workers:
            if queue:
                w["unit"] = queue.popleft()
                w["waited"] = 0.0
                _send(w["w"], w["unit"])
        tick = time.time()
        while any(w["unit"] is not None for w in pool.workers):
            busy = [w["r"] for w in pool.workers if w["unit"] is not None]
            ready, _, _ = select.select(busy, [], [], 2.0)
            now = time.time()
            passed, tick = min(now - tick, 5.0), now
            for w in pool.workers:
                if w["unit"] is None:
                    continue
                w["waited"] += passed
                if w["r"] in ready:
                    try:
                        r = _recv(w["r"])
                    except EOFError:
                        agg["errors"].append("worker died while exploring %r" % (w["unit"],))
                        w["unit"] = None
                        queue.clear()
                        continue
                    agg["units_done"] += 1
                    for k in ("states", "transitions", "traces"):
                        agg[k] += r[k]
                    agg["counters"].update(r["counters"])
                    agg["slowest"] = max(agg["slowest"], r["cpu"])
                    if len(agg["samples"]) < 6:
                        agg["samples"].extend(r["samples"][:1])
                    if len(agg["outcomes"]) < 200000:
                        agg["outcomes"] |= r["outcomes"]
                    if r["capped"]:
                        agg["capped"] = True
                    agg["known_hits"].update(r["known_hits"])
                    for v in r["viols"]:
                        v["unit"] = r["unit"]
                        agg["viols"].append(v)
                    if r["err"]:
                        agg["errors"].append(r["err"])
                        queue.clear()
                    if agg["viols"]:
                        queue.clear()
                    w["unit"] = None
                    if queue and now - t0 < deadline_s:
                        w["unit"] = queue.popleft()
                        w["waited"] = 0.0
                        _send(w["w"], w["unit"])
                elif w["waited"] > sum(limits(mod, tier)) + 60:
                    agg["viols"].append({"key": "nonterm:%s" % json.dumps(w["unit"]), "unit": w["unit"], "repro": None,
                                         "msg": "exploring unit %r did not terminate" % (w["unit"],)})
                    w["unit"] = None
                    queue.clear()
            if queue and now - t0 >= deadline_s:
                agg["capped"] = True
                queue.clear()
            if agg["viols"] and not queue:
                break
    finally:
        pool.close()
    agg["wall_s"] = round(time.time() - t0, 3)
    return agg


def write_evidence(mod, tier, seed, agg, violations):
    p = os.path.join(VERIF, "evidence", mod.ID + ".json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    cov = {
        "states": agg["states"], "transitions": agg["transitions"],
        # a check that does not count its own histories replays one model path segment per unit in lock-step with the code
        "traces_validated_against_impl": agg["traces"] or agg["units_done"],
        "distinct_outcomes": len(agg["outcomes"]),
        "capped": agg["capped"], "exhaustive": (not agg["capped"]) and agg["units_done"] == agg["units_total"],
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
        "binding": getattr(mod, "BINDING", "every transition is executed on the implementation in /repo and compared with the reference model"),
        "samples": agg["samples"],
    }
    if agg["counters"]:
        cov["counters"] = dict(agg["counters"])
    if agg["known_hits"]:
        cov["known_findings_reproduced"] = sorted(agg["known_hits"])
    doc = {"property": mod.ID, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
           "coverage": cov, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": agg["wall_s"],
           "violations": violations}
    with open(p, "w") as f:
        json.dump(doc, f, ensure_ascii=False, indent=1)


def main(argv):
    args = [a for a in argv if not a.startswith("--")]
    opts = dict(a[2:].split("=", 1) if "=" in a else (a[2:], "1") for a in argv if a.startswith("--"))
    prop = args[0]
    tier = opts.get("tier") or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or (len(os.sched_getaffinity(0)) or 4)
    mod = importlib.import_module("mc.checks." + prop.lower())
    if "replay" in opts:
        return replay(mod, opts["replay"], tier, seed)
    only = [json.loads(opts["unit"])] if "unit" in opts else None
    agg = explore(mod, tier, seed, jobs, QUICK_DEADLINE if tier == "quick" else THOROUGH_DEADLINE, only)
    for e in load_known(prop):
        hit = [k for k in e["keys"] if k in agg["known_hits"]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    print("%s %s: units %d/%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs slowest unit=%.1fs jobs=%d%s" % (
        prop, tier, agg["units_done"], agg["units_total"], agg["states"], agg["transitions"], agg["traces"],
        len(agg["outcomes"]), agg["wall_s"], agg["slowest"], jobs, " CAPPED" if agg["capped"] else ""))
    if only is None:
        write_evidence(mod, tier, seed, agg, len(agg["viols"]))
    if agg["viols"]:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(agg["viols"][:3]):
            path = os.path.join(d, "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "unit": v["unit"], "key": v["key"],
                           "msg": v["msg"], "repro": v["repro"],
                           "how": "python3 run.py %s --replay=%s re-explores the unit; the .py file beside it (if any) shows the failure without the explorer" % (prop, path)},
                          f, ensure_ascii=False, indent=1)
            if v["repro"]:
                with open(path[:-5] + ".py", "w") as f:
                    f.write("# standalone: PYTHONPATH=/repo python3 %s\nfrom lunar_python import *\nfrom lunar_python.util import *\n%s\n" % (path[:-5] + ".py", v["repro"]))
            print("  [%s] %s" % (v["key"], v["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if agg["errors"]:
        print("ERROR in the check itself:\n" + "\n".join(agg["errors"]))
        return 2
    return 0


def replay(mod, path, tier, seed):
    with open(path) as f:
        doc = json.load(f)
    agg = explore(mod, doc.get("tier", tier), doc.get("seed", seed), 1, QUICK_DEADLINE, [doc["unit"]])
    for v in agg["viols"]:
        print("  [%s] %s" % (v["key"], v["msg"]))
    same = [v for v in agg["viols"] if v["key"] == doc["key"]]
    print("replay: %s" % ("reproduced" if same else "NOT reproduced"))
    if agg["viols"]:
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        return 1
    return 0


def chunks(lo, hi, n):
    """[lo,hi] inclusive split into [a,b] pieces of at most n"""
    out = []
    a = lo
    while a <= hi:
        out.append([a, min(hi, a + n - 1)])
        a += n
    return out
