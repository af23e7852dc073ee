"""C29: the same questions in processes of every configuration."""
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

from mc import core, load

ID = "C29"
TITLE = "Answers do not depend on the environment of the process"
BOUNDS = {
    "quick": "every combination of 3 hash seeds x 3 time zones x 3 optimisation levels (none, -O, -OO) x 4 clocks (108 processes), plus single changes: each module of the package imported first, locales, UTF-8 mode, -bb, "
             "isolated mode, warnings as errors, short int strings, a second thread, another working directory, the package in a zip file, as bytecode only, in an oddly named folder, a forked child, under a trace function, a low recursion limit, "
             "without and with eager garbage collection, in an event loop, imported twice, low decimal precision, a small stack; in each process all queries of 26 kinds of objects at 12 (in combinations 5, in import orders 3) moments, rejected inputs, holidays, steps",
    "thorough": "6 hash seeds x 5 time zones x 3 levels x 7 clocks, and every pair of single changes",
}
ASSUMPTIONS = ["the reverse lookup of charts is left out: its answer is defined by the current year (C14)", "clocks are replaced at Python level (datetime, time) before the package is loaded"]
BINDING = "every configuration is a fresh interpreter running the real code of the working tree"
PROBE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "envprobe.py")
SEEDS = ("0", "1", "31337", "7", "123456", "4294967295")
ZONES = ("UTC", "Asia/Shanghai", "America/New_York", "XXX-14", "XXX+12")
OPTS = ((), ("-O",), ("-OO",))
CLOCKS = (None, (1970, 1, 1, 0, 0, 0), (2024, 2, 29, 23, 30, 0), (9999, 12, 31, 23, 59, 59), (1582, 10, 15, 0, 0, 0), (2033, 12, 22, 12, 0, 0), (1, 1, 1, 0, 0, 0))


def setup():
    pass


def modules():
    r = []
    top = os.path.join(load.REPO, "lunar_python")
    for d, _, fs in os.walk(top):
        for f in sorted(fs):
            if f.endswith(".py"):
                m = os.path.relpath(os.path.join(d, f), load.REPO)[:-3].replace(os.sep, ".")
                r.append(m[:-9] if m.endswith(".__init__") else m)
    return sorted(r)


def singles():
    r = [{"env": {"LC_ALL": x, "LANG": x}} for x in ("C", "C.UTF-8", "zh_CN.GBK", "POSIX")]
    r += [{"env": {"PYTHONUTF8": x}} for x in "01"]
    r += [{"opt": ["-bb"]}, {"opt": ["-I"]}, {"opt": ["-X", "dev"]}, {"opt": ["-X", "int_max_str_digits=640"]}, {"opt": ["-E"]}, {"opt": ["-s", "-S"]}]
    r += [{"thread": 1}, {"cwd": "/"}, {"cwd": "tmp"}, {"env": {"PYTHONDONTWRITEBYTECODE": "1", "HOME": "/nonexistent"}}, {"env": {"PYTHONMALLOC": "debug"}}]
    r += [{"opt": ["-W", "error"]}, {"opt": ["-X", "frozen_modules=off"]}, {"opt": ["-P"]}]
    r += [{"place": x} for x in ("zip", "pyc", "odd")]
    r += [{"mode": x} for x in ("fork", "trace", "recursion", "nogc", "gc", "asyncio", "reimport", "decimal", "stack")]
    return r


def merge(*cs):
    c = {"env": {}, "opt": []}
    for x in cs:
        for k, v in x.items():
            if k == "env":
                c["env"] = dict(c["env"], **v)
            elif k == "opt":
                c["opt"] = c["opt"] + list(v)
            else:
                c[k] = v
    return c


def configs(tier):
    q = tier == "quick"
    r = []
    for s, z, o, c in itertools.product(SEEDS[:3 if q else 6], ZONES[:3 if q else 5], OPTS, CLOCKS[:4 if q else 7]):
        r.append({"env": {"PYTHONHASHSEED": s, "TZ": z}, "opt": list(o), "clock": c, "moments": 5 if q else 12})
    r += singles()
    r += [{"first": m, "moments": 3} for m in modules()]
    if not q:
        r += [merge(a, b) for a, b in itertools.combinations(singles(), 2)]
    return r


def plan(tier):
    cs = configs(tier)
    return [cs[i:i + 4] for i in range(0, len(cs), 4)]


def name(c):
    e = ["%s=%s" % x for x in sorted(c.get("env", {}).items())]
    e += [" ".join(c.get("opt", []))] if c.get("opt") else []
    e += ["%s %s" % (k, c[k]) for k in ("clock", "thread", "cwd", "first", "place", "mode") if c.get(k)]
    return ", ".join(e) or "plain"


def located(how, d):
    """where the process finds the package: the working tree, or a copy of it as users install it"""
    if not how:
        return load.REPO
    src = os.path.join(load.REPO, "lunar_python")
    dst = os.path.join(d, "a b 农历")
    shutil.copytree(src, os.path.join(dst, "lunar_python"), ignore=shutil.ignore_patterns("__pycache__"))
    if how == "zip":
        return shutil.make_archive(os.path.join(d, "pkg"), "zip", dst)
    if how == "pyc":
        subprocess.check_call([sys.executable, "-m", "compileall", "-q", "-b", os.path.join(dst, "lunar_python")], stdout=subprocess.DEVNULL)
        for a, _, fs in os.walk(dst):
            for f in fs:
                if f.endswith(".py"):
                    os.remove(os.path.join(a, f))
    return dst


def probe(c):
    with tempfile.TemporaryDirectory(prefix="c29.") as d:
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "TZ"))}
        env.update({"PYTHONHASHSEED": "0", "TZ": "UTC", "VERIF_REPO": load.REPO})
        env.update(c.get("env", {}))
        cwd = d if c.get("cwd", "tmp") == "tmp" else c["cwd"]
        place = located(c.get("place"), d)
        env["VERIF_REPO"] = place
        code = "import sys; sys.dont_write_bytecode = True; sys.pycache_prefix = '/nonexistent/verif-pycache'; sys.path.insert(0, %r); sys.argv = ['envprobe', %r]; exec(compile(open(%r, encoding='utf-8').read(), %r, 'exec'), {'__name__': '__main__', '__file__': %r})" % (
            place, json.dumps({k: v for k, v in c.items() if k not in ("env", "opt", "cwd")}), PROBE, PROBE, PROBE)
        p = subprocess.run([sys.executable] + list(c.get("opt", [])) + ["-c", code], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    try:
        return json.loads(p.stdout.decode("utf-8", "replace").strip().splitlines()[-1])
    except (ValueError, IndexError):
        return {"error": "exit %d: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-400:])}


BASE = {}


def base():
    if not BASE:
        BASE.update(probe({}))
    return BASE


def run(ctx, unit):
    want = base()
    if "error" in want:
        ctx.viol("plain", "the package fails in a plain process: %s" % want["error"])
        return
    for c in unit:
        n = name(c)
        ctx.here = n
        got = probe(c)
        ctx.states += 1
        ctx.traces += 1
        ctx.transitions += len(got)
        if "error" in got:
            ctx.viol("fails:" + n, "the package fails in a process with %s: %s" % (n, got["error"]))
            continue
        if c.get("moments", 12) == 12:
            ctx.eq("groups:" + n, "groups of answers with " + n, sorted(got), sorted(want))
        for k in sorted(got):
            if got[k] != want.get(k):
                ctx.viol("differs:%s:%s" % (n, k), "answers of '%s' differ in a process with %s" % (k, n))
        ctx.outcome(tuple(sorted(got.values())))
    ctx.sample(name(unit[0]))
