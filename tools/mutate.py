#!/usr/bin/env python3
"""Development tool: small changes of the package, to find behaviour no check looks at.

mutate.py cover                run every quick check with VERIF_COVER to learn which lines it executes -> /tmp/mut/cover.json
mutate.py make N [SEED]        list mutants, keep N that the tests do not notice -> /tmp/mut/alive.json
mutate.py run [BUDGET]         run the checks covering each kept mutant, cheapest first -> /tmp/mut/result.json
Not part of any verdict.
"""
import ast
import collections
import concurrent.futures
import difflib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
OUT = "/tmp/mut"
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Div: ast.Mult}


def files():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "lunar_python")):
        out += [os.path.relpath(os.path.join(d, f), REPO) for f in fs if f.endswith(".py")]
    return sorted(out)


def seg(src, lines, n):
    """(start, end) character offsets of a node"""
    def off(l, c):
        return lines[l - 1][0] + len(lines[l - 1][1].encode()[:c].decode())
    return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)


def mutants(f):
    src = open(os.path.join(REPO, f), encoding="utf-8").read()
    lines, o = [], 0
    for l in src.splitlines(True):
        lines.append((o, l))
        o += len(l)
    tree = ast.parse(src)
    out = []

    def put(node, text, what, where):
        a, b = seg(src, lines, node)
        if src[a:b] != text:
            out.append({"file": f, "line": node.lineno, "a": a, "b": b, "old": src[a:b][:80], "new": text, "what": what, "where": where})

    def P(n):
        return ast.unparse(n)

    attrs = {n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute)}

    def close(name):
        return [x for x in difflib.get_close_matches(name, attrs - {name}, 4, 0.8)]

    def func(fn, where):
        for n in ast.walk(fn):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                put(n, "%s %s %s" % (P(n.left), {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!=", "In": "in", "NotIn": "not in"}[CMP[type(n.ops[0])].__name__], P(n.comparators[0])), "cmp", where)
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                m = ast.BinOp(n.left, BIN[type(n.op)](), n.right)
                put(n, "(" + P(m) + ")", "bin", where)
            elif isinstance(n, ast.BoolOp):
                m = ast.BoolOp(ast.And() if isinstance(n.op, ast.Or) else ast.Or(), n.values)
                put(n, "(" + P(m) + ")", "bool", where)
                for k in range(len(n.values)):
                    rest = n.values[:k] + n.values[k + 1:]
                    put(n, "(" + (P(rest[0]) if len(rest) == 1 else P(ast.BoolOp(n.op, rest))) + ")", "dropterm", where)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                put(n, "(" + P(n.operand) + ")", "unary", where)
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                put(n, str(n.value + 1), "const", where)
                put(n, "(%d)" % (n.value - 1), "const", where)
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                put(n, str(not n.value), "const", where)
            elif isinstance(n, (ast.If, ast.While)):
                put(n.test, "not (%s)" % P(n.test), "negate", where)
                if isinstance(n, ast.If):
                    put(n.test, "False", "never", where)
            elif isinstance(n, (ast.Assign, ast.AugAssign)) and n.col_offset > 0:
                if isinstance(n, ast.AugAssign):
                    put(n, "pass", "delete", where)
                elif isinstance(n.targets[0], (ast.Subscript,)):
                    put(n, "pass", "delete", where)
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                put(n, "pass", "delete", where)
            elif isinstance(n, (ast.Break, ast.Continue)):
                put(n, "pass", "delete", where)
            elif isinstance(n, ast.Attribute):
                for x in close(n.attr):
                    a, b = seg(src, lines, n)
                    out.append({"file": f, "line": n.end_lineno, "a": b - len(n.attr), "b": b, "old": n.attr, "new": x, "what": "attr", "where": where})
            elif isinstance(n, ast.Call) and len(n.args) > 1:
                for k in range(len(n.args) - 1):
                    x = n.args[:]
                    x[k], x[k + 1] = x[k + 1], x[k]
                    put(n, P(ast.Call(n.func, x, n.keywords)), "swapargs", where)

    def table(n, where):
        """class-level data: swap neighbours, change one value"""
        for x in ast.walk(n):
            if isinstance(x, (ast.Tuple, ast.List)) and len(x.elts) > 1:
                for k in range(len(x.elts) - 1):
                    a, _ = seg(src, lines, x.elts[k])
                    _, b = seg(src, lines, x.elts[k + 1])
                    s1, e1 = seg(src, lines, x.elts[k])
                    s2, e2 = seg(src, lines, x.elts[k + 1])
                    t = src[s2:e2] + src[e1:s2] + src[s1:e1]
                    if t != src[a:b] and "\n" not in t:
                        out.append({"file": f, "line": x.elts[k].lineno, "a": a, "b": b, "old": src[a:b][:80], "new": t, "what": "table", "where": where})
            elif isinstance(x, ast.Dict) and len(x.values) > 1:
                for k in range(len(x.values) - 1):
                    if isinstance(x.values[k], ast.Constant) and isinstance(x.values[k].value, (str, int)) and P(x.values[k]) != P(x.values[k + 1]):
                        put(x.values[k], P(x.values[k + 1]), "table", where)

    def walk(body, where):
        for n in body:
            if isinstance(n, ast.ClassDef):
                walk(n.body, where + n.name + ".")
            elif isinstance(n, ast.FunctionDef):
                func(n, where + n.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                table(n, where + P(n.targets[0] if isinstance(n, ast.Assign) else n.target))
    walk(tree.body, "")
    return src, out


def copy(m, src=None):
    d = tempfile.mkdtemp(prefix="mut.")
    r = d + "/repo"
    subprocess.run(["git", "clone", "-q", "--shared", REPO, r], check=True)
    p = os.path.join(r, m["file"])
    s = open(p, encoding="utf-8").read()
    s = s[:m["a"]] + m["new"] + s[m["b"]:]
    open(p, "w", encoding="utf-8").write(s)
    try:
        compile(s, p, "exec")
    except SyntaxError:
        shutil.rmtree(d)
        return None, None
    return d, r


def sh(cmd, cwd, limit, **env):
    try:
        return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit, env=dict(os.environ, **env))
    except subprocess.TimeoutExpired:
        return None


def survives_tests(m):
    d, r = copy(m)
    if d is None:
        return False
    try:
        a = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--rootdir=" + r, "-o", "python_files=*Test.py test_*.py *_test.py", "test"], r, 60)
        return a is not None and a.returncode == 0
    finally:
        shutil.rmtree(d)


def make(n, seed):
    rnd = random.Random(seed)
    groups = collections.defaultdict(list)
    for f in files():
        if f.endswith("__init__.py"):
            continue
        for m in mutants(f)[1]:
            groups[(m["file"], m["where"])].append(m)
    pool = []
    for g in groups.values():
        rnd.shuffle(g)
    # round robin over functions and tables, so that each is represented
    keys = sorted(groups)
    rnd.shuffle(keys)
    while any(groups.values()):
        for k in keys:
            if groups[k]:
                pool.append(groups[k].pop())
    alive = []
    tried = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        while len(alive) < n and tried < len(pool):
            part = pool[tried:tried + 64]
            tried += len(part)
            alive += [m for m, ok in zip(part, ex.map(survives_tests, part)) if ok]
            print("%d tried, %d alive of %d" % (tried, len(alive), len(pool)), flush=True)
    json.dump(alive[:n], open(OUT + "/alive.json", "w"), ensure_ascii=False, indent=0)


def cover():
    shutil.rmtree(OUT + "/cov", ignore_errors=True)
    os.makedirs(OUT + "/cov")
    out, cost = {}, {}
    for i in range(1, 30):
        c = "C%02d" % i
        a = sh([sys.executable, "run.py", c], V, 900, VERIF_COVER=OUT + "/cov")
        hit = set()
        for f in os.listdir(OUT + "/cov"):
            if f.startswith(c + "."):
                hit |= set(open(os.path.join(OUT, "cov", f)).read().split())
        out[c] = sorted(hit)
        cost[c] = float(a.stdout.split("wall=")[1].split("s")[0]) if "wall=" in a.stdout else 999
        print(c, len(hit), cost[c], flush=True)
    json.dump({"lines": out, "cost": cost}, open(OUT + "/cover.json", "w"))


def order(m, cov):
    key = "%s:%d" % (m["file"], m["line"])
    isdata = m["what"] == "table"
    c = [k for k in cov["lines"] if isdata or key in cov["lines"][k]]
    near = {p["id"] for p in map(json.loads, open(V + "/properties.jsonl")) if m["file"] in p["anchors"]["files"]}
    broad = {"C21", "C22", "C25", "C26", "C27", "C28", "C29", "C31"}
    if set(c) - broad:
        c = [k for k in c if k not in broad]
    return sorted(c, key=lambda k: (k not in near, cov["cost"][k]))


def check(m, cov, budget):
    d, r = copy(m)
    try:
        w = tempfile.mkdtemp(prefix="mut.v.")
        sh(["cp", "-a"] + [os.path.join(V, x) for x in ("mc", "run.py", "data", "known_findings.json", "tools")] + [w], V, 60)
        os.makedirs(w + "/evidence")
        used = 0
        ran = []
        for c in order(m, cov):
            if used + cov["cost"][c] > budget and used:
                continue
            used += cov["cost"][c]
            a = sh([sys.executable, "run.py", c], w, 2400, VERIF_REPO=r, VERIF_JOBS="1")
            ran.append(c)
            if a is None or a.returncode:
                return {"m": m, "by": c, "rc": None if a is None else a.returncode, "ran": ran}
        return {"m": m, "by": None, "ran": ran}
    finally:
        shutil.rmtree(d)
        shutil.rmtree(w)


def run(budget):
    cov = json.load(open(OUT + "/cover.json"))
    cov["lines"] = {k: set(v) for k, v in cov["lines"].items()}
    alive = json.load(open(OUT + "/alive.json"))
    done = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in concurrent.futures.as_completed([ex.submit(check, m, cov, budget) for m in alive]):
            r = f.result()
            done.append(r)
            m = r["m"]
            print("%s %s:%d %s [%s] %r -> %r %s" % (r["by"] or "MISSED", m["file"], m["line"], m["where"], m["what"], m["old"], m["new"], "" if r["by"] else ",".join(r["ran"])), flush=True)
            if r.get("rc") not in (None, 1):
                print("   rc", r["rc"])
    print("caught %d of %d" % (sum(1 for r in done if r["by"]), len(done)))
    json.dump(done, open(OUT + "/result.json", "w"), ensure_ascii=False)


if __name__ == "__main__":
    os.makedirs(OUT, exist_ok=True)
    if sys.argv[1] == "cover":
        cover()
    elif sys.argv[1] == "make":
        make(int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    else:
        run(float(sys.argv[2]) if len(sys.argv) > 2 else 120)
