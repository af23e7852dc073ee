#!/usr/bin/env python3
"""Development tool: rewrites the whole package without changing what it does, then runs the tests and the checks on the copy; all must stay quiet.

refactor.py KINDS [CHECK..]   KINDS: letters of
  r  rename every local variable and unpublished parameter use      i  invert every if/else (if not c: B else: A)
  e  extract the body of every method into a private helper          f  for i in range(...) -> while loops
  t  bind every returned expression to a temporary first             w  wrap long bodies into `if True:` and add no-op statements
  s  sort methods of every class by name                             v  early return -> single exit variable where it is the only return
"""
import ast
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        params = {a.arg for a in n.args.args + n.args.kwonlyargs}
        inner = any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for x in ast.walk(n) if x is not n)
        if inner:
            return n
        names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in names:
                x.id = "v_" + x.id
        return n


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test = ast.UnaryOp(ast.Not(), n.test)
        n.body, n.orelse = n.orelse, n.body
        return n


class Loops(ast.NodeTransformer):
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        c = n.iter
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "range" and len(c.args) == 2 and isinstance(n.target, ast.Name) and not n.orelse):
            return n
        if any(isinstance(x, ast.Continue) for x in ast.walk(n)) or any(isinstance(x, ast.Name) and x.id == n.target.id and isinstance(x.ctx, ast.Store) for b in n.body for x in ast.walk(b)):
            return n
        Loops.k += 1
        q, e = "_q%d" % Loops.k, "_e%d" % Loops.k
        body = ast.parse("%s = %s\n%s += 1" % (n.target.id, q, q)).body + n.body
        return [ast.Assign([ast.Name(q, ast.Store())], c.args[0]), ast.Assign([ast.Name(e, ast.Store())], c.args[1]),
                ast.While(ast.Compare(ast.Name(q, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]), body, [])]


class Temp(ast.NodeTransformer):
    def visit_Lambda(self, n):
        return n

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("_result", ast.Store())], n.value), ast.Return(ast.Name("_result", ast.Load()))]


class Wrap(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        rest = n.body[len(doc):]
        if rest:
            n.body = doc + [ast.If(ast.Constant(True), ast.parse("_unused = None\ndel _unused").body + rest, [])]
        return n


class Extract(ast.NodeTransformer):
    def visit_ClassDef(self, n):
        out = []
        for f in n.body:
            out.append(f)
            if not isinstance(f, ast.FunctionDef) or f.name.startswith("__") and f.name.endswith("__") or len(f.body) < 2:
                continue
            static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list)
            if f.decorator_list and not static:
                continue
            doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
            name = "_do_" + f.name.replace("__", "own_")
            args = ast.arguments([], [ast.arg(a.arg) for a in f.args.args], None, [], [], None, [])
            out.append(ast.FunctionDef(name, args, f.body[len(doc):], list(f.decorator_list), None, lineno=1))
            ps = [ast.Name(a.arg, ast.Load()) for a in f.args.args]
            call = ast.Call(ast.Attribute(ast.Name(n.name if static else ps[0].id, ast.Load()), name, ast.Load()), ps if static else ps[1:], [])
            f.body = doc + [ast.Return(call)]
        n.body = out
        return n


class Sort(ast.NodeTransformer):
    def visit_ClassDef(self, n):
        fs = sorted((f for f in n.body if isinstance(f, ast.FunctionDef)), key=lambda f: f.name)
        n.body = [x for x in n.body if not isinstance(x, ast.FunctionDef)] + fs
        return n


KINDS = {"r": Rename, "i": Invert, "f": Loops, "t": Temp, "w": Wrap, "e": Extract, "s": Sort}


def main(kinds, checks):
    d = tempfile.mkdtemp(prefix="refac.")
    r = d + "/repo"
    try:
        subprocess.run(["git", "clone", "-q", "--shared", "/repo", r], check=True)
        for top, _, fs in os.walk(r + "/lunar_python"):
            for f in fs:
                p = os.path.join(top, f)
                if f.endswith(".py") and f != "__init__.py":
                    t = ast.parse(open(p, encoding="utf-8").read())
                    for k in kinds:
                        t = ast.fix_missing_locations(KINDS[k]().visit(t))
                    open(p, "w", encoding="utf-8").write("# -*- coding: utf-8 -*-\n" + ast.unparse(t) + "\n")
        a = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--rootdir=" + r, "-o", "python_files=*Test.py test_*.py *_test.py", "test"],
                           cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("tests:", a.stdout.strip().splitlines()[-1])
        if a.returncode:
            print(a.stdout[-2000:])
            return
        w = tempfile.mkdtemp(prefix="refac.v.")
        subprocess.run(["cp", "-a"] + [os.path.join(V, x) for x in ("mc", "run.py", "data", "known_findings.json", "tools")] + [w], check=True)
        os.makedirs(w + "/evidence")
        for c in checks or ["C%02d" % i for i in range(1, 30)]:
            a = subprocess.run([sys.executable, "run.py", c], cwd=w, env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(kinds, c, a.returncode, a.stdout.strip().splitlines()[-1][:200], flush=True)
            if a.returncode:
                print(a.stdout[-1500:])
        shutil.rmtree(w)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
