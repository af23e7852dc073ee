#!/usr/bin/env python3
"""Development tool (no check uses it): validate planted bugs in a scratch copy and run the checks on them.

plant.py make FILE.py   FILE.py calls bug(id, property, needs, breaks, [(file, old, new)], demo source); writes seeded/<id>
plant.py test ID [CHECK..] apply seeded/ID in a scratch copy, run tests and demo both ways, then the checks (default: its property's)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env)
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def copy():
    d = tempfile.mkdtemp(prefix="plant.")
    subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
    return d, d + "/r"


def batch(path):
    ns = {"bug": lambda i, prop, needs, breaks, edits, demo: make(i, {"PROPERTY": prop, "NEEDS": needs, "BREAKS": breaks, "EDITS": edits, "DEMO": demo})}
    with open(path) as f:
        exec(f.read(), ns)
    return 0


def make(i, ns):
    d, r = copy()
    try:
        for file, old, new in ns["EDITS"]:
            p = os.path.join(r, "lunar_python", file)
            with open(p, encoding="utf-8") as f:
                s = f.read()
            if s.count(old) != 1:
                print("%s: %r occurs %d times in %s" % (i, old[:60], s.count(old), file))
                return 1
            with open(p, "w", encoding="utf-8") as f:
                f.write(s.replace(old, new))
        diff = sh(["git", "diff"], r).stdout
        o = os.path.join(SEED, i)
        os.makedirs(o, exist_ok=True)
        with open(o + "/patch.diff", "w") as f:
            f.write(diff)
        with open(o + "/demo.py", "w") as f:
            f.write("import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\n" + ns["DEMO"].lstrip("\n"))
        with open(o + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(o + "/demo.sh", 0o755)
        with open(o + "/meta.json", "w") as f:
            json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, f, indent=1, ensure_ascii=False)
            f.write("\n")
    finally:
        shutil.rmtree(d)
    return 0


def test(i, checks):
    o = os.path.join(SEED, i)
    with open(o + "/meta.json") as f:
        prop = json.load(f)["property"]
    d, r = copy()
    try:
        a = sh(["bash", o + "/demo.sh"], r)
        if a.returncode:
            print("%s INVALID: demo fails on the unchanged tree: %s" % (i, a.stdout[-300:]))
            return 1
        a = sh(["git", "apply", o + "/patch.diff"], r)
        if a.returncode:
            print("%s INVALID: patch: %s" % (i, a.stdout))
            return 1
        a = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--rootdir=" + r, "-o", "python_files=*Test.py test_*.py *_test.py", "test"], r)
        if a.returncode:
            print("%s INVALID: tests: %s" % (i, a.stdout[-900:]))
            return 1
        a = sh(["timeout", "280", "bash", o + "/demo.sh"], r)
        if a.returncode == 0:
            print("%s INVALID: demo passes with the patch" % i)
            return 1
        demo = a.stdout.strip().splitlines()[-1:]
        for c in checks or [prop]:
            w = tempfile.mkdtemp(prefix="plant.v.")
            try:
                sh(["cp", "-a"] + [os.path.join(V, x) for x in ("mc", "run.py", "data", "known_findings.json", "tools")] + [w], w)
                os.makedirs(w + "/evidence")
                a = sh([sys.executable, "run.py", c], w, VERIF_REPO=r)
            finally:
                shutil.rmtree(w)
            v = [x for x in a.stdout.splitlines() if x.startswith("VIOLATION")]
            print("%s %s (%s): exit %d, %d violations, %s | %s" % (i, "CAUGHT" if a.returncode == 1 and v else "MISSED" if a.returncode == 0 else "ERROR", c, a.returncode, len(v), a.stdout.strip().splitlines()[-1][:160], demo), flush=True)
            if a.returncode not in (0, 1):
                print(a.stdout[-1500:])
    finally:
        shutil.rmtree(d)
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "make":
        sys.exit(batch(sys.argv[2]))
    sys.exit(test(sys.argv[2], sys.argv[3:]))
