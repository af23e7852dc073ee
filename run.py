#!/usr/bin/env python3
"""run.py <property> [--tier=quick|thorough] [--replay=file] : explore one property on /repo's current tree"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/verif-pycache"
os.environ.setdefault("PYTHONHASHSEED", "0")
from mc import core  # noqa

if __name__ == "__main__":
    code = core.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
