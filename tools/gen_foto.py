#!/usr/bin/env python3
"""Captured the parts of the Buddhist and Taoist festival tables that tables.json does not hold (run once on the pinned tree; the file is committed)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mc import load

lp = load.lunar()
F, T = lp.util.FotoUtil, lp.util.TaoUtil
out = {"foto": {k: [[f.getName(), f.getResult(), f.isEveryMonth(), f.getRemark()] for f in v] for k, v in F.FESTIVAL.items()},
       "tao": {k: [[f.getName(), f.getRemark()] for f in v] for k, v in T.FESTIVAL.items()}}
with open(os.path.join(V, "data", "rites.json"), "w") as f:
    json.dump(out, f, ensure_ascii=False, indent=0)
