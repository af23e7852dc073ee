#!/usr/bin/env python3
"""Captured the kinds of values the queries answer over C25's thorough domain (run once on the repaired tree; data/kinds.json is committed)."""
import json
import multiprocessing
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mc import core
from mc.checks import c25

c25.setup()


def part(js):
    c25.memo(True)
    ctx = core.Ctx()
    sink = {}
    for j in js:
        c25.total(ctx, j, sink)
    return sink, ctx.viols[:3]


if __name__ == "__main__":
    js = c25.domain("thorough")
    print(len(js), len(c25.domain("quick")))
    out = {}
    with multiprocessing.Pool(8) as p:
        for sink, bad in p.imap_unordered(part, [js[i:i + 100] for i in range(0, len(js), 100)]):
            for k, v in sink.items():
                out.setdefault(k, set()).update(v)
            for b in bad:
                print(b)
    with open(c25.PATH, "w") as f:
        json.dump({k: sorted(v) for k, v in sorted(out.items())}, f, ensure_ascii=False, indent=0)
