#!/usr/bin/env python3
"""setup_cmd: nothing to compile; checks that the committed data is readable and the code under test is importable."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import load
from mc.model import almanac, gz

load.lunar()
assert len(gz.TS) == almanac.NTERMS
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("setup ok: %d terms, %d lunar months" % (almanac.NTERMS, len(almanac.FIRST)))
