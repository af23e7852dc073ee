#!/usr/bin/env python3
"""Development tool (no verdict depends on it): the captured lunar calendar against the one of ICU (Node's Intl, an independent implementation)
for every day of the years FROM..TO (default 1645..2200). Prints the months that differ."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mc.model import almanac as A  # noqa: E402
from mc.model import civil as C  # noqa: E402

JS = """
const f = new Intl.DateTimeFormat('en-u-ca-chinese', {timeZone: 'UTC', year: 'numeric', month: 'numeric', day: 'numeric'});
const [a, b] = process.argv.slice(1).map(Number);
let prev = 0, out = [];
for (let j = a; j <= b; j++) {
  const p = {};
  for (const x of f.formatToParts(new Date((j - 2440588) * 864e5))) p[x.type] = x.value;
  const m = p.month.endsWith('bis') ? -parseInt(p.month) : parseInt(p.month);
  if (p.day == '1') out.push([j, m]);
}
console.log(JSON.stringify(out));
"""


def main(a, b):
    ja, jb = C.jdn(a, 1, 1), C.jdn(b, 12, 31)
    icu = {j: m for j, m in json.loads(subprocess.check_output(["node", "-e", JS, str(ja), str(jb)]))}
    own = {f: m for y in A.YEARS for m, n, f in A.YEARS[y] if ja <= f <= jb}
    bad = sorted(j for j in set(icu) | set(own) if icu.get(j) != own.get(j))
    for j in bad:
        print("%04d-%02d-%02d: own %s, ICU %s" % (C.ymd(j) + (own.get(j), icu.get(j))))
    print("%d months of %d..%d compared, %d first days differ" % (len(own), a, b, len(bad)))


if __name__ == "__main__":
    main(*map(int, sys.argv[1:3] or (1645, 2200)))
