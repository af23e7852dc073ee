"""One-off: capture the reference almanac (lunar months, solar-term instants) from the pinned tree.
It was run on the base commit; the output is committed in data/ and cross-validated by tools/validate_almanac.py
(ICU's Chinese calendar, an independent low-precision solar theory, structural rules)."""
import array
import os
import sys
import zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import load
lp = load.lunar()
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
lines = []
terms = {}
bad = 0
code = {30: "L", 29: "S", 28: "X"}
prev_end = None
for y in range(0, 10001):
    ly = lp.LunarYear.fromYear(y)
    ms = ly.getMonthsInYear()
    out = []
    first = None
    for m in ms:
        jd = m.getFirstJulianDay()
        assert jd == int(jd), jd
        if first is None:
            first = int(jd)
            if prev_end is not None and prev_end != first:
                print("gap at year", y, prev_end, first)
        else:
            assert int(jd) == nxt, (y, m.getMonth(), jd, nxt)
        nxt = int(jd) + m.getDayCount()
        out.append("%d%s" % (m.getMonth(), code[m.getDayCount()]))
    prev_end = nxt
    if y < 10000:
        lines.append("%d %d %s" % (y, first, " ".join(out)))
    for i, jd in enumerate(ly.getJieQiJulianDays()):
        k = y * 24 + i
        if k in terms and abs(terms[k] - jd) > 1e-8:
            bad += 1
            if bad < 20:
                print("term mismatch", y, i, terms[k], jd, (terms[k] - jd) * 86400)
        terms.setdefault(k, jd)
print("mismatches", bad)
with open(os.path.join(D, "lunar_months.txt"), "w") as f:
    f.write("\n".join(lines) + "\n")
n = max(terms) + 1
T0 = terms[0]
STEP = 365.2422 / 24
a = array.array("i", [int(round((terms[k] - T0 - k * STEP) * 86400 * 1000)) for k in range(n)])
with open(os.path.join(D, "terms.bin"), "wb") as f:
    f.write(zlib.compress(a.tobytes(), 9))
print(n, repr(T0), max(a), min(a))
