"""C20: stepping by working days."""
import bisect

from mc import core, load
from mc.checks import c19
from mc.model import civil as C

ID = "C20"
TITLE = "Working-day stepping skips exactly weekends and holidays"
BOUNDS = {
    "quick": "every day 2001-11-01..2027-02-28 x steps 0, +-1..+-6 and one of +-7..+-25, two long steps (+-260, +-1000) per month; 120-day windows at 12 other places (year ends, leap days, October 1582, year 1, "
             "year 9999) x the same steps; after each of 6 corrections (weekday made free, weekend made working, records removed, a far year filled): every day within 40 days of the change x +-1..+-8",
    "thorough": "as quick with steps +-1..+-40 from every day, windows of a year at 60 places",
}
ASSUMPTIONS = ["holiday records as published with the pinned tree"]
lp = None
FIXES = (
    ("2020-06-10", "202006104120200625"),
    ("2030-03-09", "203003094020300401"),
    ("2020-10-01", "20201001~000000000"),
    ("2020-01-19", "20200119~000000000202001186020200118"),
    ("1995-05-01", "199505013119950501199505023119950501199505063019950501199505043119950501"),
    ("2030-12-31", "".join("203012%02d0120310101" % d for d in range(16, 32))),
)


def setup():
    global lp
    lp = load.lunar()
    c19.setup()


def windows(tier):
    w = [(C.JDN_MIN + 60, 60), (C.jdn(4, 2, 1), 60), (C.jdn(1582, 9, 1), 90), (C.jdn(1700, 1, 20), 60), (C.jdn(1899, 12, 1), 60), (C.jdn(1999, 12, 1), 120), (C.jdn(2000, 2, 1), 60),
         (C.jdn(2100, 2, 1), 60), (C.jdn(9998, 12, 1), 60), (C.jdn(9999, 6, 1), 120), (C.jdn(1000, 12, 1), 60), (C.jdn(2050, 11, 20), 90)]
    if tier == "thorough":
        w += [(C.jdn(y, 1, 1), 365) for y in range(20, 9990, 170)]
    return w


def plan(tier):
    a, b = C.jdn(2001, 11, 1), C.jdn(2027, 2, 28)
    u = [["walk", j, min(b, j + 99)] for j in range(a, b + 1, 100)]
    u += [["walk", j + i, min(j + i + 29, j + n - 1)] for j, n in windows(tier) for i in range(0, n, 30)]
    return u + [["fixed", i] for i in range(len(FIXES))]


class Days(object):
    """working days of a stretch of the day line"""

    def __init__(self, rec, lo, hi):
        self.rec, self.lo, self.hi = rec, max(lo, C.JDN_MIN), min(hi, C.JDN_MAX)
        self.work = [j for j in range(self.lo, self.hi + 1) if self.is_work(j)]

    def is_work(self, j):
        r = self.rec.get("%04d%02d%02d" % C.ymd(j))
        return (j + 1) % 7 not in (0, 6) if r is None else r[9] == "0"

    def step(self, j, n):
        """None where the walk leaves the prepared stretch or the calendar"""
        if n == 0:
            return j
        i = bisect.bisect_right(self.work, j) - 1 + n if n > 0 else bisect.bisect_left(self.work, j) + n
        return self.work[i] if 0 <= i < len(self.work) else None


def walk(ctx, days, j, steps, pre=""):
    y, m, d = C.ymd(j)
    hms = ((0, 0, 0), (23, 59, 59), (12, 30, 1), (8, 0, 0))[j % 4]
    ctx.states += 1
    ctx.here = "%04d-%02d-%02d" % (y, m, d)
    s = lp.Solar.fromYmdHms(y, m, d, *hms)
    for n in steps:
        e = days.step(j, n)
        if e is None:
            continue
        ctx.here = "%04d-%02d-%02d %+d working days" % (y, m, d, n)
        want = "%04d-%02d-%02d %02d:%02d:%02d" % (C.ymd(e) + hms)
        ctx.eq("step:%04d-%02d-%02d:%d%s" % (y, m, d, n, ":" + pre if pre else ""), "%04d-%02d-%02d stepped by %d working days%s" % (y, m, d, n, " after " + pre if pre else ""),
               s.next(n, True).toYmdHms(), want,
               (pre + "\n" if pre else "") + "print(Solar.fromYmdHms(%d, %d, %d, %d, %d, %d).next(%d, True).toYmdHms())" % ((y, m, d) + hms + (n,)))
        ctx.outcome((n, e - j))
    ctx.eq("start:%s" % ctx.here, "start date after stepping", s.toYmdHms(), "%04d-%02d-%02d %02d:%02d:%02d" % ((y, m, d) + hms))


def run(ctx, unit):
    c19.snap.restore()
    rec = {r[:8]: r for r in c19.RECORDS}
    if unit[0] == "walk":
        a, b = unit[1:]
        days = Days(rec, a - 1500, b + 1500)
        for j in range(a, b + 1):
            if ctx.tier == "thorough":
                steps = list(range(-40, 41))
            else:
                k = 7 + j % 19
                steps = [0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -6, k, -k]
            if C.ymd(j)[2] == 10:
                steps += [260, -1000]
            elif C.ymd(j)[2] == 20:
                steps += [-260, 1000]
            walk(ctx, days, j, steps)
        ctx.sample("steps from %s" % (C.ymd(a),))
        return
    at, data = FIXES[unit[1]]
    m = c19.Model()
    # walk, correct, walk again: the correction takes effect for the next step
    c = C.jdn(*map(int, at.split("-")))
    days = Days(m.rec, c - 200, c + 200)
    walk(ctx, days, c - 1, (1, 2, -1))
    c19.H.fix(None, data)
    m.fix(None, data)
    days = Days(m.rec, c - 200, c + 200)
    for j in range(c - 40, c + 41):
        walk(ctx, days, j, [n for k in range(1, 9) for n in (k, -k)], "HolidayUtil.fix(None, %r)" % data)
    ctx.trace()
    ctx.sample("steps around %s after %s" % (at, data[:36]))
