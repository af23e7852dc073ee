"""C05: weeks tile the day line; indices, counts and week stepping agree with the tiling."""
import datetime

from mc import core, load
from mc.model import civil

ID = "C05"
TITLE = "Weeks partition months and years for every first day of week"
BOUNDS = {
    "quick": "every month of years 1..9999 x 7 week starts: week count, week list, index of the first/second/last days, index in year at month ends; "
             "every day of 34 years (incl. 1581..1583, all 14 year shapes) x 7 starts: first day, members, members in month, both indices, "
             "week steps -9..9 whole and month-separated; month-separated chains walked through 1582",
    "thorough": "every day of every year x 7 starts for indices and first day; week steps -30..30 on the windows",
}
ASSUMPTIONS = ["years 1..9999", "week starts 0..6 (0 = Sunday)"]
lp = None
WINDOW = [1, 2, 3, 4, 5, 1499, 1500, 1581, 1582, 1583, 1600, 1700, 1900, 2000] + list(range(2010, 2029)) + [9998]


def setup():
    global lp
    lp = load.lunar()


def plan(tier):
    u = [["months", a, b] for a, b in core.chunks(1, 9999, 50)]
    u += [["days", y, s] for y in WINDOW for s in range(7)]
    u += [["sepchain", y, s] for y in (4, 1581, 1999, 2015, 2021) for s in range(7)]
    if tier == "thorough":
        u += [["alldays", a, b] for a, b in core.chunks(1, 9999, 20)]
    return u


def idx(y, m, d, start):
    """1-based index of the week within the month, counting days that exist"""
    first = civil.jdn(y, m, 1)
    off = (civil.week(first) - start) % 7
    return (civil.jdn(y, m, d) - first + off) // 7 + 1


def idx_year(y, m, d, start):
    first = civil.jdn(y, 1, 1)
    off = (civil.week(first) - start) % 7
    return (civil.jdn(y, m, d) - first + off) // 7 + 1


def nweeks(y, m, start):
    return idx(y, m, civil.last_day(y, m), start)


def t3(s):
    return (s.getYear(), s.getMonth(), s.getDay())


def seg_next(y, m, i, n, start):
    """n segments after week i of month (y,m) in the month-separated sequence"""
    while n > 0:
        k = nweeks(y, m, start)
        if i + n <= k:
            return y, m, i + n
        n -= k - i + 1
        y, m = (y, m + 1) if m < 12 else (y + 1, 1)
        i = 1
    while n < 0:
        if i + n >= 1:
            return y, m, i + n
        n += i
        y, m = (y, m - 1) if m > 1 else (y - 1, 12)
        i = nweeks(y, m, start)
    return y, m, i


def check_day(ctx, j, start, deep):
    y, m, d = civil.ymd(j)
    ctx.here = "week of %d-%d-%d start %d" % (y, m, d, start)
    tag = "%d-%d-%d:%d" % (y, m, d, start)
    W = lp.SolarWeek.fromYmd(y, m, d, start)
    i, iy = idx(y, m, d, start), idx_year(y, m, d, start)
    ctx.states += 1
    ctx.transitions += 3
    if W.getIndex() != i:
        ctx.viol("index:" + tag, "week of %d-%d-%d (start %d): index %r, the tiling of the month says %d" % (y, m, d, start, W.getIndex(), i),
                 "print(SolarWeek.fromYmd(%d,%d,%d,%d).getIndex(), 'expected %d')" % (y, m, d, start, i))
    if W.getIndexInYear() != iy:
        ctx.viol("indexyear:" + tag, "week of %d-%d-%d (start %d): index in year %r, the tiling of the year says %d" % (y, m, d, start, W.getIndexInYear(), iy),
                 "print(SolarWeek.fromYmd(%d,%d,%d,%d).getIndexInYear(), 'expected %d')" % (y, m, d, start, iy))
    f = j - (civil.week(j) - start) % 7
    if f >= civil.JDN_MIN and t3(W.getFirstDay()) != civil.ymd(f):
        ctx.viol("first:" + tag, "first day of the week of %d-%d-%d (start %d) is %r, expected %r" % (y, m, d, start, t3(W.getFirstDay()), civil.ymd(f)))
    if not deep or f < civil.JDN_MIN or f + 6 > civil.JDN_MAX:
        return
    if (t3(lp.Solar.fromYmd(W.getYear(), W.getMonth(), W.getDay())), W.getStart()) != ((y, m, d), start):
        ctx.viol("fields:" + tag, "SolarWeek(%d,%d,%d,%d) reads back %r" % (y, m, d, start, (W.getYear(), W.getMonth(), W.getDay(), W.getStart())))
    if (W.toString(), W.toFullString()) != ("%d.%d.%d" % (y, m, i), "%d年%d月第%d周" % (y, m, i)):
        ctx.viol("text:" + tag, "SolarWeek(%d,%d,%d,%d) prints %r %r" % (y, m, d, start, W.toString(), W.toFullString()))
    full = [civil.ymd(f + k) for k in range(7)]
    inm = [x for x in full if x[1] == m]
    got = [t3(x) for x in W.getDays()]
    ctx.transitions += 4
    if got != full:
        ctx.viol("members:" + tag, "days of the week of %d-%d-%d (start %d) = %r, expected %r" % (y, m, d, start, got, full))
    got = [t3(x) for x in W.getDaysInMonth()]
    if got != inm:
        ctx.viol("inmonth:" + tag, "days in month of the week of %d-%d-%d (start %d) = %r, expected %r" % (y, m, d, start, got, inm))
    if t3(W.getFirstDayInMonth()) != inm[0]:
        ctx.viol("firstinmonth:" + tag, "first day in month = %r, expected %r" % (t3(W.getFirstDayInMonth()), inm[0]))
    r = 9 if ctx.tier == "quick" else 30
    for n in range(-r, r + 1):
        k = j + 7 * n
        if not civil.JDN_MIN + 7 <= k <= civil.JDN_MAX - 7:
            continue
        w = W.next(n, False)
        ctx.transitions += 1
        if (w.getYear(), w.getMonth(), w.getDay(), w.getStart()) != civil.ymd(k) + (start,):
            ctx.viol("step:%s:%d" % (tag, n), "week of %d-%d-%d next(%d) is at %r, expected %r" % (y, m, d, n, (w.getYear(), w.getMonth(), w.getDay(), w.getStart()), civil.ymd(k)))
    rs = 5 if ctx.tier == "quick" else 14
    for n in range(-rs, rs + 1):
        if not civil.JDN_MIN + 70 <= j <= civil.JDN_MAX - 120:
            continue
        want = seg_next(y, m, i, n, start)
        w = W.next(n, True)
        ctx.transitions += 1
        got = (w.getYear(), w.getMonth(), idx(w.getYear(), w.getMonth(), w.getDay(), start))
        if got != want or w.getIndex() != want[2] or w.getStart() != start:
            ctx.viol("sep:%s:%d" % (tag, n), "week of %d-%d-%d (start %d) next(%d, separate) is week %r (index %r), the month-separated sequence says %r" % (
                y, m, d, start, n, got, w.getIndex(), want),
                "w=SolarWeek.fromYmd(%d,%d,%d,%d).next(%d,True)\nprint(w.getYear(),w.getMonth(),w.getIndex(), 'expected %r')" % (y, m, d, start, n, want))
    ctx.outcome((i, iy, len(inm)))


def run(ctx, unit):
    if unit[0] == "months":
        U = lp.util.SolarUtil
        for y in range(unit[1], unit[2] + 1):
            for m in range(1, 13):
                last = civil.last_day(y, m)
                for start in range(7):
                    ctx.here = "weeks of %d-%d start %d" % (y, m, start)
                    n = nweeks(y, m, start)
                    got = U.getWeeksOfMonth(y, m, start)
                    ctx.states += 1
                    ctx.transitions += 1
                    if got != n:
                        ctx.viol("count:%d-%d:%d" % (y, m, start), "getWeeksOfMonth(%d,%d,%d) = %r, the month has %d weeks" % (y, m, start, got, n),
                                 "print(SolarUtil.getWeeksOfMonth(%d,%d,%d), 'expected %d')" % (y, m, start, n))
                    ds = [1, 7, 8, last] if (y, m) != (1582, 10) else civil.month_days(y, m)
                    for d in ds:
                        W = lp.SolarWeek.fromYmd(y, m, d, start)
                        ctx.transitions += 2
                        w = idx(y, m, d, start)
                        if W.getIndex() != w:
                            ctx.viol("index:%d-%d-%d:%d" % (y, m, d, start), "week of %d-%d-%d (start %d): index %r, the tiling of the month says %d" % (y, m, d, start, W.getIndex(), w),
                                     "print(SolarWeek.fromYmd(%d,%d,%d,%d).getIndex(), 'expected %d')" % (y, m, d, start, w))
                        w = idx_year(y, m, d, start)
                        if W.getIndexInYear() != w:
                            ctx.viol("indexyear:%d-%d-%d:%d" % (y, m, d, start), "week of %d-%d-%d (start %d): index in year %r, the tiling says %d" % (y, m, d, start, W.getIndexInYear(), w))
                    if (y * 12 + m + start) % 5 == 0 or 1500 < y < 1600 or 1990 < y < 2040:
                        if (y, m) in ((1, 1), (9999, 12)):
                            continue
                        ws = lp.SolarMonth.fromYm(y, m).getWeeks(start)
                        got = [t3(x.getFirstDay()) for x in ws]
                        f = civil.jdn(y, m, 1)
                        f -= (civil.week(f) - start) % 7
                        want = [civil.ymd(f + 7 * k) for k in range(n)]
                        ctx.transitions += n
                        if got != want:
                            ctx.viol("list:%d-%d:%d" % (y, m, start), "weeks of %d-%d (start %d) begin %r, the tiling says %r" % (y, m, start, got, want),
                                     "print([w.getFirstDay().toYmd() for w in SolarMonth.fromYm(%d,%d).getWeeks(%d)])" % (y, m, start))
            ctx.outcome(y % 400)
        ctx.trace()
        ctx.sample("all months of %d..%d x 7 week starts" % (unit[1], unit[2]))
    elif unit[0] == "days":
        y, start = unit[1:]
        for j in range(civil.jdn(y, 1, 1), civil.jdn(y, 12, 31) + 1):
            check_day(ctx, j, start, True)
        d = datetime.date(2024, 2, 29)
        w = lp.SolarWeek.fromDate(d, start)
        if (w.getYear(), w.getMonth(), w.getDay(), w.getStart()) != (2024, 2, 29, start):
            ctx.viol("fromDate:%d" % start, "SolarWeek.fromDate reads back %r" % ((w.getYear(), w.getMonth(), w.getDay(), w.getStart()),))
        ctx.trace()
        ctx.sample("every day of %d, weeks starting on %d" % (y, start))
    elif unit[0] == "alldays":
        for j in range(civil.jdn(unit[1], 1, 1), civil.jdn(unit[2], 12, 31) + 1):
            for start in range(7):
                check_day(ctx, j, start, False)
        ctx.trace()
    else:
        # a chain of single month-separated steps visits every segment exactly once, both ways
        y0, start = unit[1:]
        W = lp.SolarWeek.fromYmd(y0, 1, 10, start)
        cur = (y0, 1, idx(y0, 1, 10, start))
        for direction, steps in ((1, 200), (-1, 260), (1, 120)):
            for _ in range(steps):
                ctx.here = "separate chain at %r start %d" % (cur, start)
                W = W.next(direction, True)
                cur = seg_next(cur[0], cur[1], cur[2], direction, start)
                got = (W.getYear(), W.getMonth(), W.getIndex())
                ctx.st()
                ctx.tr()
                if got != cur:
                    ctx.viol("chain:%d:%d:%r" % (y0, start, cur), "chain of month-separated steps from %d-01 (start %d) reached %r, the sequence of weeks says %r" % (y0, start, got, cur))
                    return
        ctx.trace()
