"""C04: month / year / season / half-year stepping and enumeration."""
import datetime

from mc import core, load
from mc.model import civil

ID = "C04"
TITLE = "Month, quarter, half-year and year stepping keep to the calendar"
BOUNDS = {
    "quick": "every month of years 1..9999 (119,988 states): 26 month steps of the day clamp transitions from days 1,4,10,28..31, season/half-year/year membership and stepping, "
             "day enumeration of every month; every day of 1580..1584 x every month step -40..40 and year step -6..6",
    "thorough": "as quick with every day of every month as a start and month steps -130..130 in windows",
}
ASSUMPTIONS = ["years 1..9999", "clamping: the day number is kept, reduced to the last day of a shorter target month; a target inside the 1582 gap is moved past it by ten days"]
lp = None


def setup():
    global lp
    lp = load.lunar()


def plan(tier):
    u = [["months", a, b] for a, b in core.chunks(1, 9999, 50)]
    u += [["gap", y] for y in range(1580, 1585)]
    u += [["years", a, b] for a, b in core.chunks(1, 9999, 200)]
    return u


def t6(s):
    return (s.getYear(), s.getMonth(), s.getDay(), s.getHour(), s.getMinute(), s.getSecond())


def clamp(y, m, d):
    if (y, m) == (1582, 10):
        return (y, m, d + 10 if 4 < d < 15 else d)
    return (y, m, min(d, civil.month_len(y, m)))


def add_months(y, m, n):
    k = y * 12 + (m - 1) + n
    return k // 12, k % 12 + 1


TIMES = ((7, 8, 9), (0, 0, 0), (23, 59, 59), (12, 30, 1), (23, 0, 0), (22, 59, 59), (0, 59, 59), (11, 0, 0), (6, 15, 45), (23, 30, 30), (18, 1, 59))
MSTEP = (0, 1, 2, 3, 5, 6, 7, 11, 12, 13, 18, 23, 24, 25, 119, 120, 1201)


def month_step(ctx, y, m, d, n, t=None):
    t = t or TIMES[(y * 5 + m + d * 3 + n) % len(TIMES)]
    ty, tm = add_months(y, m, n)
    if not 1 <= ty <= 9999:
        return
    ctx.here = "%d-%d-%d nextMonth(%d)" % (y, m, d, n)
    want = clamp(ty, tm, d) + t
    got = t6(lp.Solar.fromYmdHms(y, m, d, *t).nextMonth(n))
    ctx.transitions += 1
    if got != want:
        ctx.viol("nextMonth:%d-%d-%d:%d" % (y, m, d, n), "%d-%d-%d nextMonth(%d) gives %r, expected %r" % (y, m, d, n, got, want),
                 "print(Solar.fromYmd(%d,%d,%d).nextMonth(%d).toYmd(), 'expected %s')" % (y, m, d, n, want))


def year_step(ctx, y, m, d, n, t=None):
    t = t or TIMES[(y * 5 + m + d * 3 + n) % len(TIMES)]
    ty = y + n
    if not 1 <= ty <= 9999:
        return
    ctx.here = "%d-%d-%d nextYear(%d)" % (y, m, d, n)
    want = clamp(ty, m, d) + t
    got = t6(lp.Solar.fromYmdHms(y, m, d, *t).nextYear(n))
    ctx.transitions += 1
    if got != want:
        ctx.viol("nextYear:%d-%d-%d:%d" % (y, m, d, n), "%d-%d-%d nextYear(%d) gives %r, expected %r" % (y, m, d, n, got, want),
                 "print(Solar.fromYmd(%d,%d,%d).nextYear(%d).toYmd(), 'expected %s')" % (y, m, d, n, want))


def ym(x):
    return (x.getYear(), x.getMonth())


def run(ctx, unit):
    S = lp.Solar
    if unit[0] == "months":
        full = ctx.tier == "thorough"
        for y in range(unit[1], unit[2] + 1):
            yr = lp.SolarYear.fromYear(y)
            ctx.here = "SolarYear %d" % y
            if [ym(x) for x in yr.getMonths()] != [(y, i) for i in range(1, 13)]:
                ctx.viol("yearmonths:%d" % y, "SolarYear(%d).getMonths() = %r" % (y, [ym(x) for x in yr.getMonths()]))
            if yr.getYear() != y or yr.toString() != str(y) or yr.toFullString() != "%d年" % y or str(yr) != str(y):
                ctx.viol("yeartext:%d" % y, "SolarYear(%d) reads %r %r" % (y, yr.getYear(), yr.toFullString()))
            for m in range(1, 13):
                ctx.states += 1
                days = civil.month_days(y, m)
                M = lp.SolarMonth.fromYm(y, m)
                ctx.here = "SolarMonth %d-%d" % (y, m)
                if (M.toString(), M.toFullString()) != ("%d-%d" % (y, m), "%d年%d月" % (y, m)) or str(M) != M.toString():
                    ctx.viol("monthtext:%d-%d" % (y, m), "SolarMonth(%d,%d) prints %r %r" % (y, m, M.toString(), M.toFullString()))
                if (y * 12 + m) % 4 == 0 or full or 1570 < y < 1600 or 1895 < y < 2105:
                    got = [t6(x) for x in M.getDays()]
                    ctx.transitions += len(days)
                    if got != [(y, m, d, 0, 0, 0) for d in days]:
                        ctx.viol("days:%d-%d" % (y, m), "SolarMonth(%d,%d).getDays() = %r, the calendar has %d days" % (y, m, [g[2] for g in got], len(days)),
                                 "print([d.toYmd() for d in SolarMonth.fromYm(%d,%d).getDays()])" % (y, m))
                for n0 in MSTEP:
                    for n in (n0, -n0):
                        w = add_months(y, m, n)
                        if not 1 <= w[0] <= 9999:
                            continue
                        if ym(M.next(n)) != w:
                            ctx.viol("month:%d-%d:%d" % (y, m, n), "SolarMonth(%d,%d).next(%d) = %r, expected %r" % (y, m, n, ym(M.next(n)), w))
                        ctx.transitions += 1
                for d in (days if full else [x for x in (1, 4, 15, 28, 29, 30, 31) if x in days]):
                    for n0 in (1, 2, 11, 12, 13):
                        month_step(ctx, y, m, d, n0)
                        month_step(ctx, y, m, d, -n0)
                Q = lp.SolarSeason.fromYm(y, m)
                H = lp.SolarHalfYear.fromYm(y, m)
                q, h = (m + 2) // 3, (m + 5) // 6
                ctx.here = "season/halfyear %d-%d" % (y, m)
                if Q.getIndex() != q or [ym(x) for x in Q.getMonths()] != [(y, 3 * q - 2 + i) for i in range(3)]:
                    ctx.viol("season:%d-%d" % (y, m), "SolarSeason(%d,%d): index %r months %r" % (y, m, Q.getIndex(), [ym(x) for x in Q.getMonths()]))
                if H.getIndex() != h or [ym(x) for x in H.getMonths()] != [(y, 6 * h - 5 + i) for i in range(6)]:
                    ctx.viol("half:%d-%d" % (y, m), "SolarHalfYear(%d,%d): index %r months %r" % (y, m, H.getIndex(), [ym(x) for x in H.getMonths()]))
                if Q.toString() != "%d.%d" % (y, q) or Q.toFullString() != "%d年%d季度" % (y, q) or ym(Q) != (y, m) or str(Q) != Q.toString():
                    ctx.viol("seasontext:%d-%d" % (y, m), "SolarSeason(%d,%d) prints %r %r" % (y, m, Q.toString(), Q.toFullString()))
                if H.toString() != "%d.%d" % (y, h) or H.toFullString() != "%d年%s半年" % (y, "上下"[h - 1]) or ym(H) != (y, m) or str(H) != H.toString():
                    ctx.viol("halftext:%d-%d" % (y, m), "SolarHalfYear(%d,%d) prints %r %r" % (y, m, H.toString(), H.toFullString()))
                for n in (-9, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 9):
                    w = add_months(y, m, 3 * n)
                    if 1 <= w[0] <= 9999 and ym(Q.next(n)) != w:
                        ctx.viol("seasonstep:%d-%d:%d" % (y, m, n), "SolarSeason(%d,%d).next(%d) = %r, expected %r" % (y, m, n, ym(Q.next(n)), w))
                    w = add_months(y, m, 6 * n)
                    if 1 <= w[0] <= 9999 and ym(H.next(n)) != w:
                        ctx.viol("halfstep:%d-%d:%d" % (y, m, n), "SolarHalfYear(%d,%d).next(%d) = %r, expected %r" % (y, m, n, ym(H.next(n)), w))
                    ctx.transitions += 2
            ctx.outcome((y % 400))
        ctx.trace()
        ctx.sample("months of %d: stepping by %r both ways" % (unit[1], MSTEP))
    elif unit[0] == "years":
        for y in range(unit[1], unit[2] + 1):
            Y = lp.SolarYear.fromYear(y)
            for n in (-1000, -400, -100, -4, -3, -2, -1, 0, 1, 2, 3, 4, 100, 400, 1000):
                if 1 <= y + n <= 9999:
                    ctx.tr()
                    if Y.next(n).getYear() != y + n:
                        ctx.viol("yearstep:%d:%d" % (y, n), "SolarYear(%d).next(%d) = %r" % (y, n, Y.next(n).getYear()))
                for (m, d) in ((1, 1), (1, 31), (2, 28), (2, 29), (3, 1), (10, 4), (10, 10), (10, 15), (10, 31), (12, 31)):
                    if civil.valid(y, m, d):
                        year_step(ctx, y, m, d, n)
            for to in ((1582, 10), (2000, 2), (2100, 2)):
                for d in (1, 4, 5, 9, 10, 14, 15, 28, 29, 30, 31):
                    if civil.valid(y, to[1], d):
                        year_step(ctx, y, to[1], d, to[0] - y)
                    if civil.valid(y, 12, d):
                        month_step(ctx, y, 12, d, (to[0] - y) * 12 + to[1] - 12)
            ctx.st()
        for dt in (datetime.date(2020, 2, 29), datetime.date(1999, 12, 31), datetime.datetime(2024, 7, 1, 3, 4, 5)):
            for cls in (lp.SolarMonth, lp.SolarSeason, lp.SolarHalfYear):
                if ym(cls.fromDate(dt)) != (dt.year, dt.month):
                    ctx.viol("fromDate:%s" % cls.__name__, "%s.fromDate(%r) = %r" % (cls.__name__, dt, ym(cls.fromDate(dt))))
            if lp.SolarYear.fromDate(dt).getYear() != dt.year:
                ctx.viol("fromDate:SolarYear", "SolarYear.fromDate(%r) = %r" % (dt, lp.SolarYear.fromDate(dt).getYear()))
        ctx.trace()
    else:
        y = unit[1]
        r, ry = (40, 6) if ctx.tier == "quick" else (130, 40)
        for j in range(civil.jdn(y, 1, 1), civil.jdn(y, 12, 31) + 1):
            y_, m, d = civil.ymd(j)
            ctx.st()
            for n in range(-r, r + 1):
                month_step(ctx, y, m, d, n)
            for n in range(-ry, ry + 1):
                year_step(ctx, y, m, d, n)
        ctx.trace()
