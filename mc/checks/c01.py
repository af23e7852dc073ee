"""C01: the civil day line."""
from mc import core, load
from mc.model import civil

ID = "C01"
TITLE = "Civil calendar is one unbroken day line"
BOUNDS = {
    "quick": "every day 0001-01-01..9999-12-31 with its +1/-1 transitions, weekday and day-of-year; every year's boundary days x 22 signed multi-day jumps; "
             "all ordered pairs of days in 1582-09-25..1582-11-05; every day 1582-08-01..1582-12-31 x every jump in -130..130; subtract against 2 anchor years",
    "thorough": "as quick, jumps -800..800 around 1582, every month boundary x the jump set, 25 anchor years",
}
BINDING = "each model day is instantiated as a real Solar and each model edge executed on the real methods"
ASSUMPTIONS = ["years 1..9999 (the range in which date strings have four year digits)"]

lp = None
JUMPS = (2, 7, 27, 28, 29, 30, 31, 32, 59, 60, 61, 355, 364, 365, 366, 367, 730, 731, 1461, 3653, 36524, 36525)


def setup():
    global lp
    lp = load.lunar()


def plan(tier):
    u = [["days", a, b] for a, b in core.chunks(1, 9999, 40)]
    u += [["jump", a, b] for a, b in core.chunks(1, 9999, 200)]
    u += [["anchor", y] for y in ((1, 2000) if tier == "quick" else tuple(range(1, 10000, 417)) + (1582, 9999))]
    lo, hi = civil.jdn(1582, 8, 1), civil.jdn(1582, 12, 31)
    u += [["gap", a, b] for a, b in core.chunks(lo, hi, 12)]
    u += [["pairs", a, b] for a, b in core.chunks(civil.jdn(1582, 9, 25), civil.jdn(1582, 11, 5), 8)]
    if tier == "thorough":
        u += [["mjump", a, b] for a, b in core.chunks(1, 9999, 100)]
    return u


def t3(s):
    return (s.getYear(), s.getMonth(), s.getDay())


def t6(s):
    return t3(s) + (s.getHour(), s.getMinute(), s.getSecond())


def check_jump(ctx, j, n, tag):
    S = lp.Solar
    k = j + n
    if not civil.JDN_MIN <= k <= civil.JDN_MAX:
        return
    y, m, d = civil.ymd(j)
    ctx.here = "%04d-%02d-%02d +%d" % (y, m, d, n)
    a = S.fromYmdHms(y, m, d, 13, 7, 59)
    b = a.next(n)
    want = civil.ymd(k)
    ctx.tr(3)
    if t6(b) != want + (13, 7, 59):
        ctx.viol("%s:next:%d-%d-%d:%d" % (tag, y, m, d, n), "%d-%d-%d next(%d) gives %r, the day line says %r" % (y, m, d, n, t6(b), want),
                 "print(Solar.fromYmd(%d,%d,%d).next(%d).toYmd(), 'expected %s')" % (y, m, d, n, "%04d-%02d-%02d" % want))
    c = S.fromYmd(*want)
    r = c.subtract(a)
    if r != n:
        ctx.viol("%s:subtract:%r:%r" % (tag, want, (y, m, d)), "subtract(%r - %r) = %r, the day line says %d" % (want, (y, m, d), r, n),
                 "print(Solar.fromYmd(%d,%d,%d).subtract(Solar.fromYmd(%d,%d,%d)), 'expected %d')" % (want + (y, m, d, n)))
    r = lp.util.SolarUtil.getDaysBetween(y, m, d, *want)
    if r != n:
        ctx.viol("%s:between:%r:%r" % (tag, (y, m, d), want), "getDaysBetween(%r,%r) = %r, the day line says %d" % ((y, m, d), want, r, n))
    ctx.outcome((n, want[1], want[2]))


def run(ctx, unit):
    S = lp.Solar
    U = lp.util.SolarUtil
    kind = unit[0]
    if kind == "days":
        for y in range(unit[1], unit[2] + 1):
            ctx.here = "year %d" % y
            leap = civil.leap(y)
            ctx.eq("leap:%d" % y, "isLeapYear(%d)" % y, bool(U.isLeapYear(y)), leap)
            ctx.eq("yearlen:%d" % y, "getDaysOfYear(%d)" % y, U.getDaysOfYear(y), civil.year_len(y))
            j = civil.jdn(y, 1, 1)
            first = j
            for m in range(1, 13):
                days = civil.month_days(y, m)
                if U.getDaysOfMonth(y, m) != len(days):
                    ctx.viol("monthlen:%d-%d" % (y, m), "getDaysOfMonth(%d,%d) = %r, calendar has %d" % (y, m, U.getDaysOfMonth(y, m), len(days)))
                for d in days:
                    h, mi, se = j % 24, j % 60, (j // 7) % 60
                    s = S.fromYmdHms(y, m, d, h, mi, se)
                    if j < civil.JDN_MAX:
                        nx = s.next(1)
                        w = civil.ymd(j + 1)
                        if t6(nx) != w + (h, mi, se):
                            ctx.viol("next1:%d-%d-%d" % (y, m, d), "%d-%d-%d next(1) gives %r, the day line says %r" % (y, m, d, t6(nx), w),
                                     "print(Solar.fromYmd(%d,%d,%d).next(1).toYmd(), 'expected %s')" % (y, m, d, "%04d-%02d-%02d" % w))
                        if nx.subtract(s) != 1 or s.subtract(nx) != -1:
                            ctx.viol("sub1:%d-%d-%d" % (y, m, d), "difference of %d-%d-%d and the following day is %r / %r, not 1 / -1" % (y, m, d, nx.subtract(s), s.subtract(nx)))
                    if j > civil.JDN_MIN:
                        pv = s.next(-1)
                        w = civil.ymd(j - 1)
                        if t6(pv) != w + (h, mi, se):
                            ctx.viol("prev1:%d-%d-%d" % (y, m, d), "%d-%d-%d next(-1) gives %r, the day line says %r" % (y, m, d, t6(pv), w),
                                     "print(Solar.fromYmd(%d,%d,%d).next(-1).toYmd(), 'expected %s')" % (y, m, d, "%04d-%02d-%02d" % w))
                    if t6(s.next(0)) != (y, m, d, h, mi, se):
                        ctx.viol("next0:%d-%d-%d" % (y, m, d), "%d-%d-%d next(0) gives %r" % (y, m, d, t6(s.next(0))))
                    if s.getWeek() != civil.week(j):
                        ctx.viol("week:%d-%d-%d" % (y, m, d), "getWeek(%d-%d-%d) = %r, the seven-day cycle says %d" % (y, m, d, s.getWeek(), civil.week(j)),
                                 "print(Solar.fromYmd(%d,%d,%d).getWeek(), 'expected %d')" % (y, m, d, civil.week(j)))
                    if U.getDaysInYear(y, m, d) != j - first + 1:
                        ctx.viol("doy:%d-%d-%d" % (y, m, d), "getDaysInYear(%d,%d,%d) = %r, ordinal is %d" % (y, m, d, U.getDaysInYear(y, m, d), j - first + 1))
                    j += 1
                    ctx.states += 1
                    ctx.transitions += 7
            if bool(S.fromYmd(y, 6, 15).isLeapYear()) != leap:
                ctx.viol("leapday:%d" % y, "Solar(%d).isLeapYear() is not %r" % (y, leap))
            ctx.outcome((leap, civil.week(first)))
        ctx.trace()
        ctx.sample("year %d: %d days walked forwards and backwards" % (unit[2], civil.year_len(unit[2])))
    elif kind in ("jump", "mjump"):
        for y in range(unit[1], unit[2] + 1):
            if kind == "jump":
                base = [civil.jdn(y, 1, 1), civil.jdn(y, 2, 28), civil.jdn(y, 2, 28) + 1, civil.jdn(y, 12, 31)]
            else:
                base = [civil.jdn(y, m, 1) for m in range(1, 13)] + [civil.jdn(y, m, 1) - 1 for m in range(2, 13)]
            for j in base:
                ctx.st()
                for n in JUMPS:
                    check_jump(ctx, j, n, "jump")
                    check_jump(ctx, j, -n, "jump")
        ctx.trace()
    elif kind == "anchor":
        a = civil.jdn(unit[1], 3, 1)
        A = S.fromYmd(unit[1], 3, 1)
        for y in range(1, 10000):
            for (m, d) in ((1, 1), (12, 31)):
                ctx.here = "subtract %d-%d-%d vs year %d" % (y, m, d, unit[1])
                B = S.fromYmd(y, m, d)
                w = civil.jdn(y, m, d) - a
                ctx.tr(2)
                if B.subtract(A) != w or A.subtract(B) != -w:
                    ctx.viol("anchor:%d:%d-%d-%d" % (unit[1], y, m, d), "%d-%d-%d minus %d-3-1 = %r / %r, the day line says %d" % (
                        y, m, d, unit[1], B.subtract(A), A.subtract(B), w))
        ctx.st(9999)
        ctx.trace()
    elif kind == "gap":
        r = 130 if ctx.tier == "quick" else 800
        for j in range(unit[1], unit[2] + 1):
            ctx.st()
            for n in range(-r, r + 1):
                check_jump(ctx, j, n, "gap")
        ctx.trace()
    elif kind == "pairs":
        for j in range(unit[1], unit[2] + 1):
            ctx.st()
            for k in range(civil.jdn(1582, 9, 25), civil.jdn(1582, 11, 5) + 1):
                check_jump(ctx, j, k - j, "pair")
        ctx.trace()
