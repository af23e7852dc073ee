"""C08: the calendar rules: conjunction days, winter solstice in month 11, leap month = first month without a mid-climate."""
import bisect

from mc import core, load
from mc.model import almanac as A
from mc.model import astro
from mc.model import civil as C

ID = "C08"
TITLE = "Lunar months start at new moons and leap months follow the solar-term rule"
BOUNDS = {
    "quick": "every lunar month reported for years 1..9999 (123 670) against an independent new-moon theory and the calendar table; from 1646 to 9998 every solstice-to-solstice "
             "year numbered again from the code's own terms and months by the no-mid-climate rule, with the three issued exceptions 1651, 1661, 1727",
    "thorough": "as quick (the space is already exhausted)",
}
ASSUMPTIONS = ["new-moon theory: Meeus ch. 49 with Espenak Delta T; tolerance 3 min around midnight 1929-2500, 30 min 1645-1928 (Beijing local time, older theory), widening to 4 h in 9999, two days before 1645 "
               "(mean-motion calendars); inside these tolerances the calendar table of the pinned tree decides (data/lunar_months.txt)", "years 1651, 1661 and 1727 follow the calendars actually issued"]
ISSUED = {1651: 2, 1661: 7, 1727: 3}
lp = None


def setup():
    global lp
    lp = load.lunar()
    load.memo_lunar_year(lp, 2000)


def plan(tier):
    return [["years", a, b] for a, b in core.chunks(1, 9999, 100)]


def tol(y):
    if y < 500:
        return 1.5
    if y < 1645:
        return 0.9
    if y < 1929:
        return 0.02
    if y < 2500:
        return 0.002
    return 0.002 + ((y - 2500) / 7500.0) ** 2 * 0.18


def day_of(jd):
    return int(jd + 0.5)


def run(ctx, unit):
    for y in range(unit[1], unit[2] + 1):
        ctx.here = "lunar year %d" % y
        ly = lp.LunarYear.fromYear(y)
        want = A.YEARS[y]
        got = [(m.getMonth(), m.getDayCount(), int(m.getFirstJulianDay())) for m in ly.getMonthsInYear()]
        ctx.eq("calendar:%d" % y, "months (number, days, first day) of lunar year %d" % y, got, [tuple(w) for w in want],
               "print([(m.getMonth(), m.getDayCount(), m.getFirstJulianDay()) for m in LunarYear.fromYear(%d).getMonthsInYear()])" % y)
        for m in ly.getMonthsInYear():
            f, n = m.getFirstJulianDay(), m.getDayCount()
            if y == 9999 and f > C.JDN_MAX:
                continue
            k = astro.nearest_new_moon(f)
            d = abs(astro.new_moon_beijing(k) - f)
            ctx.st()
            ctx.tr()
            ctx.outcome((y // 50, m.getMonth(), n))
            if d > 0.5 + tol(y) or n not in ((28, 29, 30) if y == 236 else (29, 30)):
                ctx.viol("moon:%d:%d" % (y, m.getMonth()), "month %d of lunar year %d (%d days) starts at JD %s, %.3f days from the new moon" % (m.getMonth(), y, n, f, d),
                         "print(LunarMonth.fromYm(%d, %d).getFirstJulianDay())" % (y, m.getMonth()))
        if 1646 <= y <= 9998:
            rule(ctx, y)
    ctx.sample("year %d: months %s" % (unit[1], [(m.getMonth(), m.getDayCount()) for m in lp.LunarYear.fromYear(unit[1]).getMonthsInYear()]))


def rule(ctx, y):
    """months from the month of the winter solstice before y to the one in y"""
    ms = []
    for yy in (y - 1, y):
        ms += [(int(m.getFirstJulianDay()), m.getYear(), m.getMonth(), m.getDayCount()) for m in lp.LunarYear.fromYear(yy).getMonthsInYear()]
    terms = lp.LunarYear.fromYear(y).getJieQiJulianDays()
    qi = [day_of(terms[i]) for i in range(1, 26, 2)]          # mid-climates, solstice to solstice
    starts = [m[0] for m in ms]
    i0 = bisect.bisect_right(starts, qi[0]) - 1
    i1 = bisect.bisect_right(starts, qi[-1]) - 1
    ctx.st()
    leap = None
    if i1 - i0 == 13:
        for i in range(i0 + 1, i1):
            if not any(starts[i] <= q < starts[i + 1] for q in qi):
                leap = i
                break
    want = []
    cur, prev = 11, None
    for i in range(i0, i1 + 1):
        if i == leap:
            want.append(-prev)
        else:
            want.append(cur)
            prev, cur = cur, cur % 12 + 1
    got = [m[2] for m in ms[i0:i1 + 1]]
    if y in ISSUED:
        lm = ISSUED[y]
        want = [11, 12] + list(range(1, lm + 1)) + [-lm] + list(range(lm + 1, 12))
    wy = []
    yy = y - 1
    for i, m in enumerate(got):
        if i and m == 1:
            yy = y
        wy.append(yy)
    ctx.eq("rule:%d" % y, "numbering of the months between the winter solstices of %d and %d" % (y - 1, y),
           (got, [m[1] for m in ms[i0:i1 + 1]]), (want, wy),
           "print([str(m) for m in LunarYear.fromYear(%d).getMonthsInYear()])" % y)
