"""C11: year and month pillars under the three conventions."""
from mc import core, load
from mc.model import almanac as A
from mc.model import civil as C
from mc.model import gz, rare

ID = "C11"
TITLE = "Year and month pillars switch exactly at new year, Li Chun and each jie"
BOUNDS = {
    "quick": "every day of every second civil year 1..9999 at a rotating hour (all days of 1..60, 1560..1600, 1880..2110, 9960..9999); the second before, of "
             "and after every jie (120 000 boundaries), both ends of the day before/of/after each jie and of each lunar new year, all index, stem, branch, "
             "animal, decade and void getters there",
    "thorough": "every day of years 1..9999, all getters; boundaries as quick with +-60 s at every Li Chun",
}
ASSUMPTIONS = ["term instants are those of the date's own term table (C09); lunar dates as in the reference almanac (C06)"]
lp = None
ALL = set(range(1, 61)) | set(range(1560, 1601)) | set(range(1880, 2111)) | set(range(9960, 10000))


def setup():
    global lp
    lp = load.lunar()
    load.memo_lunar_year(lp)
    load.memo_julian(lp)


def plan(tier):
    n = 40 if tier == "quick" else 15
    return [["bounds", a, b] for a, b in core.chunks(1, 9999, n)] + [["days", a, b] for a, b in core.chunks(1, 9999, n)] + [["odd", 1, 0]]


def secs(s):
    return C.jdn(s.getYear(), s.getMonth(), s.getDay()) * 86400 + s.getHour() * 3600 + s.getMinute() * 60 + s.getSecond()


def fmt(t):
    return "%04d-%02d-%02d %02d:%02d:%02d" % A.secs_ymdhms(t)


def make(t):
    j, r = divmod(t, 86400)
    h, mi, s = r // 3600, r // 60 % 60, r % 60
    return lp.Lunar.fromYmdHms(*(A.lunar_of(j) + (h, mi, s))), gz.Moment(j, h, mi, s)


REPRO = ("l = Solar.fromYmdHms(%d, %d, %d, %d, %d, %d).getLunar()\n"
         "print(l.getYearInGanZhi(), l.getYearInGanZhiByLiChun(), l.getYearInGanZhiExact(), l.getMonthInGanZhi(), l.getMonthInGanZhiExact())")


def brief(ctx, t, l, m):
    got = (l.getYearInGanZhi(), l.getYearInGanZhiByLiChun(), l.getYearInGanZhiExact(), l.getMonthInGanZhi(), l.getMonthInGanZhiExact())
    want = (gz.JZ[m.year], gz.JZ[m.year_lc], gz.JZ[m.year_ex], gz.JZ[m.month], gz.JZ[m.month_ex])
    ctx.transitions += 1
    if got != want:
        ctx.viol("pillars:%s" % fmt(t), "pillars (year, by Li Chun day, by Li Chun instant, month, month by instant) at %s are %r, expected %r" % (fmt(t), got, want),
                 REPRO % A.secs_ymdhms(t))
        return False
    return True


def full(ctx, t, m_over=None):
    ctx.here = fmt(t)
    ctx.states += 1
    l, m = make(t)
    if m_over:
        for k, v in m_over.items():
            setattr(m, k, v)
    if not brief(ctx, t, l, m):
        return
    y, lc, ex, mo, me = m.year, m.year_lc, m.year_ex, m.month, m.month_ex
    got = (l.getYearGanIndex(), l.getYearZhiIndex(), l.getYearGanIndexByLiChun(), l.getYearZhiIndexByLiChun(), l.getYearGanIndexExact(), l.getYearZhiIndexExact(),
           l.getMonthGanIndex(), l.getMonthZhiIndex(), l.getMonthGanIndexExact(), l.getMonthZhiIndexExact())
    want = tuple(v for p in (y, lc, ex, mo, me) for v in (p % 10, p % 12))
    ctx.eq("index:%s" % fmt(t), "stem/branch indices at %s" % fmt(t), got, want, REPRO % A.secs_ymdhms(t))
    got = (l.getYearGan(), l.getYearZhi(), l.getYearGanByLiChun(), l.getYearZhiByLiChun(), l.getYearGanExact(), l.getYearZhiExact(),
           l.getMonthGan(), l.getMonthZhi(), l.getMonthGanExact(), l.getMonthZhiExact())
    ctx.eq("char:%s" % fmt(t), "stems and branches at %s" % fmt(t), "".join(got), "".join(gz.JZ[p] for p in (y, lc, ex, mo, me)), REPRO % A.secs_ymdhms(t))
    got = (l.getYearShengXiao(), l.getYearShengXiaoByLiChun(), l.getYearShengXiaoExact(), l.getMonthShengXiao(), l.getMonthShengXiaoExact())
    ctx.eq("animal:%s" % fmt(t), "animals at %s" % fmt(t), "".join(got), "".join(gz.SX[p % 12] for p in (y, lc, ex, mo, me)))
    got = (l.getYearXun(), l.getYearXunByLiChun(), l.getYearXunExact(), l.getMonthXun(), l.getMonthXunExact(),
           l.getYearXunKong(), l.getYearXunKongByLiChun(), l.getYearXunKongExact(), l.getMonthXunKong(), l.getMonthXunKongExact())
    ctx.eq("xun:%s" % fmt(t), "decades and voids at %s" % fmt(t), got,
           tuple(gz.xun(p) for p in (y, lc, ex, mo, me)) + tuple(gz.kong(p) for p in (y, lc, ex, mo, me)))


def run(ctx, unit):
    if unit[0] == "odd":
        for j in rare.DAYS:
            for sec in (0, 41400, 82799, 82800, 86399):
                t = j * 86400 + sec
                k = gz.last_term(t)
                if t - gz.TS[k] > 1 and gz.TS[k + 1] - t > 1:
                    full(ctx, t)
    for y in range(unit[1], unit[2] + 1):
        if unit[0] == "bounds":
            bounds(ctx, y)
        elif ctx.tier == "thorough" or y % 2 or y in ALL:
            days(ctx, y)
    ctx.outcome(tuple(unit))
    ctx.sample("year %d, Li Chun at %s" % (unit[1], fmt(gz.TS[24 * unit[1] + 4])))


def days(ctx, y):
    for j in range(C.jdn(y, 1, 1), C.jdn(y, 12, 31) + 1):
        t = j * 86400 + j * 7 % 24 * 3600 + j * 11 % 60 * 60 + j % 60
        if ctx.tier == "thorough":
            full(ctx, t)
            continue
        k = gz.last_term(t)
        if t - gz.TS[k] <= 1 or gz.TS[k + 1] - t <= 1:
            continue
        ctx.here = fmt(t)
        ctx.states += 1
        l, m = make(t)
        brief(ctx, t, l, m)


def bounds(ctx, y):
    for i in range(2, 26, 2):
        k = 24 * y + i
        if not C.JDN_MIN < gz.TD[k] < C.JDN_MAX:
            continue
        t0 = gz.TS[k]
        t = secs(make(t0)[0].getJieQiTable()[A.KEYS[k - 24 * C.ymd(gz.TD[k])[0]]])
        if abs(t - t0) > 1 or t // 86400 != t0 // 86400:
            ctx.viol("instant:%d" % k, "%s of year %d is at %s in the date's own table, expected %s" % (A.term_name(k), y, fmt(t), fmt(t0)))
            continue
        old = {"month_ex": gz.month_gz(k - 1), "year_ex": gz.year_gz(gz.year_of_term(k - 1))}
        new = {"month_ex": gz.month_gz(k), "year_ex": gz.year_gz(gz.year_of_term(k))}
        full(ctx, t - 1, old)
        full(ctx, t, new)
        d = t // 86400 * 86400
        if d < t - 1:
            full(ctx, d, old)
        full(ctx, d - 1)
        if i == 4 or ctx.tier == "thorough":
            full(ctx, t + 1, new)
            full(ctx, max(d + 86399, t), new)
            full(ctx, d + 86400)
        if i == 4 and ctx.tier == "thorough":
            for s in range(2, 61):
                full(ctx, t - s, old)
                full(ctx, t + s, new)
    f = A.new_year(y)
    for j in (f - 1, f, f + 1, C.jdn(y, 1, 1), C.jdn(y, 12, 31)):
        if C.JDN_MIN <= j <= C.JDN_MAX:
            for s in (0, 43200, 86399):
                t = j * 86400 + s
                k = gz.last_term(t)
                if t - gz.TS[k] > 1 and gz.TS[k + 1] - t > 1:
                    full(ctx, t)
