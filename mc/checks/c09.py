"""C09: solar-term instants."""
import math

from mc import core, load
from mc.model import almanac as A
from mc.model import astro
from mc.model import civil as C
from mc.model import gz

ID = "C09"
TITLE = "Solar terms come in order at the right instants, the same from every year"
BOUNDS = {
    "quick": "all 31 terms of every lunar-year table 1..9999 against the reference instants (half a second) and an independent solar theory; the term "
             "table carried by dates at both ends of every civil and lunar year",
    "thorough": "as quick, and the table carried by the first and last day of every lunar month",
}
ASSUMPTIONS = ["reference instants captured from the pinned tree (data/terms.bin)",
               "independent theory: Meeus ch. 25 sun + Espenak Delta T, within 0.015 deg until 3000, widening to 0.45 deg in 9999 (Delta T extrapolation)"]
lp = None
BIND = None


def setup():
    global lp
    lp = load.lunar()
    load.memo_lunar_year(lp)


def plan(tier):
    return [["years", a, b] for a, b in core.chunks(1, 9999, 100)]


def sun_tol(y):
    return 0.015 if y < 3000 else 0.015 + ((y - 3000) / 7000.0) ** 2 * 0.43


def run(ctx, unit):
    for y in range(unit[1], unit[2] + 1):
        ctx.here = "year %d" % y
        jds = lp.LunarYear.fromYear(y).getJieQiJulianDays()
        ctx.st()
        if not ctx.eq("len:%d" % y, "number of terms in the table of %d" % y, len(jds), 31):
            continue
        for i, jd in enumerate(jds):
            k = 24 * y + i
            ctx.tr()
            if abs(jd - A.term_jd(k)) > 6e-6:
                ctx.viol("term:%d:%d" % (y, i), "%s (entry %d) of year %d is at JD %.6f, expected %.6f (%.1f s off)" % (
                    A.term_name(k), i, y, jd, A.term_jd(k), (jd - A.term_jd(k)) * 86400), "print(LunarYear.fromYear(%d).getJieQiJulianDays()[%d])" % (y, i))
            if i and not 14.3 < jd - jds[i - 1] < 16.2:
                ctx.viol("gap:%d:%d" % (y, i), "term %d of year %d comes %.3f days after the previous one" % (i, y, jd - jds[i - 1]))
            e = (astro.sun_longitude(jd - 8 / 24.0 + astro.delta_t(y) / 86400) - (255 + 15 * (k % 24)) + 180) % 360 - 180
            if abs(e) > sun_tol(y):
                ctx.viol("sun:%d:%d" % (y, i), "the sun is %.4f degrees from where %s of year %d should be" % (e, A.term_name(k), y))
        ctx.outcome(tuple(C.ymd(int(x + 0.5))[1:] for x in jds[:25]))
        f0, fy = C.jdn(y, 1, 1), A.new_year(y)
        js = [f0, C.jdn(y, 12, 31), fy, fy - 1, fy + 100]
        if ctx.tier == "thorough":
            for m, n, f in A.YEARS[y]:
                js += [f, f + n - 1]
        for j in js:
            if C.JDN_MIN <= j <= C.JDN_MAX:
                table(ctx, j)
    ctx.sample("year %d: %s at JD %.5f" % (unit[1], A.term_name(24 * unit[1] + 4), A.term_jd(24 * unit[1] + 4)))


def table(ctx, j):
    c = C.ymd(j)
    ctx.here = "term table of %04d-%02d-%02d" % c
    l = lp.Lunar.fromYmd(*A.lunar_of(j))
    t = l.getJieQiTable()
    ctx.st()
    ctx.eq("keys:%d-%d-%d" % c, ctx.here, (list(t.keys()), list(l.getJieQiList())), (list(A.KEYS), list(A.KEYS)))
    for i, key in enumerate(A.KEYS):
        s = t.get(key)
        if s is None:
            continue
        k = 24 * c[0] + i
        got = C.jdn(s.getYear(), s.getMonth(), s.getDay()) * 86400 + s.getHour() * 3600 + s.getMinute() * 60 + s.getSecond()
        ctx.tr()
        if abs(got - gz.TS[k]) > 1:
            ctx.viol("table:%d-%d-%d:%s" % (c + (key,)), "%s in the term table of %04d-%02d-%02d is %s, expected %s" % (
                (key,) + c + (s.toYmdHms(), A.secs_ymdhms(gz.TS[k]))),
                "print(Solar.fromYmd(%d, %d, %d).getLunar().getJieQiTable()['%s'].toYmdHms())" % (c + (key,)))
