"""C30: the different views of one moment agree with each other."""
from mc import api, core, load
from mc.model import almanac as A
from mc.model import civil as C
from mc.model import gz
from mc.model import rare
from mc.model import tables as T

ID = "C30"
TITLE = "The views of one moment agree with each other"
BOUNDS = {
    "quick": "every day of 85 years covering every calendar feature and every 5th lunar month's first, last and middle day of all years, at rotating times (every double-hour boundary, both "
             "midnights, the seconds around each term met): about 170 relations between the queries of the date, its hour, its chart under both day conventions, its lunar year, month and civil day",
    "thorough": "every day of the 85 years, every lunar month of all years, every boundary of every double hour of every 30th day",
}
ASSUMPTIONS = ["which pillar is right is left to C09-C13; here only the agreement of the views, and of the derived names with their pillar, is decided"]
BINDING = "both sides of every relation are answers of the real code, names derived by the tables of mc/model"
lp = None
DIR = {"坎": "正北", "艮": "东北", "震": "正东", "巽": "东南", "离": "正南", "坤": "西南", "兑": "正西", "乾": "西北", "中": "中宫"}
POS = ("Xi", "YangGui", "YinGui", "Fu", "Cai")


def setup():
    global lp
    lp = load.lunar()
    load.memo_lunar_year(lp)


def pillars(l):
    """name -> (pillar, stem, branch, stem index, branch index, animal, decade, void, melody), None where there is no such query"""
    r = {}
    for w, sufs in (("Year", ("", "ByLiChun", "Exact")), ("Month", ("", "Exact")), ("Day", ("", "Exact", "Exact2")), ("Time", ("",))):
        for s in sufs:
            g = lambda n, w=w, s=s: getattr(l, "get" + w + n + s, lambda: None)()
            r[w + s] = (g("InGanZhi"), g("Gan"), g("Zhi"), g("GanIndex"), g("ZhiIndex"), g("ShengXiao"), g("Xun"), g("XunKong"), g("NaYin"))
    return r


def own(p):
    """what a pillar says about itself"""
    i = gz.JZ.index(p)
    return (p, p[0], p[1], i % 10, i % 12, gz.SX[i % 12], gz.xun(i), gz.kong(i), T.nayin(i))


def relations(l, t):
    """yields (what, one view, the other view)"""
    y, m, d, h, mi, s = t
    ps = pillars(l)
    for k, v in ps.items():
        o = own(v[0])
        yield "names of the %s pillar" % k, v, tuple(None if a is None else b for a, b in zip(v, o))
    # aliases
    for n in POS:
        for e in ("", "Desc"):
            yield "day position %s" % (n + e), getattr(l, "getPosition" + n + e)(), getattr(l, "getDayPosition" + n + e)()
    for n in ("", "Desc", "Gan", "GanTie", "ShengXiao"):
        yield "day clash %s" % n, getattr(l, "getChong" + n)(), getattr(l, "getDayChong" + n)()
    yield "day ill direction", l.getSha(), l.getDaySha()
    yield "current term", (l.getJie(), l.getQi()), ((l.getCurrentJie() and l.getCurrentJie().getName()) or "", (l.getCurrentQi() and l.getCurrentQi().getName()) or "")
    yield "term of the day", l.getJieQi(), l.getJie() + l.getQi()
    # directions and their names
    lt = l.getTime()
    ly = lp.LunarYear.fromYear(l.getYear())
    lm = lp.LunarMonth.fromYm(l.getYear(), l.getMonth())
    for kind, o, pre in (("day", l, "getDayPosition"), ("hour", l, "getTimePosition"), ("hour object", lt, "getPosition"), ("year", ly, "getPosition"), ("month", lm, "getPosition")):
        for n in POS:
            yield "%s direction %s" % (kind, n), getattr(o, pre + n + "Desc")(), DIR.get(getattr(o, pre + n)())
        for c in (1, 2):
            yield "%s direction Fu %d" % (kind, c), getattr(o, pre + "FuDesc")(c), DIR.get(getattr(o, pre + "Fu")(c))
        yield "%s direction Fu by default" % kind, (getattr(o, pre + "Fu")(), getattr(o, pre + "FuDesc")()), (getattr(o, pre + "Fu")(2), getattr(o, pre + "FuDesc")(2))
    for w, cs, dflt in (("Day", (1, 2, 3), 2), ("Month", (2, 3), 2), ("Year", (1, 2, 3), 2)):
        a, b = getattr(l, "get%sPositionTaiSui" % w), getattr(l, "get%sPositionTaiSuiDesc" % w)
        for c in cs:
            yield "%s direction TaiSui %d" % (w, c), b(c), DIR.get(a(c))
        yield "%s direction TaiSui by default" % w, (a(), b()), (a(dflt), b(dflt))
    yield "year direction TaiSui", ly.getPositionTaiSuiDesc(), DIR.get(ly.getPositionTaiSui())
    yield "month direction TaiSui", lm.getPositionTaiSuiDesc(), DIR.get(lm.getPositionTaiSui())
    # defaults
    for w in ("Year", "Month"):
        g = getattr(l, "get%sNineStar" % w)
        yield "%s star by default" % w, g().getIndex(), g(2).getIndex()
    yield "day activities by default", (l.getDayYi(), l.getDayJi()), (l.getDayYi(1), l.getDayJi(1))
    for n in ("Jie", "Qi", "JieQi"):
        for dr in ("Prev", "Next"):
            g = getattr(l, "get" + dr + n)
            a, b = g(), g(False)
            yield "%s %s by default" % (dr, n), (a.getName(), a.getSolar().toYmdHms()), (b.getName(), b.getSolar().toYmdHms())
    for dr, pick in (("Prev", max), ("Next", min)):
        for whole in (False, True):
            a, b, c = (getattr(l, "get" + dr + n)(whole) for n in ("JieQi", "Jie", "Qi"))
            e = pick((b, c), key=lambda q: q.getSolar().toYmdHms().rjust(20, "0"))
            yield "%s term %s" % (dr, whole), (a.getName(), a.getSolar().toYmdHms()), (e.getName(), e.getSolar().toYmdHms())
    # the hour
    for n in ("Gan", "Zhi", "GanIndex", "ZhiIndex", "NaYin", "Xun", "XunKong", "ShengXiao", "Yi", "Ji", "TianShen", "TianShenLuck", "TianShenType", "Chong", "ChongDesc", "ChongGan", "ChongGanTie",
              "ChongShengXiao", "Sha", "PositionXi", "PositionXiDesc", "PositionYangGui", "PositionYangGuiDesc", "PositionYinGui", "PositionYinGuiDesc", "PositionFu", "PositionFuDesc", "PositionCai", "PositionCaiDesc"):
        a = getattr(lt, "get" + n)
        b = getattr(l, "getTime" + n)
        yield "hour %s" % n, a(), b()
        if n.startswith("PositionFu"):
            yield "hour %s 1" % n, a(1), b(1)
    yield "hour pillar", (lt.getGanZhi(), lt.toString()), (l.getTimeInGanZhi(), l.getTimeInGanZhi())
    yield "hour star", lt.getNineStar().getIndex(), l.getTimeNineStar().getIndex()
    x = (h + 1) // 2 * 2 - 1
    yield "bounds of the hour", (lt.getMinHm(), lt.getMaxHm()), ("00:00" if h == 0 else "%02d:00" % x, "%02d:59" % (h if h in (0, 23) else x + 1))
    ts = l.getTimes()
    mine = ts[(h + 1) // 2]
    yield "hours of the day", (len(ts), mine.getGanZhi(), mine.getMinHm(), mine.getMaxHm()), (13, lt.getGanZhi(), lt.getMinHm(), lt.getMaxHm())
    # the chart
    for sect in (1, 2):
        ec = l.getEightChar()
        if sect == 1:
            yield "day convention by default", (ec.getSect(), ec.getDay()), (2, ps["DayExact2"][0])
        ec.setSect(sect)
        fours = [ps["YearExact"][0], ps["MonthExact"][0], ps["DayExact" if sect == 1 else "DayExact2"][0], ps["Time"][0]]
        yield "chart %d" % sect, ([ec.getYear(), ec.getMonth(), ec.getDay(), ec.getTime()], ec.toString()), (fours, " ".join(fours))
        for w, p in zip(("Year", "Month", "Day", "Time"), fours):
            o = own(p)
            e = [getattr(ec, "get" + w + n)() for n in ("Gan", "Zhi", "NaYin", "Xun", "XunKong", "WuXing")]
            yield "names of the %s pillar of chart %d" % (w, sect), e, [o[1], o[2], o[8], o[6], o[7], T.elements(gz.JZ.index(p))]
        o = own(fours[2])
        yield "day indices of chart %d" % sect, (ec.getDayGanIndex(), ec.getDayZhiIndex()), (o[3], o[4])
        for n in ("MingGong", "ShenGong", "TaiYuan", "TaiXi"):
            p = getattr(ec, "get" + n)()
            yield "melody of %s" % n, getattr(ec, "get%sNaYin" % n)(), T.nayin(gz.JZ.index(p))
        a, b = ec.getYun(1), ec.getYun(1, 1)
        yield "start of luck by default", (a.getStartYear(), a.getStartMonth(), a.getStartDay(), a.getStartHour()), (b.getStartYear(), b.getStartMonth(), b.getStartDay(), b.getStartHour())
    ec = l.getEightChar()
    W = ("Year", "Month", "Day", "Time")
    col = lambda n: [getattr(ec, "get" + w + n)() for w in W]
    yield "chart of the date", l.getBaZi(), [ec.getYear(), ec.getMonth(), ec.getDay(), ec.getTime()]
    yield "elements of the date", l.getBaZiWuXing(), col("WuXing")
    yield "melodies of the date", l.getBaZiNaYin(), col("NaYin")
    yield "ten gods of the stems", l.getBaZiShiShenGan(), col("ShiShenGan")
    z = col("ShiShenZhi")
    yield "ten gods of the branches", [l.getBaZiShiShenYearZhi(), l.getBaZiShiShenMonthZhi(), l.getBaZiShiShenDayZhi(), l.getBaZiShiShenTimeZhi()], z
    yield "main ten gods of the branches", l.getBaZiShiShenZhi(), [a[0] for a in z]
    yield "hidden stems and their ten gods", [len(a) for a in z], [len(a) for a in col("HideGan")]
    yield "ten god of the main hidden stem", [a[0] for a in z], [T.ten_god(gz.GAN.index(ec.getDayGan()), gz.GAN.index(a[0])) for a in col("HideGan")]
    # the year and the month of the date
    yield "lunar year", (ly.getYear(), ly.getGanZhi(), ly.getGan(), ly.getZhi(), ly.getGanIndex(), ly.getZhiIndex()), (l.getYear(),) + (ps["Year"][0],) + ps["Year"][1:5]
    yield "lunar year star", ly.getNineStar().getIndex(), l.getYearNineStar(1).getIndex()
    yield "lunar year in the year list", [(a.getYear(), a.getMonth(), a.getDayCount()) for a in ly.getMonthsInYear() if a.getMonth() == l.getMonth()], [(l.getYear(), l.getMonth(), lm.getDayCount())]
    yield "leap month", (lm.isLeap(), l.getMonthInChinese()[:1] == "闰"), (l.getMonth() < 0, l.getMonth() < 0)
    yield "leap month of the year", ly.getLeapMonth() if lm.isLeap() else 0, -l.getMonth() if lm.isLeap() else 0
    o = own(lm.getGanZhi())
    yield "names of the lunar month pillar", (lm.getGan(), lm.getZhi(), lm.getGanIndex(), lm.getZhiIndex()), o[1:5]
    # the civil day
    so = l.getSolar()
    yield "day of the week", (l.getWeek(), l.getWeekInChinese()), (so.getWeek(), so.getWeekInChinese())
    yield "time of day", (l.getHour(), l.getMinute(), l.getSecond()), (so.getHour(), so.getMinute(), so.getSecond())
    yield "date of the civil day", so.getLunar().toString(), l.toString()
    yield "text", l.toString(), l.getYearInChinese() + "年" + l.getMonthInChinese() + "月" + l.getDayInChinese()
    # Buddhist and Taoist dates
    for n, o, k in (("Buddhist", l.getFoto(), 544), ("Taoist", l.getTao(), 2697)):
        yield n + " date", (o.getYear(), o.getMonth(), o.getDay(), o.getMonthInChinese(), o.getDayInChinese()), (l.getYear() + k, l.getMonth(), l.getDay(), l.getMonthInChinese(), l.getDayInChinese())
    yield "the long text", l.toFullString(), long(l)


def long(l):
    r = [l.toString(), "%s(%s)年" % (l.getYearInGanZhi(), l.getYearShengXiao()), "%s(%s)月" % (l.getMonthInGanZhi(), l.getMonthShengXiao()), "%s(%s)日" % (l.getDayInGanZhi(), l.getDayShengXiao()),
         "%s(%s)时" % (l.getTimeZhi(), l.getTimeShengXiao()), "纳音[%s %s %s %s]" % (l.getYearNaYin(), l.getMonthNaYin(), l.getDayNaYin(), l.getTimeNaYin()), "星期" + gz.WEEK[l.getSolar().getWeek()]]
    r += ["(%s)" % f for f in l.getFestivals() + l.getOtherFestivals()]
    if l.getJieQi():
        r.append("[%s]" % l.getJieQi())
    r += [l.getGong() + "方" + l.getShou(), "星宿[%s%s%s](%s)" % (l.getXiu(), l.getZheng(), l.getAnimal(), l.getXiuLuck()), "彭祖百忌[%s %s]" % (l.getPengZuGan(), l.getPengZuZhi())]
    for n, k in zip(("喜神", "阳贵神", "阴贵神", "福神", "财神"), POS):
        r.append("%s方位[%s](%s)" % (n, getattr(l, "getDayPosition" + k)(), getattr(l, "getDayPosition" + k + "Desc")()))
    r += ["冲[%s]" % l.getDayChongDesc(), "煞[%s]" % l.getDaySha()]
    return " ".join(r)


def check(ctx, t):
    at = "%04d-%02d-%02d %02d:%02d:%02d" % t
    ctx.here = at
    ctx.states += 1
    l = lp.Solar.fromYmdHms(*t).getLunar()
    for what, a, b in relations(l, t):
        ctx.transitions += 1
        if isinstance(a, list) and isinstance(b, tuple):
            a = tuple(a)
        if a != b:
            ctx.viol("view:%s:%s" % (what, at), "%s at %s: %s by one view, %s by the other" % (what, at, core.short(a), core.short(b)))


def domain(tier):
    js = {}
    step = 1
    for i, y in enumerate(rare.YEARS):
        a, b = C.jdn(y, 1, 1), C.jdn(y, 12, 31)
        st = 1 if y in (1, 239, 1582, 1990, 2023, 2033, 3358, 9999) else step
        for j in range(a + i % st, b + 1, st):
            js[j] = 1
        js[a] = js[b] = 1
    months = [(y, m, n, j) for y in A.YEARS for m, n, j in A.YEARS[y]]
    for k, (y, m, n, j) in enumerate(months[::5 if tier == "quick" else 1]):
        js[j + (0, n - 1, 14)[k % 3]] = 1
    for j in rare.DAYS:
        js[j] = 1
    return [j for j in sorted(js) if C.JDN_MIN <= j <= C.JDN_MAX and 1 <= A.lunar_of(j)[0] <= 9999]


def plan(tier):
    js = domain(tier)
    return [js[i:i + 60] for i in range(0, len(js), 60)]


TIMES = [(0, 0, 0), (23, 0, 0), (22, 59, 59), (23, 59, 59), (0, 59, 59)] + [(h, (0, 59, 30)[h % 3], (0, 59, 7)[h % 3]) for h in range(1, 23)]


def run(ctx, unit):
    n0 = ctx.transitions
    for j in unit:
        k = gz.last_term_by_day(j)
        if gz.TD[k] == j:
            for e in (-2, 0, 2):
                check(ctx, A.secs_ymdhms(gz.TS[k] + e))
        check(ctx, C.ymd(j) + TIMES[(j * 5 + j // 27) % len(TIMES)])
        if ctx.tier == "thorough" and j % 30 == 0:
            for h in range(24):
                for ms in ((0, 0), (59, 59)):
                    check(ctx, C.ymd(j) + (h,) + ms)
    ctx.outcome(unit[0])
    ctx.sample("%04d-%02d-%02d: %d relations" % (C.ymd(unit[0]) + ((ctx.transitions - n0) // max(1, len(unit)),)))
