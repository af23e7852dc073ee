"""C28: every route to an object gives the same answers to all its queries."""
import copy
import datetime
import pickle

from mc import api, core, load
from mc.model import almanac as A
from mc.model import civil as C
from mc.model import gz
from mc.model import rare

ID = "C28"
TITLE = "Every route to an object gives the same answers"
BOUNDS = {
    "quick": "about 130 routes to 26 kinds of objects (constructors, from... functions with fields, dates, datetimes with and without time zone, Julian days; steps by zero, steps forth and back; views of views; copies, deep copies and pickle round trips of fresh and used objects; list members) on every "
             "60th day of 85 years covering every calendar feature and every 60th month of all years, rotating through seconds around midnight, 23:00, noon and term instants: all queries of the object compared with the first route's",
    "thorough": "every 11th day of the 85 years, every 8th month of all years",
}
ASSUMPTIONS = ["datetime cannot express the Julian leap days of 100, 200, ..., 1500 nor the gap days: there the datetime routes are left out"]
BINDING = "every route is executed on the real code; the first route is the object made from its fields"
lp = None
EC = None


def setup():
    global lp, EC
    lp = load.lunar()
    from lunar_python import eightchar
    EC = eightchar
    load.memo_lunar_year(lp)


TZ = (None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=-11)), datetime.timezone(datetime.timedelta(hours=8)))


def stamp(t):
    """the moment as a datetime, or None"""
    try:
        return datetime.datetime(*t, microsecond=(t[2] * 37 + t[1]) * 1000 % 1000000, tzinfo=TZ[(t[2] + t[1]) % 4])
    except ValueError:
        return None


def routes(t):
    """kind -> [(name, maker)], the first is the reference"""
    y, m, d, h, mi, s = t
    S = lambda: lp.Solar.fromYmdHms(y, m, d, h, mi, s)
    j = C.jdn(y, m, d)
    ly, lm, ld = A.lunar_of(j)
    L = lambda: lp.Lunar.fromYmdHms(ly, lm, ld, h, mi, s)
    ts = stamp(t)
    day = datetime.date(y, m, d) if ts else None
    mid = (h, mi, s) == (0, 0, 0)
    start = d % 7
    lo, hi = j > C.JDN_MIN + 800, j < C.JDN_MAX - 800
    gap = y == 1582
    r = {}
    r["Solar"] = [("fromYmdHms", S), ("Solar", lambda: lp.Solar(y, m, d, h, mi, s)), ("next(0)", lambda: S().next(0)), ("next(1).next(-1)", lambda: S().next(1).next(-1) if hi else None),
                  ("next(-40).next(40)", lambda: S().next(-40).next(40) if lo else None), ("fromJulianDay", lambda: lp.Solar.fromJulianDay(S().getJulianDay())), ("getLunar().getSolar()", lambda: S().getLunar().getSolar()),
                  ("lunar date", lambda: L().getSolar()), ("nextMonth(0)", lambda: S().nextMonth(0)), ("nextYear(0)", lambda: S().nextYear(0)), ("nextHour(0)", lambda: S().nextHour(0)),
                  ("nextHour(25).nextHour(-25)", lambda: S().nextHour(25).nextHour(-25) if hi else None), ("nextHour(-49).nextHour(49)", lambda: S().nextHour(-49).nextHour(49) if lo else None),
                  ("nextDay list", lambda: next(x for x in lp.SolarMonth.fromYm(y, m).getDays() if x.getDay() == d) if mid else None),
                  ("week", lambda: next((x for x in lp.SolarWeek.fromYmd(y, m, d, start).getDays() if x.getDay() == d), None) if mid and lo and hi else None),
                  ("nextMonth(1)", lambda: S().nextMonth(1).nextMonth(-1) if d < 28 and not gap and hi else None), ("nextYear(-4)", lambda: S().nextYear(-4).nextYear(4) if d < 29 and y > 5 and not 1575 < y < 1590 else None),
                  ("next(7, True)", lambda: S().next(0, True))]
    r["Lunar"] = [("getLunar", lambda: S().getLunar()), ("fromYmdHms", L), ("Lunar", lambda: lp.Lunar(ly, lm, ld, h, mi, s)), ("fromSolar", lambda: lp.Lunar.fromSolar(S())), ("next(0)", lambda: L().next(0)),
                  ("next(3).next(-3)", lambda: L().next(3).next(-3) if hi else None), ("next(-31).next(31)", lambda: S().getLunar().next(-31).next(31) if lo else None), ("getFoto", lambda: L().getFoto().getLunar()),
                  ("getTao", lambda: S().getLunar().getTao().getLunar()), ("chart", lambda: S().getLunar().getEightChar().getLunar()), ("luck", lambda: L().getEightChar().getYun(1).getLunar()),
                  ("foto fields", lambda: lp.Foto.fromYmdHms(ly + 544, lm, ld, h, mi, s).getLunar()), ("tao fields", lambda: lp.Tao.fromYmdHms(ly + 2697, lm, ld, h, mi, s).getLunar()),
                  ("fromYmd", lambda: lp.Lunar.fromYmd(ly, lm, ld) if mid else None), ("fromYmd solar", lambda: lp.Solar.fromYmd(y, m, d).getLunar() if mid else None)]
    r["LunarTime"] = [("getTime", lambda: S().getLunar().getTime()), ("fromYmdHms", lambda: lp.LunarTime.fromYmdHms(ly, lm, ld, h, mi, s)), ("LunarTime", lambda: lp.LunarTime(ly, lm, ld, h, mi, s)),
                      ("lunar fields", lambda: L().getTime()), ("getTimes", lambda: L().getTimes()[(h + 1) // 2] if mi == s == 0 and (h % 2 or h == 0) else None)]
    r["LunarMonth"] = [("fromYm", lambda: lp.LunarMonth.fromYm(ly, lm)), ("getMonth", lambda: lp.LunarYear.fromYear(ly).getMonth(lm)),
                       ("getMonthsInYear", lambda: [x for x in lp.LunarYear.fromYear(ly).getMonthsInYear() if x.getMonth() == lm][0]),
                       ("getMonths", lambda: [x for x in lp.LunarYear.fromYear(ly).getMonths() if (x.getYear(), x.getMonth()) == (ly, lm)][0]),
                       ("next(0)", lambda: lp.LunarMonth.fromYm(ly, lm).next(0)), ("next(1).next(-1)", lambda: lp.LunarMonth.fromYm(ly, lm).next(1).next(-1) if hi else None),
                       ("next(-14).next(14)", lambda: lp.LunarMonth.fromYm(ly, lm).next(-14).next(14) if lo else None)]
    r["LunarYear"] = [("fromYear", lambda: lp.LunarYear.fromYear(ly)), ("LunarYear", lambda: lp.LunarYear(ly)), ("next(0)", lambda: lp.LunarYear.fromYear(ly).next(0)), ("next(1).next(-1)", lambda: lp.LunarYear(ly).next(1).next(-1) if hi else None)]
    r["EightChar"] = [("getEightChar", lambda: S().getLunar().getEightChar()), ("fromLunar", lambda: lp.EightChar.fromLunar(L())), ("EightChar", lambda: lp.EightChar(S().getLunar()))]
    r["Foto"] = [("getFoto", lambda: S().getLunar().getFoto()), ("fromYmdHms", lambda: lp.Foto.fromYmdHms(ly + 544, lm, ld, h, mi, s)), ("fromLunar", lambda: lp.Foto.fromLunar(L())), ("Foto", lambda: lp.Foto(L())), ("fromYmd", lambda: lp.Foto.fromYmd(ly + 544, lm, ld) if mid else None)]
    r["Tao"] = [("getTao", lambda: S().getLunar().getTao()), ("fromYmdHms", lambda: lp.Tao.fromYmdHms(ly + 2697, lm, ld, h, mi, s)), ("fromLunar", lambda: lp.Tao.fromLunar(L())), ("Tao", lambda: lp.Tao(L())), ("fromYmd", lambda: lp.Tao.fromYmd(ly + 2697, lm, ld) if mid else None)]

    def star(get):
        return [("date", lambda: get(L())), ("fromIndex", lambda: lp.NineStar.fromIndex(get(L()).getIndex())), ("NineStar", lambda: lp.NineStar(get(S().getLunar()).getIndex()))]
    r["day star"] = star(lambda l: l.getDayNineStar()) + [("default convention", lambda: S().getLunar().getDayNineStar())]
    r["hour star"] = star(lambda l: l.getTimeNineStar())
    r["month star"] = star(lambda l: l.getMonthNineStar(2)) + [("default convention", lambda: L().getMonthNineStar())]
    r["year star"] = star(lambda l: l.getYearNineStar(2)) + [("default convention", lambda: L().getYearNineStar())]

    def term(get):
        return [("date", lambda: get(S().getLunar())), ("fields", lambda: get(L())), ("JieQi", lambda: (lambda q: q and lp.JieQi(q.getName(), q.getSolar()))(get(L())))]
    r["previous term"] = term(lambda l: l.getPrevJieQi()) + [("table", lambda: (lambda l: (lambda q: lp.JieQi(q.getName(), next(v for k, v in l.getJieQiTable().items() if v.toYmdHms() == q.getSolar().toYmdHms())))(l.getPrevJieQi()))(L()))]
    r["next term"] = term(lambda l: l.getNextJieQi())
    r["term of the day"] = term(lambda l: l.getCurrentJieQi()) + [("kinds", lambda: L().getCurrentJie() or L().getCurrentQi())]
    r["Fu"] = [("date", lambda: S().getLunar().getFu()), ("Fu", lambda: (lambda q: q and lp.Fu(q.getName(), q.getIndex()))(L().getFu()))]
    r["ShuJiu"] = [("date", lambda: S().getLunar().getShuJiu()), ("ShuJiu", lambda: (lambda q: q and lp.ShuJiu(q.getName(), q.getIndex()))(L().getShuJiu()))]
    r["SolarWeek"] = [("fromYmd", lambda: lp.SolarWeek.fromYmd(y, m, d, start)), ("SolarWeek", lambda: lp.SolarWeek(y, m, d, start)), ("next(0)", lambda: lp.SolarWeek.fromYmd(y, m, d, start).next(0, False) if lo and hi else None),
                      ("next(2).next(-2)", lambda: lp.SolarWeek.fromYmd(y, m, d, start).next(2, False).next(-2, False) if lo and hi else None)]
    r["SolarMonth"] = [("fromYm", lambda: lp.SolarMonth.fromYm(y, m)), ("SolarMonth", lambda: lp.SolarMonth(y, m)), ("next(0)", lambda: lp.SolarMonth.fromYm(y, m).next(0)), ("next(-3).next(3)", lambda: lp.SolarMonth.fromYm(y, m).next(-3).next(3)),
                       ("year", lambda: lp.SolarYear.fromYear(y).getMonths()[m - 1]), ("season", lambda: lp.SolarSeason.fromYm(y, m).getMonths()[(m - 1) % 3]), ("half", lambda: lp.SolarHalfYear.fromYm(y, m).getMonths()[(m - 1) % 6])]
    r["SolarSeason"] = [("fromYm", lambda: lp.SolarSeason.fromYm(y, m)), ("SolarSeason", lambda: lp.SolarSeason(y, m)), ("next(0)", lambda: lp.SolarSeason.fromYm(y, m).next(0)), ("next(5).next(-5)", lambda: lp.SolarSeason.fromYm(y, m).next(5).next(-5))]
    r["SolarHalfYear"] = [("fromYm", lambda: lp.SolarHalfYear.fromYm(y, m)), ("SolarHalfYear", lambda: lp.SolarHalfYear(y, m)), ("next(0)", lambda: lp.SolarHalfYear.fromYm(y, m).next(0)), ("next(3).next(-3)", lambda: lp.SolarHalfYear.fromYm(y, m).next(3).next(-3))]
    r["SolarYear"] = [("fromYear", lambda: lp.SolarYear.fromYear(y)), ("SolarYear", lambda: lp.SolarYear(y)), ("next(0)", lambda: lp.SolarYear.fromYear(y).next(0)), ("next(9).next(-9)", lambda: lp.SolarYear.fromYear(y).next(9).next(-9))]
    g = (d + m) % 2
    k = 1 + d % 3
    ys = lambda e: e.getYun(g, 1)
    chart = lambda: S().getLunar().getEightChar()
    other = lambda: lp.EightChar.fromLunar(L())
    if hi and lo:
        r["Yun"] = [("getYun", lambda: chart().getYun(g, 1)), ("default convention", lambda: other().getYun(g)), ("Yun", lambda: EC.Yun(chart(), g, 1)), ("Yun default", lambda: EC.Yun(other(), g))]
        r["Yun2"] = [("getYun", lambda: chart().getYun(g, 2)), ("Yun", lambda: EC.Yun(other(), g, 2))]
        r["DaYun"] = [("getDaYun", lambda: ys(chart()).getDaYun()[k]), ("getDaYun(n)", lambda: ys(other()).getDaYun(k + 1)[k]), ("DaYun", lambda: EC.DaYun(ys(chart()), k))]
        r["LiuNian"] = [("getLiuNian", lambda: ys(chart()).getDaYun()[k].getLiuNian()[d % 9]), ("getLiuNian(n)", lambda: ys(other()).getDaYun()[k].getLiuNian(9)[d % 9]), ("LiuNian", lambda: EC.LiuNian(ys(other()).getDaYun()[k], d % 9))]
        r["XiaoYun"] = [("getXiaoYun", lambda: ys(chart()).getDaYun()[k].getXiaoYun()[d % 9]), ("getXiaoYun(n)", lambda: ys(other()).getDaYun()[k].getXiaoYun(9)[d % 9]), ("XiaoYun", lambda: (lambda x: EC.XiaoYun(x, d % 9, ys(chart()).isForward()))(ys(chart()).getDaYun()[k]))]
        r["LiuYue"] = [("getLiuYue", lambda: ys(chart()).getDaYun()[k].getLiuNian()[d % 9].getLiuYue()[m - 1]), ("LiuYue", lambda: EC.LiuYue(ys(other()).getDaYun()[k].getLiuNian()[d % 9], m - 1))]
    if ts:
        r["Solar"].append(("fromDate", lambda: lp.Solar.fromDate(ts)))
        r["Lunar"].append(("fromDate", lambda: lp.Lunar.fromDate(ts)))
        r["SolarWeek"] += [("fromDate", lambda: lp.SolarWeek.fromDate(ts, start)), ("fromDate(date)", lambda: lp.SolarWeek.fromDate(day, start))]
        r["SolarMonth"] += [("fromDate", lambda: lp.SolarMonth.fromDate(ts)), ("fromDate(date)", lambda: lp.SolarMonth.fromDate(day))]
        r["SolarSeason"] += [("fromDate", lambda: lp.SolarSeason.fromDate(ts)), ("fromDate(date)", lambda: lp.SolarSeason.fromDate(day))]
        r["SolarHalfYear"] += [("fromDate", lambda: lp.SolarHalfYear.fromDate(ts)), ("fromDate(date)", lambda: lp.SolarHalfYear.fromDate(day))]
        r["SolarYear"] += [("fromDate", lambda: lp.SolarYear.fromDate(ts)), ("fromDate(date)", lambda: lp.SolarYear.fromDate(day))]
    if mid:
        r["Solar"].append(("fromYmd", lambda: lp.Solar.fromYmd(y, m, d)))
    return r


QUERIES = {}


def answers(o):
    if o is None:
        return None
    c = type(o)
    qs = QUERIES.get(c)
    if qs is None:
        qs = QUERIES[c] = api.queries(c)
    return [api.ask(o, q) for q in qs]


def used(o):
    answers(o)
    return o


# an object copied by the means the language offers is the same object to ask, also when the copied one was used before
COPIES = [("copy", lambda o: copy.copy(o)), ("deepcopy after use", lambda o: copy.deepcopy(used(o))), ("pickled", lambda o: pickle.loads(pickle.dumps(o))),
          ("copy after use", lambda o: copy.copy(used(o))), ("deepcopy", lambda o: copy.deepcopy(o)), ("pickled after use", lambda o: pickle.loads(pickle.dumps(used(o), 2)))]


def check(ctx, t):
    at = "%04d-%02d-%02d %02d:%02d:%02d" % t
    ctx.here = at
    for n, (kind, rs) in enumerate(routes(t).items()):
        how, dup = COPIES[(n + t[1] * 5 + t[2]) % len(COPIES)]
        first = rs[0][1]
        rs = rs + [(how + " of " + rs[0][0], lambda: dup(first()))]
        o = first()
        want = answers(o)
        ctx.states += 1
        if hasattr(o, "toString") and str(o) != o.toString():
            ctx.viol("str:%s:%s" % (kind, at), "%s at %s prints as %s, its text is %s" % (kind, at, core.short(str(o)), core.short(o.toString())))
        for name, mk in rs[1:]:
            p = mk()
            if p is None and o is not None:
                if kind not in ("term of the day", "Fu", "ShuJiu"):
                    continue
            ctx.transitions += 1
            ctx.here = "%s by %s at %s" % (kind, name, at)
            got = answers(p)
            if type(p) is not type(o) or got != want:
                diff = [(q, g, w) for q, g, w in zip(QUERIES.get(type(o), ()), got or (), want or ()) if g != w][:1] if type(p) is type(o) else [(type(p), type(o), "")]
                ctx.viol("route:%s:%s:%s" % (kind, name, at), "%s of %s made by %s answers %s with %s, made by %s with %s" % (
                    kind, at, name, diff[0][0], core.short(diff[0][1]), rs[0][0], core.short(diff[0][2])))
        ctx.outcome((kind, o is None))


MID = [(0, 0, 0), (23, 0, 0), (12, 0, 0), (23, 59, 59), (0, 59, 59), (1, 0, 0), (0, 0, 0), (15, 30, 1), (22, 59, 59), (3, 0, 0), (11, 0, 0), (17, 17, 17)]


def domain(tier):
    js = set()
    step = 60 if tier == "quick" else 11
    for i, y in enumerate(rare.YEARS):
        a, b = C.jdn(y, 1, 1), C.jdn(y, 12, 31)
        js.update(range(a + i % step, b + 1, step))
        js.update((a, b))
    months = [(y, m, n, j) for y in A.YEARS for m, n, j in A.YEARS[y]]
    for k, (y, m, n, j) in enumerate(months[::60 if tier == "quick" else 8]):
        js.add(j + (0, n - 1, 14)[k % 3])
    for y in (1582, 2033, 2262, 3358):
        for m, n, j in A.YEARS[y]:
            js.update((j, j + n - 1))
    js.update(gz.TD[24 * y + i] for y in (1582, 2020, 2021, 2024) for i in range(24))
    js.update((C.JDN_MIN, C.JDN_MAX))
    return [j for j in sorted(js) if C.JDN_MIN <= j <= C.JDN_MAX and 1 <= A.lunar_of(j)[0] <= 9999]


def plan(tier):
    js = domain(tier)
    return [js[i:i + 12] for i in range(0, len(js), 12)]


def run(ctx, unit):
    for j in unit:
        k = gz.last_term_by_day(j)
        if gz.TD[k] == j:
            t = gz.TS[k]
            for d in (-1, 1):       # the second of the term itself depends on rounding and is left to C10
                check(ctx, A.secs_ymdhms(t + d * 2))
        else:
            check(ctx, C.ymd(j) + MID[(j // 3 + j) % 12])
    ctx.sample("%04d-%02d-%02d: %d routes" % (C.ymd(unit[0]) + (sum(len(x) for x in routes(C.ymd(unit[0]) + (0, 0, 0)).values()),)))
