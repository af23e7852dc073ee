"""C22: answers do not depend on the history of calls, rejections, interruptions or changes to returned containers."""
import itertools
import sys
import time

from mc import api, core, load, sched

ID = "C22"
KEEP_ORDER = True
TITLE = "Answers do not depend on what was asked before, even after failures"
BOUNDS = {
    "quick": "breadth-first closure of the library's internal state under 73 calls (64 accepted, 9 rejected), every call's answer checked in every reachable state (up to 400 states); all pairs of 32 and triples of "
             "10 calls as fresh histories; every answer holding a list or map of 27 kinds of objects x 2 dates and of 85 calls overwritten by the caller, then all answers of that object, of a fresh one and of "
             "14 calls asked again; an exception injected into 8 calls and 13 objects' queries at every distinct call site, function entry and return (first and last occurrence), the objects' limited to the first 12 new sites of each query, then the calls asked again; "
             "all queries of 13 kinds of objects at 24 moments agreeing in all but one coordinate (14 families), forwards and backwards in one history; histories over 600 consecutive years from 3 starts, revisited, and over all years 1-9999; the list of names given to a correction changed afterwards in 4 ways",
    "thorough": "closure under 85 calls up to 3 000 states, all pairs of 85, triples of 32, quadruples of 10, overwriting on 12 dates, injection into 14 calls at every dynamic occurrence (to 4 000 per call), 120 neighbouring moments a family, histories over 3 000 years from 4 starts",
}
ASSUMPTIONS = ["internal state is what module globals, class attributes, closures, default arguments and caches of the package hold",
               "injected errors appear where a call is made, entered or left (not while a lock is being released)"]
BINDING = "every history is executed on the real code; the oracle is the same call made first in a fresh process state"
UNIT_LIMITS = {"quick": (400, 700), "thorough": (1800, 5400)}
lp = None
HU = None
LU = None
fresh = None
BASE = {}


class Injected(Exception):
    pass


def lists(v):
    return [x.toString() for x in v]


def ops():
    """name -> call"""
    S, L, LY, LM, LT = lp.Solar, lp.Lunar, lp.LunarYear, lp.LunarMonth, lp.LunarTime
    o = {}

    def add(name, f):
        o[name] = f

    for y in (2020, 2023, 2024, 2033, 1984, 1500, 619, 23, 9999, 1):
        add("year %d" % y, lambda y=y: LY.fromYear(y))
    for y in (2020, 2023, 1500):
        add("year list %d" % y, lambda y=y: (LY.fromYear(y).getMonthsInYear(), LY.fromYear(y).getDayCount(), LY.fromYear(y).getLeapMonth(), LY.fromYear(y).getNineStar()))
    for d in ((2020, 5, 24), (2020, 1, 24), (2020, 1, 25), (2024, 2, 9), (2024, 2, 10), (2033, 12, 22), (2034, 1, 20), (1582, 10, 4), (1582, 10, 15), (1, 1, 1), (9999, 12, 31), (700, 1, 5), (237, 4, 12)):
        add("convert %d-%d-%d" % d, lambda d=d: S.fromYmd(*d).getLunar())
    for d in ((2020, -4, 2), (2020, 4, 2), (2023, -2, 1), (2033, -11, 29), (1500, 1, 1), (2019, 12, 30)):
        add("lunar %d/%d/%d" % d, lambda d=d: L.fromYmd(*d))
    add("moment", lambda: L.fromYmdHms(2020, -4, 2, 23, 59, 59).getEightChar())
    add("slot", lambda: LT.fromYmdHms(2023, 12, 30, 23, 0, 0))
    for a in ((2020, -4, 9), (2023, 12, -13), (2020, 4, 1), (1500, 1, -1)):
        add("step month %d/%d%+d" % a, lambda a=a: LM.fromYm(a[0], a[1]).next(a[2]))
    add("step day", lambda: L.fromYmd(2023, 12, 30).next(400))
    add("step hour", lambda: S.fromYmdHms(2020, 2, 28, 23, 59, 59).nextHour(26))
    add("step work", lambda: S.fromYmd(2020, 1, 20).next(9, True))
    add("terms 2020", lambda: S.fromYmd(2020, 6, 1).getLunar().getJieQiTable())
    add("terms 2021", lambda: S.fromYmd(2021, 1, 1).getLunar().getJieQiTable())
    add("next term", lambda: S.fromYmd(2020, 12, 30).getLunar().getNextJieQi())
    add("prev jie", lambda: S.fromYmdHms(2021, 1, 3, 5, 0, 0).getLunar().getPrevJie(True))
    for d in ((2020, 5, 24, 23, 30, 0), (1988, 2, 15, 22, 30, 0)):
        add("chart %d" % d[0], lambda d=d: S.fromYmdHms(*d).getLunar().getEightChar())
        add("hidden %d" % d[0], lambda d=d: [getattr(S.fromYmdHms(*d).getLunar().getEightChar(), "get%s%s" % (p, k))() for p in ("Year", "Month", "Day", "Time") for k in ("HideGan", "ShiShenZhi", "DiShi", "Xun")])
        add("luck %d" % d[0], lambda d=d: [(x, x.getLiuNian(2), x.getXiaoYun(2)) for x in S.fromYmdHms(*d).getLunar().getEightChar().getYun(1).getDaYun(3)])
    add("sect", lambda: chart_sect(1))
    add("sect back", lambda: chart_sect(2))
    add("full 2020", lambda: L.fromYmdHms(2020, 4, 8, 1, 2, 3).toFullString())
    add("full 2024", lambda: S.fromYmdHms(2024, 12, 31, 23, 2, 3).getLunar().toFullString())
    add("solar full", lambda: S.fromYmd(2024, 5, 12).toFullString())
    add("foto", lambda: (L.fromYmd(2021, 10, 14).getFoto().toFullString(), L.fromYmd(2021, 2, 8).getFoto().getFestivals()))
    add("foto 2", lambda: L.fromYmd(2021, 2, 8).getFoto().getOtherFestivals())
    add("tao", lambda: (L.fromYmd(2021, 10, 14).getTao().toFullString(), L.fromYmd(2021, 1, 15).getTao().getFestivals()))
    add("festivals", lambda: [(x.getFestivals(), x.getOtherFestivals(), x.getSolar().getFestivals(), x.getSolar().getOtherFestivals()) for x in (L.fromYmd(2020, 5, 5), L.fromYmd(2023, 12, 30), S.fromYmd(2024, 4, 3).getLunar())])
    add("advice", lambda: [(x.getDayYi(), x.getDayJi(), x.getDayJiShen(), x.getDayXiongSha(), x.getTimeYi(), x.getTimeJi()) for x in (L.fromYmdHms(2020, 5, 5, 13, 0, 0), L.fromYmd(2023, 12, 30))])
    add("slots", lambda: [(t.getGanZhi(), t.getYi(), t.getMinHm(), t.getNineStar()) for t in L.fromYmd(2020, 5, 5).getTimes()])
    add("stars", lambda: [(x.getYearNineStar(), x.getMonthNineStar(), x.getDayNineStar(), x.getTimeNineStar()) for x in (S.fromYmd(2020, 6, 25).getLunar(), S.fromYmd(2009, 1, 1).getLunar(), S.fromYmd(2020, 12, 25).getLunar())])
    add("seasons", lambda: [(x.getShuJiu(), x.getFu(), x.getWuHou(), x.getHou()) for x in (S.fromYmd(2020, 12, 25).getLunar(), S.fromYmd(2020, 7, 25).getLunar(), S.fromYmd(2021, 1, 2).getLunar())])
    add("reverse", lambda: S.fromBaZi("庚子", "戊子", "己卯", "庚午"))
    add("reverse old", lambda: S.fromBaZi("癸卯", "甲寅", "癸丑", "甲子", 2, 1843))
    add("weeks", lambda: (lp.SolarMonth.fromYm(2020, 5).getWeeks(1), lp.SolarWeek.fromYmd(2021, 5, 2, 0).getDays(), lp.SolarWeek.fromYmd(1582, 10, 1, 0).getDaysInMonth()))
    add("units", lambda: (lp.SolarYear.fromYear(2020).getMonths(), lp.SolarSeason.fromYm(2020, 5).getMonths(), lp.SolarHalfYear.fromYm(2020, 5).next(-3), lp.SolarMonth.fromYm(1582, 10).getDays()))
    add("julian", lambda: (S.fromJulianDay(2459000.123), S.fromYmdHms(2020, 5, 5, 1, 2, 3).getJulianDay()))
    add("holiday day", lambda: HU.getHoliday(2020, 1, 1))
    add("holiday month", lambda: HU.getHolidays(2020, 5))
    add("holiday text", lambda: HU.getHolidays("2019-10"))
    add("holiday target", lambda: HU.getHolidaysByTarget("2020-05-01"))
    add("holiday none", lambda: HU.getHoliday("1999-01-01"))
    add("pillar index", lambda: (LU.getJiaZiIndex("癸亥"), LU.getXun("癸亥"), LU.getXunKong("甲子"), LU.getTimeZhiIndex("23:30"), LU.convertTime("23:30")))
    add("advice table", lambda: (LU.getDayYi("甲子", "乙丑"), LU.getDayJi("甲子", "乙丑"), LU.getTimeYi("甲子", "乙丑"), LU.getTimeJi("癸亥", "乙丑"), LU.getDayJiShen(5, "甲子"), LU.getDayXiongSha(-5, "甲子")))
    # rejected calls
    add("bad lunar day", lambda: L.fromYmd(2023, 2, 31))
    add("bad lunar month", lambda: L.fromYmd(2023, -3, 1))
    add("bad year", lambda: LY.fromYear("2023"))
    add("no year", lambda: LY.fromYear("x"))
    add("bad solar", lambda: S.fromYmd(2023, 2, 30) if False else S.fromYmdHms(2023, 2, 1, 24, 0, 0))
    add("gap", lambda: S.fromYmd(1582, 10, 10))
    add("bad fix", lambda: HU.fix(["改"], 5))
    add("bad holiday", lambda: HU.getHoliday(b"x", "y"))
    add("bad reverse", lambda: S.fromBaZi(None, "戊子", "己卯", "庚午"))
    return o


def chart_sect(k):
    e = lp.Solar.fromYmdHms(2020, 5, 24, 23, 30, 0).getLunar().getEightChar()
    e.setSect(k)
    return e.getDay(), e.getTime(), e.getDayHideGan(), e.getTaiXi()


CORE = ["year 2020", "year 2023", "year 1500", "convert 2020-1-24", "convert 2024-2-9", "lunar 2020/-4/2", "lunar 2033/-11/29", "step month 2020/-4+9", "terms 2021", "next term",
        "stars", "foto", "tao", "holiday month", "step work", "bad lunar day", "no year", "bad fix", "hidden 2020", "seasons",
        "year list 2020", "convert 1582-10-15", "convert 9999-12-31", "luck 1988", "advice", "festivals", "reverse", "slots", "weeks", "bad year", "gap", "year 9999"]
INJECT = ["year 2020", "year 1500", "convert 2024-2-9", "lunar 2020/-4/2", "step month 2023/12-13", "foto", "tao", "holiday target", "terms 2021", "stars", "luck 1988", "festivals", "slots", "full 2020"]
HEAVY = {"stars", "luck 1988", "luck 2020", "festivals", "full 2020", "full 2024", "seasons", "hidden 1988", "reverse", "terms 2020", "reverse old", "chart 1988"}
FIX = "fix"
SPECS = [(2020, 5, 24, 23, 30, 0), (2024, 2, 9, 1, 2, 3), (2024, 7, 25, 12, 0, 0), (1582, 10, 15, 0, 0, 0),
         (2033, 12, 22, 5, 0, 0), (2021, 2, 19, 12, 0, 0), (1988, 2, 15, 22, 30, 0), (1, 1, 1, 0, 0, 0), (9999, 12, 31, 23, 59, 59), (2020, 1, 1, 13, 0, 0), (2019, 2, 4, 11, 14, 13), (619, 6, 6, 6, 6, 6)]
MAIN = ["Lunar", "EightChar", "LunarYear", "LunarMonth", "Foto", "Tao", "LunarTime", "Solar", "Yun", "DaYun", "LiuNian", "SolarMonth", "SolarWeek"]


def call(f):
    try:
        return "ok", api.canon(f())
    except Exception as e:
        return "error", type(e).__name__


def setup():
    global lp, HU, LU, fresh
    lp = sched.import_package(load)
    from lunar_python.util import HolidayUtil, LunarUtil
    HU, LU = HolidayUtil, LunarUtil
    fresh = load.Snapshot()
    for k, f in ops().items():
        fresh.restore()
        BASE[k] = call(f)
    fresh.restore()


def plan(tier):
    names = list(ops())
    q = tier == "quick"
    u = [["closure", 400 if q else 3000, q]]
    u += [["whole"], ["given"]]
    u += [["neighbours", g, 24 if q else 120] for g in NEIGH]
    u += [["long", y, 600 if q else 3000] for y in ((1, 1700, 9200) if q else (1, 1500, 4000, 6999))]
    occ = 0 if q else 4000
    u += [["inject object", k, p, 8, occ] for k in MAIN for p in range(8)]
    for a in (INJECT[:8] if q else INJECT) + [FIX]:
        u += [["inject", a, p, 4, occ] for p in range(4)]
    for i in range(2 if q else len(SPECS)):
        u += [["change", i, k] for k in kinds()]
    u += [["pairs", a, q] for a in (CORE if q else names)]
    n = 10 if q else len(CORE)
    u += [["triples", a, n] for a in range(n)]
    if not q:
        u += [["quads", a, b] for a in range(10) for b in range(10)]
    u += [["change ops", a] for a in names]
    return u


def kinds():
    return [k for k in objects(SPECS[0])]


def objects(spec):
    o = api.objects(lp, spec)
    y = str(min(max(spec[0], 2003), 2025))
    o["Holiday"] = lambda: HU.getHolidays(y)[1]
    return o


NEIGH = ["same lunar day", "leap months", "same day pillar", "same civil day", "one day", "consecutive days", "60 years", "400 years", "1000 years", "month firsts", "mid months", "terms", "new years", "century"]


def neighbours(g, n):
    """moments that agree in all but one coordinate"""
    S, L = lp.Solar, lp.Lunar

    def lun(y, m, d):
        t = L.fromYmd(y, m, d).getSolar()
        return t.getYear(), t.getMonth(), t.getDay(), 12, 0, 0

    def off(y, m, d, k):
        t = S.fromYmd(y, m, d).next(k)
        return t.getYear(), t.getMonth(), t.getDay(), 12, 0, 0

    if g == "same lunar day":
        return [lun(2020 - n // 2 + i, 4, 8) for i in range(n)]
    if g == "leap months":
        r = []
        for y in range(2001, 2001 + 3 * n // 2):
            m = lp.LunarYear.fromYear(y).getLeapMonth()
            if m:
                r += [lun(y, m, 2), lun(y, -m, 2)]
                if m > 1:
                    r.append(lun(y, m - 1, 2))
        return r[:n]
    if g == "same day pillar":
        return [off(2020, 5, 24, 60 * i) for i in range(n)]
    if g == "same civil day":
        return [(2020 - n // 2 + i, 2, 4, 12, 0, 0) for i in range(n)]
    if g == "one day":
        r = [(2020, 5, 24, h, mi, s) for h in range(24) for mi, s in ((0, 0), (59, 59))]
        return r[:n] if n < 48 and n % 2 else r[::max(1, 48 // n)]
    if g == "consecutive days":
        return [off(2020, 5, 20, i) for i in range(n)]
    if g == "60 years":
        return [(1 + 60 * i, 6, 6, 12, 0, 0) for i in range(0, 166, max(1, 166 // n))]
    if g == "400 years":
        return [(a + 400 * i, 12, 30, 12, 0, 0) for i in range(24) for a in (2, 300)][:n * 2:2 if n < 48 else 1]
    if g == "1000 years":
        return [(a + 1000 * i, 3, 8, 23, 30, 0) for i in range(10) for a in (20, 120, 200)][:n]
    if g == "month firsts":
        r = []
        for y in (2020, 2019, 2023):
            r += [lun(y, m.getMonth(), 1) for m in lp.LunarYear.fromYear(y).getMonthsInYear()]
        return r[:n]
    if g == "mid months":
        return [(2020 + i // 12, i % 12 + 1, 15, 12, 0, 0) for i in range(n)]
    if g == "terms":
        r = []
        for i, t in enumerate(list(S.fromYmd(2020, 6, 1).getLunar().getJieQiTable().values())):
            for k in (-1, 0):
                x = S.fromJulianDay(t.getJulianDay() + k / 86400.0 * 30)
                r.append((x.getYear(), x.getMonth(), x.getDay(), x.getHour(), x.getMinute(), x.getSecond()))
        return r[:n]
    if g == "new years":
        r = []
        for y in range(2018, 2018 + n // 3):
            r += [(y, 1, 1, 0, 0, 0), lun(y, 1, 1), lun(y, 12, 29)]
        return r[:n]
    return [(y, 7, 1, 1, 0, 0) for y in range(1900, 1900 + 10 * n, 10)]


NKINDS = ["Lunar", "EightChar", "LunarTime", "LunarMonth", "LunarYear", "Foto", "Tao", "Solar", "Yun", "Yun2", "DaYun", "LiuNian", "SolarWeek"]


def around(ctx, g, n):
    """everything about moments agreeing in all but one coordinate, forwards and backwards in one history"""
    fresh.restore()
    specs = neighbours(g, n)
    base = {}
    for s in specs:
        fresh.restore()
        base[s] = everything(s)
    fresh.restore()
    for tag, seq in (("after", specs), ("coming back after", specs[::-1])):
        for i, s in enumerate(seq):
            got = everything(s)
            ctx.transitions += 1
            for k in got:
                ctx.states += 1
                if got[k] != base[s][k]:
                    ctx.viol("neighbours:%s:%s:%s" % (g, s, k), "%s of %s at %s, asked %s %d others (%s): %s, asked first: %s" % (k[1], k[0], s, tag, i, g, core.short(got[k]), core.short(base[s][k])))
            ctx.outcome((g, tag))
    ctx.traces += 1
    ctx.counters["neighbouring moments"] += len(specs)


def everything(s):
    o = objects(s)
    r = {}
    for k in NKINDS:
        try:
            x = o[k]()
        except Exception as e:
            r[(k, "new")] = type(e).__name__
            continue
        if x is None:
            continue
        for q in api.queries(type(x)):
            r[(k, q)] = api.ask(x, q)
    return r


def year_answers(y):
    """a lunar year's table and a few conversions in it"""
    r = [call(lambda: lp.LunarYear.fromYear(y))]
    for m, d in ((1, 5), (6, 30)):
        r.append(call(lambda: lp.Solar.fromYmd(y, m, d).getLunar()))
    return r


def long_history(ctx, start, n):
    """a history over many distinct years, the first asked again at the end, then all of them backwards"""
    years = [y for y in range(start, start + n)]
    base = {}
    for y in years:
        fresh.restore()
        base[y] = year_answers(y)
    fresh.restore()
    seq = years + years[:60] + years[::-1] + years[::7]
    for i, y in enumerate(seq):
        ctx.states += 1
        ctx.transitions += 1
        ctx.eq("long:%s:%d" % (y, i), "answers about the year %d at position %d of a history over %d years from %d" % (y, i, n, start), year_answers(y), base[y])
    ctx.traces += 1
    ctx.outcome(("long", start))
    ctx.counters["positions in long histories"] += len(seq)


def given(ctx):
    """lists handed to the library by the caller, changed afterwards"""
    def changed(how, names):
        if how == "cleared":
            del names[:]
        elif how == "renamed":
            names[:] = ["x"] * len(names)
        elif how == "shifted":
            names.insert(0, "y")
        elif how == "reversed":
            names.reverse()

    for how in ("cleared", "renamed", "shifted", "reversed"):
        for data in (None, "", NEWFIX, "20200501~000000000"):
            for more in ((), (NEWFIX,), ("20200501~000000000", NEWFIX)):
                fresh.restore()
                HU.fix(list(FIXNAMES), data)
                for d in more:
                    HU.fix(None, d)
                want = holidays()
                fresh.restore()
                mine = list(FIXNAMES)
                HU.fix(mine, data)
                for n in range(len(more) + 1):
                    ctx.states += 1
                    ctx.transitions += 1
                    if n == len(more):
                        break
                    HU.fix(None, more[n])
                changed(how, mine)
                try:
                    got = holidays()
                except Exception as e:
                    got = repr(e)
                ctx.traces += 1
                ctx.eq("given:%s:%s:%s" % (how, data, more), "holidays after fix(names, %r), %s and the caller's list of names %s" % (data, ", ".join("fix(None, %r)" % d for d in more) or "nothing", how), got, want)
                # also when the list is changed before the following corrections
                fresh.restore()
                mine = list(FIXNAMES)
                HU.fix(mine, data)
                changed(how, mine)
                try:
                    for d in more:
                        HU.fix(None, d)
                    got = holidays()
                except Exception as e:
                    got = repr(e)
                ctx.eq("given first:%s:%s:%s" % (how, data, more), "holidays after fix(names, %r), the caller's list of names %s, then %s" % (data, how, ", ".join("fix(None, %r)" % d for d in more) or "nothing"), got, want)
                ctx.outcome(("given", how))
    fresh.restore()


def tables(y):
    try:
        o = lp.LunarYear.fromYear(y)
        return [(m.getYear(), m.getMonth(), m.getDayCount(), m.getFirstJulianDay(), m.getIndex()) for m in o.getMonths()], list(o.getJieQiJulianDays())
    except Exception as e:
        return type(e).__name__


def whole(ctx):
    """one history over every year"""
    base = {}
    years = range(1, 10000)
    for y in years:
        fresh.restore()
        base[y] = hash(str(tables(y)))
    fresh.restore()
    for i, y in enumerate(years):
        ctx.states += 1
        ctx.transitions += 1
        got = tables(y)
        if hash(str(got)) != base[y]:
            fresh_now = load.Snapshot()
            fresh.restore()
            want = tables(y)
            fresh_now.restore()
            ctx.viol("whole:%d" % y, "the table of the year %d after those of the years 1 to %d: %s, asked first: %s" % (y, i, core.short(got), core.short(want)))
    ctx.traces += 1
    ctx.outcome("whole")
    ctx.counters["positions in long histories"] += len(years)


def check(ctx, hist, name, got):
    ctx.states += 1
    ctx.transitions += 1
    ctx.outcome((name, got[0]))
    ctx.eq("history:%s>%s" % (">".join(hist), name), "'%s' after %s" % (name, ", ".join("'%s'" % h for h in hist) or "nothing"), got, BASE[name])


def run_history(ctx, all_ops, hist):
    fresh.restore()
    for i, h in enumerate(hist):
        got = call(all_ops[h])
        if i == len(hist) - 1:
            ctx.traces += 1
            check(ctx, hist[:-1], h, got)


def closure(ctx, cap, light):
    all_ops = {k: f for k, f in ops().items() if not light or k not in HEAVY}
    fresh.restore()
    seen = {fresh.diff(): []}
    todo = [[]]
    cut = False
    end = time.process_time() + (100 if ctx.tier == "quick" else 1200)
    while todo:
        if time.process_time() > end:
            cut = True
            break
        path = todo.pop(0)
        for name, f in all_ops.items():
            fresh.restore()
            for p in path:
                call(all_ops[p])
            check(ctx, path, name, call(f))
            s = fresh.diff()
            if s not in seen:
                if len(seen) >= cap:
                    cut = True
                    continue
                seen[s] = path + [name]
                todo.append(path + [name])
    ctx.counters["reachable internal states"] = len(seen)
    ctx.capped += cut
    ctx.counters["closure complete"] = int(not cut)
    ctx.sample("internal state closure under %d calls: %d states%s" % (len(all_ops), len(seen), " (cut)" if cut else ", complete"))


JUNK = "?"


def scramble(v):
    """overwrite every list and map inside v; number of containers changed"""
    n = 0
    if isinstance(v, list):
        for x in list(v):
            n += scramble(x)
        v[:] = [JUNK]
        return n + 1
    if isinstance(v, dict):
        for x in list(v.values()):
            n += scramble(x)
        v.clear()
        v[JUNK] = JUNK
        return n + 1
    if isinstance(v, (tuple, set, frozenset)):
        for x in v:
            n += scramble(x)
        if isinstance(v, set):
            v.clear()
            v.add(JUNK)
            return n + 1
    return n


PROBES = ["year 2020", "convert 2020-5-24", "hidden 2020", "terms 2021", "step month 2020/-4+9", "foto", "tao", "advice", "slots", "festivals", "holiday target", "weeks", "stars", "luck 1988"]


def change(ctx, spec, kind):
    mk = objects(spec)[kind]
    fresh.restore()
    o = mk()
    if o is None:
        return
    qs = api.queries(type(o))
    base = {q: api.ask(o, q) for q in qs}
    all_ops = ops()
    for q in qs:
        if base[q][0] != "ok":
            continue
        fresh.restore()
        o = mk()
        try:
            n = scramble(getattr(o, q[0])(*q[1]))
        except Exception:
            continue
        if not n:
            continue
        ctx.traces += 1
        what = "%s of %s at %s" % (q, kind, spec)
        key = "change:%s:%s:%s" % (kind, q, spec)
        try:
            p = mk()
        except Exception as e:
            ctx.viol(key + ":new", "after changing the returned %s, a new %s cannot be made: %r" % (what, kind, e))
            p = None
        for obj, tag in ((o, "the same"), (p, "a fresh")):
            if obj is None:
                continue
            for x in qs:
                ctx.states += 1
                ctx.eq("%s:%s:%s" % (key, tag, x), "%s of %s object after the caller changed the returned %s" % (x, tag, what), api.ask(obj, x), base[x])
        for x in PROBES:
            ctx.states += 1
            ctx.eq("%s:%s" % (key, x), "'%s' after the caller changed the returned %s" % (x, what), call(all_ops[x]), BASE[x])
        ctx.outcome((kind, q[0]))


def change_op(ctx, name):
    all_ops = ops()
    fresh.restore()
    try:
        n = scramble(all_ops[name]())
    except Exception:
        return
    if not n:
        return
    ctx.traces += 1
    for x in [name] + PROBES:
        ctx.states += 1
        ctx.eq("changed:%s:%s" % (name, x), "'%s' after the caller changed the lists returned by '%s'" % (x, name), call(all_ops[x]), BASE[x])


# ---- fault injection
MON = sys.monitoring
TOOL = 4
SKIP = {"acquire", "release", "__enter__", "__exit__", "locked"}


class Faults(object):
    """raise Injected at the n-th event (call made, function entered, function left) inside package code"""

    def __init__(self):
        self.codes = sched.codes()
        self.on = False
        if MON.get_tool(TOOL) is not None:
            MON.free_tool_id(TOOL)
        MON.use_tool_id(TOOL, "verif-faults")
        E = MON.events
        for ev, cb in ((E.PY_START, self.start), (E.PY_RETURN, self.ret), (E.CALL, self.call)):
            MON.register_callback(TOOL, ev, cb)
        for c in self.codes:
            MON.set_local_events(TOOL, c, E.PY_START | E.PY_RETURN | E.CALL)

    def close(self):
        for c in self.codes:
            MON.set_local_events(TOOL, c, 0)
        MON.free_tool_id(TOOL)

    def hit(self, site):
        if not self.on:
            return
        self.n += 1
        if self.record is not None:
            self.record.append(site)
        elif self.n == self.target:
            self.on = False
            raise Injected()

    def start(self, code, offset):
        self.hit((code, 0, "enter"))

    def ret(self, code, offset, value):
        self.hit((code, offset, "leave"))

    def call(self, code, offset, f, arg):
        if self.on and getattr(f, "__name__", "") not in SKIP:
            self.hit((code, offset, "call"))

    def go(self, f, target=None):
        self.n = 0
        self.target = target
        self.record = [] if target is None else None
        self.on = True
        try:
            f()
            return "done"
        except Injected:
            return "injected"
        except Exception as e:
            return type(e).__name__
        finally:
            self.on = False


def events(record, cap):
    """which occurrences to inject at: all, or the first and the last of every site"""
    if cap:
        return list(range(1, len(record) + 1))[:cap]
    last, cnt, pick = {}, {}, set()
    for i, s in enumerate(record, 1):
        cnt[s] = cnt.get(s, 0) + 1
        if cnt[s] <= 1:
            pick.add(i)
        last[s] = i
    return sorted(pick | set(last.values()))


def site(s):
    return "%s of %s line %s" % (s[2], s[0].co_qualname, next((l for a, b, l in s[0].co_lines() if a <= s[1] < b), None))


NEWFIX = "202001010120200101" + "202001020120200101" + "20200501~000000000" + "204505110020450501"
FIXNAMES = ("甲节", "乙节", "丙节", "丁节", "戊节", "己节", "庚节", "辛节", "壬节", "癸节")
FIXPROBES = ["2020-01", "2020-05", "2045-05", "2019-10"]


def holidays():
    return [api.canon(HU.getHolidays(x)) for x in FIXPROBES]


def inject(ctx, name, part, parts, cap):
    all_ops = ops()
    fa = Faults()
    try:
        if name == FIX:
            def f():
                HU.fix(FIXNAMES, NEWFIX)
            fresh.restore()
            before = holidays()
            f()
            after = holidays()
        else:
            f = all_ops[name]
        fresh.restore()
        fa.go(f)
        rec = fa.record
        todo = events(rec, cap)[part::parts]
        for k in todo:
            fresh.restore()
            how = fa.go(f, k)
            ctx.traces += 1
            ctx.outcome((name, how))
            what = "'%s' interrupted at step %d (%s)" % (name, k, site(rec[k - 1]))
            key = "inject:%s:%s" % (name, k)
            if name == FIX:
                ctx.states += 1
                try:
                    got = holidays()
                except Exception as e:
                    got = repr(e)
                if got != before and got != after:
                    ctx.viol(key, "holidays after %s are neither those before nor those after the correction: %s" % (what, core.short(got)))
                continue
            for x in (name, "year 2020") if name != "year 2020" else (name, "lunar 2020/-4/2"):
                ctx.states += 1
                ctx.transitions += 1
                ctx.eq("%s:%s" % (key, x), "'%s' after %s" % (x, what), call(all_ops[x]), BASE[x])
        ctx.counters["injection points"] += len(todo)
        if part == 0:
            ctx.sample("%s: %d steps, %d sites, interrupted at %d of them" % (name, len(rec), len(set(rec)), len(events(rec, cap))))
    finally:
        fa.close()


def inject_object(ctx, kind, part, parts, cap):
    """interrupt each query of an object, then ask the same object everything"""
    spec = SPECS[0]
    mk = objects(spec)[kind]
    fresh.restore()
    o = mk()
    qs = [q for q in api.queries(type(o)) if "next" not in q[0].lower()[:4]]
    base = {q: api.ask(o, q) for q in qs}
    fa = Faults()
    sites = {}
    try:
        for qi, q in enumerate(qs):
            if qi % parts != part:
                continue
            fresh.restore()
            o = mk()
            fa.go(lambda: getattr(o, q[0])(*q[1]))
            rec = fa.record
            pick = events(rec, 0)
            if not cap:
                # a site already interrupted on behalf of another query of this object is not repeated
                pick = [i for i in pick if sites.setdefault(rec[i - 1], q) == q][:12]
            for k in pick[:cap or None]:
                fresh.restore()
                o = mk()
                fa.go(lambda: getattr(o, q[0])(*q[1]), k)
                ctx.traces += 1
                key = "inject:%s.%s:%s" % (kind, q, k)
                for x in ([q] + qs if k in pick[:3] else [q, qs[0], qs[-1]]):
                    ctx.states += 1
                    ctx.eq("%s:%s" % (key, x), "%s of %s at %s after its %s was interrupted at step %d (%s)" % (x, kind, spec, q, k, site(rec[k - 1])), api.ask(o, x), base[x])
                ctx.counters["injection points"] += 1
    finally:
        fa.close()


def run(ctx, unit):
    what = unit[0]
    if what == "closure":
        closure(ctx, unit[1], unit[2])
        return
    if what == "neighbours":
        around(ctx, unit[1], unit[2])
        return
    if what == "given":
        given(ctx)
        return
    if what == "whole":
        whole(ctx)
        return
    if what == "long":
        long_history(ctx, unit[1], unit[2])
        return
    if what == "change":
        change(ctx, SPECS[unit[1]], unit[2])
        return
    if what == "change ops":
        change_op(ctx, unit[1])
        return
    if what == "inject":
        inject(ctx, *unit[1:])
        return
    if what == "inject object":
        inject_object(ctx, *unit[1:])
        return
    all_ops = ops()
    if what == "pairs":
        for b in (CORE if unit[2] else all_ops):
            run_history(ctx, all_ops, [unit[1], b])
    elif what == "triples":
        c = CORE[:unit[2]]
        for b, d in itertools.product(c, c):
            run_history(ctx, all_ops, [c[unit[1]], b, d])
    elif what == "quads":
        c = CORE[:10]
        for b, d in itertools.product(c, c):
            run_history(ctx, all_ops, [c[unit[1]], c[unit[2]], b, d])
