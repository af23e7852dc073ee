"""C17: daily almanac cycles and directions."""
from mc import core, load
from mc.model import almanac as A
from mc.model import civil as C
from mc.model import daily as D
from mc.model import gz, tables
from mc.model import rare

ID = "C17"
TITLE = "Daily almanac cycles and directions follow their pillars"
BOUNDS = {
    "quick": "every day of 325 years (1..6, 1581..1584, 1970..2040, 9997..9999, every 61st year and a set of years covering every calendar feature) at a rotating time of day (three times a day for 2019..2026) with about 110 attributes "
             "by date, slot and LunarTime; every year 1..9999: 31 December, 1 January, the Jia-Zi days nearest both solstices and the day before, both sides of lunar "
             "new year, Li Chun and two rotating jie (seconds around the instant); attributes of every lunar year 1..9999 and of every month of every third year; all nine stars",
    "thorough": "every day 0001..9999 at a rotating time of day, all attributes; every lunar month",
}
ASSUMPTIONS = ["lunar months and term instants as in the reference almanac (C06, C09); pillars as in C11/C12", "tables whose entries follow no rule (songs, Peng Zu, fetal god, noble directions) as published with the pinned tree"]
lp = None
LT = D.LT
TIMES = ((0, 0, 0), (0, 59, 59), (1, 0, 0), (3, 30, 0), (6, 0, 0), (7, 15, 20), (10, 59, 59), (11, 0, 0), (13, 0, 0), (16, 1, 1), (18, 0, 0), (20, 0, 59), (22, 59, 59), (23, 0, 0), (23, 59, 59))
FULL = sorted(set(rare.YEARS) | set(range(7, 9999, 61)) | set(range(1, 7)) | set(range(1581, 1585)) | set(range(1970, 2041)) | set(range(9997, 10000)))
DENSE = set(range(2019, 2027))


def setup():
    global lp
    lp = load.lunar()
    load.memo_lunar_year(lp)
    load.memo_julian(lp)
    D.self_check()


def plan(tier):
    u = [["stars"]]
    if tier == "thorough":
        return u + [["days", a, b] for a, b in core.chunks(1, 9999, 10)] + [["years", a, b, 1] for a, b in core.chunks(1, 9999, 40)]
    return u + [["odd"]] + [["days", y, y] for y in FULL] + [["years", a, b, 3] for a, b in core.chunks(1, 9999, 40)]


def star(s):
    return s.getIndex()


# ------------------------------------------------------------------ attributes of one instant
def dirs(prefix):
    out = []
    for n, (name, args) in enumerate((("Xi", ()), ("YangGui", ()), ("YinGui", ()), ("Fu", ()), ("Fu", (1,)), ("Fu", (2,)), ("Cai", ()))):
        out.append((prefix + name, args))
        out.append((prefix + name + "Desc", args))
    return out


def dirs_want(g):
    w = (D.joy(g), D.yang(g), D.yin(g), D.fortune(g, 2), D.fortune(g, 1), D.fortune(g, 2), D.wealth(g))
    out = []
    for x in w:
        out += [x, D.DIR[x]]
    return out


def no_arg_dirs(prefix):
    return [(n, a) for n, a in dirs(prefix) if not a]


def no_arg_want(g):
    w = dirs_want(g)
    return w[:8] + w[12:]


DAY_CALLS = ([("getXiu", ()), ("getXiuLuck", ()), ("getXiuSong", ()), ("getZheng", ()), ("getAnimal", ()), ("getGong", ()), ("getShou", ()), ("getZhiXing", ()),
              ("getDayTianShen", ()), ("getDayTianShenType", ()), ("getDayTianShenLuck", ()), ("getLiuYao", ()), ("getPengZuGan", ()), ("getPengZuZhi", ()),
              ("getDayPositionTai", ()), ("getMonthPositionTai", ()), ("getSeason", ()), ("getYueXiang", ()), ("getDayLu", ()),
              ("getYearNaYin", ()), ("getMonthNaYin", ()), ("getDayNaYin", ()), ("getTimeNaYin", ()),
              ("getChong", ()), ("getDayChong", ()), ("getChongGan", ()), ("getDayChongGan", ()), ("getChongGanTie", ()), ("getDayChongGanTie", ()), ("getChongShengXiao", ()),
              ("getDayChongShengXiao", ()), ("getChongDesc", ()), ("getDayChongDesc", ()), ("getSha", ()), ("getDaySha", ()),
              ("getTimeChong", ()), ("getTimeChongGan", ()), ("getTimeChongGanTie", ()), ("getTimeChongShengXiao", ()), ("getTimeChongDesc", ()), ("getTimeSha", ()),
              ("getTimeTianShen", ()), ("getTimeTianShenType", ()), ("getTimeTianShenLuck", ())]
             + dirs("getDayPosition") + no_arg_dirs("getPosition") + dirs("getTimePosition")
             + [(n, a) for n in ("getYearPositionTaiSui", "getYearPositionTaiSuiDesc", "getMonthPositionTaiSui", "getMonthPositionTaiSuiDesc", "getDayPositionTaiSui",
                                 "getDayPositionTaiSuiDesc") for a in ((), (1,), (2,), (3,))])
STAR_CALLS = [(n, a) for n in ("getYearNineStar", "getMonthNineStar") for a in ((), (1,), (2,), (3,))] + [("getDayNineStar", ()), ("getTimeNineStar", ())]
SLOT_CALLS = ([("getNaYin", ()), ("getChong", ()), ("getChongGan", ()), ("getChongGanTie", ()), ("getChongShengXiao", ()), ("getChongDesc", ()), ("getSha", ()),
               ("getTianShen", ()), ("getTianShenType", ()), ("getTianShenLuck", ())] + dirs("getPosition"))


def clash(i):
    g, z = (i % 10 + 4) % 10, (i % 12 + 6) % 12
    return [gz.ZHI[z], gz.GAN[g], tables.clash_tie(i % 10), gz.SX[z], "(" + gz.GAN[g] + gz.ZHI[z] + ")" + gz.SX[z], tables.SHA[i % 4]]


def spirit3(i):
    return [D.SPIRITS[i], "黄道" if i in D.LUCKY else "黑道", "吉" if i in D.LUCKY else "凶"]


def slot_want(m):
    return [tables.nayin(m.time)] + clash(m.time) + spirit3(D.spirit(m.time % 12, m.day_ex % 12)) + dirs_want(m.time % 10)


def day_want(m):
    x = D.MANSIONS[D.mansion(m.j)]
    i = D.mansion(m.j)
    w = [x, LT["XIU_LUCK"][x], LT["XIU_SONG"][x], D.GOVERNOR[i % 7], LT["ANIMAL"][x], D.PALACE[i], D.BEAST[D.PALACE[i]], D.officer(m.day, m.month)]
    w += spirit3(D.spirit(m.day % 12, m.month % 12))
    w += [D.LUMINARIES[(abs(m.lm) + m.ld - 2) % 6], LT["PENG_ZU_GAN"][m.day % 10 + 1], LT["PENG_ZU_ZHI"][m.day % 12 + 1], LT["POSITION_TAI_DAY"][m.day],
          LT["POSITION_TAI_MONTH"][m.lm - 1] if m.lm > 0 else "", ("孟", "仲", "季")[(abs(m.lm) - 1) % 3] + "春夏秋冬"[(abs(m.lm) - 1) // 3], LT["YUE_XIANG"][m.ld], D.lu(m.day)]
    w += [tables.nayin(m.year), tables.nayin(m.month), tables.nayin(m.day), tables.nayin(m.time)]
    for c in clash(m.day):
        w += [c, c]
    w += clash(m.time) + spirit3(D.spirit(m.time % 12, m.day_ex % 12))
    w += dirs_want(m.day % 10) + no_arg_want(m.day % 10) + dirs_want(m.time % 10)
    ys = [D.TAI_SUI[y % 12] for y in (m.year_lc, m.year, m.year_lc, m.year_ex)]
    ms = [D.tai_sui_month(x % 12, x % 10) for x in (m.month, m.month, m.month, m.month_ex)]
    ds = [D.tai_sui_day(m.day, y % 12) for y in (m.year_lc, m.year, m.year_lc, m.year_ex)]
    for t in (ys, ms, ds):
        w += t
        w += [D.DIR[p] for p in t]
    return w


def star_want(m):
    a, b, c = D.year_star(m.ly), D.year_star(gz.year_of_term(m.kd)), D.year_star(gz.year_of_term(m.kt))
    ma, mb, mc = D.month_star(m.year % 12, m.month % 12), D.month_star(m.year_lc % 12, m.month % 12), D.month_star(m.year_ex % 12, m.month_ex % 12)
    return [b, a, b, c, mb, ma, mb, mc, D.day_star(m.j), D.hour_star(m.j, m.h)]


def compare(ctx, obj, calls, want, kind, at, expr, conv=None):
    got = [getattr(obj, n)(*a) for n, a in calls]
    if conv:
        got = [conv(x) for x in got]
    ctx.transitions += len(calls)
    if got != want:
        assert len(want) == len(calls)
        for (n, a), g, w in zip(calls, got, want):
            if g != w:
                call = "%s(%s)" % (n, ", ".join(map(str, a)))
                ctx.viol("%s:%s:%s" % (kind, call, at), "%s of %s: code gives %r, rules give %r" % (call, at, g, w), "print(%s.%s)" % (expr, call))


def moment(ctx, j, h, mi, s, full=True, how=0, sure=False):
    m = gz.Moment(j, h, mi, s)
    if not sure and min(abs(gz.TS[k] - m.t) for k in (m.kt, m.kt + 1)) <= 1:
        return
    f = (m.y, m.m, m.d, h, mi, s)
    at = "%04d-%02d-%02d %02d:%02d:%02d" % f
    ctx.here = at
    ctx.states += 1
    expr = "Solar.fromYmdHms(%d, %d, %d, %d, %d, %d).getLunar()" % f
    l = lp.Solar.fromYmdHms(*f).getLunar() if how else lp.Lunar.fromYmdHms(m.ly, m.lm, m.ld, h, mi, s)
    compare(ctx, l, STAR_CALLS, star_want(m), "star", at, expr, star)
    if full:
        compare(ctx, l, DAY_CALLS, day_want(m), "day", at, expr)
        want = slot_want(m)
        for t, e in ((l.getTime(), expr + ".getTime()"), (lp.LunarTime.fromYmdHms(m.ly, m.lm, m.ld, h, mi, s), "LunarTime.fromYmdHms(%d, %d, %d, %d, %d, %d)" % (m.ly, m.lm, m.ld, h, mi, s))):
            compare(ctx, t, SLOT_CALLS, want, "slot", at, e)
            ctx.eq("slotstar:" + at, "nine star of the hour of " + at, t.getNineStar().getIndex(), D.hour_star(j, h), "print(%s.getNineStar())" % e)
    return m


# ------------------------------------------------------------------ lunar years and months
POS = dirs("getPosition")


def year_attrs(ctx, y):
    at = "lunar year %d" % y
    ctx.here = at
    ctx.states += 1
    o = lp.LunarYear.fromYear(y)
    g = gz.year_gz(y)
    expr = "LunarYear.fromYear(%d)" % y
    compare(ctx, o, POS, dirs_want(g % 10), "year", at, expr)
    ts = D.TAI_SUI[g % 12]
    compare(ctx, o, [("getPositionTaiSui", ()), ("getPositionTaiSuiDesc", ()), ("getYuan", ()), ("getYun", ()), ("getGan", ()), ("getZhi", ()), ("getGanZhi", ()), ("getGanIndex", ()),
                     ("getZhiIndex", ()), ("getYear", ())],
            [ts, D.DIR[ts], "下上中"[(y + 2696) // 60 % 3] + "元", "七八九一二三四五六"[(y + 2696) // 20 % 9] + "运", gz.GAN[g % 10], gz.ZHI[g % 12], gz.JZ[g], g % 10, g % 12, y],
            "year", at, expr)
    compare(ctx, o, [("getNineStar", ())], [D.year_star(y)], "year", at, expr, star)
    f = D.folk(A.new_year(y))
    ks = sorted(f)
    compare(ctx, o, [(k, ()) for k in ks], [f[k] for k in ks], "year", at, expr)
    ctx.outcome((g, A.new_year(y) % 60))


def month_attrs(ctx, y):
    o = lp.LunarYear.fromYear(y)
    for n, (mm, _, first) in enumerate(A.YEARS[y]):
        at = "lunar month %d-%d" % (y, mm)
        ctx.here = at
        ctx.states += 1
        x = lp.LunarMonth.fromYm(y, mm) if (y + n) % 2 else o.getMonth(mm)
        expr = "LunarMonth.fromYm(%d, %d)" % (y, mm)
        stem = (gz.year_gz(y) % 5 * 2 + 2 + x.getIndex() - 1) % 10
        compare(ctx, x, POS, dirs_want(stem), "month", at, expr)
        k = gz.last_term_by_day(first)
        q = abs(mm) % 4
        ts = "巽艮?坤"[q] if q != 2 else D.STEM_SEAT[gz.month_gz(k) % 10]
        compare(ctx, x, [("getPositionTaiSui", ()), ("getPositionTaiSuiDesc", ())], [ts, D.DIR[ts]], "month", at, expr)
        compare(ctx, x, [("getNineStar", ())], [D.month_star(gz.year_gz(y) % 12, (abs(mm) + 1) % 12)], "month", at, expr, star)


def stars(ctx):
    for i in range(9):
        s = lp.NineStar.fromIndex(i)
        ctx.states += 1
        compare(ctx, s, [(n, ()) for n, _ in D.STAR_CALLS], [D.ST[t][i] for _, t in D.STAR_CALLS], "object", "star %d" % i, "NineStar.fromIndex(%d)" % i)
        compare(ctx, s, [("toString", ()), ("__str__", ()), ("toFullString", ()), ("getPositionDesc", ()), ("getIndex", ())],
                [D.ST["NUMBER"][i] + D.ST["COLOR"][i] + D.ST["WU_XING"][i] + D.ST["NAME_BEI_DOU"][i]] * 2 + [D.star_text(i), D.DIR[D.ST["POSITION"][i]], i],
                "object", "star %d" % i, "NineStar.fromIndex(%d)" % i)


# ------------------------------------------------------------------ exploration
def around(ctx, t, full):
    for d in (-2, 2):
        u = t + d
        j, r = divmod(u, 86400)
        if C.JDN_MIN <= j <= C.JDN_MAX:
            moment(ctx, j, r // 3600, r // 60 % 60, r % 60, full)


def at_term(ctx, k):
    """the second in which a term falls, and the second before, where the package and the reference name the same second"""
    y = k // 24
    a = lp.Solar.fromJulianDay(lp.LunarYear.fromYear(y).getJieQiJulianDays()[k - 24 * y])
    for u in (gz.TS[k] - 1, gz.TS[k]):
        j, r = divmod(u, 86400)
        t = C.ymd(j) + (r // 3600, r // 60 % 60, r % 60)
        if u == gz.TS[k] - 1 and A.secs_ymdhms(gz.TS[k]) != (a.getYear(), a.getMonth(), a.getDay(), a.getHour(), a.getMinute(), a.getSecond()):
            return
        if C.JDN_MIN <= j <= C.JDN_MAX:
            moment(ctx, j, *(t[3:] + (True, u % 2, True)))


def run(ctx, unit):
    if unit[0] == "stars":
        return stars(ctx)
    if unit[0] == "odd":
        for n, j in enumerate(rare.DAYS):
            for k in (0, 5, 10):
                moment(ctx, j, *(TIMES[(n + k) % 15] + (True, (n + k) % 2)))
        ctx.sample("days at the seams of the civil calendar")
        return
    if unit[0] == "days":
        for y in range(unit[1], unit[2] + 1):
            for j in range(C.jdn(y, 1, 1), C.jdn(y, 12, 31) + 1):
                n = j % 60 // 4 + j // 60
                for k in (0, 5, 10) if y in DENSE else (0,):
                    moment(ctx, j, *(TIMES[(n + k) % 15] + (True, j % 3 == 0)))
        ctx.sample("all days of year %d" % unit[1])
        return
    for y in range(unit[1], unit[2] + 1):
        year_attrs(ctx, y)
        if (y % unit[3]) == 0:
            month_attrs(ctx, y)
        tm = TIMES[y % 15]
        days = {C.jdn(y, 1, 1), C.jdn(y, 12, 31), A.new_year(y), A.new_year(y) - 1, gz.TD[24 * y + 4], gz.TD[24 * y + 4] - 1}
        for k in (1, 13, 25):
            s = D.near_jiazi(gz.TD[24 * y + k])
            days |= {s, s - 1}
        for k in (13, 25):
            days |= {gz.TD[24 * y + k], gz.TD[24 * y + k] - 1}
        for j in days:
            if C.JDN_MIN <= j <= C.JDN_MAX:
                moment(ctx, j, *(tm + (False,)))
        around(ctx, gz.TS[24 * y + 4], True)
        around(ctx, gz.TS[24 * y + 2 * (y % 12)], True)
        at_term(ctx, 24 * y + y % 24)
        if y % 3 == 0:
            at_term(ctx, 24 * y + 4)
    ctx.sample("year %d borders" % unit[1])
