"""C13: the derived attributes of the four pillars."""
from mc import core, load
from mc.model import almanac as A
from mc.model import civil as C
from mc.model import gz
from mc.model import tables as T
from mc.model import rare

ID = "C13"
TITLE = "Eight-character attributes follow from the four pillars by the traditional rules"
BOUNDS = {
    "quick": "every day of the 120 years 1924..2043 x 13 two-hour slots x both sects, every attribute; the same for "
             "every 5th day of 7 other windows of 12 years and of 247 years (85 covering every calendar feature, every 61st); sect switching sequences on one object; second before/after all jie of 1924..2043",
    "thorough": "as quick and every slot of every day of 1000..1060, windows of 12 years every 500 years",
}
ASSUMPTIONS = ["sects 1 and 2", "palace of the body in the 丑 palace takes the stem preceding the 寅 month, as in the pinned tree"]
lp = None
HOURS = (0, 1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23)


def setup():
    global lp
    lp = load.lunar()
    load.memo_lunar_year(lp)
    load.memo_julian(lp)


def plan(tier):
    u = [["odd", k] for k in range(4)]
    for y in range(1924 if tier == "quick" else 1864, 2044):
        u.append(["year", y, 1])
        u.append(["jie", y])
    if tier == "thorough":
        u += [["year", y, 1] for y in range(1000, 1060)]
        u += [["sparse", y + k] for y in range(1, 9980, 500) for k in range(12)]
    else:
        u += [["sparse", y + k] for y in (1, 620, 1576, 1700, 1894, 4000, 9980) for k in range(12)] + [["sparse", y] for y in sorted(set(rare.YEARS) | set(range(7, 9999, 61)))]
    return u


def lunar(j, h, mi, s):
    return lp.Lunar.fromYmdHms(*(A.lunar_of(j) + (h, mi, s)))


def fmt(j, h, mi, s):
    return "%04d-%02d-%02d %02d:%02d:%02d" % (C.ymd(j) + (h, mi, s))


CACHE = {}


def derived(p, g):
    """attributes of pillar p for day stem g"""
    k = p * 10 + g
    v = CACHE.get(k)
    if v is None:
        hid = T.hide(p % 12)
        v = CACHE[k] = (gz.JZ[p], gz.JZ[p][0], gz.JZ[p][1], hid, T.elements(p), T.nayin(p), T.ten_god(g, p % 10),
                        [T.ten_god(g, gz.GAN.index(x)) for x in hid], T.stage(g, p % 12), gz.xun(p), gz.kong(p))
    return v


def nayin_of(text):
    return T.nayin(gz.JZ.index(text))


def attributes(ctx, e, m, sect, at, rep):
    day = m.day_ex if sect == 1 else m.day
    g = day % 10
    y, mo, t = m.year_ex, m.month_ex, m.time
    got = (e.getYear(), e.getYearGan(), e.getYearZhi(), list(e.getYearHideGan()), e.getYearWuXing(), e.getYearNaYin(), e.getYearShiShenGan(), e.getYearShiShenZhi(),
           e.getYearDiShi(), e.getYearXun(), e.getYearXunKong())
    ctx.transitions += 4
    bad = None
    if got != derived(y, g):
        bad = ("year", got, derived(y, g))
    got = (e.getMonth(), e.getMonthGan(), e.getMonthZhi(), list(e.getMonthHideGan()), e.getMonthWuXing(), e.getMonthNaYin(), e.getMonthShiShenGan(),
           e.getMonthShiShenZhi(), e.getMonthDiShi(), e.getMonthXun(), e.getMonthXunKong())
    if not bad and got != derived(mo, g):
        bad = ("month", got, derived(mo, g))
    got = (e.getDay(), e.getDayGan(), e.getDayZhi(), list(e.getDayHideGan()), e.getDayWuXing(), e.getDayNaYin(), e.getDayShiShenGan(), e.getDayShiShenZhi(),
           e.getDayDiShi(), e.getDayXun(), e.getDayXunKong())
    want = derived(day, g)
    want = want[:6] + ("日主",) + want[7:]
    if not bad and got != want:
        bad = ("day", got, want)
    got = (e.getTime(), e.getTimeGan(), e.getTimeZhi(), list(e.getTimeHideGan()), e.getTimeWuXing(), e.getTimeNaYin(), e.getTimeShiShenGan(),
           e.getTimeShiShenZhi(), e.getTimeDiShi(), e.getTimeXun(), e.getTimeXunKong())
    if not bad and got != derived(t, g):
        bad = ("time", got, derived(t, g))
    if not bad:
        want = (gz.JZ[T.conception(mo)], T.breath(day), T.life_palace(y, mo, t), T.body_palace(y, mo, t))
        got = (e.getTaiYuan(), e.getTaiXi(), e.getMingGong(), e.getShenGong(), e.getTaiYuanNaYin(), e.getTaiXiNaYin(), e.getMingGongNaYin(), e.getShenGongNaYin(),
               e.getDayGanIndex(), e.getDayZhiIndex(), e.toString(), e.getSect())
        want = want + tuple(nayin_of(x) for x in want) + (day % 10, day % 12, " ".join((gz.JZ[y], gz.JZ[mo], gz.JZ[day], gz.JZ[t])), sect)
        if got != want:
            bad = ("palaces", got, want)
    if bad:
        ctx.viol("%s:%d:%s" % (bad[0], sect, at), "%s attributes of the eight characters at %s, sect %d: %r, expected %r" % (bad[0], at, sect, bad[1], bad[2]), rep)


def chart(ctx, j, h, mi, s, over=None):
    at = fmt(j, h, mi, s)
    ctx.here = at
    m = gz.Moment(j, h, mi, s)
    if over:
        for k, v in over.items():
            setattr(m, k, v)
    elif min(m.t - gz.TS[m.kt], gz.TS[m.kt + 1] - m.t) <= 1:
        return      # the very second of a term is explored by the jie units, with the code's own instant
    rep = ("l = Solar.fromYmdHms(%d, %d, %d, %d, %d, %d).getLunar()\nfor s in (1, 2):\n  e = l.getEightChar()\n  e.setSect(s)\n"
           "  print(e, e.getTaiYuan(), e.getTaiXi(), e.getMingGong(), e.getShenGong(), e.getYearDiShi(), e.getDayDiShi())" % (C.ymd(j) + (h, mi, s)))
    l = lunar(j, h, mi, s)
    e = l.getEightChar()
    ctx.states += 2
    attributes(ctx, e, m, 2, at, rep)
    e.setSect(1)
    attributes(ctx, e, m, 1, at, rep)
    if (j + h) % 9 == 0:
        # every switching history of length 3 on one object, and the list forms of the date follow the object
        for seq in ((1, 2), (2, 1), (1, 1, 2), (2, 2, 1), (1, 2, 1), (2, 1, 2)):
            for q in seq:
                e.setSect(q)
                d = m.day_ex if q == 1 else m.day
                ctx.eq("switch:%s:%r" % (at, seq), "day pillar after sects %r at %s" % (seq, at), (e.getSect(), e.getDay(), e.getDayGan() + e.getDayZhi()), (q, gz.JZ[d], gz.JZ[d]), rep)
            attributes(ctx, e, m, seq[-1], at, rep)
        f = lp.EightChar.fromLunar(l)
        attributes(ctx, f, m, 2, at, rep)
        l2 = lunar(j, h, mi, s)
        p = (m.year_ex, m.month_ex, m.day, m.time)
        g = m.day % 10
        want = ([gz.JZ[x] for x in p], [T.elements(x) for x in p], [T.nayin(x) for x in p],
                [T.ten_god(g, x % 10) if i != 2 else "日主" for i, x in enumerate(p)],
                [derived(x, g)[7][0] for x in p]) + tuple(derived(x, g)[7] for x in p)
        got = (l2.getBaZi(), l2.getBaZiWuXing(), l2.getBaZiNaYin(), l2.getBaZiShiShenGan(), l2.getBaZiShiShenZhi(), l2.getBaZiShiShenYearZhi(),
               l2.getBaZiShiShenMonthZhi(), l2.getBaZiShiShenDayZhi(), l2.getBaZiShiShenTimeZhi())
        ctx.eq("lists:%s" % at, "list forms at %s" % at, got, want, rep)
        ctx.trace()


def run(ctx, unit):
    y = unit[1]
    if unit[0] == "jie":
        for i in range(2, 26, 2):
            k = 24 * y + i
            j = gz.TD[k]
            so = lunar(j, 0, 0, 0).getJieQiTable()[A.KEYS[k - 24 * C.ymd(j)[0]]]
            t = C.jdn(so.getYear(), so.getMonth(), so.getDay()) * 86400 + so.getHour() * 3600 + so.getMinute() * 60 + so.getSecond()
            if abs(t - gz.TS[k]) > 1:
                ctx.viol("instant:%d" % k, "term %s of year %d moved" % (A.term_name(k), y))
                continue
            for d, kk in ((-1, k - 1), (0, k), (1, k)):
                r = (t + d) % 86400
                chart(ctx, (t + d) // 86400, r // 3600, r // 60 % 60, r % 60, {"month_ex": gz.month_gz(kk), "year_ex": gz.year_gz(gz.year_of_term(kk))})
    elif unit[0] == "odd":
        for j in rare.DAYS[y::4]:
            for h in HOURS:
                chart(ctx, j, h, j % 60, j % 59)
    else:
        for j in range(C.jdn(y, 1, 1), C.jdn(y, 12, 31) + 1):
            if unit[0] == "sparse":
                if j % 5:
                    continue
                hs = (HOURS[(j // 5) % 13], 23)
            else:
                hs = HOURS if j % unit[2] == 0 else (HOURS[j % 13], 0, 23)
            for h in hs:
                chart(ctx, j, h, j % 60, j % 59)
    ctx.outcome(tuple(unit))
    ctx.sample("%s of year %d" % (unit[0], y))
