"""C12: day and two-hour pillars; the thirteen slots of a day."""
from mc import core, load
from mc.model import almanac as A
from mc.model import civil as C
from mc.model import gz, rare, tables

ID = "C12"
TITLE = "Day and two-hour pillars run through their cycles without a break"
BOUNDS = {
    "quick": "every day 0001-01-01..9999-12-31 at a rotating time (every slot of every pillar day): day pillar under 3 conventions and two-hour pillar; all 13 "
             "slots, first and last second of each, with all slot attributes, on 61-day windows at 14 places; every minute of 30 days; every HH:MM text",
    "thorough": "as quick with 6 times per day for every day, 13 slots on windows at 120 places, every minute of 240 days",
}
ASSUMPTIONS = ["lunar dates as in the reference almanac (C06)"]
lp = None
LO = [(0, 0), (1, 0), (3, 0), (5, 0), (7, 0), (9, 0), (11, 0), (13, 0), (15, 0), (17, 0), (19, 0), (21, 0), (23, 0)]
HI = [(0, 59), (2, 59), (4, 59), (6, 59), (8, 59), (10, 59), (12, 59), (14, 59), (16, 59), (18, 59), (20, 59), (22, 59), (23, 59)]


def setup():
    global lp
    lp = load.lunar()
    load.memo_lunar_year(lp)
    load.memo_julian(lp)


def windows(tier):
    w = [C.JDN_MIN, C.jdn(4, 2, 1), C.jdn(1500, 2, 1), C.jdn(1582, 9, 10), C.jdn(1700, 2, 1), C.jdn(1899, 12, 1), C.jdn(1984, 1, 20), C.jdn(1999, 12, 1),
         C.jdn(2000, 2, 1), C.jdn(2020, 5, 1), C.jdn(2023, 2, 20), C.jdn(2033, 12, 1), C.jdn(9998, 12, 5), C.JDN_MAX - 60]
    if tier == "thorough":
        w += [C.jdn(y, y % 12 + 1, 1) for y in range(50, 9990, 94)]
    return w


def plan(tier):
    u = [["days", a, b] for a, b in core.chunks(C.JDN_MIN, C.JDN_MAX, 15000)]
    u += [["slots", a + i, min(a + i + 7, a + 60)] for a in windows(tier) for i in range(0, 61, 8)]
    u += [["minutes", C.jdn(y, 3, 1) + y % 97, 1] for y in range(1, 10000, 345 if tier == "quick" else 42)]
    u += [["texts"], ["odd", 0], ["odd", 1], ["odd", 2], ["odd", 3]]
    return u


def lunar(j, h, mi, s):
    return lp.Lunar.fromYmdHms(*(A.lunar_of(j) + (h, mi, s)))


def fmt(j, h, mi, s):
    return "%04d-%02d-%02d %02d:%02d:%02d" % (C.ymd(j) + (h, mi, s))


REPRO = ("l = Solar.fromYmdHms(%d, %d, %d, %d, %d, %d).getLunar()\n"
         "print(l.getDayInGanZhi(), l.getDayInGanZhiExact(), l.getDayInGanZhiExact2(), l.getTimeInGanZhi())")


def pillars(j, h):
    """day, day counting 23:00 as tomorrow, two-hour pillar"""
    d = gz.day_gz(j)
    e = gz.day_gz(j + 1) if h == 23 else d
    z = gz.time_zhi(h)
    return d, e, gz.gz_index((e % 10 * 2 + z) % 10, z)


def brief(ctx, j, h, mi, s):
    l = lunar(j, h, mi, s)
    d, e, t = pillars(j, h)
    got = (l.getDayInGanZhi(), l.getDayInGanZhiExact(), l.getDayInGanZhiExact2(), l.getTimeInGanZhi())
    ctx.transitions += 1
    if got != (gz.JZ[d], gz.JZ[e], gz.JZ[d], gz.JZ[t]):
        ctx.viol("pillars:%s" % fmt(j, h, mi, s), "day pillar (plain, sect 1, sect 2) and two-hour pillar at %s are %r, expected %r" % (
            fmt(j, h, mi, s), got, (gz.JZ[d], gz.JZ[e], gz.JZ[d], gz.JZ[t])), REPRO % (C.ymd(j) + (h, mi, s)))
    return l


def indices(ctx, l, j, h, mi, s):
    d, e, t = pillars(j, h)
    at = fmt(j, h, mi, s)
    rep = REPRO % (C.ymd(j) + (h, mi, s))
    got = (l.getDayGanIndex(), l.getDayZhiIndex(), l.getDayGanIndexExact(), l.getDayZhiIndexExact(), l.getDayGanIndexExact2(), l.getDayZhiIndexExact2(),
           l.getTimeGanIndex(), l.getTimeZhiIndex())
    ctx.eq("index:" + at, "indices at " + at, got, (d % 10, d % 12, e % 10, e % 12, d % 10, d % 12, t % 10, t % 12), rep)
    got = (l.getDayGan() + l.getDayZhi(), l.getDayGanExact() + l.getDayZhiExact(), l.getDayGanExact2() + l.getDayZhiExact2(), l.getTimeGan() + l.getTimeZhi(),
           l.getDayShengXiao(), l.getTimeShengXiao())
    ctx.eq("char:" + at, "stems, branches, animals at " + at, got, (gz.JZ[d], gz.JZ[e], gz.JZ[d], gz.JZ[t], gz.SX[d % 12], gz.SX[t % 12]), rep)
    got = (l.getDayXun(), l.getDayXunKong(), l.getDayXunExact(), l.getDayXunKongExact(), l.getDayXunExact2(), l.getDayXunKongExact2(),
           l.getTimeXun(), l.getTimeXunKong())
    ctx.eq("xun:" + at, "decades and voids at " + at, got,
           (gz.xun(d), gz.kong(d), gz.xun(e), gz.kong(e), gz.xun(d), gz.kong(d), gz.xun(t), gz.kong(t)), rep)


def clash(i):
    g, z = (i % 10 + 4) % 10, (i % 12 + 6) % 12
    return gz.ZHI[z], gz.GAN[g], tables.clash_tie(i % 10), gz.SX[z], "(" + gz.GAN[g] + gz.ZHI[z] + ")" + gz.SX[z], tables.SHA[i % 4]


def slot(ctx, t, j, h, mi, what, n):
    """one two-hour slot object against the model"""
    d, e, i = pillars(j, h)
    got = (t.getGanZhi(), t.toString(), str(t), t.getGan(), t.getZhi(), t.getGanIndex(), t.getZhiIndex(), t.getShengXiao(), t.getXun(), t.getXunKong(), t.getNaYin(),
           t.getMinHm(), t.getMaxHm(), t.getChong(), t.getChongGan(), t.getChongGanTie(), t.getChongShengXiao(), t.getChongDesc(), t.getSha())
    want = (gz.JZ[i], gz.JZ[i], gz.JZ[i], gz.GAN[i % 10], gz.ZHI[i % 12], i % 10, i % 12, gz.SX[i % 12], gz.xun(i), gz.kong(i), tables.nayin(i),
            "%02d:%02d" % LO[n], "%02d:%02d" % HI[n]) + clash(i)
    ctx.eq("slot:%s:%s" % (what, fmt(j, h, mi, 0)), "slot from %s at %s" % (what, fmt(j, h, mi, 0)), got, want,
           "l = Solar.fromYmdHms(%d, %d, %d, %d, %d, 0).getLunar()\nprint([(t.getGanZhi(), t.getMinHm(), t.getMaxHm()) for t in l.getTimes() + [l.getTime()]])" % (C.ymd(j) + (h, mi)))


def slots(ctx, j):
    lists = None
    for n in range(13):
        for k, (h, mi, s) in enumerate((LO[n] + (0,), HI[n] + (59,))):
            ctx.here = fmt(j, h, mi, s)
            ctx.st()
            l = brief(ctx, j, h, mi, s)
            indices(ctx, l, j, h, mi, s)
            slot(ctx, l.getTime(), j, h, mi, "the date", n)
            slot(ctx, lp.LunarTime.fromYmdHms(l.getYear(), l.getMonth(), l.getDay(), h, mi, s), j, h, mi, "its own constructor", n)
            d, e, i = pillars(j, h)
            got = (l.getTimeChong(), l.getTimeChongGan(), l.getTimeChongGanTie(), l.getTimeChongShengXiao(), l.getTimeChongDesc(), l.getTimeSha())
            ctx.eq("timeclash:%s" % fmt(j, h, mi, s), "clash of the hour at %s" % fmt(j, h, mi, s), got, clash(i))
            got = (l.getDayChong(), l.getDayChongGan(), l.getDayChongGanTie(), l.getDayChongShengXiao(), l.getDayChongDesc(), l.getDaySha())
            ctx.eq("dayclash:%s" % fmt(j, h, mi, s), "clash of the day at %s" % fmt(j, h, mi, s), got, clash(d))
            got = (l.getChong(), l.getChongGan(), l.getChongGanTie(), l.getChongShengXiao(), l.getChongDesc(), l.getSha())
            ctx.eq("clash:%s" % fmt(j, h, mi, s), "clash at %s" % fmt(j, h, mi, s), got, clash(d))
            got = (l.getYearNaYin(), l.getMonthNaYin(), l.getDayNaYin(), l.getTimeNaYin())
            m = gz.Moment(j, h, mi, s)
            ctx.eq("nayin:%s" % fmt(j, h, mi, s), "na-yin of the four plain pillars at %s" % fmt(j, h, mi, s), got,
                   tuple(tables.nayin(x) for x in (m.year, m.month, d, i)))
            ts = l.getTimes() if k == 0 or n == 6 else lists
            lists = ts
            if ctx.eq("times:%s" % fmt(j, h, mi, s), "number of slots from %s" % fmt(j, h, mi, s), len(ts), 13):
                for x in (range(13) if n in (0, 12) else (n,)):
                    slot(ctx, ts[x], j, LO[x][0], LO[x][1], "the list of slots", x)


def run(ctx, unit):
    if unit[0] == "days":
        for j in range(unit[1], unit[2] + 1):
            ctx.here = C.ymd(j)
            h = (j * 5 + j // 60) % 24
            # one second apart from every slot border in turn
            mi, s = ((0, 0), (59, 59), (30, 30))[j % 3]
            ctx.states += 1
            l = brief(ctx, j, h, mi, s)
            if j % 16 == 0:
                indices(ctx, l, j, h, mi, s)
            if ctx.tier == "thorough":
                for k in (0, 1, 22, 23, (h + 7) % 24):
                    indices(ctx, brief(ctx, j, k, 59 * (k % 2), 59), j, k, 59 * (k % 2), 59)
    elif unit[0] == "odd":
        for j in rare.DAYS[unit[1]::4]:
            slots(ctx, j)
    elif unit[0] == "slots":
        for j in range(unit[1], unit[2] + 1):
            slots(ctx, j)
    elif unit[0] == "minutes":
        j = unit[1]
        for m in range(1440):
            h, mi = divmod(m, 60)
            ctx.here = fmt(j, h, mi, m % 60)
            ctx.st()
            l = brief(ctx, j, h, mi, m % 60)
            n = (h + 1) // 2 if h != 23 else 12
            slot(ctx, l.getTime(), j, h, mi, "the date", n)
    else:
        U = lp.util.LunarUtil
        for m in range(1440):
            h, mi = divmod(m, 60)
            for text in ("%02d:%02d" % (h, mi), "%02d:%02d:%02d" % (h, mi, m % 60)):
                ctx.here = text
                ctx.st()
                ctx.eq("text:" + text, "slot of the text " + text, (U.getTimeZhiIndex(text), U.convertTime(text)), (gz.time_zhi(h), gz.ZHI[gz.time_zhi(h)]))
        ctx.eq("text:None", "slot of no text", U.getTimeZhiIndex(None), 0)
        for i in range(60):
            ctx.st()
            ctx.eq("jz:%d" % i, "index, decade, decade index and void of %s" % gz.JZ[i],
                   (U.getJiaZiIndex(gz.JZ[i]), U.getXun(gz.JZ[i]), U.getXunIndex(gz.JZ[i]), U.getXunKong(gz.JZ[i])), (i, gz.xun(i), i // 10, gz.kong(i)))
    ctx.outcome(tuple(unit))
    if len(unit) > 1 and unit[0] != "odd":
        ctx.sample("%s from %s" % (unit[0], "%04d-%02d-%02d" % C.ymd(unit[1])))
