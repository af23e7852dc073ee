"""C07: lunar years and months: structure of each year, agreement of every route to a month, stepping."""
from mc import core, load
from mc.model import almanac as A
from mc.model import civil as C
from mc.model import gz

ID = "C07"
TITLE = "Lunar years are made of consecutive whole months and stepping them is exact"
BOUNDS = {
    "quick": "every lunar year 1..9999: all month records (year, month, length, first day, index, stem-branch, text) on 4 routes; the month table with "
             "its neighbours; getMonth for -13..13; every month stepped by {0,+-1,+-2,+-3}, the first, the last and any leap month and its neighbours also by "
             "{+-11,+-12,+-13,+-25,+-130,+-1250}; years stepped by {0,+-1,+-59,+-600}",
    "thorough": "as quick with every month stepped by 24 offsets up to +-20000 and civil round trip of every first and last day of month",
}
ASSUMPTIONS = ["lunar years 1..9999", "LunarYear.fromYear is memoised during the sweep (purity is C21/C22)"]
lp = None
POS = {}


def setup():
    global lp
    lp = load.lunar()
    load.memo_lunar_year(lp, 3000)
    for i, (y, m, n) in enumerate(A.LABEL):
        POS[(y, m)] = i


def plan(tier):
    return [["years", a, b] for a, b in core.chunks(1, 9999, 100 if tier == "quick" else 50)]


def index_of(i):
    """1-based position inside its own year"""
    y = A.LABEL[i][0]
    return i - POS[(y, A.YEARS[y][0][0])] + 1


def fields(i):
    y, m, n = A.LABEL[i]
    x = index_of(i)
    g = (x - 1 + ((y - 4) % 10 + 1) % 5 * 2) % 10
    z = (x + 1) % 12
    return (y, m, n, A.FIRST[i], m < 0, x, g, z, gz.GAN[g], gz.ZHI[z], gz.GAN[g] + gz.ZHI[z],
            "%d年%s%s月(%d天)" % (y, "闰" if m < 0 else "", gz.MONTH[abs(m)], n))


def read(m):
    return (m.getYear(), m.getMonth(), m.getDayCount(), int(m.getFirstJulianDay()) if m.getFirstJulianDay() == int(m.getFirstJulianDay()) else m.getFirstJulianDay(),
            m.isLeap(), m.getIndex(), m.getGanIndex(), m.getZhiIndex(), m.getGan(), m.getZhi(), m.getGanZhi(), m.toString())


def run(ctx, unit):
    for y in range(unit[1], unit[2] + 1):
        one_year(ctx, y)
    ctx.sample("lunar year %d: months %s" % (unit[1], [m for m, n, f in A.YEARS[unit[1]]]))


def one_year(ctx, y):
    LY, LM = lp.LunarYear, lp.LunarMonth
    ctx.here = "lunar year %d" % y
    own = A.YEARS[y]
    p0 = POS[(y, own[0][0])]
    idx = list(range(p0, p0 + len(own)))
    want = [fields(i) for i in idx]
    ly = LY.fromYear(y)
    ctx.st(1 + len(own))
    ctx.outcome(tuple(w[1:3] for w in want))
    repro = "ly = LunarYear.fromYear(%d)\nprint([str(m) for m in ly.getMonthsInYear()], ly.getDayCount(), ly.getLeapMonth())" % y
    ctx.eq("own:%d" % y, "months of lunar year %d" % y, [read(m) for m in ly.getMonthsInYear()], want, repro)
    ctx.eq("count:%d" % y, "days of lunar year %d" % y, ly.getDayCount(), sum(w[2] for w in want), repro)
    leaps = [-m for m, n, f in own if m < 0]
    got = ly.getLeapMonth()
    ctx.eq("leap:%d" % y, "leap month of lunar year %d" % y, got, leaps[0] if leaps else 0, repro)
    ctx.eq("gz:%d" % y, "stem-branch of lunar year %d" % y, (ly.getYear(), ly.getGanIndex(), ly.getZhiIndex(), ly.getGan(), ly.getZhi(), ly.getGanZhi(), ly.toString(), ly.toFullString(), str(ly)),
           (y, (y - 4) % 10, (y - 4) % 12, gz.GAN[(y - 4) % 10], gz.ZHI[(y - 4) % 12], gz.JZ[(y - 4) % 60], str(y), "%d年" % y, str(y)))
    # the month table covers the year, is contiguous, and its rows are the rows the neighbouring years report
    tab = ly.getMonths()
    key = [(m.getYear(), m.getMonth(), m.getDayCount(), m.getFirstJulianDay()) for m in tab]
    start = _first().get(key[0][3])
    exp = [A.LABEL[start + k][:2] + (A.LABEL[start + k][2], A.FIRST[start + k]) for k in range(len(tab)) if start + k < len(A.FIRST)] if start is not None else None
    ctx.tr()
    if exp is None or key[:len(exp)] != exp:
        ctx.viol("table:%d" % y, "month table of lunar year %d is %r, the years themselves say %r" % (y, key, exp),
                 "print([str(m) for m in LunarYear.fromYear(%d).getMonths()])" % y)
    have = {m: i for (m, n, f), i in zip(own, idx)}
    for m in list(range(-13, 14)):
        a, b = ly.getMonth(m), LM.fromYm(y, m)
        w = fields(have[m]) if m in have else None
        ctx.eq("getMonth:%d:%d" % (y, m), "month %d of lunar year %d" % (m, y), (a and read(a), b and read(b)), (w, w))
    far = [0, 1, -1, 2, -2, 3, -3, 11, -11, 12, -12, 13, -13, 25, -25, 130, -130, 1250, -1250]
    if ctx.tier == "thorough":
        far += [14, -14, 235, -235, 20000, -20000]
    special = {0, len(own) - 1}
    for k, (m, n, f) in enumerate(own):
        if m < 0:
            special |= {k - 1, k, k + 1}
    for k, (m, n, f) in enumerate(own):
        mm = LM.fromYm(y, m)
        steps = far if ctx.tier == "thorough" or k in special else far[:7]
        for s in steps:
            i = idx[k] + s
            if not POS[(1, 1)] <= i < len(A.LABEL):
                continue
            if abs(s) > 100 and (y % 20 and ctx.tier == "quick"):
                continue
            ctx.here = "LunarMonth %d-%d next(%d)" % (y, m, s)
            ctx.eq("step:%d:%d:%d" % (y, m, s), ctx.here, read(mm.next(s)), fields(i),
                   "m = LunarMonth.fromYm(%d, %d).next(%d)\nprint(m, m.getIndex(), m.getGanZhi())" % (y, m, s))
        if k in special or ctx.tier == "thorough":
            for d in (1, n):
                if C.JDN_MIN <= f + d - 1 <= C.JDN_MAX:
                    s = lp.Solar.fromJulianDay(mm.getFirstJulianDay() + d - 1)
                    l = s.getLunar()
                    ctx.eq("solar:%d:%d:%d" % (y, m, d), "civil date of lunar %d-%d-%d" % (y, m, d),
                           (s.getYear(), s.getMonth(), s.getDay(), l.getYear(), l.getMonth(), l.getDay()), C.ymd(f + d - 1) + (y, m, d))
    for s in (0, 1, -1, 59, -59, 600, -600):
        if 1 <= y + s <= 9999:
            ctx.eq("ystep:%d:%d" % (y, s), "LunarYear %d next(%d)" % (y, s), ly.next(s).getYear(), y + s)


_F = None


def _first():
    global _F
    if _F is None:
        _F = {f: i for i, f in enumerate(A.FIRST)}
    return _F
