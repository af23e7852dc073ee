"""C16: nine-nines, dog days, pentads."""
from mc import core, load
from mc.model import almanac as A
from mc.model import civil as C
from mc.model import gz
from mc.model import rare

ID = "C16"
TITLE = "Nine-nines, dog days and pentads follow the solar terms"
BOUNDS = {
    "quick": "every day of 435 years (1..30, 1570..1599, 1960..2040, 9990..9999, every 43rd year and a set of years covering every calendar feature) for all attributes; every year 1..9999: both sides of each "
             "nine-nine border, every day from 18 to 62 days after the summer solstice; pentad borders of all 24 terms of every 4th year; rotating time of day "
             "(midnight, last second, others)",
    "thorough": "every day 0001..9999, all attributes",
}
ASSUMPTIONS = ["term days as in the reference (C09)"]
lp = None
WU_HOU = ("蚯蚓结 麋角解 水泉动 雁北乡 鹊始巢 雉始雊 鸡始乳 征鸟厉疾 水泽腹坚 东风解冻 蛰虫始振 鱼陟负冰 獭祭鱼 候雁北 草木萌动 桃始华 仓庚鸣 鹰化为鸠 玄鸟至 雷乃发声 始电 桐始华 田鼠化为鴽 虹始见 "
          "萍始生 鸣鸠拂奇羽 戴胜降于桑 蝼蝈鸣 蚯蚓出 王瓜生 苦菜秀 靡草死 麦秋至 螳螂生 鵙始鸣 反舌无声 鹿角解 蜩始鸣 半夏生 温风至 蟋蟀居壁 鹰始挚 腐草为萤 土润溽暑 大雨行时 凉风至 白露降 寒蝉鸣 "
          "鹰乃祭鸟 天地始肃 禾乃登 鸿雁来 玄鸟归 群鸟养羞 雷始收声 蛰虫坯户 水始涸 鸿雁来宾 雀入大水为蛤 菊有黄花 豺乃祭兽 草木黄落 蛰虫咸俯 水始冰 地始冻 雉入大水为蜃 虹藏不见 天气上升地气下降 闭塞而成冬 "
          "鹖鴠不鸣 虎始交 荔挺出").split()
NINE = "一二三四五六七八九"
FULL = sorted(set(rare.YEARS) | set(range(7, 9999, 43)) | set(range(1, 31)) | set(range(1570, 1600)) | set(range(1960, 2041)) | set(range(9990, 10000)))


def setup():
    global lp
    lp = load.lunar()
    load.memo_lunar_year(lp)
    load.memo_julian(lp)


def plan(tier):
    if tier == "thorough":
        return [["all", a, b] for a, b in core.chunks(1, 9999, 20)]
    return [["odd", 0, 0]] + [["all", y, y] for y in FULL] + [["years", a, b] for a, b in core.chunks(1, 9999, 60)]


def at_time(j):
    return ((0, 0, 0), (23, 59, 59), (12, 0, 0), (5, 30, 1), (23, 0, 0), (0, 59, 59))[j % 6]


def make(ctx, j, sec=None):
    h, mi, s = at_time(j // 2 + j % 7) if sec is None else (sec // 3600, sec // 60 % 60, sec % 60)
    at = "%04d-%02d-%02d %02d:%02d:%02d" % (C.ymd(j) + (h, mi, s))
    ctx.here = at
    ctx.states += 1
    return lp.Lunar.fromYmdHms(*(A.lunar_of(j) + (h, mi, s))), at


def show(x):
    return None if x is None else (x.getName(), x.getIndex(), x.toString(), str(x), x.toFullString())


def rep(at, call):
    y, m, d, h, mi, s = at[:4], at[5:7], at[8:10], at[11:13], at[14:16], at[17:19]
    return "print(Solar.fromYmdHms(%d, %d, %d, %d, %d, %d).getLunar().%s)" % (int(y), int(m), int(d), int(h), int(mi), int(s), call)


def full(n, i):
    return (n, i, n, n, "%s第%d天" % (n, i))


def nines(ctx, l, at, j):
    k = gz.last_term_by_day(j)
    d = j - gz.TD[k - (k - 1) % 24]
    want = full(NINE[d // 9] + "九", d % 9 + 1) if d < 81 else None
    ctx.eq("nines:" + at, "nine-nine of " + at, show(l.getShuJiu()), want, rep(at, "getShuJiu()"))


def dogs(ctx, l, at, j):
    y = C.ymd(j)[0]
    xz, lq = gz.TD[24 * y + 13], gz.TD[24 * y + 16]
    third = xz + (6 - gz.day_gz(xz)) % 10 + 20
    last = lq + (6 - gz.day_gz(lq)) % 10
    want = None
    if third <= j < third + 10:
        want = full("初伏", j - third + 1)
    elif third + 10 <= j < last:
        want = full("中伏", j - third - 9)
    elif last <= j < last + 10:
        want = full("末伏", j - last + 1)
    ctx.eq("dogs:" + at, "dog days of " + at, show(l.getFu()), want, rep(at, "getFu()"))


def pentads(ctx, l, at, j):
    k = gz.last_term_by_day(j)
    n = min(2, (j - gz.TD[k]) // 5)
    ctx.eq("pentad:" + at, "pentad of " + at, (l.getWuHou(), l.getHou()), (WU_HOU[(k - 1) % 24 * 3 + n], "%s %s" % (A.term_name(k), ("初候", "二候", "三候")[n])),
           rep(at, "getWuHou()"))


def every(ctx, j, sec=None):
    if C.JDN_MIN <= j <= C.JDN_MAX:
        l, at = make(ctx, j, sec)
        nines(ctx, l, at, j)
        dogs(ctx, l, at, j)
        pentads(ctx, l, at, j)


def run(ctx, unit):
    if unit[0] == "odd":
        for j in rare.DAYS:
            for sec in (0, 43200, 86399):
                every(ctx, j, sec)
        ctx.sample("days at the seams of the civil calendar")
        return
    for y in range(unit[1], unit[2] + 1):
        if unit[0] == "all":
            for j in range(C.jdn(y, 1, 1), C.jdn(y, 12, 31) + 1):
                l, at = make(ctx, j)
                nines(ctx, l, at, j)
                dogs(ctx, l, at, j)
                pentads(ctx, l, at, j)
        else:
            for i in {1, 13, 16, 1 + y % 24}:
                t = gz.TS[24 * y + i] % 86400
                for sec in {t, max(0, t - 1), min(86399, t + 1)}:
                    every(ctx, gz.TD[24 * y + i], sec)
            d0 = gz.TD[24 * y + 1]
            for n in range(0, 82, 9):
                for j in (d0 + n - 1, d0 + n) + ((d0 + 82,) if n == 81 else ()):
                    if j >= C.JDN_MIN:
                        l, at = make(ctx, j)
                        nines(ctx, l, at, j)
            xz = gz.TD[24 * y + 13]
            for j in range(xz + 18, xz + 63):
                l, at = make(ctx, j)
                dogs(ctx, l, at, j)
            if y % 4 == 3:
                for i in range(1, 25):
                    t = gz.TD[24 * y + i]
                    for j in (t - 1, t, t + 4, t + 5, t + 9, t + 10):
                        if C.JDN_MIN <= j <= C.JDN_MAX:
                            l, at = make(ctx, j)
                            pentads(ctx, l, at, j)
        ctx.outcome(tuple(gz.TD[24 * y + i] % 10 for i in (1, 13, 16)))
    ctx.sample("year %d: summer solstice %s" % (unit[1], C.ymd(gz.TD[24 * unit[1] + 13])))
