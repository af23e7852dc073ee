"""C23: Buddhist and Taoist calendars as views of the lunar date."""
import json
import os

from mc import core, load
from mc.model import almanac as A
from mc.model import civil as C
from mc.model import daily as D
from mc.model import gz
from mc.model import rare

ID = "C23"
TITLE = "Buddhist and Taoist calendars are views of the same lunar date"
BOUNDS = {
    "quick": "all answers of both views on every day of 426 years (13..20, 236..240, 1582, 1984..2060, every 37th year and a set of years covering every calendar feature), both constructors and the date's own views; in every lunar year 1..9998: the year numbers, "
             "day 28 of every month (six fasts), the first and last day of every leap month; rejection of day 30/31 of every month and of missing leap months of 300 years",
    "thorough": "all answers of both views on every day 0001..9999; rejections in every year",
}
ASSUMPTIONS = ["the festival, fast and mansion tables are the definitions (captured from the pinned tree): Buddhist festivals repeat in leap months, all other dated lists name regular months only",
               "lunar months and term days as in the reference (C06, C09)"]
lp = None
FT = D.TABLES["foto"]
TT = D.TABLES["tao"]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "data", "rites.json")) as _f:
    RITES = json.load(_f)
FULL = sorted(set(rare.YEARS) | set(range(7, 9999, 37)) | set(range(13, 21)) | set(range(236, 241)) | {1582} | set(range(1984, 2061)))
DIGITS = "〇一二三四五六七八九"
SIX = (8, 14, 15, 23, 29, 30)
TEN = (1, 8, 14, 15, 18, 23, 24, 28, 29, 30)
SHE = ("甲子", "戊寅", "甲午", "戊申")     # winter, spring, summer, autumn
BA_JIE = ("立春", "春分", "立夏", "夏至", "立秋", "秋分", "立冬", "冬至")


def digits(y):
    return "".join(DIGITS[int(c)] for c in str(y))


def month_text(m):
    return ("闰" if m < 0 else "") + gz.MONTH[abs(m)]


def fest(f):
    return [f.getName(), f.getResult(), f.isEveryMonth(), f.getRemark()]


def rite(f):
    return [f.getName(), f.getRemark()]


def full(f):
    s = f[0]
    if f[1]:
        s += " " + f[1]
    if len(f) > 3 and f[3]:
        s += " " + f[3]
    return s


def setup():
    global lp
    lp = load.lunar()
    load.memo_lunar_year(lp)
    load.memo_julian(lp)


def plan(tier):
    if tier == "thorough":
        return [["days", a, b] for a, b in core.chunks(1, 9999, 10)] + [["reject", a, b] for a, b in core.chunks(1, 9998, 100)]
    return [["odd", 0, 0]] + [["days", y, y] for y in FULL] + [["years", a, b] for a, b in core.chunks(1, 9998, 60)] + [["reject", a, b] for a, b in core.chunks(1, 9998, 100)]


def foto_answers(f):
    return {
        "date": [f.getYear(), f.getMonth(), f.getDay()],
        "words": [f.getYearInChinese(), f.getMonthInChinese(), f.getDayInChinese(), f.toString(), str(f)],
        "festivals": [fest(x) for x in f.getFestivals()],
        "festival texts": [[x.toString(), str(x), x.toFullString()] for x in f.getFestivals()],
        "other": f.getOtherFestivals(),
        "full": f.toFullString(),
        "fasts": [f.isMonthZhai(), f.isDayYangGong(), f.isDayZhaiShuoWang(), f.isDayZhaiSix(), f.isDayZhaiTen(), f.isDayZhaiGuanYin()],
        "mansion": [f.getXiu(), f.getXiuLuck(), f.getXiuSong(), f.getZheng(), f.getAnimal(), f.getGong(), f.getShou()],
    }


def foto_model(ly, lm, ld, j):
    last = next(n for m, n, _ in A.YEARS[ly] if m == lm)
    fs = RITES["foto"].get("%d-%d" % (abs(lm), ld), [])
    xiu = FT["XIU_27"][(FT["XIU_OFFSET"][abs(lm) - 1] + ld - 1) % 27]
    text = "%s年%s月%s" % (digits(ly + 544), month_text(lm), gz.DAY[ld])
    gong = D.LT["GONG"][xiu]
    return {
        "date": [ly + 544, lm, ld],
        "words": [digits(ly + 544), month_text(lm), gz.DAY[ld], text, text],
        "festivals": fs,
        "festival texts": [[f[0], f[0], full(f)] for f in fs],
        "other": FT["OTHER_FESTIVAL"].get("%d-%d" % (lm, ld), []),
        "full": text + "".join(" (%s)" % f[0] for f in fs),
        "fasts": [lm in (1, 5, 9), any(f[0] == "杨公忌" for f in fs), ld in (1, 15), ld in SIX or ld == 28 and last < 30, ld in TEN, "%d-%d" % (lm, ld) in FT["DAY_ZHAI_GUAN_YIN"]],
        "mansion": [xiu, D.LT["XIU_LUCK"][xiu], D.LT["XIU_SONG"][xiu], D.LT["ZHENG"][xiu], D.LT["ANIMAL"][xiu], gong, D.LT["SHOU"][gong]],
    }


def tao_answers(t):
    return {
        "date": [t.getYear(), t.getMonth(), t.getDay()],
        "words": [t.getYearInChinese(), t.getMonthInChinese(), t.getDayInChinese(), t.toString(), str(t)],
        "festivals": [rite(x) for x in t.getFestivals()],
        "festival texts": [[x.toString(), str(x), x.toFullString()] for x in t.getFestivals()],
        "full": t.toFullString(),
        "days": [t.isDaySanHui(), t.isDaySanYuan(), t.isDayBaJie(), t.isDayWuLa(), t.isDayBaHui(), t.isDayMingWu(), t.isDayAnWu(), t.isDayWu(), t.isDayTianShe()],
    }


def tao_model(ly, lm, ld, j, h):
    k = gz.last_term_by_day(j)
    term = A.term_name(k) if gz.TD[k] == j else ""
    day = gz.JZ[gz.day_gz(j)]
    fs = [list(x) for x in RITES["tao"].get("%d-%d" % (lm, ld), [])]
    if term == "冬至":
        fs.append(["元始天尊圣诞", ""])
    elif term == "夏至":
        fs.append(["灵宝天尊圣诞", ""])
    if term in BA_JIE:
        fs.append([TT["BA_JIE"][term], ""])
    if day in TT["BA_HUI"]:
        fs.append([TT["BA_HUI"][day], ""])
    key = "%d-%d" % (lm, ld)
    mg = gz.month_gz(k)
    season = (mg % 12 - 2) % 12 // 3                  # 0 spring .. 3 winter
    ming = day[0] == "戊"
    an = day[1] == TT["AN_WU"][abs(lm) - 1]
    text = "%s年%s月%s" % (digits(ly + 2697), month_text(lm), gz.DAY[ld])
    return {
        "date": [ly + 2697, lm, ld],
        "words": [digits(ly + 2697), month_text(lm), gz.DAY[ld], text, text],
        "festivals": fs,
        "festival texts": [[f[0], f[0], f[0] + ("[%s]" % f[1] if f[1] else "")] for f in fs],
        "full": "道歷%s年，天运%s年，%s月，%s日。%s月%s日，%s時。" % (digits(ly + 2697), gz.JZ[gz.year_gz(ly)], gz.JZ[mg], day, month_text(lm), gz.DAY[ld], gz.ZHI[gz.time_zhi(h)]),
        "days": [key in TT["SAN_HUI"], key in TT["SAN_YUAN"], term in BA_JIE, key in TT["WU_LA"], day in TT["BA_HUI"], ming, an, ming or an, day == SHE[(season + 1) % 4]],
    }


def check(ctx, route, kind, at, got, want):
    for k, w in want.items():
        ctx.transitions += 1
        if got[k] != w:
            ctx.viol("%s:%s:%s:%s" % (kind, k, route, at), "%s %s on %s (%s): code gives %s, definitions give %s" % (kind, k, at, route, core.short(got[k]), core.short(w)))


def day(ctx, j, routes=True):
    if not C.JDN_MIN <= j <= C.JDN_MAX:
        return
    ly, lm, ld = A.lunar_of(j)
    if ly < 1 or ly > 9999:
        return
    y, m, d = C.ymd(j)
    h, mi, sec = ((0, 0, 0), (11, 30, 59), (23, 59, 59), (6, 59, 59), (23, 0, 0), (0, 59, 59), (22, 59, 59))[j % 7]
    at = "%04d-%02d-%02d %02d:%02d:%02d (lunar %d-%d-%d)" % (y, m, d, h, mi, sec, ly, lm, ld)
    ctx.here = at
    ctx.states += 1
    l = lp.Solar.fromYmdHms(y, m, d, h, mi, sec).getLunar()
    fm = foto_model(ly, lm, ld, j)
    tm = tao_model(ly, lm, ld, j, h)
    f, t = l.getFoto(), l.getTao()
    check(ctx, "getFoto", "foto", at, foto_answers(f), fm)
    check(ctx, "getTao", "tao", at, tao_answers(t), tm)
    for x, k in ((f, "foto"), (t, "tao")):
        ctx.eq("%s:lunar:%s" % (k, at), "lunar date behind the %s date of %s" % (k, at), x.getLunar().getSolar().toYmdHms(), "%04d-%02d-%02d %02d:%02d:%02d" % (y, m, d, h, mi, sec))
    if routes:
        for r, x in (("fromYmdHms", lp.Foto.fromYmdHms(ly + 544, lm, ld, h, mi, sec)), ("fromLunar", lp.Foto.fromLunar(l))):
            check(ctx, r, "foto", at, foto_answers(x), fm)
        x = lp.Foto.fromYmd(ly + 544, lm, ld)
        ctx.eq("foto:fromYmd:" + at, "civil day of Foto.fromYmd at " + at, (x.getLunar().getSolar().toYmdHms(), x.toFullString()), ("%04d-%02d-%02d 00:00:00" % (y, m, d), fm["full"]))
        for r, x in (("fromYmdHms", lp.Tao.fromYmdHms(ly + 2697, lm, ld, h, mi, sec)), ("fromLunar", lp.Tao.fromLunar(l))):
            check(ctx, r, "tao", at, tao_answers(x), tm)
        x = lp.Tao.fromYmd(ly + 2697, lm, ld)
        ctx.eq("tao:fromYmd:" + at, "civil day of Tao.fromYmd at " + at, (x.getLunar().getSolar().toYmdHms(), x.toString(), x.isDayMingWu()), ("%04d-%02d-%02d 00:00:00" % (y, m, d), tm["words"][3], tm["days"][5]))
    ctx.outcome((tuple(fm["fasts"]), tuple(tm["days"])))


def rejected(f):
    try:
        return "accepted as " + f().getLunar().getSolar().toYmd()
    except Exception:
        return "rejected"


def run(ctx, unit):
    kind, a, b = unit
    if kind == "odd":
        for j in rare.DAYS:
            day(ctx, j)
        ctx.sample("days at the seams of the civil calendar")
        return
    for y in range(a, b + 1):
        if kind == "days":
            for j in range(C.jdn(y, 1, 1), C.jdn(y, 12, 31) + 1):
                day(ctx, j, y in FULL)
        elif kind == "years":
            for m, n, j in A.YEARS[y]:
                if m < 0:
                    day(ctx, j, False)
                    day(ctx, j + n - 1, False)
                ctx.states += 1
                if not C.JDN_MIN <= j + 27 <= C.JDN_MAX:
                    continue
                f = lp.Foto.fromYmd(y + 544, m, 28)
                ctx.eq("six:%d/%d" % (y, m), "six-fast day on day 28, Buddhist year, month of lunar month %d of year %d (%d days)" % (m, y, n), (f.isDayZhaiSix(), f.getYear(), f.getMonth()), (n < 30, y + 544, m))
                if y % 9 == 0:
                    t = lp.Tao.fromYmd(y + 2697, m, 28)
                    ctx.eq("taoyear:%d/%d" % (y, m), "Taoist date 28/%d of lunar year %d" % (m, y), (t.getYear(), t.getMonth(), t.getDay()), (y + 2697, m, 28))
            ctx.outcome((len(A.YEARS[y]), sum(n for m, n, j in A.YEARS[y])))
        else:
            if b - a > 0 and y not in (1, 9998) and y % 33 and not 1980 <= y <= 2060 and ctx.tier == "quick":
                continue
            have = {m: n for m, n, j in A.YEARS[y]}
            for m in list(range(1, 13)) + list(range(-12, 0)):
                n = have.get(m, 0)
                for d in ((n + 1, 31, 0, -1) if n else (1, 15)):
                    if d == 30 and n == 30:
                        continue
                    ctx.states += 1
                    for k, f in (("foto", lambda: lp.Foto.fromYmd(y + 544, m, d)), ("tao", lambda: lp.Tao.fromYmd(y + 2697, m, d))):
                        ctx.eq("reject:%s:%d/%d/%d" % (k, y, m, d), "%s date for lunar year %d month %d day %d, which does not exist" % (k, y, m, d), rejected(f), "rejected")
    ctx.sample("%s %d" % (kind, a))
