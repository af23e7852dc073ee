"""C18: festivals and zodiac signs."""
from mc import core, load
from mc.model import almanac as A
from mc.model import civil as C
from mc.model import daily as D
from mc.model import gz
from mc.model import rare

ID = "C18"
TITLE = "Festivals and zodiac signs fall on exactly their days"
BOUNDS = {
    "quick": "civil festivals, star sign: every day 0001-01-01..9999-12-31; lunar festivals: every day of 240 years (1..8, 236..241, 1580..1584, 1900..2050 and a set of years covering every calendar feature), every year 1..9999: New Year's Eve "
             "and the two days before, new year and the day after, every dated lunar festival of every 4th year with the days beside it, 3 days around Qing Ming and around both She days",
    "thorough": "all of it on every day 0001..9999",
}
ASSUMPTIONS = ["the dates in the published festival tables are the definitions (captured from the pinned tree)", "lunar months and term days as in the reference (C06, C09)"]
lp = None
SIGN_FROM = ((3, 21), (4, 20), (5, 21), (6, 22), (7, 23), (8, 23), (9, 23), (10, 24), (11, 23), (12, 22), (1, 20), (2, 19))
SIGNS = ("白羊", "金牛", "双子", "巨蟹", "狮子", "处女", "天秤", "天蝎", "射手", "摩羯", "水瓶", "双鱼")
SF = D.TABLES["solar"]["FESTIVAL"]
SO = D.TABLES["solar"]["OTHER_FESTIVAL"]
SW = {tuple(map(int, k.split("-"))): v for k, v in D.TABLES["solar"]["WEEK_FESTIVAL"].items()}
LF = D.LT["FESTIVAL"]
LO = D.LT["OTHER_FESTIVAL"]
FULL = sorted(set(rare.YEARS) | set(range(1, 9)) | set(range(236, 242)) | set(range(1580, 1585)) | set(range(1900, 2051)))


def sign(m, d):
    for i in range(12):
        if SIGN_FROM[i] <= (m, d) and (i == 9 or (m, d) < SIGN_FROM[(i + 1) % 12]):
            return SIGNS[i]
    return SIGNS[9]      # 1..19 January


def setup():
    global lp
    lp = load.lunar()
    load.memo_lunar_year(lp)
    load.memo_julian(lp)
    assert sign(1, 19) == "摩羯" and sign(1, 20) == "水瓶" and sign(3, 20) == "双鱼" and sign(12, 22) == "摩羯" and sign(12, 21) == "射手" and sign(3, 21) == "白羊" and sign(2, 19) == "双鱼"


def plan(tier):
    u = [["civil", a, b] for a, b in core.chunks(1, 9999, 60)]
    if tier == "thorough":
        return u + [["lunar", a, b] for a, b in core.chunks(1, 9999, 15)]
    return u + [["lunar", y, y] for y in FULL] + [["years", a, b] for a, b in core.chunks(1, 9999, 60)]


def weekdays(y, m):
    """(first weekday date)..: dict day -> festivals of the nth-weekday kind, by walking the month"""
    out = {}
    days = C.month_days(y, m) if hasattr(C, "month_days") else None
    if days is None:
        a = C.jdn(y, m, 1)
        b = C.jdn(y + m // 12, m % 12 + 1, 1)
        days = [C.ymd(j)[2] for j in range(a, b)]
    for (fm, n, w), name in SW.items():
        if fm != m:
            continue
        hits = [d for d in days if (C.jdn(y, m, d) + 1) % 7 == w]
        k = hits[n - 1] if n else hits[-1]
        out.setdefault(k, []).append((0 if n else 1, name))
    return {k: [x for _, x in sorted(v, key=lambda t: t[0])] for k, v in out.items()}, days


TIMES = ((0, 0, 0), (23, 59, 59), (12, 0, 0), (23, 0, 0), (7, 8, 9), (0, 59, 59), (22, 59, 59))


def civil(ctx, y):
    for m in range(1, 13):
        nth, days = weekdays(y, m)
        for d in days:
            at = "%04d-%02d-%02d" % (y, m, d)
            ctx.here = at
            ctx.states += 1
            t = TIMES[(y * 3 + m * 5 + d) % len(TIMES)]
            s = lp.Solar.fromYmdHms(y, m, d, *t)
            key = "%d-%d" % (m, d)
            want = ([SF[key]] if key in SF else []) + nth.get(d, [])
            other = SO.get(key, [])
            got = (s.getFestivals(), s.getOtherFestivals(), s.getXingZuo())
            ctx.transitions += 3
            if got != (want, other, sign(m, d)):
                ctx.viol("civil:" + at, "festivals, other festivals, star sign of %s are %r, definitions give %r" % (at, got, (want, other, sign(m, d))),
                         "s = Solar.fromYmdHms(%d, %d, %d, %d, %d, %d)\nprint(s.getFestivals(), s.getOtherFestivals(), s.getXingZuo())" % ((y, m, d) + t))
            if y % 10 == 3:
                j = C.jdn(y, m, d)
                leap = C.jdn(y, 3, 1) - C.jdn(y, 2, 1) == 29
                text = "%s %02d:%02d:%02d%s 星期%s%s %s座" % ((at,) + t + ( " 闰年" if leap else "", gz.WEEK[(j + 1) % 7], "".join(" (%s)" % f for f in want + other), sign(m, d)))
                ctx.eq("text:" + at, "full text of " + at, s.toFullString(), text)


def lunar(ctx, j, n=0):
    if not C.JDN_MIN <= j <= C.JDN_MAX:
        return
    ly, lm, ld = A.lunar_of(j)
    y, m, d = C.ymd(j)
    at = "%04d-%02d-%02d" % (y, m, d)
    ctx.here = at
    ctx.states += 1
    h, mi, sec = ((0, 0, 0), (12, 0, 0), (23, 0, 0), (23, 59, 59), (0, 0, 1), (22, 59, 59))[j % 6]
    l = lp.Lunar.fromYmdHms(ly, lm, ld, h, mi, sec)
    key = "%d-%d" % (lm, ld)
    want = [LF[key]] if key in LF else []
    if j + 1 == (A.new_year(ly + 1) if ly < 9999 else A.END):
        want.append("除夕")
    other = list(LO.get(key, []))
    # every term of the civil year of the date
    if gz.TD[24 * y + 8] == j + 1:
        other.append("寒食节")
    for k, name in ((4, "春社"), (16, "秋社")):
        t = gz.TD[24 * y + k]
        if j == t + (4 - gz.day_gz(t)) % 10 + 40:
            other.append(name)
    got = (l.getFestivals(), l.getOtherFestivals())
    ctx.transitions += 2
    if got != (want, other):
        ctx.viol("lunar:" + at, "lunar festivals of %s (lunar %d-%d-%d) are %r, definitions give %r" % (at, ly, lm, ld, got, (want, other)),
                 "l = Solar.fromYmd(%d, %d, %d).getLunar()\nprint(l, l.getFestivals(), l.getOtherFestivals())" % (y, m, d))


def run(ctx, unit):
    kind, a, b = unit
    for y in range(a, b + 1):
        if kind == "civil":
            civil(ctx, y)
            ctx.outcome(C.jdn(y, 1, 1) % 7)
        elif kind == "lunar":
            for j in range(C.jdn(y, 1, 1), C.jdn(y, 12, 31) + 1):
                lunar(ctx, j)
        else:
            n = A.new_year(y)
            for j in (n - 3, n - 2, n - 1, n, n + 1):
                lunar(ctx, j)
            q = gz.TD[24 * y + 8]
            for j in (q - 2, q - 1, q):
                lunar(ctx, j)
            for k in (4, 16):
                t = gz.TD[24 * y + k]
                s = t + (4 - gz.day_gz(t)) % 10 + 40
                for j in (s - 10, s - 1, s, s + 1, s + 10):
                    lunar(ctx, j)
            if y % 4 == 1:
                for key in set(LF) | set(LO):
                    mm, dd = map(int, key.split("-"))
                    for sg in (1, -1):
                        j = A.jdn_of(y, sg * mm, dd)
                        if j is not None:
                            for e in (-1, 0, 1):
                                lunar(ctx, j + e)
            ctx.outcome((len(A.YEARS[y]), A.YEARS[y][-1][:2]))
    ctx.sample("year %d" % a)
