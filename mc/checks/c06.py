"""C06: civil <-> lunar conversion is a bijection that agrees with the reference almanac, on every route."""
import datetime

from mc import core, load
from mc.model import almanac as A
from mc.model import civil as C
from mc.model import gz

ID = "C06"
TITLE = "Civil and lunar dates convert both ways, one to one, and agree on every route"
BOUNDS = {
    "quick": "every civil day 0001-01-01..9999-12-31 (3 652 049 days) converted to lunar and back, rotating time of day; every lunar date "
             "constructed back every third day; text forms; stepping by 10 offsets from both ends and the middle of every 4th lunar month; constructor "
             "acceptance for every lunar year 0..9999 x month -13..13 x days {-1,0,1,28..32}",
    "thorough": "as quick, every lunar date constructed back, stepping from both ends and the middle of every lunar month, fromDate route on every day",
}
ASSUMPTIONS = ["civil years 1..9999", "LunarYear.fromYear and Solar.fromJulianDay are memoised during the sweep (their purity is C21/C22)",
               "the reference almanac in data/lunar_months.txt (independently cross-checked by tools/validate_almanac.py and C08)"]
lp = None
STEPS = (1, -1, 2, -2, 29, -30, 59, 355, -384, 3000)


def setup():
    global lp
    lp = load.lunar()
    load.memo_lunar_year(lp)
    load.memo_julian(lp)


def plan(tier):
    u = [["days", a, b] for a, b in core.chunks(C.JDN_MIN, C.JDN_MAX, 15000)]
    u += [["reject", a, b] for a, b in core.chunks(0, 9999, 250)]
    n = len(A.FIRST)
    u += [["step", a, min(a + 2000, n)] for a in range(0, n, 2000)]
    return u


def ymd(s):
    return s.getYear(), s.getMonth(), s.getDay()


def hms(s):
    return s.getHour(), s.getMinute(), s.getSecond()


def text(y, m, d):
    return "%s年%s%s月%s" % ("".join(gz.NUM[int(c)] for c in str(y)), "闰" if m < 0 else "", gz.MONTH[abs(m)], gz.DAY[d])


def run(ctx, unit):
    if unit[0] == "days":
        run_days(ctx, unit[1], unit[2])
    elif unit[0] == "reject":
        for y in range(unit[1], unit[2] + 1):
            reject(ctx, y)
    else:
        run_steps(ctx, unit[1], unit[2])


def run_days(ctx, a, b):
    S, L = lp.Solar, lp.Lunar
    every = 1 if ctx.tier == "thorough" else 3
    for j in range(a, b + 1):
        c = C.ymd(j)
        t = (j * 7 % 24, j * 11 % 60, j * 13 % 60)
        ctx.here = "civil %04d-%02d-%02d %02d:%02d:%02d" % (c + t)
        want = A.lunar_of(j)
        l = S.fromYmdHms(*(c + t)).getLunar()
        got = (l.getYear(), l.getMonth(), l.getDay())
        ctx.states += 1
        ctx.transitions += 2
        if got != want:
            ctx.viol("to:%d-%d-%d" % c, "%s converts to lunar %r, the almanac says %r" % (ctx.here, got, want),
                     "print(Solar.fromYmd(%d, %d, %d).getLunar())  # expected lunar %r" % (c + (want,)))
            continue
        if hms(l) != t:
            ctx.viol("to-time:%d-%d-%d" % c, "%s: lunar time of day is %r" % (ctx.here, hms(l)))
        back = l.getSolar()
        if ymd(back) != c or hms(back) != t:
            ctx.viol("back:%d-%d-%d" % c, "%s -> lunar %r -> civil %s" % (ctx.here, want, back.toYmdHms()),
                     "print(Solar.fromYmd(%d, %d, %d).getLunar().getSolar().toYmd())" % c)
        if (every == 1 or j % every == 1) and (l.toString() != text(*want) or str(l) != text(*want)):
            ctx.viol("text:%d-%d-%d" % want, "lunar %r prints as %s, expected %s" % (want, l.toString(), text(*want)))
        if j % every == 0:
            ctx.transitions += 1
            ctx.here = "lunar %r" % (want,)
            k = L.fromYmdHms(*(want + t))
            back = k.getSolar()
            if ymd(back) != c or hms(back) != t or (k.getYear(), k.getMonth(), k.getDay()) != want:
                ctx.viol("from:%d-%d-%d" % want, "lunar %r constructs civil %s, expected %04d-%02d-%02d" % ((want, back.toYmdHms()) + c),
                         "print(Lunar.fromYmd(%d, %d, %d).getSolar().toYmd())  # expected %r" % (want + (c,)))
        if every == 1 or j % 50 == 0:
            ctx.transitions += 1
            k = L.fromDate(datetime.datetime(*((c + t) if valid_dt(c) else (2000, 1, 1) + t)))
            if valid_dt(c) and ((k.getYear(), k.getMonth(), k.getDay()) != want or hms(k) != t):
                ctx.viol("fromDate:%d-%d-%d" % c, "Lunar.fromDate(%r) gives %s" % (c, k))
    ctx.outcome((a, A.lunar_of(a)))
    ctx.sample("civil %s <-> lunar %r" % (C.ymd(a), A.lunar_of(a)))


def valid_dt(c):
    y, m, d = c
    return not (m == 2 and d == 29 and y % 4 == 0 and not (y % 100 != 0 or y % 400 == 0))


def run_steps(ctx, a, b):
    S, L = lp.Solar, lp.Lunar
    stride = 1 if ctx.tier == "thorough" else 4
    for i in range(a, b):
        if i % stride and A.LABEL[i][0] not in (0, 1, 8, 15, 16, 19, 23, 237, 238, 239, 240, 1582, 2033, 2034, 9999):
            continue
        f, (y, m, n) = A.FIRST[i], A.LABEL[i]
        for d in (1, n // 2, n):
            j = f + d - 1
            if not C.JDN_MIN <= j <= C.JDN_MAX:
                continue
            ctx.st()
            ctx.here = "lunar %d-%d-%d" % (y, m, d)
            l = L.fromYmdHms(y, m, d, 23, 59, 58)
            for k in STEPS if d != n // 2 else (1, -1):
                if not C.JDN_MIN <= j + k <= C.JDN_MAX:
                    continue
                r = l.next(k)
                ctx.eq("next:%d-%d-%d:%d" % (y, m, d, k), "lunar %d-%d-%d stepped by %d days" % (y, m, d, k),
                       (r.getYear(), r.getMonth(), r.getDay()) + hms(r) + ymd(r.getSolar()),
                       A.lunar_of(j + k) + (23, 59, 58) + C.ymd(j + k),
                       "print(Lunar.fromYmd(%d, %d, %d).next(%d))" % (y, m, d, k))


def reject(ctx, y):
    L = lp.Lunar
    ms = {m: (n, f) for m, n, f in A.YEARS[y]}
    for m in range(-13, 14):
        n, f = ms.get(m, (0, None))
        for d in (-1, 0, 1, 28, 29, 30, 31, 32):
            ok = 1 <= d <= n
            if ok and not C.JDN_MIN <= f + d - 1 <= C.JDN_MAX:
                continue
            if not ok and m not in ms and d not in (1, 30):
                continue
            ctx.here = "Lunar.fromYmd(%d, %d, %d)" % (y, m, d)
            ctx.st()
            try:
                l = L.fromYmd(y, m, d)
                got = True
            except Exception as e:
                l = None
                got = False
                ctx.outcome(type(e).__name__)
            ctx.tr()
            if got != ok:
                ctx.viol("accept:%d-%d-%d" % (y, m, d), "%s is %s, but the date %s" % (
                    ctx.here, "accepted" if got else "rejected", "exists" if ok else "does not exist"), "Lunar.fromYmd(%d, %d, %d)" % (y, m, d))
