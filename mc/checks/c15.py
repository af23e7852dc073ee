"""C15: start of luck, decades, years, months and minor cycles."""
from mc import core, load
from mc.model import almanac as A
from mc.model import civil as C
from mc.model import gz
from mc.model import rare

ID = "C15"
TITLE = "Luck cycles start on time and tile life without gaps"
BOUNDS = {
    "quick": "births: every day 1924..2043 at a rotating slot, every slot of every jie day and its neighbours and the seconds around every jie of 1924..2043, jie days of "
             "84 years covering every calendar feature and of 5 windows of 12 years from year 1 to 9900, every day of Sep..Dec 1582; both genders, both conventions; full decade/year/month/minor expansions at every 131st birth, with "
             "list lengths 0..13 and 130",
    "thorough": "as quick, every slot of every day 1984..2043, expansions at every 13th birth",
}
ASSUMPTIONS = ["gender 1 (male) / 0 (female), conventions 1 and 2", "23:00..23:59 counts as the twelfth slot of its own civil day in convention 1",
               "luck starts before year 9999"]
lp = None
SLOTS = (0, 1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23)


def setup():
    global lp
    lp = load.lunar()
    load.memo_lunar_year(lp)
    load.memo_julian(lp)


def plan(tier):
    u = [["days", y] for y in range(1924, 2044)] + [["jie", y] for y in range(1924, 2044)]
    u += [["jie", y] for y in rare.YEARS if y < 9800]
    for w in (1, 700, 1577, 1640, 9888):
        u += [["jie", y] for y in range(w, w + 12)]
    u += [["days", y] for y in (1, 2, 15, 16, 17, 19, 1581, 1582, 1583, 1600, 1700, 1900)]
    u += [["gap", a, b] for a, b in core.chunks(C.jdn(1582, 9, 1), C.jdn(1582, 12, 31), 12)]
    u += [["odd", k] for k in range(24)]
    u += [["lunarnew", y] for y in (15, 16, 18, 19, 20)]
    return u


def secs(s):
    return C.jdn(s.getYear(), s.getMonth(), s.getDay()) * 86400 + s.getHour() * 3600 + s.getMinute() * 60 + s.getSecond()


def fmt(t):
    return "%04d-%02d-%02d %02d:%02d:%02d" % A.secs_ymdhms(t)


def clamp(y, m, d):
    if (y, m) == (1582, 10):
        return d + 10 if 4 < d < 15 else d
    return min(d, C.month_len(y, m))


def slot(t):
    h = t % 86400 // 3600
    return t // 86400 * 12 + (11 if h == 23 else (h + 1) // 2)


def start_of(t, lo, hi, forward, sect):
    """(years, months, days, hours) from birth to the start of luck"""
    a, b = (t, hi) if forward else (lo, t)
    if sect == 2:
        m = b // 60 - a // 60
        return m // 4320, m % 4320 // 360, m % 360 // 12, m % 12 * 2
    d = (slot(b) - slot(a)) * 10
    return d // 360, d % 360 // 30, d % 30, 0


def start_date(t, st):
    j, r = divmod(t, 86400)
    y, m, d = C.ymd(j)
    y += st[0]
    d = clamp(y, m, d)
    k = y * 12 + m - 1 + st[1]
    y, m = k // 12, k % 12 + 1
    d = clamp(y, m, d)
    return C.jdn(y, m, d) * 86400 + r + st[2] * 86400 + st[3] * 3600


def birth(ctx, t, lo, hi, year_ex, month_ex, expand):
    """lo/hi: instants of the jie at or before and after birth, as the code has them"""
    at = fmt(t)
    ctx.here = at
    j, r = divmod(t, 86400)
    h, mi, s = r // 3600, r // 60 % 60, r % 60
    l = lp.Lunar.fromYmdHms(*(A.lunar_of(j) + (h, mi, s)))
    e = l.getEightChar()
    by = C.ymd(j)[0]
    yang = year_ex % 2 == 0
    for gender in (1, 0):
        fwd = yang == (gender == 1)
        for sect in (1, 2):
            ctx.states += 1
            st = start_of(t, lo, hi, fwd, sect)
            rep = ("y = Solar.fromYmdHms(%d, %d, %d, %d, %d, %d).getLunar().getEightChar().getYun(%d, %d)\n"
                   "print(y.isForward(), y.getStartYear(), y.getStartMonth(), y.getStartDay(), y.getStartHour(), y.getStartSolar().toYmdHms())\n"
                   "for d in y.getDaYun():\n  print(d.getStartYear(), d.getEndYear(), d.getStartAge(), d.getEndAge(), d.getGanZhi())") % (C.ymd(j) + (h, mi, s, gender, sect))
            what = "%s gender %d convention %d" % (at, gender, sect)
            yun = e.getYun(gender, sect) if sect == 2 or t % 2 else e.getYun(gender)
            got = (yun.isForward(), yun.getGender(), yun.getStartYear(), yun.getStartMonth(), yun.getStartDay(), yun.getStartHour())
            if not ctx.eq("start:" + what, "direction, gender and start of luck, birth " + what, got, (fwd, gender) + st, rep):
                continue
            sd = start_date(t, st)
            if not ctx.eq("date:" + what, "date luck starts, birth " + what, fmt(secs(yun.getStartSolar())), fmt(sd), rep):
                continue
            sy = A.secs_ymdhms(sd)[0]
            n = (10, 10, 10, 10) if not expand else (130 if j % 4 == 0 else 10, 0, 1, 13 if j % 4 else 130)
            k = (gender * 2 + sect - 1) if expand else 0
            dys = yun.getDaYun() if n[k] == 10 else yun.getDaYun(n[k])
            if not ctx.eq("len:" + what, "number of decades, birth " + what, len(dys), n[k], rep):
                continue
            if expand and not dys:
                dys = yun.getDaYun(4)
            step = 1 if fwd else -1
            ok = True
            for i, d in enumerate(dys):
                p = (month_ex + step * i) % 60
                if i == 0:
                    want = (0, by, sy - 1, 1, sy - by, "")
                    got = (d.getIndex(), d.getStartYear(), d.getEndYear(), d.getStartAge(), d.getEndAge(), d.getGanZhi())
                else:
                    a = sy + (i - 1) * 10
                    want = (i, a, a + 9, a - by + 1, a - by + 10, gz.JZ[p], gz.xun(p), gz.kong(p))
                    got = (d.getIndex(), d.getStartYear(), d.getEndYear(), d.getStartAge(), d.getEndAge(), d.getGanZhi(), d.getXun(), d.getXunKong())
                ctx.transitions += 1
                if got != want:
                    ctx.viol("decade:%s:%d" % (what, i), "decade %d, birth %s: %r, expected %r" % (i, what, got, want), rep)
                    ok = False
                    break
            if expand and ok:
                expansion(ctx, what, dys[:14], by, sy, month_ex, gz.JZ.index(l.getTimeInGanZhi()), step, rep)
            ctx.outcome((fwd, sect) + st)


def expansion(ctx, what, dys, by, sy, month_ex, time, step, rep):
    ctx.trace()
    for i, d in enumerate(dys):
        a = by if i == 0 else sy + (i - 1) * 10
        n0 = sy - by if i == 0 else 10
        for n in (None, 0, 3, 12, 130) if i in (0, 2) else (None,):
            cnt = n0 if i == 0 or n is None else n
            ln = d.getLiuNian() if n is None else d.getLiuNian(n)
            xy = d.getXiaoYun() if n is None else d.getXiaoYun(n)
            if not ctx.eq("lens:%s:%d:%s" % (what, i, n), "numbers of years and minor cycles of decade %d (asked %s), birth %s" % (i, n, what),
                          (len(ln), len(xy)), (cnt, cnt), rep):
                continue
            for x in range(cnt):
                y = a + x
                age = y - by + 1
                p = gz.year_gz(y)
                q = (time + step * age) % 60
                ctx.eq("year:%s:%d:%d" % (what, i, x), "year %d of decade %d, birth %s" % (x, i, what),
                       (ln[x].getIndex(), ln[x].getYear(), ln[x].getAge(), ln[x].getGanZhi(), ln[x].getXun(), ln[x].getXunKong()),
                       (x, y, age, gz.JZ[p], gz.xun(p), gz.kong(p)), rep)
                ctx.eq("minor:%s:%d:%d" % (what, i, x), "minor cycle %d of decade %d, birth %s" % (x, i, what),
                       (xy[x].getIndex(), xy[x].getYear(), xy[x].getAge(), xy[x].getGanZhi(), xy[x].getXun(), xy[x].getXunKong()),
                       (x, y, age, gz.JZ[q], gz.xun(q), gz.kong(q)), rep)
                if x == (i + by) % 10 and n is None:
                    ly = ln[x].getLiuYue()
                    if ctx.eq("months:%s:%d" % (what, i), "number of months of a year, birth " + what, len(ly), 12):
                        for m in range(12):
                            g = gz.gz_index((p % 10 * 2 + 2 + m) % 10, (m + 2) % 12)
                            ctx.eq("month:%s:%d:%d" % (what, i, m), "month %d of year %d, birth %s" % (m, y, what),
                                   (ly[m].getIndex(), ly[m].getMonthInChinese(), ly[m].getGanZhi(), ly[m].getXun(), ly[m].getXunKong()),
                                   (m, gz.MONTH[m + 1], gz.JZ[g], gz.xun(g), gz.kong(g)), rep)


def code_instant(ctx, k):
    """the code's own instant of term k (checked to be within a second of the reference)"""
    j = gz.TD[k]
    if j < C.JDN_MIN:
        return gz.TS[k]
    so = lp.Lunar.fromYmd(*A.lunar_of(j)).getJieQiTable()[A.KEYS[k - 24 * C.ymd(j)[0]]]
    t = secs(so)
    if abs(t - gz.TS[k]) > 1:
        ctx.viol("instant:%d" % k, "term %s at %s, expected %s" % (A.term_name(k), fmt(t), fmt(gz.TS[k])))
        return gz.TS[k]
    return t


def around(ctx, t, inst, expand):
    """birth at t; inst caches the code's term instants"""
    k = gz.last_term(t)
    k -= k % 2
    # settle the last second with the code's own instants
    for q in (k + 2, k, k - 2):
        if q not in inst:
            inst[q] = code_instant(ctx, q)
    while inst[k + 2] <= t:
        k += 2
        if k + 2 not in inst:
            inst[k + 2] = code_instant(ctx, k + 2)
    while inst[k] > t:
        k -= 2
        if k not in inst:
            inst[k] = code_instant(ctx, k)
    birth(ctx, t, inst[k], inst[k + 2], gz.year_gz(gz.year_of_term(k)), gz.month_gz(k), expand)


def odd():
    """births at unusual times of unusual days"""
    out = [j * 86400 + s for j in rare.DAYS if C.JDN_MIN + 40 < j < C.jdn(9800, 1, 1) for s in ((0, 84600) if j % 2 else (86399, 43200))]
    for n, y in enumerate(rare.YEARS):
        if y > 9800:
            continue
        for m, days, j in A.YEARS[y]:
            if m < 0:
                out += [j * 86400 + 41400, j * 86400 + 82800, (j + days - 1) * 86400 + 86399]
        j = A.new_year(y)
        out += [(j - 1) * 86400 + 84000, j * 86400 + (0, 82800)[n % 2]]
        j = gz.TD[24 * y + 4]
        out += [j * 86400, j * 86400 + 86399, C.jdn(y, 12, 31) * 86400 + 82800 + n]
    return sorted(set(out))


def run(ctx, unit):
    inst = {}
    n = 0
    every = 13 if ctx.tier == "thorough" else 131
    if unit[0] == "jie":
        y = unit[1]
        for i in range(2, 26, 2):
            k = 24 * y + i
            if gz.TD[k] <= C.JDN_MIN + 40:
                continue
            t0 = code_instant(ctx, k)
            for d in (-60, -1, 0, 1, 60):
                around(ctx, t0 + d, inst, n % every == 0)
                n += 1
            for dj in (-1, 0, 1):
                for h in (SLOTS if dj == 0 else SLOTS[(y + i) % 3::3]):
                    around(ctx, (gz.TD[k] + dj) * 86400 + h * 3600 + (y * 7 + h) % 60 * 60 + i, inst, n % every == 0)
                    n += 1
    elif unit[0] == "days":
        y = unit[1]
        for j in range(max(C.jdn(y, 1, 1), C.JDN_MIN + 40), C.jdn(y, 12, 31) + 1):
            for h in (SLOTS if ctx.tier == "thorough" and y >= 1984 else (SLOTS[j % 13],)):
                around(ctx, j * 86400 + h * 3600 + j % 60 * 60 + j % 59, inst, n % every == 0)
                n += 1
    elif unit[0] == "odd":
        for t in odd()[unit[1]::24]:
            k = gz.last_term(t)
            if t - gz.TS[k] > 1 and gz.TS[k + 1] - t > 1:
                around(ctx, t, inst, ctx.tier == "thorough" or n % 2 == unit[1] % 2)
                n += 1
    elif unit[0] == "gap":
        for j in range(unit[1], unit[2] + 1):
            for h in SLOTS[j % 2::2]:
                around(ctx, j * 86400 + h * 3600 + j % 60 * 60, inst, n % every == 0)
                n += 1
    else:
        y = unit[1]
        for j in range(A.new_year(y) - 20, A.new_year(y) + 20):
            around(ctx, j * 86400 + 43200, inst, True)
    ctx.sample("%s %s: %d births" % (unit[0], unit[1], n))
