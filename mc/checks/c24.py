"""C24: recommended and avoided activities, lucky and unlucky spirits."""
import json
import os

from mc import core, load
from mc.model import almanac as A
from mc.model import civil as C
from mc.model import gz
from mc.model import rare

ID = "C24"
TITLE = "Almanac advice tables are total, clean and decode to the same lists"
BOUNDS = {
    "quick": "all 60x60 month and day pillars, all 720 day and hour pillar pairs, all 24 (regular and leap) months x 60 day pillars through the table functions; every day of 539 years (1900..2099, every 37th year and a set of years covering every calendar feature) at a rotating hour and "
             "at every jie day three times (either side of the jie and at 23:30), both conventions; the 13 slots of 240 days by three routes",
    "thorough": "the same, every day 0001..9999; the 13 slots of every day of 80 years",
}
ASSUMPTIONS = ["the published lists are those of data/advice.json (decoded from the pinned tree by an independent parser; one duplicate entry removed, see known_findings.json)"]
lp = None
U = None
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "data", "advice.json")) as _f:
    ADVICE = json.load(_f)
W, S = ADVICE["words"], ADVICE["spirits"]


def names(codes, table):
    return [table[c] for c in codes] or ["无"]


DAY = {tuple(map(int, k.split(","))): (names(v[0], W), names(v[1], W)) for k, v in ADVICE["day"].items()}
TIME = {tuple(map(int, k.split(","))): (names(v[0], W), names(v[1], W)) for k, v in ADVICE["time"].items()}
GODS = {tuple(map(int, k.split(","))): (names(v[0], S), names(v[1], S)) for k, v in ADVICE["gods"].items()}


def setup():
    global lp, U
    lp = load.lunar()
    from lunar_python.util import LunarUtil
    U = LunarUtil
    load.memo_lunar_year(lp)
    load.memo_julian(lp)
    # the reference itself satisfies the property
    assert len(DAY) == 3600 and len(TIME) == 720 and len(GODS) == 720
    for t in (DAY, TIME, GODS):
        for a, b in t.values():
            assert len(set(a)) == len(a) and len(set(b)) == len(b) and a and b and not ("无" in a and len(a) > 1) and not ("无" in b and len(b) > 1)
            assert a == ["无"] or not set(a) & set(b)


def plan(tier):
    u = [["tables", m] for m in range(60)] + [["slots", j, j + 19] for j in range(2451911, 2451911 + 240, 20)]
    if tier == "quick":
        return u + [["odd", 0]] + [["days", y, y] for y in sorted(set(rare.YEARS) | set(range(7, 9999, 37)) | set(range(1900, 2100)))]
    return u + [["days", a, b] for a, b in core.chunks(1, 9999, 12)] + [["slots", j, j + 199] for j in range(C.jdn(1980, 1, 1), C.jdn(2060, 1, 1), 200)]


def tables(ctx, m):
    JZ = gz.JZ
    for d in range(60):
        ctx.states += 1
        want = DAY[(m, d)]
        got = (U.getDayYi(JZ[m], JZ[d]), U.getDayJi(JZ[m], JZ[d]))
        ctx.eq("day:%d,%d" % (m, d), "recommended and avoided in %s month on %s day" % (JZ[m], JZ[d]), got, want)
        ctx.outcome((len(want[0]), len(want[1])))
        if m // 12 == d % 5:
            ctx.eq("time:%d,%d" % (d, m), "recommended and avoided on %s day in the %s hour" % (JZ[d], JZ[m]), (U.getTimeYi(JZ[d], JZ[m]), U.getTimeJi(JZ[d], JZ[m])), TIME[(d, m)])
        if m < 24:
            mm = m + 1 if m < 12 else 11 - m
            ctx.eq("gods:%d,%d" % (mm, d), "spirits in month %d on %s day" % (mm, JZ[d]), (U.getDayJiShen(mm, JZ[d]), U.getDayXiongSha(mm, JZ[d])), GODS[(abs(mm), d)])


def moment(ctx, j, sec):
    ly, lm, ld = A.lunar_of(j)
    y, m, d = C.ymd(j)
    h, mi, s = sec // 3600, sec // 60 % 60, sec % 60
    at = "%04d-%02d-%02d %02d:%02d:%02d" % (y, m, d, h, mi, s)
    ctx.here = at
    ctx.states += 1
    l = lp.Solar.fromYmdHms(y, m, d, h, mi, s).getLunar()
    day = gz.day_gz(j)
    by_day = gz.month_gz(gz.last_term_by_day(j))
    exact = gz.month_gz(gz.last_term(j * 86400 + sec))
    night = gz.day_gz(j + (h == 23))
    z = gz.time_zhi(h)
    hour = gz.gz_index((night % 10 % 5 * 2 + z) % 10, z)
    got = {
        "yi": l.getDayYi(), "yi 1": l.getDayYi(1), "yi 2": l.getDayYi(2), "ji": l.getDayJi(), "ji 1": l.getDayJi(1), "ji 2": l.getDayJi(2),
        "lucky": l.getDayJiShen(), "unlucky": l.getDayXiongSha(), "hour": (l.getTimeYi(), l.getTimeJi()), "slot": (l.getTime().getYi(), l.getTime().getJi()),
    }
    a, b = DAY[(by_day, day)], DAY[(exact, day)]
    g = GODS[(abs(lm), day)]
    t = TIME[(night, hour)]
    want = {"yi": a[0], "yi 1": a[0], "yi 2": b[0], "ji": a[1], "ji 1": a[1], "ji 2": b[1], "lucky": g[0], "unlucky": g[1], "hour": t, "slot": t}
    for k in want:
        ctx.transitions += 1
        if got[k] != want[k]:
            ctx.viol("%s:%s" % (k, at), "%s of %s: code gives %s, tables give %s" % (k, at, core.short(got[k]), core.short(want[k])))
    ctx.outcome((by_day, day % 12, abs(lm)))


def slots(ctx, j):
    ly, lm, ld = A.lunar_of(j)
    y, m, d = C.ymd(j)
    l = lp.Solar.fromYmd(y, m, d).getLunar()
    ts = l.getTimes()
    ctx.here = "%04d-%02d-%02d" % (y, m, d)
    ctx.eq("count:%d" % j, "slots of %04d-%02d-%02d" % (y, m, d), len(ts), 13)
    for i, x in enumerate(ts[:13]):
        h = max(0, 2 * i - 1)
        night = gz.day_gz(j + (i == 12))
        z = i % 12
        hour = gz.gz_index((night % 10 % 5 * 2 + z) % 10, z)
        want = TIME[(night, hour)]
        direct = lp.LunarTime.fromYmdHms(ly, lm, ld, h, 30, 0)
        own = lp.Lunar.fromYmdHms(ly, lm, ld, h, 59, 59)
        ctx.states += 1
        for r, got in (("list", (x.getYi(), x.getJi())), ("direct", (direct.getYi(), direct.getJi())), ("date", (own.getTimeYi(), own.getTimeJi()))):
            ctx.eq("slot:%d:%d:%s" % (j, i, r), "advice for slot %d of %04d-%02d-%02d (%s)" % (i, y, m, d, r), got, want)
        ctx.outcome((night, z))


def run(ctx, unit):
    kind, a = unit[:2]
    if kind == "tables":
        tables(ctx, a)
        ctx.sample("all cells of month (hour) pillar %s" % gz.JZ[a])
        return
    if kind == "odd":
        for j in rare.DAYS:
            if 1 <= A.lunar_of(j)[0] <= 9999:
                for sec in (0, 41400, 84600):
                    if min(abs(gz.TS[k] - j * 86400 - sec) for k in (gz.last_term_by_day(j), gz.last_term_by_day(j) + 1)) > 60:
                        moment(ctx, j, sec)
        ctx.sample("days at the seams of the civil calendar")
        return
    b = unit[2]
    if kind == "slots":
        for j in range(a, b + 1):
            slots(ctx, j)
        return
    for y in range(a, b + 1):
        for j in range(C.jdn(y, 1, 1), C.jdn(y, 12, 31) + 1):
            k = gz.last_term_by_day(j)
            if gz.TD[k] == j and k % 2 == 0:
                t = gz.TS[k] - j * 86400
                for sec in {max(0, t - 1), t, 84600}:
                    moment(ctx, j, sec)
            else:
                moment(ctx, j, (j * 7919) % 24 * 3600 + 1800)
    ctx.sample("days of year %d" % a)
