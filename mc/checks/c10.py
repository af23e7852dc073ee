"""C10: looking up the previous / next / current solar term, by instant and by whole day."""
from mc import core, load
from mc.model import almanac as A
from mc.model import civil as C
from mc.model import gz

ID = "C10"
TITLE = "Previous, next and current solar-term lookups are right at every boundary"
BOUNDS = {
    "quick": "the second before, of and after every solar term of years 1..9999 (240 000 boundaries), previous/next term, jie and qi by instant; by "
             "whole day as well as the terms of the day at the first and last second of the term day, at and just before the instant, and on the days before and after (all years 1..40, 1560..1610, 1890..2110, 9970..9999 and every 10th year)",
    "thorough": "all lookups at every boundary and on the neighbouring days of every term; every second of +-60 s around 300 boundaries",
}
ASSUMPTIONS = ["term instants are those of the date's own term table, which C09 checks"]
lp = None
FULL = set(range(1, 41)) | set(range(1560, 1611)) | set(range(1890, 2111)) | set(range(9970, 10000)) | set(range(0, 10000, 10))


def setup():
    global lp
    lp = load.lunar()
    load.memo_lunar_year(lp)
    load.memo_julian(lp)


def plan(tier):
    return [["years", a, b] for a, b in core.chunks(1, 9999, 50 if tier == "quick" else 15)]


def secs(s):
    return C.jdn(s.getYear(), s.getMonth(), s.getDay()) * 86400 + s.getHour() * 3600 + s.getMinute() * 60 + s.getSecond()


def lunar_at(t):
    j, r = divmod(t, 86400)
    return lp.Lunar.fromYmdHms(*(A.lunar_of(j) + (r // 3600, r // 60 % 60, r % 60)))


def fmt(t):
    return "%04d-%02d-%02d %02d:%02d:%02d" % A.secs_ymdhms(t)


def read(q):
    return None if q is None else (q.getName(), secs(q.getSolar()), q.isJie(), q.isQi(), q.toString())


def near(k, kind, fwd):
    """nearest term of a kind: k is the last term at or before the moment"""
    if fwd:
        k += 1
    while kind != "JieQi" and k % 2 != (0 if kind == "Jie" else 1):
        k += 1 if fwd else -1
    return k


def expect(ctx, what, t, q, k):
    ctx.transitions += 1
    got = read(q)
    name = A.term_name(k)
    if got is None or got[0] != name or abs(got[1] - gz.TS[k]) > 1 or got[2:] != (k % 2 == 0, k % 2 == 1, name):
        ctx.viol("%s:%s" % (what, fmt(t)), "%s at %s is %s, expected %s at %s" % (
            what, fmt(t), got and (got[0], fmt(got[1])) + got[2:], name, fmt(gz.TS[k])),
            "l = Solar.fromYmdHms(%d, %d, %d, %d, %d, %d).getLunar()\nq = l.%s\nprint(q, q.getSolar().toYmdHms())" % (A.secs_ymdhms(t) + (what,)))


def exact(ctx, t, k, whole=False):
    ctx.here = fmt(t)
    ctx.states += 1
    l = lunar_at(t)
    for kind in ("JieQi", "Jie", "Qi"):
        expect(ctx, "getPrev%s()" % kind, t, getattr(l, "getPrev" + kind)(), near(k, kind, False))
        expect(ctx, "getNext%s()" % kind, t, getattr(l, "getNext" + kind)(), near(k, kind, True))
    if whole:
        day(ctx, t, l)


def day(ctx, t, l=None):
    """whole-day lookups and the terms of the day"""
    ctx.here = fmt(t)
    ctx.states += 1
    j = t // 86400
    if l is None:
        l = lunar_at(t)
    k = gz.last_term_by_day(j)
    for kind in ("JieQi", "Jie", "Qi"):
        expect(ctx, "getPrev%s(True)" % kind, t, getattr(l, "getPrev" + kind)(True), near(k, kind, False))
        expect(ctx, "getNext%s(True)" % kind, t, getattr(l, "getNext" + kind)(True), near(k, kind, True))
    today = gz.TD[k] == j
    name = A.term_name(k) if today else ""
    jie, qi = (name, "") if k % 2 == 0 else ("", name)
    ctx.eq("today:%s" % fmt(t), "terms of the day %s" % fmt(t), (l.getJieQi(), l.getJie(), l.getQi()), (name, jie, qi),
           "l = Solar.fromYmdHms(%d, %d, %d, %d, %d, %d).getLunar()\nprint(l.getJieQi(), l.getJie(), l.getQi())" % A.secs_ymdhms(t))
    for what, q, n in (("getCurrentJieQi", l.getCurrentJieQi(), name), ("getCurrentJie", l.getCurrentJie(), jie), ("getCurrentQi", l.getCurrentQi(), qi)):
        if n:
            expect(ctx, what + "()", t, q, k)
        else:
            ctx.eq("%s:%s" % (what, fmt(t)), "%s() at %s" % (what, fmt(t)), q, None)


def run(ctx, unit):
    for y in range(unit[1], unit[2] + 1):
        full = ctx.tier == "thorough" or y in FULL
        for i in range(2, 26):
            k = 24 * y + i
            if not C.JDN_MIN < gz.TD[k] < C.JDN_MAX:
                continue
            # before 1582 the Julian drift puts some terms of a table into the neighbouring civil year
            own = lunar_at(gz.TS[k]).getJieQiTable()[A.KEYS[k - 24 * C.ymd(gz.TD[k])[0]]]
            t = secs(own)
            if abs(t - gz.TS[k]) > 1:
                ctx.viol("instant:%d" % k, "%s of year %d is at %s in the date's own table" % (A.term_name(k), y, fmt(t)))
                continue
            exact(ctx, t - 1, k - 1, full)
            exact(ctx, t, k, full)
            if full:
                for r in (0, 86399):
                    day(ctx, t // 86400 * 86400 + r)
                exact(ctx, t + 1, k)
                for dj in (-1, 1):
                    day(ctx, (t // 86400 + dj) * 86400 + (86399 if dj < 0 else 0))
            if ctx.tier == "thorough" and (y * 24 + i) % 800 == 0:
                for d in range(-60, 61):
                    exact(ctx, t + d, k if d >= 0 else k - 1)
        ctx.outcome(tuple(gz.TD[24 * y + i] - C.jdn(y, 1, 1) for i in range(2, 26)))
    ctx.sample("around %s of year %d at %s" % (A.term_name(24 * unit[1] + 4), unit[1], fmt(gz.TS[24 * unit[1] + 4])))
