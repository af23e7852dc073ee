"""C14: reverse lookup of four pillars, against the complete set of matching two-hour slots."""
from mc import clock, core, load
from mc.model import almanac as A
from mc.model import civil as C
from mc.model import gz

ID = "C14"
TITLE = "Reverse lookup of four pillars is sound and complete"
BOUNDS = {
    "quick": "the pillars of 2 rotating slots of every day 1900..2024, of all 13 slots of every jie day and its neighbours 1898..2025, of jie days of every 23rd "
             "year from year 1 (base year 1), both sects; all 3600 year x month pillar pairs and all 3600 day x hour pairs; base years {1, 1500, 1582, 1900, 1984, this "
             "year}; clock at 1 Jan and 31 Dec of 4 years; the whole answer set is compared",
    "thorough": "all 13 slots of every day 1900..2024, jie days of every year from year 1",
}
ASSUMPTIONS = ["the clock is a stand-in", "a slot cut by a jie may be answered or not, but an answer must lie in the right part of it",
               "the months considered are those whose jie falls in or after the base year, in pillar years from 1 up to the current year"]
lp = None
SLOTS = (0, 1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23)


def setup():
    global lp
    clock.install()
    lp = load.lunar()
    load.memo_lunar_year(lp)
    load.memo_julian(lp)


def plan(tier):
    u = [["days", y] for y in range(1900, 2025)]
    u += [["jie", y] for y in range(1898, 2026)]
    u += [["old", y] for y in (range(1, 2024, 23) if tier == "quick" else range(1, 2024))]
    u += [["old", y] for y in (15, 16, 17, 18, 19, 20, 1581, 1582, 1583)]
    u += [["ym", a] for a in range(0, 60, 2)]
    u += [["dt", a] for a in range(0, 60, 6)]
    u += [["clock", y] for y in (1899, 1983, 2023, 2044)]
    return u


def expected(year, month, day, time, sect, base, now):
    """all slots [a, b) (seconds) with these pillars: {a: (a, b, whole, lo, hi)}"""
    out = []
    m = (month % 12 - 2) % 12
    if month % 10 != (year % 10 * 2 + 2 + m) % 10:
        return out
    z = time % 12
    for y in range(base - 1, now + 1):
        if (y - 4) % 60 != year or y < 1:
            continue
        k = 24 * y + 4 + 2 * m
        if C.ymd(gz.TD[k])[0] < base:
            continue
        lo, hi = gz.TS[k], gz.TS[k + 2]
        j = gz.TD[k] - 1
        j += (day - gz.day_gz(j)) % 60
        while j <= gz.TD[k + 2] + 1:
            if z == 0:
                spans = [(j * 86400 - 3600, j * 86400 + 3600, day)] if sect == 1 else [(j * 86400, j * 86400 + 3600, day), (j * 86400 + 82800, (j + 1) * 86400, day + 1)]
            else:
                a = j * 86400 + (2 * z - 1) * 3600
                spans = [(a, a + 7200, day)]
            for a, b, e in spans:
                if gz.gz_index((e % 10 * 2 + z) % 10, z) == time and a < hi and b > lo:
                    out.append((a, b, a - 1 >= lo and b <= hi - 1, lo, hi))
            j += 60
    return out


def secs(s):
    return C.jdn(s.getYear(), s.getMonth(), s.getDay()) * 86400 + s.getHour() * 3600 + s.getMinute() * 60 + s.getSecond()


def fmt(t):
    return "%04d-%02d-%02d %02d:%02d:%02d" % A.secs_ymdhms(t)


def query(ctx, p, sect, base=None, must=None):
    """p = (year, month, day, time) pillar numbers"""
    names = [gz.JZ[x] for x in p]
    at = "%s sect %s base %s" % (" ".join(names), sect, base)
    ctx.here = at
    ctx.states += 1
    args = names + ([sect] if base is None else [sect, base])
    got = [secs(s) for s in lp.Solar.fromBaZi(*args)]
    want = expected(p[0], p[1], p[2], p[3], sect, 1900 if base is None else base, clock.NOW[0].year)
    ctx.transitions += 1 + len(want)
    rep = "print([s.toYmdHms() for s in Solar.fromBaZi(%s)])" % ", ".join(repr(a) for a in args)
    left = list(want)
    for t in got:
        hit = [w for w in left if w[0] <= t < w[1] and w[3] - 1 <= t <= w[4] + 1]
        if not hit:
            ctx.viol("unsound:" + at, "%s answers %s, which does not have these pillars (or is answered twice)" % (at, fmt(t)), rep)
            return
        left.remove(hit[0])
    for w in left:
        if w[2]:
            ctx.viol("incomplete:" + at, "%s does not answer the slot %s .. %s, which has these pillars; answers %s" % (at, fmt(w[0]), fmt(w[1] - 1), [fmt(t) for t in got]), rep)
            return
    if must is not None and not any(w[0] <= must < w[1] for w in want):
        raise AssertionError("model: %s not in its own answer set %s" % (fmt(must), at))
    ctx.outcome(len(got))


def ask(ctx, t, sects, base=None):
    j, r = divmod(t, 86400)
    m = gz.Moment(j, r // 3600, r // 60 % 60, r % 60)
    if gz.TD[m.kt - m.kt % 2] < C.JDN_MIN:
        return
    for sect in sects:
        b = 1900 if base is None else base
        ok = C.ymd(gz.TD[m.kt - m.kt % 2])[0] >= b and 1 <= gz.year_of_term(m.kt) <= clock.NOW[0].year
        query(ctx, (m.year_ex, m.month_ex, m.day_ex if sect == 1 else m.day, m.time), sect, base, t if ok else None)
        ctx.trace()


def run(ctx, unit):
    kind, a = unit
    clock.set_now(2024, 7, 1)
    if kind == "days":
        for j in range(C.jdn(a, 1, 1), C.jdn(a, 12, 31) + 1):
            hs = SLOTS if ctx.tier == "thorough" else (SLOTS[j % 13], (0, 23)[j % 2])
            for h in hs:
                ask(ctx, j * 86400 + h * 3600 + j % 60 * 60 + j % 59, (1, 2) if ctx.tier == "thorough" or h == hs[0] else (1 + j // 2 % 2,))
    elif kind in ("jie", "old"):
        for i in range(2, 26, 2):
            k = 24 * a + i
            for dj in ((-1, 0, 1) if kind == "jie" else (0,)):
                j = gz.TD[k] + dj
                if j <= C.JDN_MIN:
                    continue
                for h in (SLOTS if dj == 0 else SLOTS[j % 3::3]):
                    t = j * 86400 + h * 3600 + (j * 7 + h) % 60 * 60
                    ask(ctx, t, ((1, 2)[(j + h) % 2],) if kind == "old" else (1, 2), 1 if kind == "old" else None)
    elif kind == "ym":
        for y in (a, a + 1):
            for m in range(60):
                for sect in (1, 2):
                    query(ctx, (y, m, (y * 7 + m) % 60, (m * 11 + y) % 60), sect, (1900, 1984, 1500, 1)[(y + m) % 4])
                    # a chart whose hour stem fits its day
                    d = (y * 13 + m * 5) % 60
                    z = (y + m) % 12
                    query(ctx, (y, m, d, gz.gz_index((d % 10 * 2 + z) % 10, z)), sect, (1582, 1900, 1, 2024)[(y + m) % 4])
    elif kind == "dt":
        for d in range(a, a + 6):
            for t in range(60):
                for sect in (1, 2):
                    query(ctx, (40, 52, d, t), sect)
                    query(ctx, (0, (2 + 10 * (t % 6)) % 60, d, t), sect, 1)
    else:
        for now in ((a, 1, 1), (a, 2, 3), (a, 12, 31)):
            clock.set_now(*now)
            for j in range(C.jdn(a - 1, 11, 1), C.jdn(a + 1, 3, 1), 2):
                t = j * 86400 + SLOTS[j // 2 % 13] * 3600 + 1800
                for base in (a - 60, a - 1, a, a + 1):
                    ask(ctx, t, ((1, 2)[j // 2 % 2],), base)
        clock.set_now(2024, 7, 1)
    ctx.sample("%s %s: %d queries" % (kind, a, ctx.states))
