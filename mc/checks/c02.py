"""C02: Julian day <-> civil instant, to the second, and field validation."""
from mc import core, load
from mc.model import civil

ID = "C02"
TITLE = "Julian day conversion is exact and nonexistent fields are rejected"
BOUNDS = {
    "quick": "every day of years 1..9999 at 8 instants (both directions), incl. the last half second before midnight; every second of 24 boundary days; "
             "field-range product for the constructor on every month of 40 years; every day number in the 1582 gap",
    "thorough": "as quick with 24 instants per day, every second of 400 boundary days, field product for every month of every year",
}
ASSUMPTIONS = ["years 1..9999", "a Julian day within 1 ms of a half second may round either way"]
lp = None


def setup():
    global lp
    lp = load.lunar()


def days_of_interest(tier):
    out = []
    for y in (1, 4, 1500, 1582, 1583, 1600, 1700, 1900, 2000, 2023, 2024, 9999):
        out += [(y, 12, 31), (y, 2, 28)]
    out += [(1582, 10, 4), (1582, 10, 15), (1500, 2, 29), (2000, 2, 29)]
    if tier == "thorough":
        for y in range(3, 9999, 53):
            out += [(y, 12, 31), (y, 6, 30)]
    return out


def plan(tier):
    u = [["days", a, b] for a, b in core.chunks(1, 9999, 25)]
    u += [["seconds"] + list(d) for d in days_of_interest(tier)]
    ys = [1, 2, 4, 99, 100, 1500, 1581, 1582, 1583, 1600, 1700, 1900, 2000, 2023, 2024, 2100, 9998, 9999] if tier == "quick" else range(1, 10000, 1)
    ys = list(ys)
    u += [["fields", ys[i:i + 60]] for i in range(0, len(ys), 60)]
    return u


def t6(s):
    return (s.getYear(), s.getMonth(), s.getDay(), s.getHour(), s.getMinute(), s.getSecond())


def split(total):
    j, r = divmod(total, 86400)
    return civil.ymd(j) + (r // 3600, r // 60 % 60, r % 60)


def accept(x):
    """civil instants acceptable for Julian day x"""
    import math
    d = math.floor(x + 0.5)
    f = (x + 0.5 - d) * 86400
    lo = math.floor(f)
    frac = f - lo
    base = d * 86400 + lo
    if frac < 0.499:
        return (split(base),)
    if frac > 0.501:
        return (split(base + 1),)
    return (split(base), split(base + 1))


def from_jd(ctx, x, tag):
    ctx.here = "fromJulianDay(%r)" % x
    got = t6(lp.Solar.fromJulianDay(x))
    ctx.transitions += 1
    ok = accept(x)
    if got not in ok:
        ctx.viol("%s:%r" % (tag, x), "fromJulianDay(%r) gives %r, calendar says %r" % (x, got, ok[0]),
                 "print(Solar.fromJulianDay(%r).toYmdHms(), 'expected %s')" % (x, "%04d-%02d-%02d %02d:%02d:%02d" % ok[0]))


def to_jd(ctx, j, f6):
    ctx.here = "getJulianDay%r" % (f6,)
    s = lp.Solar.fromYmdHms(*f6)
    x = s.getJulianDay()
    secs = f6[3] * 3600 + f6[4] * 60 + f6[5]
    ctx.transitions += 2
    if abs((x - (j - 0.5)) * 86400 - secs) > 0.01:
        ctx.viol("jd:%r" % (f6,), "getJulianDay of %r is %r, day line says %d - 0.5 + %d s" % (f6, x, j, secs),
                 "print(Solar.fromYmdHms%r.getJulianDay(), 'expected', %r)" % (f6, j - 0.5 + secs / 86400.0))
    back = t6(lp.Solar.fromJulianDay(x))
    if back != f6:
        ctx.viol("round:%r" % (f6,), "%r -> %r -> %r does not round-trip" % (f6, x, back),
                 "s=Solar.fromYmdHms%r\nprint(s.toYmdHms(), Solar.fromJulianDay(s.getJulianDay()).toYmdHms())" % (f6,))


TIMES_Q = ((0, 0, 0), (11, 59, 59), (12, 0, 0), (23, 59, 59))
TIMES_T = TIMES_Q + tuple((h, (h * 7 + 3) % 60, (h * 13 + 59) % 60) for h in range(1, 23, 2))


def make(f):
    try:
        return lp.Solar.fromYmdHms(*f)
    except Exception:
        return None


def run(ctx, unit):
    kind = unit[0]
    if kind == "days":
        times = TIMES_Q if ctx.tier == "quick" else TIMES_T
        for j in range(civil.jdn(unit[1], 1, 1), civil.jdn(unit[2], 12, 31) + 1):
            d = civil.ymd(j)
            for t in times:
                to_jd(ctx, j, d + t)
            if j < civil.JDN_MAX:
                from_jd(ctx, j + 0.5 - 0.3 / 86400, "end")      # rounds up to the next midnight
            from_jd(ctx, j + 0.5 - 0.8 / 86400, "end")          # rounds to 23:59:59
            from_jd(ctx, j - 0.5 + 0.3 / 86400, "start")
            from_jd(ctx, j + 0.25 + (j % 1000) * 3e-5, "mid")
            ctx.states += 1
        ctx.trace()
        ctx.outcome(unit[1])
        ctx.sample("all days of %d..%d at %d times, both directions" % (unit[1], unit[2], len(times)))
    elif kind == "seconds":
        d = tuple(unit[1:])
        j = civil.jdn(*d)
        for s in range(86400):
            to_jd(ctx, j, d + (s // 3600, s // 60 % 60, s % 60))
        last = j == civil.JDN_MAX
        for s in range(0, 86400 if not last else 86399):
            from_jd(ctx, j - 0.5 + (s + 0.4) / 86400, "sub")
            from_jd(ctx, j - 0.5 + (s + 0.6) / 86400, "sub")
        ctx.st(86400)
        ctx.trace()
        ctx.sample("every second of %r" % (d,))
    else:
        for y in unit[1]:
            for m in range(-1, 15):
                for d in range(-1, 34):
                    ctx.here = "Solar(%d,%d,%d)" % (y, m, d)
                    s = make((y, m, d, 0, 0, 0))
                    ctx.st()
                    ctx.tr()
                    bad = not (1 <= m <= 12 and 1 <= d <= 31) or (y == 1582 and m == 10 and 4 < d < 15)
                    if bad and s is not None:
                        ctx.viol("accepts:%d-%d-%d" % (y, m, d), "Solar(%d,%d,%d) is accepted although no such day exists in any month" % (y, m, d),
                                 "print(Solar.fromYmd(%d,%d,%d).toYmd(), 'expected an exception')" % (y, m, d))
                    if civil.valid(y, m, d):
                        if s is None:
                            ctx.viol("rejects:%d-%d-%d" % (y, m, d), "Solar(%d,%d,%d) is rejected" % (y, m, d))
                        elif t6(s) != (y, m, d, 0, 0, 0):
                            ctx.viol("fields:%d-%d-%d" % (y, m, d), "Solar(%d,%d,%d) has fields %r" % (y, m, d, t6(s)))
                        elif s.toYmd() != "%04d-%02d-%02d" % (y, m, d) or s.toYmdHms() != "%04d-%02d-%02d 00:00:00" % (y, m, d) or str(s) != s.toYmd():
                            ctx.viol("text:%d-%d-%d" % (y, m, d), "Solar(%d,%d,%d) prints %r / %r" % (y, m, d, s.toYmd(), s.toYmdHms()))
            for h in range(-1, 26):
                for mi in (-1, 0, 1, 30, 59, 60, 61):
                    for se in (-1, 0, 1, 30, 59, 60, 61):
                        s = make((y, 6, 15, h, mi, se))
                        ctx.st()
                        ctx.tr()
                        ok = 0 <= h < 24 and 0 <= mi < 60 and 0 <= se < 60
                        if ok != (s is not None):
                            ctx.viol("time:%d:%d:%d" % (h, mi, se), "time %d:%d:%d is %s" % (h, mi, se, "rejected" if ok else "accepted"))
                        if ok and s is not None and (t6(s) != (y, 6, 15, h, mi, se) or s.toYmdHms() != "%04d-06-15 %02d:%02d:%02d" % (y, h, mi, se)):
                            ctx.viol("timefields:%d:%d:%d" % (h, mi, se), "time %d:%d:%d read back as %r %s" % (h, mi, se, t6(s), s.toYmdHms()))
        ctx.trace()
