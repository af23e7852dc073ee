"""C03: order of instants, minute differences and hour stepping."""
import datetime

from mc import core, load
from mc.model import civil

ID = "C03"
TITLE = "Instants are totally ordered and hour/minute arithmetic follows the day line"
BOUNDS = {
    "quick": "order of all ordered pairs (and day/minute differences of all pairs within 120 years, of three times of day beyond) of 660 boundary instants (year/month ends, leap days, the 1582 gap, century years x times of day); "
             "each instant x 137 hour steps; every hour step -60..60 from every hour of 40 boundary days",
    "thorough": "all ordered pairs of 2400 instants, hour steps -800..800",
}
ASSUMPTIONS = ["years 1..9999"]
lp = None

DAYS = [(1, 1, 1), (1, 1, 2), (1, 12, 31), (2, 1, 1), (4, 2, 28), (4, 2, 29), (4, 3, 1), (99, 12, 31), (100, 1, 1), (100, 2, 29), (999, 12, 31), (1000, 1, 1),
        (1500, 2, 29), (1582, 9, 30), (1582, 10, 1), (1582, 10, 3), (1582, 10, 4), (1582, 10, 15), (1582, 10, 16), (1582, 10, 31), (1582, 11, 1),
        (1582, 12, 31), (1583, 1, 1), (1600, 2, 29), (1700, 2, 28), (1700, 3, 1), (1899, 12, 31), (1900, 1, 1), (1900, 2, 28), (1900, 3, 1), (1999, 12, 31),
        (2000, 1, 1), (2000, 2, 28), (2000, 2, 29), (2000, 3, 1), (2019, 9, 30), (2019, 10, 1), (2020, 1, 31), (2020, 2, 1), (2020, 2, 29), (2020, 3, 1),
        (2020, 4, 30), (2020, 5, 1), (2020, 6, 30), (2020, 7, 1), (2020, 7, 31), (2020, 8, 1), (2020, 8, 31), (2020, 9, 1), (2020, 10, 31), (2020, 11, 1),
        (2020, 11, 30), (2020, 12, 1), (2023, 11, 9), (2023, 11, 10), (2023, 11, 12), (9998, 12, 31), (9999, 1, 1), (9999, 2, 28), (9999, 12, 31)]
TIMES = [(0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 59, 59), (1, 0, 0), (9, 59, 0), (10, 0, 59), (12, 30, 30), (22, 59, 59), (23, 0, 0), (23, 59, 59)]

FAR_TIMES = ((0, 0, 0), (12, 30, 30), (23, 59, 59))


def setup():
    global lp
    lp = load.lunar()


def instants(tier):
    days = list(DAYS)
    if tier == "thorough":
        for y in range(7, 9999, 63):
            m = y % 12 + 1
            days.append((y, m, civil.last_day(y, m)))
    return [d + t for d in days for t in TIMES]


def plan(tier):
    n = len(instants(tier))
    u = [["pairs", a, b] for a, b in core.chunks(0, n - 1, 22)]
    u += [["hours", a, b] for a, b in core.chunks(0, n - 1, 44)]
    u += [["dense", i] for i in range(len(DAYS))]
    return u


def mk(f):
    return lp.Solar.fromYmdHms(*f)


def t6(s):
    return (s.getYear(), s.getMonth(), s.getDay(), s.getHour(), s.getMinute(), s.getSecond())


def secs(f):
    return civil.jdn(*f[:3]) * 86400 + f[3] * 3600 + f[4] * 60 + f[5]


LO = civil.JDN_MIN * 86400
HI = civil.JDN_MAX * 86400 + 86399


def hour_step(ctx, f, n):
    k = secs(f) + n * 3600
    if not LO <= k <= HI:
        return
    ctx.here = "%r nextHour(%d)" % (f, n)
    j, r = divmod(k, 86400)
    want = civil.ymd(j) + (r // 3600, r // 60 % 60, r % 60)
    got = t6(mk(f).nextHour(n))
    ctx.tr()
    if got != want:
        ctx.viol("nextHour:%r:%d" % (f, n), "%r nextHour(%d) gives %r, the time line says %r" % (f, n, got, want),
                 "print(Solar.fromYmdHms%r.nextHour(%d).toYmdHms(), 'expected %s')" % (f, n, want))
    ctx.outcome((want[3], n))


def run(ctx, unit):
    ins = instants(ctx.tier)
    if unit[0] == "pairs":
        objs = [(f, mk(f), secs(f), f[:5]) for f in ins]
        for f, a, sa, fa in objs[unit[1]:unit[2] + 1]:
            ctx.st()
            for g, b, sb, fb in objs:
                ctx.here = "%r vs %r" % (f, g)
                af, be = a.isAfter(b), a.isBefore(b)
                if bool(af) != (sa > sb) or bool(be) != (sa < sb):
                    ctx.viol("order:%r:%r" % (f, g), "%r vs %r: isAfter=%r isBefore=%r, the time line says %s" % (f, g, af, be, "after" if sa > sb else "before" if sa < sb else "same"),
                             "a=Solar.fromYmdHms%r;b=Solar.fromYmdHms%r\nprint(a.isAfter(b),a.isBefore(b))" % (f, g))
                if (a.toYmdHms() < b.toYmdHms()) != (sa < sb):
                    ctx.viol("textorder:%r:%r" % (f, g), "the printed forms %s and %s do not sort like the instants" % (a.toYmdHms(), b.toYmdHms()))
                ctx.transitions += 3
                if abs(f[0] - g[0]) > 120 and (f[3:] not in FAR_TIMES or g[3:] not in FAR_TIMES):
                    continue
                w = sa // 60 - sb // 60
                got = a.subtractMinute(b)
                if got != w:
                    ctx.viol("minutes:%r:%r" % (f, g), "%r subtractMinute %r = %r, the time line says %d" % (f, g, got, w),
                             "print(Solar.fromYmdHms%r.subtractMinute(Solar.fromYmdHms%r), 'expected %d')" % (f, g, w))
                got = a.subtract(b)
                w = sa // 86400 - sb // 86400
                if got != w:
                    ctx.viol("days:%r:%r" % (f, g), "%r subtract %r = %r, the day line says %d" % (f, g, got, w))
                ctx.transitions += 2
                ctx.outcome((sa > sb, sa < sb))
            p = datetime.datetime(*f) if f[:3] < (1582, 10, 5) and f[:3] != (1500, 2, 29) and f[:3] != (100, 2, 29) or f[:3] >= (1582, 10, 15) else None
            if p is not None:
                if t6(lp.Solar.fromDate(p)) != f:
                    ctx.viol("fromDate:%r" % (f,), "fromDate(%r) gives %r" % (p, t6(lp.Solar.fromDate(p))))
                ctx.tr()
        ctx.trace()
        ctx.sample("%r against %d instants" % (ins[unit[1]], len(ins)))
    elif unit[0] == "hours":
        steps = list(range(-50, 51)) + [s * n for n in (71, 72, 73, 95, 96, 167, 168, 169, 719, 720, 743, 744, 745, 8759, 8760, 8783, 8784, 87660) for s in (1, -1)]
        for f in ins[unit[1]:unit[2] + 1]:
            ctx.st()
            for n in steps:
                hour_step(ctx, f, n)
        ctx.trace()
    else:
        r = 60 if ctx.tier == "quick" else 800
        for h in range(24):
            ctx.st()
            for n in range(-r, r + 1):
                hour_step(ctx, DAYS[unit[1]] + (h, 17, 43), n)
        ctx.trace()
