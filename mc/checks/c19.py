"""C19: holiday lookups and histories of corrections."""
import itertools
import os

from mc import core, load
from mc.model import civil as C

ID = "C19"
TITLE = "Holiday queries return exactly the matching records, also after corrections"
BOUNDS = {
    "quick": "untouched data: every day 2001-2027 in 5 argument forms by day and 4 by target, every month and year 1..9999 in all forms; correction histories: breadth first over 22 "
             "corrections (add, replace, rename, remove, re-add, duplicates, several records per call, name lists, nothing), all sequences to depth 2, and to depth 4 over 9 of them, all keys touched "
             "by the history and all totals compared after each step; for every offset 1-17 inside a record, record pairs across whose boundary a date's digits appear, with additions, replacements and removals of that date in 3 orders",
    "thorough": "as quick with all sequences to depth 3 over 22 corrections and depth 5 over 9",
}
BINDING = "every history is replayed on the real HolidayUtil, from the freshly loaded data, and every answer compared with an ordered record set"
ASSUMPTIONS = ["built-in records as published with the pinned tree (data/holidays.txt)", "class data of the package is reset between histories by restoring its freshly loaded values"]
lp = None
H = None
snap = None
NAMES = ("元旦节", "春节", "清明节", "劳动节", "端午节", "中秋节", "国庆节", "国庆中秋", "抗战胜利日")
NAMES2 = ("一", "二", "三", "四", "五", "六", "七", "八", "九", "十", "十一", "十二")
NAMES3 = NAMES + ("十", "十一", "十二")
with open(os.path.join(load.__file__.rsplit("/", 2)[0], "data", "holidays.txt")) as f:
    RECORDS = tuple(f.read().split())

# corrections: (names, data)
OPS = {
    "add-future": (None, "203001010120300101"),
    "add-future2": (None, "203001020020300101"),
    "add-past": (None, "199910016119991001"),
    "replace-work": (None, "202005013020200501"),
    "replace-name": (None, "202005012120200501"),
    "replace-target": (None, "202005013120200504"),
    "remove-mid": (None, "20200501~000000000"),
    "remove-first": (None, "20011229~000000000"),
    "remove-last": (None, RECORDS[-1][:8] + "~000000000"),
    "remove-absent": (None, "20300101~000000000"),
    "readd": (None, "202005013120200501"),
    "two": (None, "203001030120300101203001040120300101"),
    "twice-same": (None, "203001050120300101203001051020300101"),
    "remove-then-add": (None, "20200502~000000000202005024020200502"),
    "add-then-remove": (None, "20300106012030010120300106~000000000"),
    "names": (NAMES2, None),
    "names-data": (NAMES2, "20300107:120300107"),
    "beyond": (NAMES2, "20300108;020300107"),
    "nothing": (None, None),
    "empty": (None, ""),
    "partial": (None, "20300109012030010120300"),
    "names-back": (NAMES3, None),
}
SMALL = ("add-future", "add-past", "replace-work", "replace-name", "remove-mid", "remove-first", "remove-last", "twice-same", "names-data")
DAYS = ("20011228", "20011229", "20011230", "19991001", "20200430", "20200501", "20200502", "20200503", RECORDS[-1][:8], RECORDS[-2][:8], "20300101", "20300102", "20300103", "20300104", "20300105", "20300106",
        "20300107", "20300108", "20300109", "20200504")


def setup():
    global lp, H, snap
    lp = load.lunar()
    from lunar_python.util import HolidayUtil
    H = HolidayUtil
    snap = load.Snapshot()


def plan(tier):
    u = [["days", y] for y in range(2001, 2028)] + [["years", a, b] for a, b in core.chunks(1, 9999, 500)] + [["objects"]]
    u += [["align", p, 4 if tier == "quick" else 40] for p in range(1, 18)]
    u += [["tree", list(p), 2 if tier == "quick" else 3, 0] for p in itertools.product(OPS, repeat=1)]
    u += [["tree", list(p), 4 if tier == "quick" else 5, 1] for p in itertools.product(SMALL, repeat=2)]
    return u


# ------------------------------------------------------------------ model
def show(r, names):
    return ("%s-%s-%s" % (r[:4], r[4:6], r[6:8]), names[ord(r[8]) - 48], r[9] == "0", "%s-%s-%s" % (r[10:14], r[14:16], r[16:18]))


class Model(object):
    def __init__(self):
        self.names = NAMES
        self.rec = {r[:8]: r for r in RECORDS}
        self.ix = None

    def fix(self, names, data):
        self.ix = None
        if names is not None:
            self.names = names
        for i in range(0, len(data or "") - 17, 18):
            s = data[i:i + 18]
            if s[8] == "~":
                self.rec.pop(s[:8], None)
            else:
                self.rec[s[:8]] = s

    def index(self):
        if self.ix is None:
            self.ix = ({}, {})
            for r in self.rec.values():
                x = show(r, self.names)
                for n, t in ((0, r[:8]), (1, r[10:])):
                    for k in (0, 4, 6, 8):
                        self.ix[n].setdefault(t[:k], []).append(x)
            for d in self.ix:
                for v in d.values():
                    v.sort()
        return self.ix

    def by_day(self, key):
        return self.index()[0].get(key, [])

    def by_target(self, key):
        return self.index()[1].get(key, [])


def real(h):
    return None if h is None else (h.getDay(), h.getName(), h.isWork(), h.getTarget())


def reals(hs):
    return sorted(real(h) for h in hs)


def hist(path):
    return "; ".join("HolidayUtil.fix(%r, %r)" % OPS[o] for o in path)


def check(ctx, m, day, path, forms=5, what=""):
    """day lookups, day-form list lookups and target lookups of one key in all argument forms"""
    y, mo, d = day[:4], day[4:6], day[6:8]
    yi, mi, di = int(y), int(mo), int(d)
    want = m.by_day(day)
    one = want[0] if want else None
    at = "%s after [%s]" % (day, " ".join(path))
    pre = hist(path) + "\n"
    for args in ((yi, mi, di), (y + "-" + mo + "-" + d,), (day,), (y, mi, di), (y + "-" + mo + "-" + d, 0, 0))[:forms]:
        ctx.eq("day:%r:%s" % (args, "/".join(path)), "getHoliday%r for %s" % (args, at), real(H.getHoliday(*args)), one, pre + "print(HolidayUtil.getHoliday(*%r))" % (args,))
    for args in ((y + "-" + mo + "-" + d,), (day,)):
        ctx.eq("days:%r:%s" % (args, "/".join(path)), "getHolidays%r for %s" % (args, at), reals(H.getHolidays(*args)), want, pre + "print([str(h) for h in HolidayUtil.getHolidays(*%r)])" % (args,))
    want = m.by_target(day)
    for args in ((yi, mi, di), (y + "-" + mo + "-" + d,), (day,), (y, mi, di))[:forms]:
        ctx.eq("target:%r:%s" % (args, "/".join(path)), "getHolidaysByTarget%r for %s" % (args, at), reals(H.getHolidaysByTarget(*args)), want,
               pre + "print([str(h) for h in HolidayUtil.getHolidaysByTarget(*%r)])" % (args,))


def span(ctx, m, y, mi, path, order=False):
    """month (mi > 0) or year queries"""
    ys, ms = "%04d" % y, "%02d" % mi
    key = ys + (ms if mi else "")
    pre = hist(path) + "\n"
    dw, tw = m.by_day(key), m.by_target(key)
    forms = ((y, mi), (ys, mi), (ys + "-" + ms,), (ys + ms,)) if mi else ((y,), (ys,), (y, 0))
    for args in forms:
        got = [real(h) for h in H.getHolidays(*args)]
        if not order:
            got.sort()
        ctx.eq("span:%r:%s" % (args, "/".join(path)), "getHolidays%r after [%s]" % (args, " ".join(path)), got, dw, pre + "print([str(h) for h in HolidayUtil.getHolidays(*%r)])" % (args,))
        if mi and len(args) > 1:
            continue        # a target lookup by year and month without a day is only defined for the text form
        ctx.eq("tspan:%r:%s" % (args, "/".join(path)), "getHolidaysByTarget%r after [%s]" % (args, " ".join(path)), reals(H.getHolidaysByTarget(*args)), tw,
               pre + "print([str(h) for h in HolidayUtil.getHolidaysByTarget(*%r)])" % (args,))


# ------------------------------------------------------------------ keys that also appear across record boundaries
YEARS = [int(x) for x in "1010 1011 1101 1110 1111 1112 1120 1121 1201 1202 1210 1211 1212 2001 2002 2010 2011 2012 2020 2021 2022 2110 2111 2112 2120 2202 2211".split()]


def straddles(p, limit):
    """(record A, record B, date K): K's digits stand at offset p of A followed by B, and start a record nowhere else"""
    pool = ["%04d%02d%02d" % (y, mo, d) for y in YEARS for mo in range(1, 13) for d in range(1, C.month_len(y, mo) + 1)]
    pre, suf = {}, {}
    for d in pool:
        for n in range(9):
            pre.setdefault(d[:n], []).append(d)
            suf.setdefault(d[8 - n:], []).append(d)
    out, kinds = [], {}
    for k in pool:
        if p >= 10:
            a, n = k[:18 - p], 18 - p
            if p == 10:
                cands = [("20300909", "01", k, "20310909")]
            else:
                heads = pre.get(k[n:], [])
                cands = [("20300909", "01", t, b) for t in suf.get(a, [])[:1] for b in ([k] if k in heads else []) + heads[:1]]
        else:
            head, mid, tail = k[:max(0, 8 - p)], k[max(0, 8 - p):10 - p], k[10 - p:]
            nw = mid if p < 9 else "0" + mid
            if p == 1:
                nw = mid + "1" if len(mid) == 1 else mid
            if len(nw) != 2 or nw[0] > "8" or nw[1] > "1":
                continue
            cands = [(d, nw, t, b) for d in (suf.get(head, [])[:1] if head else ["20300909"]) for t in pre.get(tail, [])[:1] for b in ("20310909", k)]
        for d, nw, t, b in cands:
            if d == b or d == k:
                continue
            text = d + nw + t + b
            if text[p:p + 8] != k:
                continue
            c = b == k
            if kinds.setdefault(c, 0) < limit:
                kinds[c] += 1
                out.append((d + nw + t, b + "11" + b, k))
    return out


def align(ctx, p, limit):
    found = straddles(p, limit)
    for a, b, k in found:
        steps = [a + b, k + "21" + a[:8], k + "30" + k, k + "~" + "0" * 9, a[:8] + "~" + "0" * 9, k + "41" + k, b[:8] + "~" + "0" * 9]
        for order in (steps, [steps[1]] + [a, b] + steps[2:], [b, a] + steps[1:]):
            path = []
            for x in order:
                OPS["fix " + x] = (None, x)
                path.append("fix " + x)
                m = replay(path)
                ctx.states += 1
                ctx.transitions += 1
                for day in sorted({k, a[:8], a[10:], b[:8]}):
                    check(ctx, m, day, path, 2)
                for y, mo in sorted({(int(d[:4]), int(d[4:6])) for d in (k, b, a)}):
                    span(ctx, m, y, mo, path)
            ctx.traces += 1
        ctx.outcome(("align", p, b[:8] == k))
    ctx.counters["keys across record boundaries"] += len(found)
    ctx.sample("offset %d: %d record pairs hiding a date across their boundary" % (p, len(found)))


# ------------------------------------------------------------------ exploration
def observe(ctx, m, path):
    ctx.states += 1
    ctx.here = "after [%s]" % " ".join(path)
    last = path[-1:]
    for day in DAYS:
        check(ctx, m, day, path, 2 if len(path) > 2 else 4)
    for y, mi in ((2001, 12), (2020, 5), (1999, 10), (2030, 1)):
        span(ctx, m, y, mi, path)
    for y in (1999, 2001, 2020, int(RECORDS[-1][:4]), 2030):
        span(ctx, m, y, 0, path)
    ctx.outcome((m.names == NAMES, tuple(sorted(m.rec.get(d, "") for d in DAYS))))
    # the state is observed completely at the leaves: nothing beyond the touched keys moved
    if len(path) <= 1 or last == path[:1]:
        total = []
        for y in sorted({r[:4] for r in m.rec.values()} | {"1999", "2001", "2030"}):
            total += reals(H.getHolidays(y))
        ctx.eq("all:" + "/".join(path), "all records after [%s]" % " ".join(path), total, m.by_day(""))


def replay(path):
    snap.restore()
    m = Model()
    for o in path:
        H.fix(*OPS[o])
        m.fix(*OPS[o])
    return m


def tree(ctx, path, depth, small):
    m = replay(path)
    if not small or len(path) > 2:
        observe(ctx, m, path)
        ctx.trace()
    else:
        ctx.trace()
    if len(path) < depth:
        for o in (SMALL if small else OPS):
            tree(ctx, path + [o], depth, small)


def run(ctx, unit):
    snap.restore()
    m = Model()
    if unit[0] == "align":
        align(ctx, unit[1], unit[2])
    elif unit[0] == "days":
        y = unit[1]
        for j in range(C.jdn(y, 1, 1), C.jdn(y, 12, 31) + 1):
            ctx.states += 1
            check(ctx, m, "%04d%02d%02d" % C.ymd(j), [])
        ctx.sample("lookups of every day of %d" % y)
    elif unit[0] == "years":
        for y in range(unit[1], unit[2] + 1):
            ctx.states += 1
            for mi in range(13) if y % 7 == 0 or 1990 <= y <= 2110 or y < 140 else (0, y % 12 + 1):
                span(ctx, m, y, mi, [], True)
            if y % 9 == 0 or y < 130:
                check(ctx, m, "%04d%02d%02d" % (y, y % 12 + 1, y % 28 + 1), [])
    elif unit[0] == "objects":
        # a returned record belongs to the caller
        for r in RECORDS:
            d = r[:8]
            ctx.states += 1
            w = show(r, NAMES)
            h = H.getHoliday(d)
            text = "%s %s%s %s" % (w[0], w[1], "调休" if w[2] else "", w[3])
            ctx.eq("text:" + d, "text of the record of " + d, (h.toString(), str(h)), (text, text), "print(HolidayUtil.getHoliday(%r))" % d)
            h.setDay("20991231")
            h.setName("x")
            h.setWork(not w[2])
            h.setTarget("2099-12-30")
            ctx.eq("set:" + d, "record of %s after its setters" % d, real(h), ("2099-12-31", "x", not w[2], "2099-12-30"))
            ctx.eq("again:" + d, "record of %s read again after the caller changed its copy" % d, real(H.getHoliday(d)), w)
            L = H.getHolidays(d[:4])
            n = len(L)
            L[0].setName("y")
            del L[:]
            ctx.eq("list:" + d, "records of %s after the caller emptied its list" % d[:4], (len(H.getHolidays(d[:4])), H.getHolidays(d[:4])[0].getName() == "y"), (n, False))
    else:
        _, path, depth, small = unit
        tree(ctx, path, depth, small)
        ctx.sample("all histories starting with %s" % " ".join(path))
