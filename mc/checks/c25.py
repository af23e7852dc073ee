"""C25: every query answers, with the documented kind of value, and leaves its object unchanged."""
import json
import os

from mc import api, core, load
from mc.model import almanac as A
from mc.model import civil as C

ID = "C25"
TITLE = "Every query is total and leaves its object unchanged"
BOUNDS = {
    "quick": "all 624 queries (zero-argument queries, plus those with a convention or flag for each of its values) of 27 kinds of calendar objects on 2 326 moments (21 years: range ends, odd historical years, leap and gap years; every "
             "second to fourth day, all month ends, rotating time of day), each asked twice; every ordered pair of queries on one object for 27 kinds x 7 moments (each query first on its own fresh object, then twice, "
             "then followed by all others in order, and in reverse order for every query of small kinds and every sixth of large ones)",
    "thorough": "queries on 87 233 moments (every day of 38 years, every 50th day of all years); pairs on 26 moments",
}
ASSUMPTIONS = ["kinds of values (and which may be empty or missing) as observed over the same domain on the pinned, repaired tree: data/kinds.json"]
lp = None
HU = None
KINDS = {}
PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "data", "kinds.json")
YEARS = (1, 2, 8, 15, 16, 18, 236, 237, 239, 619, 1582, 1583, 1900, 2009, 2020, 2024, 2033, 2034, 9800, 9998, 9999)
PAIRS = [(2020, 5, 24, 23, 30, 0), (2024, 2, 9, 1, 2, 3), (2024, 7, 25, 12, 0, 0), (1582, 10, 15, 0, 0, 0), (2021, 2, 19, 12, 0, 0), (2020, 3, 20, 0, 0, 0), (2021, 2, 3, 22, 30, 0),
         (2033, 12, 22, 5, 0, 0), (1988, 2, 15, 22, 30, 0), (1, 1, 1, 0, 0, 0), (9999, 12, 31, 23, 59, 59), (2020, 1, 1, 13, 0, 0), (2019, 2, 4, 11, 14, 13), (619, 6, 6, 6, 6, 6),
         (239, 12, 13, 0, 0, 0), (18, 2, 5, 1, 0, 0), (237, 4, 12, 4, 0, 0), (2017, 7, 23, 23, 0, 0), (2023, 3, 22, 0, 0, 1), (2023, 12, 22, 11, 27, 20), (2034, 2, 18, 15, 0, 0), (1582, 10, 4, 23, 0, 0),
         (2000, 2, 29, 12, 12, 12), (1900, 1, 30, 9, 0, 0), (8, 1, 1, 0, 0, 0), (2012, 8, 17, 3, 3, 3)]


def objects(spec):
    o = api.objects(lp, spec)
    y = str(min(max(spec[0], 2003), 2025))
    o["Holiday"] = lambda: HU.getHolidays(y)[1]
    return o


def moment(j):
    return C.ymd(j) + ((j * 5) % 24, (j * 7) % 60, (j * 11) % 60)


def domain(tier):
    js = set()
    for y in YEARS:
        a, b = C.jdn(y, 1, 1), C.jdn(y, 12, 31)
        js.update(range(a, b + 1, 2 if y in (2020, 2033) else 4))
        js.update((a, b))
        for m in range(1, 13):
            js.add(C.jdn(y, m, 1))
    for y in (2020, 2033, 1582):
        for m, n, j in A.YEARS[y]:
            js.update((j, j + n - 1))
    if tier == "thorough":
        for y in list(range(2000, 2031)) + [1, 16, 237, 239, 1582, 9998, 9999]:
            js.update(range(C.jdn(y, 1, 1), C.jdn(y, 12, 31) + 1))
        js.update(range(C.JDN_MIN, C.JDN_MAX + 1, 50))
    return [j for j in sorted(js) if C.JDN_MIN <= j <= C.JDN_MAX]


def kind(v):
    if isinstance(v, (list, tuple)):
        return "%s[%s]" % (type(v).__name__, ",".join(sorted({kind(x) for x in v})))
    if isinstance(v, dict):
        return "dict[%s]" % ",".join(sorted({kind(x) + ":" + kind(y) for x, y in v.items()}))
    if isinstance(v, str):
        return "str" if v else "empty str"
    return type(v).__name__


def setup():
    global lp, HU
    lp = load.lunar()
    from lunar_python.util import HolidayUtil
    HU = HolidayUtil
    load.memo_julian(lp)
    if os.path.exists(PATH):
        with open(PATH) as f:
            KINDS.update(json.load(f))


def plan(tier):
    js = domain(tier)
    u = [["pairs", i, k] for i in range(7 if tier == "quick" else len(PAIRS)) for k in objects(PAIRS[0])]
    n = 20
    u += [["total", js[i], js[min(i + n, len(js)) - 1], tier] for i in range(0, len(js), n)]
    return u


real_year = None


def memo(on):
    global real_year
    if on and real_year is None:
        real_year = load.memo_lunar_year(lp)
    elif not on and real_year is not None:
        lp.LunarYear.fromYear = staticmethod(real_year)
        real_year = None


def total(ctx, j, sink=None):
    spec = moment(j)
    at = "%04d-%02d-%02d %02d:%02d:%02d" % spec
    ctx.here = at
    for k, mk in objects(spec).items():
        ctx.states += 1
        try:
            o = mk()
        except Exception as e:
            ctx.viol("make:%s:%s" % (k, at), "%s of %s cannot be made: %r" % (k, at, e))
            continue
        if o is None:
            continue
        cls = type(o).__name__
        for q in api.queries(type(o)):
            ctx.transitions += 1
            name = "%s.%s%s" % (cls, q[0], q[1])
            try:
                v = getattr(o, q[0])(*q[1])
                t = kind(v)
                w = getattr(o, q[0])(*q[1])
                a, b = api.canon(v), api.canon(w)
            except Exception as e:
                ctx.viol("error:%s:%s" % (name, at), "%s on the %s of %s raises %r" % (name, k, at, e))
                continue
            if a != b:
                ctx.viol("twice:%s:%s" % (name, at), "%s on the %s of %s answers %s, then %s" % (name, k, at, core.short(a), core.short(b)))
            if sink is not None:
                sink.setdefault("%s.%s" % (cls, q[0]), set()).add(t)
            else:
                want = KINDS.get("%s.%s" % (cls, q[0]))
                if want is not None and t not in want:
                    ctx.viol("kind:%s:%s" % (name, at), "%s on the %s of %s answers %s of kind %s, documented %s" % (name, k, at, core.short(a), t, " or ".join(want)))
                ctx.outcome((cls, q[0], t))


def pairs(ctx, spec, k):
    mk = objects(spec)[k]
    at = "%04d-%02d-%02d %02d:%02d:%02d" % spec
    o = mk()
    if o is None:
        return
    qs = api.queries(type(o))
    base = {q: api.ask(mk(), q) for q in qs}
    for q in qs:
        for order, rest in (("forward", qs), ("backward", qs[::-1])):
            o = mk()
            first = api.ask(o, q)
            again = api.ask(o, q)
            ctx.states += 2
            ctx.traces += 1
            key = "pair:%s:%s:%s:%s" % (k, at, q, order)
            ctx.eq(key, "%s of the %s of %s, asked twice" % (q, k, at), (first, again), (base[q], base[q]))
            for x in rest:
                ctx.states += 1
                ctx.transitions += 1
                got = api.ask(o, x)
                if got != base[x]:
                    ctx.viol("%s:%s" % (key, x), "%s of the %s of %s, asked after %s: %s, on a fresh object %s" % (x, k, at, q, core.short(got), core.short(base[x])))
                    break
            if order == "forward" and len(qs) > 60 and q not in qs[::6]:
                break
    ctx.counters["ordered pairs"] += len(qs) * len(qs)
    ctx.sample("%s of %s: %d queries" % (k, at, len(qs)))


def run(ctx, unit):
    if unit[0] == "pairs":
        memo(True)
        pairs(ctx, PAIRS[unit[1]], unit[2])
        return
    memo(True)
    for j in domain(unit[3]):
        if unit[1] <= j <= unit[2]:
            total(ctx, j)
