"""C27: histories of changes to objects with setters, against objects made with the final values."""
import copy
import itertools
import pickle

from mc import api, core, load
from mc.model import almanac as A

ID = "C27"
TITLE = "Changing an object changes that object alone, and completely"
BOUNDS = {
    "quick": "solar terms, nine-nine days, dog days, holidays (made directly, returned by lookups, and deep and pickled copies of these) and charts: every sequence of up to 3 changes (2 over the full alphabet of 24 term names) through every setter, each once with all queries asked before every change and once without, and every single query asked before one of one or two changes; all "
             "queries compared with an object made with the final values; after each, the same object fetched again, a sibling, the date it came from and the holiday data asked again",
    "thorough": "sequences of up to 4 changes (3 over the full alphabet), more dates",
}
ASSUMPTIONS = ["a chart obtained from a date is that date's chart: setting its convention is seen when the date is asked for its chart again"]
BINDING = "every history of changes is executed on real objects"
lp = None
HU = None
DATES = [(2020, 12, 21, 18, 2, 0), (2021, 7, 22, 8, 0, 0), (2019, 12, 31, 23, 30, 0), (2033, 8, 14, 0, 0, 0), (2024, 1, 29, 12, 0, 0), (1582, 10, 15, 5, 0, 0)]


def setup():
    global lp, HU
    lp = load.lunar()
    from lunar_python.util import HolidayUtil
    HU = HolidayUtil


def sol(t):
    return lp.Solar.fromYmdHms(*t)


SOLARS = [(2020, 3, 20, 11, 49, 36), (1582, 10, 4, 23, 59, 59)]
# kind -> (setters with values; fields set by each; small alphabet for deeper sequences)
ALPHA = {
    "JieQi": [("setName", n) for n in A.NAMES] + [("setName", "DA_XUE"), ("setSolar", 0), ("setSolar", 1)],
    "Fu": [("setName", "初伏"), ("setName", "中伏"), ("setName", "末伏"), ("setIndex", 1), ("setIndex", 10), ("setIndex", 20)],
    "ShuJiu": [("setName", "一九"), ("setName", "九九"), ("setIndex", 1), ("setIndex", 9)],
    "Holiday": [("setDay", "2020-10-01"), ("setDay", "20211001"), ("setName", "国庆中秋"), ("setName", "春节"), ("setWork", True), ("setWork", False), ("setTarget", "2020-10-01"), ("setTarget", "20221231")],
    "EightChar": [("setSect", 1), ("setSect", 2)],
}
SMALL = {"JieQi": [("setName", "冬至"), ("setName", "小寒"), ("setName", "大雪"), ("setName", "清明"), ("setSolar", 0), ("setSolar", 1)]}


def makers(t):
    """kind -> list of (route, maker of (object, source date or None, siblings))"""
    def date():
        return sol(t).getLunar()

    def of(get):
        def f():
            l = date()
            return get(l), l, [get(l)]
        return f

    def copied(dup, get):
        def f():
            o = get(date())
            if o is None:
                return None, None, []
            return dup(o), None, [o, copy.copy(o)]
        return f

    got = {"JieQi": lambda l: l.getNextJieQi(), "Fu": lambda l: l.getFu(), "ShuJiu": lambda l: l.getShuJiu(), "Holiday": lambda l: HU.getHoliday("2020-10-08"), "EightChar": lambda l: l.getEightChar()}
    r = {
        "JieQi": [("getPrevJieQi", of(lambda l: l.getPrevJieQi())), ("getNextJie", of(lambda l: l.getNextJie())), ("getPrevQi(True)", of(lambda l: l.getPrevQi(True))),
                  ("getCurrentJieQi", of(lambda l: l.getCurrentJieQi())), ("direct", lambda: (lp.JieQi("夏至", sol(SOLARS[0])), None, [lp.JieQi("夏至", sol(SOLARS[0]))]))],
        "Fu": [("getFu", of(lambda l: l.getFu())), ("direct", lambda: (lp.Fu("初伏", 3), None, [lp.Fu("初伏", 3)]))],
        "ShuJiu": [("getShuJiu", of(lambda l: l.getShuJiu())), ("direct", lambda: (lp.ShuJiu("三九", 3), None, [lp.ShuJiu("三九", 3)]))],
        "Holiday": [("getHoliday", lambda: (HU.getHoliday("2020-10-08"), None, [HU.getHoliday("2020-10-08"), HU.getHoliday(2020, 10, 7)])),
                    ("getHolidays", lambda: (HU.getHolidays(2020, 10)[0], None, HU.getHolidays(2020, 10))),
                    ("getHolidaysByTarget", lambda: (HU.getHolidaysByTarget("2020-10-01")[1], None, HU.getHolidaysByTarget("2020-10-01"))),
                    ("direct", lambda: (lp.Holiday("20200101", "元旦节", False, "2020-01-01"), None, [lp.Holiday("20200101", "元旦节", False, "2020-01-01")]))],
        "EightChar": [("getEightChar", lambda: (lambda l: (l.getEightChar(), None, [date().getEightChar()]))(date())),
                      ("fromLunar", lambda: (lambda l: (lp.EightChar.fromLunar(l), None, [lp.EightChar.fromLunar(l), lp.EightChar(l), l.getEightChar()]))(date()))],
    }
    for kind, get in got.items():
        r[kind] += [("deep copy", copied(copy.deepcopy, get)), ("unpickled", copied(lambda o: pickle.loads(pickle.dumps(o)), get))]
    return r


DUPS = [copy.copy, copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o))]


def dash(s):
    return s if "-" in s else "%s-%s-%s" % (s[:4], s[4:6], s[6:])


def expected(kind, o, seq, t):
    """answers after the changes, from the definitions and from an object made with the final values"""
    if kind == "EightChar":
        f = sol(t).getLunar().getEightChar()
        f.setSect(seq[-1][1] if seq else 2)
        return f, {"getSect": seq[-1][1] if seq else 2}
    v = dict(seq)     # the last value per setter
    if kind == "JieQi":
        name = v.get("setName", o.getName())
        s = sol(SOLARS[v["setSolar"]]) if "setSolar" in v else o.getSolar()
        at = A.NAMES.index(name) if name in A.NAMES else None
        w = {"getName": name, "toString": name}
        if at is not None:
            w.update({"isJie": at % 2 == 0, "isQi": at % 2 == 1})
        return lp.JieQi(name, s), w
    if kind in ("Fu", "ShuJiu"):
        n, i = v.get("setName", o.getName()), v.get("setIndex", o.getIndex())
        return getattr(lp, kind)(n, i), {"getName": n, "getIndex": i, "toString": n, "toFullString": "%s第%d天" % (n, i)}
    d, n, w, g = (dash(v.get("setDay", o.getDay())), v.get("setName", o.getName()), v.get("setWork", o.isWork()), dash(v.get("setTarget", o.getTarget())))
    return lp.Holiday(d, n, w, g), {"getDay": d, "getName": n, "isWork": w, "getTarget": g, "toString": "%s %s%s %s" % (d, n, "调休" if w else "", g)}


def answers(o):
    return [(q, api.ask(o, q)) for q in api.queries(type(o))]


def value(kind, s, a):
    return sol(SOLARS[a]) if s == "setSolar" else a


def plan(tier):
    u = []
    ds = DATES[:4] if tier == "quick" else DATES
    for i in range(len(ds)):
        for kind in ALPHA:
            for r in range(len(makers(DATES[0])[kind])):
                parts = 1 if tier == "quick" or kind not in ("JieQi", "Holiday") else 8
                u += [[i, kind, r, 2 if tier == "quick" else 3, 3 if tier == "quick" else 4, p, parts] for p in range(parts)]
    return u


def run(ctx, unit):
    i, kind, r, wide, deep, part, parts = unit
    t = DATES[i]
    route, mk = makers(t)[kind][r]
    if mk()[0] is None or (route == "direct" or kind == "Holiday") and i:
        return
    al, small = ALPHA[kind], SMALL.get(kind, ALPHA[kind])
    seqs = [s for n in range(wide + 1) for s in itertools.product(al, repeat=n)] if len(al) > 8 or kind == "Holiday" else []
    if len(al) > 8:
        seqs += [s for n in range(wide + 1, deep + 1) for s in itertools.product(small, repeat=n)]
    else:
        seqs = [s for n in range(deep + 1) for s in itertools.product(al, repeat=n)]
    o0, date0, sib0 = mk()
    fresh = answers(o0)
    sibs = [answers(x) for x in sib0]
    light = [q for q in api.queries(lp.Lunar) if q[0] in ("getPrevJieQi", "getNextJie", "getPrevQi", "getCurrentJieQi", "getJieQiTable", "getFu", "getShuJiu", "getJieQi", "getWuHou", "getMonthInGanZhiExact", "getBaZi")]
    src = [(q, api.ask(date0, q)) for q in light] if date0 is not None else None
    for seq, asked in [(q, k) for q in seqs[part::parts] for k in (False, True) if q or not k]:
        o, date, sib = mk()
        key = "%s:%s:%s:%s" % (kind, route, "%04d-%02d-%02d" % t[:3], ";".join("%s(%r)" % x for x in seq) + (":asked" if asked else ""))
        ctx.here = key
        ctx.states += 1
        ctx.traces += 1
        f, want = expected(kind, mk()[0], seq, t)
        for s, a in seq:
            if asked:
                answers(o)
            getattr(o, s)(value(kind, s, a))
            ctx.transitions += 1
        got = {k: getattr(o, k)() for k in want}
        ctx.eq(key, "%s from %s after %s" % (kind, route, seq), got, want)
        if kind == "JieQi" and "setSolar" in dict(seq):
            ctx.eq(key + ":solar", "getSolar of %s from %s after %s" % (kind, route, seq), o.getSolar().toYmdHms(), sol(SOLARS[dict(seq)["setSolar"]]).toYmdHms())
        ctx.eq(key + ":all", "every answer of the %s from %s after %s, against one made with these values" % (kind, route, seq), answers(o), answers(f))
        ctx.eq(key + ":sibling", "other objects of kind %s from %s after %s on one of them" % (kind, route, seq), [answers(x) for x in sib], sibs)
        ctx.eq(key + ":again", "%s from %s made again after %s on the first" % (kind, route, seq), answers(mk()[0]), fresh)
        if src is not None:
            ctx.eq(key + ":date", "the date after %s on its %s" % (seq, kind), [(q, api.ask(date, q)) for q in light], src)
        if kind == "EightChar" and route == "getEightChar":
            l = o.getLunar()
            ctx.eq(key + ":kept", "the date's chart after %s" % (seq,), answers(l.getEightChar()), answers(o))
            ctx.eq(key + ":kept copy", "the chart of a copy of the date after %s" % (seq,), [answers(dup(l).getEightChar()) for dup in DUPS], [answers(o)] * len(DUPS))
        if len(seq) <= 2:
            ctx.eq(key + ":copied", "copies of the %s from %s made after %s" % (kind, route, seq), [answers(dup(o)) for dup in DUPS], [answers(f)] * len(DUPS))
        ctx.outcome((kind, tuple(str(x) for x in got.values())))
    # a single question before, between and after two changes: what one answer leaves behind must not outlive a change
    qs = api.queries(type(o0))
    pairs = [(x, y) for x in small for y in small if x != y]
    for q in qs if part == 0 else ():
        for seq in [(x,) for x in small] + pairs:
            for when in range(len(seq)):
                o = mk()[0]
                key = "%s:%s:%s:%s:%s before change %d" % (kind, route, "%04d-%02d-%02d" % t[:3], q, ";".join("%s(%r)" % x for x in seq), when)
                ctx.here = key
                ctx.states += 1
                ctx.transitions += len(seq)
                for n, (s, a) in enumerate(seq):
                    if n == when:
                        api.ask(o, q)
                    getattr(o, s)(value(kind, s, a))
                f = expected(kind, mk()[0], seq, t)[0]
                ctx.eq(key, "%s of the %s from %s, asked %s only before change %d of %s, against one made with these values" % ("every answer", kind, route, q, when + 1, seq), answers(o), answers(f))
    ctx.sample("%s from %s on %s: %d histories" % (kind, route, t, len(seqs)))
