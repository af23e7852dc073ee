"""C21: thread interleavings of conversions and lookups."""
from mc import core, load, sched

ID = "C21"
TITLE = "Concurrent use of the library gives every caller its own right answer"
BOUNDS = {
    "quick": "31 scenarios of 2-3 threads (lunar years, year objects built directly, conversions, month stepping, attributes, almanac, hours, civil calendar, charts of two persons, four pillars, dates and years shared by the threads, lookups, failing calls; cold and warm cache): all schedules with <= 2 "
             "preemptions (<= 1 in the twelve large scenarios) at accesses to shared class state and locks, <= 1 preemption at attributes written lazily, and in twelve scenarios <= 1 preemption at accesses to every "
             "object reachable from shared state; with 3 threads a non-default choice at a blocking or ending thread counts as a preemption",
    "thorough": "same scenarios, <= 3 preemptions (2 in the large ones) at shared class state, <= 2 at lazily written attributes and at reachable objects (first 20 000 schedules per sixth of a scenario at these two levels)",
}
ASSUMPTIONS = ["a switch between two points changes nothing: code between points touches only the thread's own objects (points found by inspecting the loaded code and its state, see mc/sched.py)",
               "instructions of CPython are atomic (GIL)"]
BINDING = "every schedule is executed on the real code by real threads under a controlled scheduler; results are compared with the same calls made alone"
lp = None
P = None
snap = None
cold = None


def months(y):
    o = lp.LunarYear.fromYear(y)
    return (o.getYear(), o.getGanZhi(), o.getLeapMonth(), o.getDayCount(), [(m.getYear(), m.getMonth(), m.getDayCount(), m.getFirstJulianDay(), m.getIndex()) for m in o.getMonths()], o.getJieQiJulianDays()[:])


def own(y):
    return [m.toString() for m in lp.LunarYear.fromYear(y).getMonthsInYear()], lp.LunarYear.fromYear(y).getDayCount()


def conv(y, m, d):
    l = lp.Solar.fromYmd(y, m, d).getLunar()
    return l.toString(), l.getYearInGanZhiExact(), l.getMonthInGanZhi(), l.getSolar().toYmdHms()


def back(y, m, d):
    l = lp.Lunar.fromYmd(y, m, d)
    return l.getSolar().toYmd(), l.toString(), l.getPrevJieQi().getName(), l.getNextJie().getSolar().toYmdHms()


def step(y, m, n):
    x = lp.LunarMonth.fromYm(y, m).next(n)
    return x.toString(), x.getGanZhi(), x.getNineStar().toString(), x.getPositionTaiSui()


def attrs(y, m, d):
    l = lp.Solar.fromYmdHms(y, m, d, 13, 14, 15).getLunar()
    return l.getDayNineStar().toString(), l.getOtherFestivals(), l.getFestivals()


def attrs2(y, m, d):
    l = lp.Solar.fromYmdHms(y, m, d, 13, 14, 15).getLunar()
    return l.getYearNineStar().toString(), str(l.getFu()), str(l.getShuJiu()), l.getWuHou(), l.getJieQi(), l.getDayYi(), l.getYearPositionTaiSui(), l.getDayJiShen()


def terms(y, m, d):
    t = lp.Solar.fromYmd(y, m, d).getLunar().getJieQiTable()
    return [(k, t[k].toYmdHms()) for k in t]


def views(y, m, d):
    l = lp.Lunar.fromYmd(y, m, d)
    return l.getFoto().toFullString(), l.getTao().toFullString(), [f.toString() for f in l.getFoto().getFestivals()], [f.toString() for f in l.getTao().getFestivals()]


def work(y, m, d, n):
    from lunar_python.util import HolidayUtil
    return lp.Solar.fromYmd(y, m, d).next(n, True).toYmd(), [h.toString() for h in HolidayUtil.getHolidays(y, m)]


def bad_year():
    return lp.LunarYear.fromYear("2023")


def bad_year2():
    return lp.LunarYear.fromYear("x")


def bad_date():
    return lp.Lunar.fromYmd(2023, 2, 31)


def direct(y):
    o = lp.LunarYear(y)
    return [m.toString() for m in o.getMonthsInYear()], o.getJieQiJulianDays()


def direct_bad():
    return lp.LunarYear("2023")


def person(y, m, d, h, sect):
    e = lp.Solar.fromYmdHms(y, m, d, h, 30, 0).getLunar().getEightChar()
    e.setSect(sect)
    r = e.getYun(y % 2, sect)
    dy = r.getDaYun(3)
    return (e.toString(), e.getDayShiShenZhi(), e.getTimeHideGan(), e.getDayDiShi(), e.getTaiYuan(), e.getShenGong(), e.getTimeXunKong(), r.getStartSolar().toYmdHms(),
            [(x.getGanZhi(), x.getXun()) for x in dy], [(x.getGanZhi(), [z.getGanZhi() for z in x.getLiuYue()[:2]]) for x in dy[1].getLiuNian(1)], [x.getGanZhi() for x in dy[1].getXiaoYun(2)])


def hours(y, m, d, h):
    t = lp.Solar.fromYmdHms(y, m, d, h, 0, 0).getLunar().getTime()
    return (t.getGanZhi(), t.getYi(), t.getJi(), t.getChongDesc(), t.getSha(), t.getTianShenLuck(), t.getNaYin(), t.getXunKong(), t.getPositionXiDesc(), t.getNineStar().toFullString(), t.getMinHm(), t.getMaxHm())


def civil(y, m, d, n):
    a = lp.Solar.fromYmdHms(y, m, d, 23, 59, 58)
    w = lp.SolarWeek.fromYmd(y, m, d, n % 7)
    return (a.next(n).toYmdHms(), a.nextMonth(n).toYmd(), a.nextHour(n).toYmdHms(), a.getFestivals(), a.getXingZuo(), lp.Solar.fromJulianDay(a.getJulianDay()).toYmdHms(), a.subtract(a.nextYear(3)), w.next(n, True).toString(), w.getIndexInYear(),
            [x.toYmd() for x in w.getDays()], [x.toString() for x in lp.SolarMonth.fromYm(y, m).getWeeks(n % 7)], lp.SolarSeason.fromYm(y, m).next(n).toString(), lp.SolarHalfYear.fromYm(y, m).next(n).toString(),
            len(lp.SolarYear.fromYear(y).getMonths()))


def almanac(y, m, d):
    l = lp.Solar.fromYmdHms(y, m, d, 8, 0, 0).getLunar()
    return (l.getDayYi(2), l.getDayJi(), l.getDayXiongSha(), l.getTimeJi(), l.getXiuSong(), l.getZhiXing(), l.getDayTianShenLuck(), l.getDayPositionTaiSuiDesc(), l.getMonthPositionTaiSui(), l.getDayLu(), l.getHou(), l.getLiuYao(),
            l.getMonthNineStar().toString(), l.getTimeNineStar().toString(), l.getDayPositionTai(), l.getDayChongDesc(), l.getDaySha(), l.getMonthNaYin())


def four(y, m, d, h):
    e = lp.Solar.fromYmdHms(y, m, d, h, 0, 0).getLunar().getEightChar()
    return [x.toYmdHms() for x in lp.Solar.fromBaZi(e.getYear(), e.getMonth(), e.getDay(), e.getTime(), 2, y - 1) if x.getYear() == y]


class Shared(object):
    """operations on one date shared by the threads"""

    def __init__(self, *f):
        self.l = lp.Solar.fromYmdHms(*f).getLunar()

    def chart(self):
        e = self.l.getEightChar()
        return e.toString(), e.getYearShiShenZhi(), e.getMonthWuXing(), e.getMingGong(), e.getTaiXi(), e.getDayXunKong(), self.l.getBaZi(), self.l.getBaZiNaYin()

    def luck(self):
        y = self.l.getEightChar().getYun(1)
        return y.getStartSolar().toYmd(), [d.getGanZhi() for d in y.getDaYun()[:3]]

    def terms(self):
        return [(k, v.toYmdHms()) for k, v in self.l.getJieQiTable().items()], self.l.getPrevJie().getName(), self.l.getNextQi().getName()

    def day(self):
        return self.l.getDayNineStar().toString(), self.l.getXiu(), self.l.getDayYi(), self.l.getDayJiShen(), self.l.toFullString()

    def slots(self):
        return [t.getGanZhi() for t in self.l.getTimes()], self.l.getTime().getYi()


    def near(self, whole):
        return [(q.getName(), q.getSolar().toYmdHms()) for q in (getattr(self.l, "get" + n)(whole) for n in ("PrevJieQi", "NextJieQi", "PrevJie", "NextQi"))], self.l.getWuHou(), self.l.getJieQi()

    def advice(self, k):
        l = self.l
        return (l.getDayYi(k), l.getDayJi(k), l.getTimeYi(), l.getDayJiShen(), l.getFestivals(), l.getOtherFestivals(), l.getDayPositionTaiSui(k), l.getMonthNineStar(k + 1).toString(), l.getDayPositionFu(k), l.getFoto().toFullString(), l.getTao().toFullString(),
                str(l.getFu()), str(l.getShuJiu()), [f.toString() for f in l.getTao().getFestivals()])

    def year(self, k):
        y = lp.LunarYear.fromYear(self.l.getYear())
        return (y.getLeapMonth(), y.getDayCount(), y.getMonth(k).toString(), y.getTouLiang(), y.getCaoZi(), y.getZhiShui(), y.getDeJin(), y.getYuan(), y.getYun(), y.getNineStar().toString(), y.getPositionFu(k), [m.getGanZhi() for m in y.getMonthsInYear()],
                y.getMonth(k).next(1).toString(), len(y.getJieQiJulianDays()))


COLD = "cold"


# name, warm-up, operations (on nothing or on the shared date), points level for the second pass
def scenarios():
    return [
        ("year+year", None, [lambda s: months(2023), lambda s: months(2024)]),
        ("year+same", None, [lambda s: months(2020), lambda s: own(2020)]),
        ("year+warm", lambda: months(2033), [lambda s: own(2033), lambda s: months(2034)]),
        ("evict", lambda: months(2033), [lambda s: (own(2033), own(2020)), lambda s: own(2033)]),
        ("three years", None, [lambda s: own(2022), lambda s: own(2023), lambda s: own(2024)]),
        ("convert", None, [lambda s: conv(2023, 4, 1), lambda s: conv(2024, 2, 9)]),
        ("convert+back", lambda: conv(2000, 1, 1), [lambda s: back(2023, -2, 10), lambda s: conv(2025, 1, 28)]),
        ("months", None, [lambda s: step(2020, -4, 9), lambda s: step(2023, 12, -13)]),
        ("attributes", None, [lambda s: attrs2(2024, 7, 25), lambda s: attrs(2009, 1, 1)]),
        ("attributes2", None, [lambda s: attrs2(2024, 7, 25), lambda s: attrs2(2025, 1, 21)]),
        ("cold tables", COLD, [lambda s: own(2023), lambda s: own(2024)]),
        ("cold tables, old years", COLD, [lambda s: own(1023), lambda s: own(1024)]),
        ("terms", lambda: months(2021), [lambda s: terms(2021, 12, 30), lambda s: terms(2022, 1, 2)]),
        ("views", None, [lambda s: views(2021, 2, 8), lambda s: views(2022, 1, 9)]),
        ("work days", None, [lambda s: work(2020, 1, 20, 9), lambda s: work(2019, 10, 1, -3)]),
        ("fail+year", None, [lambda s: bad_year(), lambda s: months(2023)]),
        ("fail+fail+year", lambda: months(2000), [lambda s: bad_year2(), lambda s: bad_date(), lambda s: own(2023)]),
        ("direct+year", None, [lambda s: direct(2023), lambda s: own(2023)]),
        ("direct failing+year", None, [lambda s: direct_bad(), lambda s: own(2023)]),
        ("persons", lambda: months(2020), [lambda s: person(2020, 8, 15, 23, 1), lambda s: person(2020, 5, 24, 0, 2)]),
        ("hours", None, [lambda s: hours(2024, 7, 25, 23), lambda s: hours(2033, 12, 22, 0)]),
        ("civil", None, [lambda s: civil(1582, 10, 15, -9), lambda s: civil(2020, 2, 29, 13)]),
        ("almanac", None, [lambda s: almanac(2024, 7, 25), lambda s: almanac(2009, 6, 23)]),
        ("four pillars", None, [lambda s: four(1988, 2, 15, 22), lambda s: four(2008, 5, 24, 0)]),
        ("shared chart", None, [lambda s: s.chart(), lambda s: s.chart()], (2020, 5, 24, 23, 30, 0)),
        ("shared chart+luck", None, [lambda s: s.luck(), lambda s: s.chart()], (1988, 2, 15, 22, 30, 0)),
        ("direct+other", None, [lambda s: direct(2024), lambda s: own(2033)]),
        ("shared terms", None, [lambda s: s.near(False), lambda s: s.near(True)], (2024, 2, 4, 10, 0, 0)),
        ("shared advice", None, [lambda s: s.advice(1), lambda s: s.advice(2)], (2024, 7, 25, 13, 0, 0)),
        ("shared year", None, [lambda s: s.year(1), lambda s: s.year(2)], (2033, 12, 22, 1, 0, 0)),
        ("shared day", None, [lambda s: (s.terms(), s.slots()), lambda s: s.day()], (2033, 12, 22, 1, 0, 0)),
    ]


def setup():
    global lp, P, snap, cold
    lp = sched.import_package(load)
    cold = load.Snapshot()
    snap = load.Snapshot()

    def each():
        for sc in scenarios():
            s = Shared(*sc[3]) if len(sc) > 3 else None
            for o in sc[2]:
                try:
                    o(s)
                except Exception:
                    pass
    P = sched.Points(warm=[each, lambda: months(1500)])
    snap.adopt().restore()


UNIT_LIMITS = {"thorough": (1500, 5000)}
SECONDS = {"quick": 100, "thorough": 900}
CLASS2 = {"direct+other", "shared terms", "direct+year", "direct failing+year", "hours", "year+year", "year+same", "year+warm", "evict", "convert", "convert+back", "attributes2", "terms", "views", "work days", "fail+year", "fail+fail+year", "shared chart", "shared chart+luck"}
INST = {"direct+other", "shared terms", "direct+year", "year+year", "year+same", "year+warm", "convert", "terms", "views", "fail+year", "shared chart", "shared chart+luck"}


def plan(tier):
    u = []
    n = 6
    for i, sc in enumerate(scenarios()):
        if tier == "quick":
            levels = [("class", 2 if sc[0] in CLASS2 else 1)] + [("lazy", 1)] * (sc[0] not in ("persons", "four pillars"))
            if sc[0] in INST:
                levels.append(("inst", 1))
        else:
            levels = [("class", 3 if sc[0] in CLASS2 else 2), ("lazy", 2), ("inst", 1 if len(sc[2]) > 2 else 2)]
        for level, bound in levels:
            u += [[i, level, bound, k, n] for k in range(n)]
    return u


def begin(sc):
    if sc[1] is COLD:
        cold.restore()
        return
    snap.restore()
    if sc[1]:
        sc[1]()


def alone(sc, k):
    begin(sc)
    s = Shared(*sc[3]) if len(sc) > 3 else None
    try:
        return ("ok", sc[2][k](s))
    except Exception as e:
        return ("error", type(e).__name__)


def run(ctx, unit):
    i, level, bound, part, parts = unit
    sc = scenarios()[i]
    name, ops = sc[0], sc[2]
    want = [alone(sc, k) for k in range(len(ops))]
    def reset():
        begin(sc)

    def make():
        s = Shared(*sc[3]) if len(sc) > 3 else None
        return [(lambda o=o: o(s)) for o in ops]

    def visit(r):
        ctx.states += r.step
        ctx.traces += 1
        ctx.transitions += len(ops)
        key = "%s:%s" % (name, sorted(r.decisions.items()))
        ctx.here = key
        if r.deadlock:
            ctx.viol("deadlock:" + key, "scenario '%s' blocks forever under schedule %s (step -> thread); results so far %s" % (name, sorted(r.decisions.items()), core.short(r.result)))
            return
        if r.aborting:
            ctx.viol("endless:" + key, "scenario '%s' does not finish under schedule %s" % (name, sorted(r.decisions.items())))
            return
        for k in range(len(ops)):
            if r.result[k] != want[k]:
                ctx.viol("result:" + key, "scenario '%s', thread %d under schedule %s (step -> thread): got %s, alone %s" % (
                    name, k, sorted(r.decisions.items()), core.short(r.result[k]), core.short(want[k])))
                break
        ctx.outcome((name, tuple(sorted(r.decisions.items()))[:1]))
        # the state left behind is usable
        try:
            got = own(2023)
        except Exception as e:
            got = repr(e)
        ctx.eq("after:" + key, "lunar year 2023 after scenario '%s', schedule %s" % (name, sorted(r.decisions.items())), got, AFTER[0])

    snap.restore()
    AFTER[0] = own(2023)
    n, base, full = sched.explore(P, level, make, bound, reset, visit, (part, parts), 20000 if bound > 1 and level != "class" else None, delay=len(ops) > 2, seconds=SECONDS[ctx.tier])
    ctx.capped += not full
    ctx.counters["schedules"] += n
    ctx.counters["schedules of '%s' (%s)" % (name, level)] += n
    if part == 0:
        ctx.counters["points of '%s' (%s)" % (name, level)] = base
        ctx.sample("scenario '%s': %d decision points in the default schedule, points=%s, <= %d preemptions%s" % (name, base, level, bound, "" if full else " (cut)"))


AFTER = [None]
