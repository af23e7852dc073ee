"""C26: holiday corrections against concurrent lookups."""
from mc import core, load, sched

ID = "C26"
TITLE = "Holiday corrections and lookups are atomic with respect to each other"
BOUNDS = {
    "quick": "9 corrections (add, replace, remove, rename, several records at once, new names with and without data, two corrections in a row) x 9 reading threads (by day, month, year, target, "
             "working-day steps, two lookups in a row) and 12 pairings with two readers: all schedules with <= 4 preemptions (<= 2 with two readers) at accesses to the shared holiday data",
    "thorough": "same scenarios, <= 7 preemptions (<= 4 with two readers)",
}
ASSUMPTIONS = ["a switch between two points changes nothing: code between points touches only the thread's own objects (points found by inspecting the loaded code and its state, see mc/sched.py)",
               "one correcting thread; a working-day step makes one lookup per day and is exercised where at most one of those days is corrected"]
BINDING = "every schedule is executed on the real code by real threads under a controlled scheduler; results are compared with the same lookups made before and after the correction"
lp = None
P = None
snap = None
NAMES2 = ("甲节", "乙节", "丙节", "丁节", "戊节", "己节", "庚节", "辛节", "壬节", "癸节")


def HU():
    from lunar_python.util import HolidayUtil
    return HolidayUtil


def fixes():
    f = HU().fix
    return [
        ("add", [lambda: f(None, "204501010120450101")]),
        ("replace", [lambda: f(None, "202001010020200101")]),
        ("replace later", [lambda: f(None, "202005010020200501")]),
        ("remove", [lambda: f(None, "20200102~00000000000"[:18])]),
        ("remove first", [lambda: f(None, "20200101~000000000")]),
        ("several", [lambda: f(None, "202001010120200101" + "202001020120200101" + "20200501~000000000" + "202005110020200501")]),
        ("names", [lambda: f(NAMES2, None)]),
        ("names and data", [lambda: f(NAMES2, "202001010120200101" + "202001029020200101")]),
        ("two corrections", [lambda: f(None, "202001010120200101"), lambda: f(NAMES2, "202001020020200102")]),
    ]


def text(v):
    if v is None:
        return None
    if isinstance(v, list):
        return [text(x) for x in v]
    return (v.getDay(), v.getName(), v.isWork(), v.getTarget(), v.toString())


def readers():
    H = HU()
    s = lp.Solar.fromYmd
    return [
        ("day", [lambda: text(H.getHoliday("2020-01-01"))]),
        ("day added", [lambda: text(H.getHoliday(2045, 1, 1))]),
        ("month", [lambda: text(H.getHolidays(2020, 1))]),
        ("year", [lambda: text(H.getHolidays("2020"))]),
        ("target", [lambda: text(H.getHolidaysByTarget("2020-01-01"))]),
        ("may", [lambda: text(H.getHolidaysByTarget("2020-05-01")), lambda: text(H.getHolidays("2020-05"))]),
        ("day twice", [lambda: text(H.getHoliday(2020, 1, 2)), lambda: text(H.getHoliday(2020, 1, 2))]),
        ("day, then month", [lambda: text(H.getHoliday(2020, 1, 1)), lambda: text(H.getHolidays("2020-01"))]),
        ("step", [lambda: s(2019, 12, 31).next(1, True).toYmd(), lambda: s(2020, 4, 30).next(1, True).toYmd()]),
    ]


def scenarios():
    r = []
    nf, nr = len(fixes()), len(readers())
    for i in range(nf):
        for j in range(nr):
            if readers()[j][0] == "step" and fixes()[i][0] in ("several", "two corrections", "names and data"):
                continue
            r.append((i, (j,)))
    for i, js in ((7, (2, 4)), (7, (6, 0)), (5, (2, 5)), (5, (7, 3)), (3, (6, 6)), (8, (7, 2)), (4, (0, 3)), (1, (4, 7)), (0, (1, 1)), (6, (2, 2)), (8, (6, 7)), (2, (5, 5))):
        r.append((i, js))
    return r

UNIT_LIMITS = {"thorough": (1500, 5000)}


def setup():
    global lp, P, snap
    lp = sched.import_package(load)
    snap = load.Snapshot()

    def each():
        for _, ops in fixes() + readers():
            for o in ops:
                o()
    P = sched.Points(warm=[each])
    snap.restore()


def plan(tier):
    return [[k, 4 if len(js) == 1 else 2, 4] if tier == "quick" else [k, 7 if len(js) == 1 else 4, 1] for k, (i, js) in enumerate(scenarios())]


def run(ctx, unit):
    k, bound, _ = unit
    i, js = scenarios()[k]
    fname, fops = fixes()[i]
    rs = [readers()[j] for j in js]
    name = "%s | %s" % (fname, ", ".join(r[0] for r in rs))
    # what each lookup answers after 0, 1, .. corrections
    allowed = []
    snap.restore()
    for n in range(len(fops) + 1):
        allowed.append([[o() for o in r[1]] for r in rs])
        if n < len(fops):
            fops[n]()
    final = allowed[-1]

    def make():
        def seq(ops):
            return lambda: [o() for o in ops]
        return [seq(fops)] + [seq(r[1]) for r in rs]

    def visit(r):
        ctx.states += r.step
        ctx.traces += 1
        ctx.transitions += len(fops) + sum(len(x[1]) for x in rs)
        sch = sorted(r.decisions.items())
        key = "%s:%s" % (name, sch)
        ctx.here = key
        if r.deadlock or r.aborting:
            ctx.viol("blocked:" + key, "scenario '%s' blocks under schedule %s" % (name, sch))
            return
        for t, res in enumerate(r.result):
            if res[0] != "ok":
                ctx.viol("error:" + key, "scenario '%s', thread %d raised %s under schedule %s" % (name, t, res[1], sch))
                return
        seen = []
        for a, rd in enumerate(rs):
            got = r.result[a + 1][1]
            at = 0
            for b, g in enumerate(got):
                n = next((n for n in range(at, len(allowed)) if allowed[n][a][b] == g), None)
                if n is None:
                    ctx.viol("mixture:" + key, "scenario '%s', lookup %d of reader %d under schedule %s answered %s; before or after the correction it answers %s" % (
                        name, b, a, sch, core.short(g), core.short([allowed[n][a][b] for n in range(at, len(allowed))])))
                    return
                at = n
            seen.append(at)
        ctx.outcome((name, tuple(seen)))
        ctx.eq("after:" + key, "lookups after scenario '%s', schedule %s" % (name, sch), [[o() for o in rd[1]] for rd in rs], final)

    n, base, full = sched.explore(P, "inst", make, bound, snap.restore, visit, seconds=100 if ctx.tier == "quick" else 900)
    ctx.capped += not full
    ctx.counters["schedules"] += n
    if not full:
        ctx.counters["cut"] += 1
    ctx.sample("scenario '%s': %d decision points in the default schedule, %d schedules, <= %d preemptions" % (name, base, n, bound))
