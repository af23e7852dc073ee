"""C31: a call made in the middle of another one (signal handler, finaliser, tracing hook) is answered as if alone."""
from mc import api, core, sched
from mc.checks import c22

ID = "C31"
KEEP_ORDER = True
TITLE = "A call made in the middle of another call is answered as if alone"
BOUNDS = {
    "quick": "18 calls interrupted at every distinct line, call, entry and return of the package's code they run (first and last occurrence of each), and 13 kinds of objects with each of their queries interrupted at up to 6 sites not met "
             "before, by each of 5 to 7 other calls or queries of the same object; a place met by several calls is interrupted by every other call in one of them and by one call in the rest; answers of both calls and of one made afterwards; corrections of holidays interrupted by lookups and lookups by corrections",
    "thorough": "the same 18 calls at every dynamic occurrence up to 3 000 each, objects' queries at up to 60 sites, on 3 dates",
}
ASSUMPTIONS = ["interruptions arrive between two lines, at calls, entries and returns of the package's own code, as Python delivers signals between instructions; not while a lock is being taken or released",
               "corrections of holidays are not nested in each other"]
BINDING = "the interrupting call is made by a sys.monitoring callback inside the real code; the oracle is each call made alone in a fresh process state"
UNIT_LIMITS = {"thorough": (1800, 5400)}
OUTER = ["year 2020", "year 1500", "convert 2024-2-9", "convert 2020-1-24", "lunar 2020/-4/2", "step month 2023/12-13", "step work", "terms 2021", "chart 2020", "sect", "foto", "tao", "festivals",
         "slots", "holiday target", "holiday month", "advice table", "weeks"]
INNER = ["year 2020", "year 2023", "lunar 2020/-4/2", "holiday target", "tao", "sect", "weeks"]
AFTER = ["year 2020", "convert 2024-2-9"]
FIX = c22.FIX
MON = c22.MON


class Interrupts(c22.Faults):
    """at the n-th pass of one place run another call"""

    def __init__(self):
        c22.Faults.__init__(self)
        self.E = MON.events
        MON.register_callback(c22.TOOL, self.E.LINE, self.line)
        self.watch(self.codes)

    def watch(self, codes):
        for c in getattr(self, "watched", self.codes):
            MON.set_local_events(c22.TOOL, c, 0)
        self.watched = codes
        for c in codes:
            MON.set_local_events(c22.TOOL, c, self.E.PY_START | self.E.PY_RETURN | self.E.CALL | self.E.LINE)

    def line(self, code, line):
        self.hit((code, line, "line"))

    def hit(self, s):
        if not self.on:
            return
        if self.record is not None:
            self.record.append(s)
        elif s == self.site:
            self.n += 1
            if self.n == self.target:
                self.on = False
                self.got = self.inner()

    def trace(self, f):
        """all places f passes, in order"""
        self.watch(self.codes)
        self.go(f)
        return self.record

    def nest(self, f, s, k, inner):
        """run f, make the call inner at its k-th pass of place s; returns both answers"""
        if self.watched != [s[0]]:
            self.watch([s[0]])
        self.n, self.target, self.site, self.record, self.inner, self.got = 0, k, s, None, inner, None
        self.on = True
        try:
            r = f()
        finally:
            self.on = False
        return r, self.got


def places(record, cap=0):
    """[(place, pass)]: the first and the last pass of every place, or the first cap passes"""
    cnt, out = {}, []
    for s in record:
        cnt[s] = cnt.get(s, 0) + 1
        if cap and len(out) < cap:
            out.append((s, cnt[s]))
    if cap:
        return out
    for s in cnt:
        out.append((s, 1))
        if cnt[s] > 1:
            out.append((s, cnt[s]))
    return out


def site(s):
    if s[2] == "line":
        return "line %d of %s" % (s[1], s[0].co_qualname)
    return c22.site(s)


OWNER = {}
PLACES = {}


def setup():
    c22.setup()
    it = Interrupts()
    ops = c22.ops()
    try:
        for o in OUTER:
            c22.fresh.restore()
            PLACES[o] = rec = it.trace(ops[o])
            for s in rec:
                OWNER.setdefault(s, o)
    finally:
        it.close()
        c22.fresh.restore()


def plan(tier):
    cap = 0 if tier == "quick" else 3000
    parts = 8 if tier == "quick" else 24
    units = [["calls", o, p, parts, cap] for o in OUTER for p in range(parts)]
    units += [["fix", 0, 1, cap], ["lookup", 0, 1, cap]]
    specs = range(1) if tier == "quick" else range(3)
    units += [["object", i, k, p, 8, 6 if tier == "quick" else 60] for i in specs for k in c22.MAIN for p in range(8)]
    return units


def calls(ctx, outer, part, parts, cap):
    ops = c22.ops()
    f = ops[outer]
    it = Interrupts()
    try:
        todo = places(PLACES[outer], cap)
        for i, (s, k) in enumerate(todo):
            if i % parts != part:
                continue
            # a place met by an earlier call is interrupted by one call only, all calls in turn
            own = OWNER[s] == outer
            for x in INNER if own else [INNER[(i + OUTER.index(outer)) % len(INNER)]]:
                c22.fresh.restore()
                where = "'%s' made in the middle of '%s' (pass %d of %s)" % (x, outer, k, site(s))
                ctx.here = where
                got, inner = it.nest(lambda: c22.call(f), s, k, lambda: c22.call(ops[x]))
                ctx.traces += 1
                ctx.states += 1
                ctx.transitions += 3
                key = "%s:%s:%s:%d" % (outer, x, site(s), k)
                ctx.eq("inner:" + key, where, inner, c22.BASE[x])
                ctx.eq("outer:" + key, "'%s' when %s" % (outer, where), got, c22.BASE[outer])
                z = (x, outer)[i % 2]
                ctx.eq("after:%s:%s" % (key, z), "'%s' after %s" % (z, where), c22.call(ops[z]), c22.BASE[z])
            ctx.counters["interruption points"] += 1
        ctx.outcome((outer, part))
        if part == 0:
            ctx.sample("%s: %d steps, interrupted at %d of them" % (outer, len(PLACES[outer]), len(todo)))
    finally:
        it.close()


def fix():
    c22.HU.fix(c22.FIXNAMES, c22.NEWFIX)


def holidays(ctx, what, cap):
    """a correction interrupted by lookups, or lookups by a correction: what is seen is the data before or after it"""
    it = Interrupts()
    look = {"month": lambda: c22.HU.getHolidays("2020-01"), "month 5": lambda: c22.HU.getHolidays(2020, 5), "new": lambda: c22.HU.getHolidays("2045-05"), "day": lambda: c22.HU.getHoliday("2020-01-01"),
            "target": lambda: c22.HU.getHolidaysByTarget("2020-05-01"), "year": lambda: c22.HU.getHolidays(2019)}
    try:
        c22.fresh.restore()
        before = {n: c22.call(f) for n, f in look.items()}
        fix()
        after = {n: c22.call(f) for n, f in look.items()}
        for n, f in look.items():
            outer, inner = (fix, f) if what == "fix" else (f, fix)
            c22.fresh.restore()
            rec = it.trace(outer)
            for s, k in places(rec, cap):
                c22.fresh.restore()
                ctx.states += 1
                ctx.traces += 1
                where = "lookup %s and a correction, one made in the middle of the other (%s, pass %d of %s)" % (n, what, k, site(s))
                a, b = it.nest(lambda: c22.call(outer), s, k, lambda: c22.call(inner))
                got, done = (b, a) if what == "fix" else (a, b)
                if got not in (before[n], after[n]):
                    ctx.viol("mix:%s:%s:%s:%d" % (what, n, site(s), k), "%s: the lookup sees %s" % (where, core.short(got)))
                if done[0] != "ok":
                    ctx.viol("fix:%s:%s:%s:%d" % (what, n, site(s), k), "%s: the correction ends with %s" % (where, done))
                for z, g in look.items():
                    ctx.eq("later:%s:%s:%s:%d:%s" % (what, n, site(s), k, z), "lookup %s after %s" % (z, where), c22.call(g), after[z])
        ctx.outcome(what)
    finally:
        it.close()


def objects(ctx, spec, kind, part, parts, limit):
    spec = c22.SPECS[spec]
    mk = c22.objects(spec)[kind]
    c22.fresh.restore()
    o = mk()
    qs = [q for q in api.queries(type(o)) if "next" not in q[0].lower()[:4]]
    base = {q: api.ask(o, q) for q in qs}
    it = Interrupts()
    met, passing, traces = {}, {}, {}
    try:
        for q in qs:
            c22.fresh.restore()
            o = mk()
            traces[q] = places(it.trace(lambda: getattr(o, q[0])(*q[1])))
            for s in {p[0] for p in traces[q]}:
                passing.setdefault(s, []).append(q)
        for i, q in enumerate(qs):
            if i % parts != part:
                continue
            pick = [p for p in traces[q] if met.setdefault(p[0], q) == q]
            n = len(pick)
            pick = [pick[int(j * n / limit)] for j in range(limit)] if n > limit else pick
            for s, k in pick:
                # the same query, others that pass the same place, and others
                same = [x for x in passing[s] if x != q]
                m = len(same)
                inner = [q] + [same[int(j * m / 4)] for j in range(4) if m and j < m] + [x for x in (qs[0], qs[(i * 7 + 3) % len(qs)]) if x != q]
                for x in dict.fromkeys(inner):
                    c22.fresh.restore()
                    o = mk()
                    ctx.traces += 1
                    ctx.states += 1
                    ctx.transitions += 2
                    where = "%s of %s at %s asked in the middle of its %s (pass %d of %s)" % (x, kind, spec, q, k, site(s))
                    got, mid = it.nest(lambda: api.ask(o, q), s, k, lambda: api.ask(o, x))
                    key = "%s.%s:%s:%s:%d" % (kind, q, x, site(s), k)
                    ctx.eq("inner:" + key, where, mid, base[x])
                    ctx.eq("outer:" + key, "%s when %s" % (q, where), got, base[q])
                    ctx.eq("after:" + key, "%s after %s" % (q, where), api.ask(o, q), base[q])
                ctx.counters["interruption points"] += 1
        ctx.outcome((kind, part))
    finally:
        it.close()


def run(ctx, unit):
    if unit[0] == "calls":
        calls(ctx, *unit[1:])
    elif unit[0] == "object":
        objects(ctx, *unit[1:])
    else:
        holidays(ctx, unit[0], unit[3])
