"""Run in a fresh interpreter by C29: asks a fixed set of questions and prints one digest per group of answers as JSON.
argv: JSON with the configuration of the process (clock, first module, thread, ...)."""
import datetime
import hashlib
import json
import os
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
conf = json.loads(sys.argv[1])


def set_clock(t):
    real_dt, real_d = datetime.datetime, datetime.date

    class DT(real_dt):
        @classmethod
        def now(cls, tz=None):
            return cls(*t, tzinfo=tz)

        @classmethod
        def today(cls):
            return cls(*t)

        @classmethod
        def utcnow(cls):
            return cls(*t)

    class D(real_d):
        @classmethod
        def today(cls):
            return cls(*t[:3])
    datetime.datetime, datetime.date = DT, D
    s = (real_dt(*t) - real_dt(1970, 1, 1)).total_seconds()
    real_local, real_gm = time.localtime, time.gmtime
    time.time = lambda: s
    time.localtime = lambda x=None: real_local(s if x is None else x)
    time.gmtime = lambda x=None: real_gm(s if x is None else x)


MOMENTS = [(2020, 5, 24, 23, 30, 0), (2024, 2, 9, 1, 2, 3), (2024, 7, 25, 12, 0, 0), (1582, 10, 15, 0, 0, 0), (2021, 2, 3, 22, 30, 0), (2033, 12, 22, 5, 0, 0), (1, 1, 1, 0, 0, 0),
           (9999, 12, 31, 23, 59, 59), (2023, 12, 22, 11, 27, 20), (1900, 1, 30, 9, 0, 0), (239, 12, 13, 0, 0, 0), (2012, 8, 17, 3, 3, 3)]
REJECTED = [("Solar", (2020, 13, 1)), ("Solar", (2020, 0, 1)), ("Solar", (2020, 1, 32)), ("Solar", (2020, 1, 0)), ("Solar", (1582, 10, 5)), ("Solar", (1582, 10, 14)), ("Solar", (2020, 1, 1, 24, 0, 0)), ("Solar", (2020, 1, 1, -1, 0, 0)),
            ("Solar", (2020, 1, 1, 0, 60, 0)), ("Solar", (2020, 1, 1, 0, 0, 60)), ("Solar", (2020, 1, 1, 0, 0, -1)), ("Lunar", (2020, 13, 1)), ("Lunar", (2020, -5, 1)), ("Lunar", (2020, 0, 1)), ("Lunar", (2020, 4, 31)), ("Lunar", (2020, 2, 0)),
            ("Lunar", (2021, -4, 1)), ("Lunar", (2020, 3, 1, 24, 0, 0)), ("Lunar", (2020, 3, 1, 0, 60, 0)), ("Lunar", (2020, 3, 1, 0, 0, 60)), ("LunarTime", (2020, 13, 1, 0, 0, 0)), ("LunarTime", (2020, 1, 1, 24, 0, 0))]


def main():
    if conf.get("clock"):
        set_clock(conf["clock"])
    if conf.get("first"):
        __import__(conf["first"])
    from mc import api, load
    lp = load.lunar()
    from lunar_python.util import HolidayUtil, LunarUtil, SolarUtil
    out = {}

    def put(key, v):
        out[key] = hashlib.sha256(repr(v).encode("utf-8", "surrogatepass")).hexdigest()[:16]
    for t in MOMENTS[:conf.get("moments", 99)]:
        for kind, mk in api.objects(lp, t).items():
            o = mk()
            put("%s at %04d-%02d-%02d %02d:%02d:%02d" % ((kind,) + t), None if o is None else [(q, api.ask(o, q)) for q in api.queries(type(o))])
    for cls, args in REJECTED:
        for make in ("fromYmdHms" if len(args) > 3 else "fromYmd",):
            f = getattr(getattr(lp, cls), make)
            try:
                put("rejected %s%r" % (cls, args), ("accepted", str(f(*args))))
            except Exception as e:
                put("rejected %s%r" % (cls, args), type(e).__name__)
    put("lunar month without leap", [lp.LunarMonth.fromYm(2020, m) is None for m in (-5, -4, 13, 4)])
    put("holidays", [str(x) for y in range(2001, 2030) for x in HolidayUtil.getHolidays(y)] + [str(HolidayUtil.getHoliday(k)) for k in ("2020-10-01", "20201008", "2020-02-30")])
    put("working days", [lp.Solar.fromYmd(2020, 9, 25).next(n, True).toYmd() for n in range(-40, 40)])
    put("months", [(SolarUtil.getDaysOfMonth(y, m), SolarUtil.getWeeksOfMonth(y, m, m % 7)) for y in (1500, 1582, 1900, 2000, 2023, 2024) for m in range(1, 13)])
    put("times", [LunarUtil.getTimeZhiIndex("%02d:%02d" % (h, m)) for h in range(24) for m in (0, 30, 59)])
    stamps = [datetime.datetime(y, m, d, h, 30, 5, tzinfo=z) for y in (1, 1969, 1970, 2024, 9999) for m, d in ((1, 1), (3, 10), (7, 1), (12, 31)) for h in (0, 2, 23) for z in (None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=8)))]
    put("datetimes", [(lp.Solar.fromDate(x).toYmdHms(), str(lp.Lunar.fromDate(x)) if 1 < x.year < 9999 else "") for x in stamps])
    put("dates", [(f.fromDate(x, *a).toString(), f.fromDate(x.date(), *a).toString()) for f, a in ((lp.SolarMonth, ()), (lp.SolarSeason, ()), (lp.SolarHalfYear, ()), (lp.SolarYear, ()), (lp.SolarWeek, (1,))) for x in stamps])
    put("steps", [lp.Solar.fromYmdHms(2020, 1, 31, 5, 6, 7).nextMonth(n).next(n).nextHour(n * 7).toYmdHms() for n in range(-50, 50)])
    put("lunar steps", [str(lp.LunarMonth.fromYm(2020, 4).next(n)) for n in range(-30, 30)])
    put("julian", [lp.Solar.fromJulianDay(2451545 + n * 3333.3).toYmdHms() for n in range(-200, 200)])
    return out


result = []


def guarded():
    try:
        result.append(main())
    except BaseException as e:
        result.append({"error": "%s: %s" % (type(e).__name__, e)})


def fork():
    """ask in the parent, then in a forked child"""
    main()
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        guarded()
        with os.fdopen(w, "w") as f:
            f.write(json.dumps(result[-1]))
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        result.append(json.loads(f.read()))
    os.waitpid(pid, 0)


def in_loop():
    import asyncio

    async def go():
        guarded()
    asyncio.run(go())


def reimport():
    main()
    for k in [k for k in sys.modules if k.split(".")[0] == "lunar_python"]:
        del sys.modules[k]
    guarded()


def in_thread():
    th = threading.Thread(target=guarded)
    th.start()
    th.join()


mode = conf.get("mode")
if mode == "fork":
    fork()
elif mode == "asyncio":
    in_loop()
elif mode == "reimport":
    reimport()
elif mode == "stack":
    threading.stack_size(256 * 1024)
    in_thread()
elif mode:
    import decimal
    import gc
    if mode == "trace":
        sys.settrace(lambda *a: None)
    elif mode == "recursion":
        sys.setrecursionlimit(300)
    elif mode == "nogc":
        gc.disable()
    elif mode == "gc":
        gc.set_threshold(50, 2, 2)
    elif mode == "decimal":
        decimal.getcontext().prec = 3
        decimal.getcontext().rounding = decimal.ROUND_UP
        decimal.getcontext().traps[decimal.Inexact] = True
    guarded()
    sys.settrace(None)
elif conf.get("thread"):
    in_thread()
else:
    guarded()
print(json.dumps(result[0]))
