"""The public query methods of the library's objects, found by inspection, and a canonical form of their answers."""
import inspect
import types

DROP = {"setSect", "setName", "setIndex", "setSolar", "setDay", "setWork", "setTarget"}
# arguments tried for methods that need or accept some
ARGS = {
    "sect": [1, 2], "whole_day": [False, True], "gender": [0, 1], "start": [0, 1, 6], "separate_month": [False, True], "only_work_day": [False, True],
    "lunar_month": [1, 12, -4], "n": [1, 11], "days": [-1, 1], "months": [-1, 13], "years": [-1, 1], "hours": [-25, 1], "weeks": [-1, 1], "seasons": [-1, 1], "half_years": [-1, 1],
}
FLOW = {"LunarYear": {"n": [-1, 1]}, "LunarMonth": {"n": [-1, 13]}}


def args_of(cls, name, f):
    """list of argument tuples for f, [] when unknown"""
    ps = [p for p in list(inspect.signature(f).parameters.values())[1:] if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
    out = [()]
    if all(p.default is not p.empty for p in ps):
        base = [()]
    else:
        base = []
    for p in ps:
        vals = FLOW.get(cls.__name__, {}).get(p.name) or ARGS.get(p.name)
        if vals is None:
            return base
        out = [t + (v,) for t in out for v in vals]
    if ps and () not in out:
        out = base + out
    return out


def queries(cls):
    """[(method name, args)]"""
    r = []
    for k in sorted(dir(cls)):
        if not k.startswith(("get", "is", "to", "next", "subtract")) or k in DROP:
            continue
        f = inspect.getattr_static(cls, k)
        if not isinstance(f, types.FunctionType):
            continue
        for a in args_of(cls, k, f):
            r.append((k, a))
    return r


def ours(v):
    return type(v).__module__.startswith("lunar_python") and not isinstance(v, (type, types.FunctionType))


def text(v):
    """what a package object says about itself"""
    t = type(v)
    n = t.__name__
    if n == "Solar":
        return v.toYmdHms()
    if n == "Lunar":
        return "%s %s" % (v.toString(), v.getSolar().toYmdHms())
    if n == "LunarYear":
        return [v.getYear(), v.getGanZhi(), v.getLeapMonth(), [text(m) for m in v.getMonths()], [repr(x) for x in v.getJieQiJulianDays()]]
    if n == "LunarMonth":
        return [v.getYear(), v.getMonth(), v.getDayCount(), repr(v.getFirstJulianDay()), v.getIndex(), v.getGanZhi()]
    if n == "LunarTime":
        return [v.getGanZhi(), v.getMinHm(), v.getMaxHm(), v.getNineStar().toString()]
    if n == "EightChar":
        return [v.getSect() if hasattr(v, "getSect") else None, v.toString()]
    if n in ("Foto", "Tao"):
        return v.toFullString()
    if n == "JieQi":
        return [v.getName(), v.getSolar().toYmdHms(), v.isJie(), v.isQi()]
    if n == "Yun":
        return [v.getGender(), v.isForward(), v.getStartYear(), v.getStartMonth(), v.getStartDay(), v.getStartHour(), v.getStartSolar().toYmdHms()]
    if n == "DaYun":
        return [v.getIndex(), v.getStartYear(), v.getEndYear(), v.getStartAge(), v.getEndAge(), v.getGanZhi()]
    if n in ("LiuNian", "XiaoYun"):
        return [v.getIndex(), v.getYear(), v.getAge(), v.getGanZhi()]
    if n == "LiuYue":
        return [v.getIndex(), v.getMonthInChinese(), v.getGanZhi()]
    if n == "SolarWeek":
        return [v.getYear(), v.getMonth(), v.getDay(), v.getStart()]
    if n == "Holiday":
        return [v.getDay(), v.getName(), v.isWork(), v.getTarget()]
    if hasattr(v, "toFullString"):
        return v.toFullString()
    return v.toString() if hasattr(v, "toString") else str(v)


def canon(v):
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return ["dict"] + [[canon(k), canon(x)] for k, x in v.items()]
    if isinstance(v, (set, frozenset)):
        return ["set"] + sorted(repr(canon(x)) for x in v)
    if ours(v):
        return [type(v).__name__, text(v)]
    return repr(v)


def ask(o, q):
    """('ok', canonical answer) or ('error', type)"""
    try:
        return "ok", canon(getattr(o, q[0])(*q[1]))
    except Exception as e:
        return "error", type(e).__name__


def objects(lp, spec):
    """kind -> maker of a fresh object for the civil moment spec"""
    y, m, d, h, mi, s = spec

    def lunar():
        return lp.Solar.fromYmdHms(y, m, d, h, mi, s).getLunar()

    def chart():
        return lunar().getEightChar()

    def yun(k, sect=1):
        return chart().getYun(k, sect)

    def festival(get):
        def f():
            l = get(lunar())
            return l[0] if l else None
        return f

    r = {
        "Solar": lambda: lp.Solar.fromYmdHms(y, m, d, h, mi, s),
        "Lunar": lunar,
        "LunarTime": lambda: lunar().getTime(),
        "LunarMonth": lambda: lp.LunarMonth.fromYm(lunar().getYear(), lunar().getMonth()),
        "LunarYear": lambda: lp.LunarYear.fromYear(lunar().getYear()),
        "EightChar": chart,
        "Foto": lambda: lunar().getFoto(),
        "Tao": lambda: lunar().getTao(),
        "FotoFestival": festival(lambda l: l.getFoto().getFestivals()),
        "TaoFestival": festival(lambda l: l.getTao().getFestivals()),
        "NineStar": lambda: lunar().getDayNineStar(),
        "JieQi": lambda: lunar().getPrevJieQi(),
        "Fu": lambda: lunar().getFu(),
        "ShuJiu": lambda: lunar().getShuJiu(),
        "SolarWeek": lambda: lp.SolarWeek.fromYmd(y, m, d, d % 7),
        "SolarMonth": lambda: lp.SolarMonth.fromYm(y, m),
        "SolarSeason": lambda: lp.SolarSeason.fromYm(y, m),
        "SolarHalfYear": lambda: lp.SolarHalfYear.fromYm(y, m),
        "SolarYear": lambda: lp.SolarYear.fromYear(y),
        "Yun": lambda: yun(d % 2),
        "Yun2": lambda: yun(1 - d % 2, 2),
        "DaYun0": lambda: yun(1).getDaYun()[0],
        "DaYun": lambda: yun(0).getDaYun()[2],
        "LiuNian": lambda: yun(1).getDaYun()[1].getLiuNian()[3],
        "XiaoYun": lambda: yun(1).getDaYun()[1].getXiaoYun()[3],
        "LiuYue": lambda: yun(1).getDaYun()[1].getLiuNian()[3].getLiuYue()[11],
    }
    return r
