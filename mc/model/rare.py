"""A small set of years in which every calendar feature occurs at least once: greedy cover over all years 1..9998 of leap month, month
lengths, unusual month names, date of new year, order of new year and Li Chun, year shapes, pillars of the year and of both solstices,
day of the month of each term, terms in the last or first hour of a day, nearness of a jie to a lunar month's start."""
from . import almanac as A, civil as C, gz


def features(y):
    ms = A.YEARS[y]
    f = {("months", len(ms)), ("names", tuple(m for m, _, _ in ms))}
    f |= {("length", m, n) for m, n, _ in ms}
    nm = C.ymd(A.new_year(y))
    f.add(("new year", nm[1], nm[2], nm[0] - y))
    f.add(("li chun", max(-20, min(20, gz.TD[24 * y + 3] - A.new_year(y)))))
    f.add(("shape", C.week(C.jdn(y, 1, 1)), C.jdn(y, 3, 1) - C.jdn(y, 2, 1)))
    f.add(("year", y % 60))
    last = ms[-1]
    f.add(("eve", last[0], last[1]))
    for i in range(24):
        k = 24 * y + i
        d = C.ymd(gz.TD[k])
        if y > 1582 and y < 3000:
            f.add(("term", i, d[2]))
        h = gz.TS[k] % 86400 // 3600
        if h in (0, 23):
            f.add(("hour", i, h))
        lm = A.lunar_of(gz.TD[k])
        if lm[2] in (1, 2, 29, 30):
            f.add(("lunar term", i % 2, lm[1], lm[2]))
        if i % 12 == 0 or i in (12, 24):
            f.add(("solstice", i, gz.day_gz(gz.TD[k])))
    return f


def years():
    todo = {}
    count = {}
    for y in range(2, 9998):
        todo[y] = features(y)
        for x in todo[y]:
            count[x] = count.get(x, 0) + 1
    want = set(count)
    out = []
    # rare features first: the year nearest to today that has it, preferring years covering more
    while want:
        x = min(want, key=lambda z: (count[z], repr(z)))
        y = max((y for y in todo if x in todo[y]), key=lambda y: (len(todo[y] & want), -abs(y - 2000)))
        out.append(y)
        want -= todo[y]
    return sorted(out)


# the result of years() (the reference almanac is fixed)
YEARS = (
    8, 9, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 23, 76, 159, 213, 222, 228, 233, 236, 237, 238, 287, 304, 382, 420, 431, 436, 450, 464,
    497, 597, 695, 706, 744, 749, 769, 841, 926, 975, 987, 1240, 1255, 1327, 1352, 1368, 1499, 1539, 1577, 1580, 1591, 1594, 1611, 1623, 1625,
    1626, 1637, 1651, 1661, 1700, 1727, 1825, 1903, 1963, 1990, 1991, 1992, 1993, 1997, 1998, 2002, 2042, 2304, 2319, 2436, 2497, 2848, 2896,
    3525, 5750, 6172, 6578, 6894, 9994
)

# days at the seams of the civil calendar: the turn of February in century years of both calendars and in ordinary leap years, the weeks
# around the days left out in 1582, turns of years, the first and last days
DAYS = sorted(set(
    [C.jdn(y, 3, 1) - k for y in (4, 100, 200, 300, 400, 500, 700, 900, 1000, 1100, 1300, 1400, 1500, 1580, 1600, 1700, 1800, 1900, 2000, 2100, 2400, 9900, 9996) for k in (2, 1, 0)]
    + list(range(C.jdn(1582, 9, 30), C.jdn(1582, 11, 3)))
    + [C.jdn(y, 12, 31) + k for y in (4, 99, 400, 1000, 1500, 1581, 1582, 1599, 1600, 1699, 1899, 1999, 2099, 5999, 9998) for k in (0, 1)]
    + list(range(C.JDN_MIN + 31, C.JDN_MIN + 75)) + list(range(C.JDN_MAX - 40, C.JDN_MAX + 1))
))

if __name__ == "__main__":
    assert tuple(years()) == YEARS
