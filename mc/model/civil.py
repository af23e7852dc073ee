"""Reference model of the civil calendar: Julian until 1582-10-04, Gregorian from 1582-10-15.
Integer Julian Day Numbers only (Fliegel / Richards arithmetic), independent of the code's floating point."""

GREG = 2299161           # 1582-10-15
JDN_MIN = 1721424        # 0001-01-01 (Julian)
JDN_MAX = 5373484        # 9999-12-31 (Gregorian)


def leap(y):
    return y % 4 == 0 if y <= 1582 else (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))


def jdn(y, m, d):
    a = (14 - m) // 12
    yy = y + 4800 - a
    mm = m + 12 * a - 3
    base = d + (153 * mm + 2) // 5 + 365 * yy + yy // 4
    if (y, m, d) >= (1582, 10, 15):
        return base - yy // 100 + yy // 400 - 32045
    return base - 32083


def ymd(j):
    if j >= GREG:
        a = j + 32044
        b = (4 * a + 3) // 146097
        c = a - 146097 * b // 4
    else:
        b = 0
        c = j + 32082
    d = (4 * c + 3) // 1461
    e = c - 1461 * d // 4
    m = (5 * e + 2) // 153
    return (100 * b + d - 4800 + m // 10, m + 3 - 12 * (m // 10), e - (153 * m + 2) // 5 + 1)


MD = (0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def month_len(y, m):
    if (y, m) == (1582, 10):
        return 21
    return 29 if m == 2 and leap(y) else MD[m]


def year_len(y):
    return 355 if y == 1582 else (366 if leap(y) else 365)


def month_days(y, m):
    """day numbers that exist in the month"""
    if (y, m) == (1582, 10):
        return [1, 2, 3, 4] + list(range(15, 32))
    return list(range(1, month_len(y, m) + 1))


def last_day(y, m):
    return 31 if (y, m) == (1582, 10) else month_len(y, m)


def doy(y, m, d):
    return jdn(y, m, d) - jdn(y, 1, 1) + 1


def week(j):
    """0 = Sunday; JDN 0 was a Monday"""
    return (j + 1) % 7


def valid(y, m, d):
    if not (1 <= m <= 12):
        return False
    if (y, m) == (1582, 10):
        return 1 <= d <= 4 or 15 <= d <= 31
    return 1 <= d <= month_len(y, m)


assert jdn(1, 1, 1) == JDN_MIN and jdn(9999, 12, 31) == JDN_MAX and jdn(1582, 10, 15) == GREG and jdn(1582, 10, 4) == GREG - 1
assert ymd(JDN_MIN) == (1, 1, 1) and ymd(JDN_MAX) == (9999, 12, 31) and ymd(GREG - 1) == (1582, 10, 4) and jdn(2000, 1, 1) == 2451545
