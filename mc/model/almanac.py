"""Reference almanac: lunar months of years 0..9999 and the instants of the solar terms, as committed in data/
(captured from the pinned tree, validated independently by tools/validate_almanac.py)."""
import array
import bisect
import math
import os
import zlib

from . import civil

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "data")
LEN = {"L": 30, "S": 29, "X": 28}

YEARS = {}       # lunar year -> list of (month, length, jdn of day 1)
FIRST = []       # jdn of first day of each month, ascending
LABEL = []       # (lunar year, month, length)


def _load():
    with open(os.path.join(DATA, "lunar_months.txt")) as f:
        for line in f:
            p = line.split()
            y, j = int(p[0]), int(p[1])
            ms = []
            for t in p[2:]:
                n = LEN[t[-1]]
                m = int(t[:-1])
                ms.append((m, n, j))
                FIRST.append(j)
                LABEL.append((y, m, n))
                j += n
            YEARS[y] = ms


_load()
END = FIRST[-1] + LABEL[-1][2]


def lunar_of(j):
    """lunar (year, month, day) of a day number"""
    i = bisect.bisect_right(FIRST, j) - 1
    y, m, n = LABEL[i]
    d = j - FIRST[i] + 1
    assert 1 <= d <= n
    return y, m, d


def jdn_of(y, m, d):
    for mm, n, j in YEARS[y]:
        if mm == m:
            return j + d - 1 if 1 <= d <= n else None
    return None


def new_year(y):
    return YEARS[y][0][2]


T0 = 1721034.652237437
STEP = 365.2422 / 24
_t = array.array("i")
with open(os.path.join(DATA, "terms.bin"), "rb") as _f:
    _t.frombytes(zlib.decompress(_f.read()))
NTERMS = len(_t)
NAMES = ("大雪", "冬至", "小寒", "大寒", "立春", "雨水", "惊蛰", "春分", "清明", "谷雨", "立夏", "小满", "芒种", "夏至", "小暑", "大暑",
         "立秋", "处暑", "白露", "秋分", "寒露", "霜降", "立冬", "小雪")
KEYS = ("DA_XUE", "冬至", "小寒", "大寒", "立春", "雨水", "惊蛰", "春分", "清明", "谷雨", "立夏", "小满", "芒种", "夏至", "小暑", "大暑", "立秋", "处暑",
        "白露", "秋分", "寒露", "霜降", "立冬", "小雪", "大雪", "DONG_ZHI", "XIAO_HAN", "DA_HAN", "LI_CHUN", "YU_SHUI", "JING_ZHE")


def term_jd(k):
    """Julian day (Beijing time) of term k; term 24*y+i is entry i of civil year y's table (0 = 大雪 of December y-1)"""
    return T0 + k * STEP + _t[k] / 86400000.0


def term_name(k):
    return NAMES[k % 24]


def jd_secs(x):
    """nearest whole second, as jdn*86400+second of day"""
    d = math.floor(x + 0.5)
    return d * 86400 + int(math.floor((x + 0.5 - d) * 86400 + 0.5))


def term_secs(k):
    return jd_secs(term_jd(k))


def secs_ymdhms(s):
    j, r = divmod(s, 86400)
    return civil.ymd(j) + (r // 3600, r // 60 % 60, r % 60)
