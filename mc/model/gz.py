"""Reference model of the sexagenary calendar and the solar-term index, on integers only."""
import array
import bisect

from . import almanac as A
from . import civil as C

GAN = "甲乙丙丁戊己庚辛壬癸"
ZHI = "子丑寅卯辰巳午未申酉戌亥"
JZ = tuple(GAN[i % 10] + ZHI[i % 12] for i in range(60))
SX = "鼠牛虎兔龙蛇马羊猴鸡狗猪"
NUM = "〇一二三四五六七八九"
MONTH = ("", "正", "二", "三", "四", "五", "六", "七", "八", "九", "十", "冬", "腊")
DAY = ("", "初一", "初二", "初三", "初四", "初五", "初六", "初七", "初八", "初九", "初十", "十一", "十二", "十三", "十四", "十五", "十六", "十七", "十八",
       "十九", "二十", "廿一", "廿二", "廿三", "廿四", "廿五", "廿六", "廿七", "廿八", "廿九", "三十")
XUN = ("甲子", "甲戌", "甲申", "甲午", "甲辰", "甲寅")
KONG = ("戌亥", "申酉", "午未", "辰巳", "寅卯", "子丑")
WEEK = "日一二三四五六"

TS = array.array("q", (A.term_secs(k) for k in range(A.NTERMS)))     # term instants, whole seconds
TD = array.array("i", (s // 86400 for s in TS))                      # civil day (jdn) of each term


def gz_index(gan, zhi):
    """index in the sexagenary cycle from stem and branch indices"""
    return next(i for i in range(gan % 10, 60, 10) if i % 12 == zhi % 12)


def last_term_by_day(j):
    """latest term whose civil day is <= j"""
    return bisect.bisect_right(TD, j) - 1


def last_term(t):
    """latest term whose instant is <= t (seconds)"""
    return bisect.bisect_right(TS, t) - 1


def month_ordinal(k):
    """continuous month number of the jie at or before term k (ordinal 0 = 大雪 of table 0, month 子)"""
    return k // 2


def month_gz(k):
    m = k // 2
    return gz_index((m + 2) % 10, m % 12)


def year_of_term(k):
    """civil year of the most recent 立春 at or before term k (立春 is entry 4 of a year's table)"""
    return (k - 4) // 24


def year_gz(y):
    return (y - 4) % 60


def day_gz(j):
    return (j - 11) % 60


def time_zhi(h):
    return (h + 1) // 2 % 12


def xun(i):
    return XUN[i // 10]


def kong(i):
    return KONG[i // 10]


class Moment(object):
    """everything the sexagenary calendar says about an instant"""
    __slots__ = ("j", "h", "mi", "s", "t", "ly", "lm", "ld", "y", "m", "d", "year", "year_lc", "year_ex", "month", "month_ex",
                 "day", "day_ex", "time", "kd", "kt")

    def __init__(self, j, h=0, mi=0, s=0):
        self.j, self.h, self.mi, self.s = j, h, mi, s
        self.t = j * 86400 + h * 3600 + mi * 60 + s
        self.y, self.m, self.d = C.ymd(j)
        self.ly, self.lm, self.ld = A.lunar_of(j)
        self.kd = last_term_by_day(j)
        self.kt = last_term(self.t)
        self.year = year_gz(self.ly)
        self.year_lc = year_gz(year_of_term(self.kd))
        self.year_ex = year_gz(year_of_term(self.kt))
        self.month = month_gz(self.kd)
        self.month_ex = month_gz(self.kt)
        self.day = day_gz(j)
        self.day_ex = day_gz(j + 1) if h == 23 else self.day
        z = time_zhi(h)
        self.time = gz_index((self.day_ex % 5 * 2 + z) % 10, z)
