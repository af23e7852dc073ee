"""Traditional tables, written structurally where a rule exists."""
from . import gz

NAYIN = ("海中金 炉中火 大林木 路旁土 剑锋金 山头火 涧下水 城头土 白蜡金 杨柳木 泉中水 屋上土 霹雳火 松柏木 长流水 "
         "沙中金 山下火 平地木 壁上土 金箔金 覆灯火 天河水 大驿土 钗钏金 桑柘木 大溪水 沙中土 天上火 石榴木 大海水").split()
STEM_ELEMENT = "木木火火土土金金水水"
BRANCH_ELEMENT = "水土木木土火火土金金土水"
SHA = "南东北西"                      # 子 south, 丑 east, 寅 north, 卯 west, and so on
HIDE = ("癸", "己癸辛", "甲丙戊", "乙", "戊乙癸", "丙庚戊", "丁己", "己丁乙", "庚壬戊", "辛", "戊辛丁", "壬甲")
STAGES = ("长生", "沐浴", "冠带", "临官", "帝旺", "衰", "病", "死", "墓", "绝", "胎", "养")
BIRTH = {0: 11, 2: 2, 4: 2, 6: 5, 8: 8, 1: 6, 3: 9, 5: 9, 7: 0, 9: 3}      # branch where each stem is "born"
CYCLE = "木火土金水"


def nayin(i):
    return NAYIN[i // 2 % 30]


def clash_tie(g):
    """stem of the other five-stem pair's clash, same polarity swap"""
    return "己戊辛庚癸壬乙甲丁丙"[g]


def ten_god(day, other):
    """day and other are stem indices"""
    a, b = CYCLE.index(STEM_ELEMENT[day]), CYCLE.index(STEM_ELEMENT[other])
    same = day % 2 == other % 2
    k = (b - a) % 5
    return (("比肩", "劫财"), ("食神", "伤官"), ("偏财", "正财"), ("七杀", "正官"), ("偏印", "正印"))[k][0 if same else 1]


def stage(stem, branch):
    d = branch - BIRTH[stem]
    return STAGES[(d if stem % 2 == 0 else -d) % 12]


def hide(branch):
    return list(HIDE[branch])


def elements(i):
    return STEM_ELEMENT[i % 10] + BRANCH_ELEMENT[i % 12]


def conception(month):
    return gz.gz_index((month + 1) % 10, (month + 3) % 12)


def breath(day):
    """stem combined (five pairs) and branch combined (six pairs)"""
    return gz.GAN[(day + 5) % 10] + gz.ZHI[(13 - day % 12) % 12]


def tiger_stem(year_stem, n):
    """stem of the n-th month (1 = tiger month) of a year, five-tigers rule; n = 0 counts as the month before it"""
    return (year_stem * 2 + 1 + n) % 10


def life_palace(year, month, time):
    m = (month % 12 - 2) % 12 + 1
    t = (time % 12 - 2) % 12 + 1
    s = m + t
    n = 26 - s if s >= 14 else 14 - s
    return gz.GAN[tiger_stem(year % 10, n)] + gz.ZHI[(n + 1) % 12]


def body_palace(year, month, time):
    m = (month % 12 - 2) % 12 + 1
    n = (m + time % 12 + 1 - 1) % 12 + 1
    return gz.GAN[tiger_stem(year % 10, n % 12)] + gz.ZHI[(n + 1) % 12]
