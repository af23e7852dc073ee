"""Reference model of the daily cycles and directions (integers in, published names out)."""
import json
import os

from . import almanac as A
from . import civil as C
from . import gz

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "data", "tables.json")) as f:
    TABLES = json.load(f)
LT = TABLES["lunar"]
ST = TABLES["star"]

MANSIONS = "角亢氐房心尾箕斗牛女虚危室壁奎娄胃昴毕觜参井鬼柳星张翼轸"
PALACE = "东东东东东东东北北北北北北北西西西西西西西南南南南南南南"
GOVERNOR = "木金土日月火水"
BEAST = {"东": "青龙", "北": "玄武", "西": "白虎", "南": "朱雀"}
OFFICERS = "建除满平定执破危成收开闭"
SPIRITS = ("青龙", "明堂", "天刑", "朱雀", "金匮", "天德", "白虎", "玉堂", "天牢", "玄武", "司命", "勾陈")
LUCKY = {0, 1, 4, 5, 7, 10}
LUMINARIES = ("先胜", "友引", "先负", "佛灭", "大安", "赤口")
DIR = {"坎": "正北", "艮": "东北", "震": "正东", "巽": "东南", "离": "正南", "坤": "西南", "兑": "正西", "乾": "西北", "中": "中宫"}
JOY = "艮乾坤离巽"
TAI_SUI = ("坎", "艮", "艮", "震", "巽", "巽", "离", "坤", "坤", "兑", "坎", "坎")     # as published with the pinned tree
STEM_SEAT = "震震离离中中兑兑坎坎"
EARTH = "碓厕炉门栖床"


def mansion(j):
    return (j + 11) % 28


def officer(day, month):
    return OFFICERS[(day - month) % 12]


def spirit(branch, of):
    """index of the spirit of a branch within a day (month) of branch `of`"""
    return (branch + 4 - 2 * (of % 6)) % 12


def joy(g):
    return JOY[g % 5]


def wealth(g):
    return "艮坤坎震离"[g // 2]


def yang(g):
    return LT["POSITION_YANG_GUI"][g + 1]


def yin(g):
    return LT["POSITION_YIN_GUI"][g + 1]


def fortune(g, sect):
    return LT["POSITION_FU" if sect == 1 else "POSITION_FU_2"][g + 1]


def five(g, sect=2):
    return (joy(g), yang(g), yin(g), fortune(g, sect), wealth(g))


def tai_sui_month(zhi, gan):
    return ("艮", STEM_SEAT[gan], "坤", "巽")[(zhi - 2) % 4]


def tai_sui_day(day, year_zhi):
    if day % 12 < 6:
        return "震离中兑坎"[day // 12]
    return TAI_SUI[year_zhi]


def year_star(y):
    """star of sexagenary year y (the civil year it starts in)"""
    return (2 - (y - 2024)) % 9


def month_star(year_zhi, month_zhi):
    return (7 - 3 * (year_zhi % 3) - (month_zhi - 2) % 12) % 9


def near_jiazi(j):
    i = gz.day_gz(j)
    return j + 60 - i if i > 29 else j - i


def day_star(j):
    y = C.ymd(j)[0]
    best = None
    for q in (24 * y - 11, 24 * y + 1, 24 * y + 13, 24 * y + 25):
        s = near_jiazi(gz.TD[q])
        if s <= j:
            best = s, q
    s, q = best
    n = (j - s) % 9
    return n if q % 24 == 1 else 8 - n


def rising(j):
    """between winter and summer solstice day"""
    y = C.ymd(j)[0]
    return gz.TD[24 * y + 1] <= j < gz.TD[24 * y + 13] or j >= gz.TD[24 * y + 25]


def hour_star(j, h):
    z = gz.time_zhi(h)
    d = gz.day_gz(j) % 3
    return ((0, 3, 6)[d] + z) % 9 if rising(j) else (8 - (0, 3, 6)[d] - z) % 9


def lu(day):
    s = LT["LU"][gz.GAN[day % 10]] + "命互禄"
    z = LT["LU"].get(gz.ZHI[day % 12])
    return s if z is None else s + " " + z + "命进禄"


STAR_CALLS = (("getNumber", "NUMBER"), ("getColor", "COLOR"), ("getWuXing", "WU_XING"), ("getPosition", "POSITION"), ("getNameInBeiDou", "NAME_BEI_DOU"),
              ("getNameInXuanKong", "NAME_XUAN_KONG"), ("getNameInQiMen", "NAME_QI_MEN"), ("getBaMenInQiMen", "BA_MEN_QI_MEN"), ("getNameInTaiYi", "NAME_TAI_YI"),
              ("getTypeInTaiYi", "TYPE_TAI_YI"), ("getSongInTaiYi", "SONG_TAI_YI"), ("getLuckInXuanKong", "LUCK_XUAN_KONG"), ("getLuckInQiMen", "LUCK_QI_MEN"),
              ("getYinYangInQiMen", "YIN_YANG_QI_MEN"))


def star_text(i):
    s = {k: ST[k][i] for k in ST}
    gate = s["BA_MEN_QI_MEN"]
    return "%s%s%s %s(%s) %s 玄空[%s %s] 奇门[%s %s%s %s] 太乙[%s %s]" % (
        s["NUMBER"], s["COLOR"], s["WU_XING"], s["POSITION"], DIR[s["POSITION"]], s["NAME_BEI_DOU"], s["NAME_XUAN_KONG"], s["LUCK_XUAN_KONG"], s["NAME_QI_MEN"],
        s["LUCK_QI_MEN"], " " + gate + "门" if gate else "", s["YIN_YANG_QI_MEN"], s["NAME_TAI_YI"], s["TYPE_TAI_YI"])


def self_check():
    """the structural rules agree with the captured tables"""
    for i, m in enumerate(MANSIONS):
        assert LT["GONG"][m] == PALACE[i] and LT["ZHENG"][m] == GOVERNOR[i % 7] and LT["SHOU"][PALACE[i]] == BEAST[PALACE[i]], m
    for g in range(10):
        assert LT["POSITION_XI"][g + 1] == joy(g) and LT["POSITION_CAI"][g + 1] == wealth(g) and LT["POSITION_GAN"][g] == STEM_SEAT[g]
    assert tuple(LT["POSITION_TAI_SUI_YEAR"]) == TAI_SUI
    assert LT["POSITION_DESC"] == DIR
    for k, v in LT["XIU"].items():
        z, w = gz.ZHI.index(k[0]), int(k[1:])
        # the branch gives the position modulo 4, the weekday modulo 7
        i = MANSIONS.index(v)
        assert (i - 4 * 0 - z) % 4 == (MANSIONS.index(LT["XIU"]["子" + k[1:]]) - 0) % 4 and i % 7 == (w + 3) % 7, (k, v)


NUM12 = ("", "一", "二", "三", "四", "五", "六", "七", "八", "九", "十", "十一", "十二")


def first_branch(first, z):
    """1-based day of the month of the first day with branch z, the month starting on jdn first"""
    return NUM12[(z - gz.day_gz(first)) % 12 + 1]


def first_stem(first, g):
    return NUM12[(g - gz.day_gz(first)) % 10 + 1]


def folk(first):
    b, s = (lambda z: first_branch(first, z)), (lambda g: first_stem(first, g))
    return {"getTouLiang": b(0) + "鼠偷粮", "getCaoZi": "草子" + b(0) + "分", "getGengTian": b(1) + "牛耕田", "getHuaShou": "花收" + b(3) + "分",
            "getZhiShui": b(4) + "龙治水", "getTuoGu": b(6) + "马驮谷", "getQiangMi": b(9) + "鸡抢米", "getKanCan": b(9) + "姑看蚕", "getGongZhu": b(11) + "屠共猪",
            "getJiaTian": "甲田" + s(0) + "分", "getFenBing": s(2) + "人分饼", "getDeJin": s(7) + "日得金", "getRenBing": b(2) + "人" + s(2) + "丙",
            "getRenChu": b(2) + "人" + s(3) + "锄"}
