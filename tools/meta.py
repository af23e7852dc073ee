#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description (run after adding a check)."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
L = "lunar_python/"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": [L + f for f in files], "mechanism": [{"name": a, "where": L + b} for a, b in mech]},
                  technique=technique, note=note))


SWEEP = "explicit-state exploration of the real code in lock-step with a reference model"
TRUST = ("Exhaustive within the stated bounds; trusts the reference model in /verif/mc/model and the assumptions printed in the evidence file. ")

prop("C01", "Civil calendar is one unbroken day line",
     "From 0001-01-01 to 9999-12-31 the civil dates form a single chain: Julian calendar to 1582-10-04, then 1582-10-15 and the Gregorian calendar. "
     "Stepping by any number of days, subtracting dates, counting days between dates, weekdays, day of the year, leap years and month/year lengths all agree with "
     "a date's position on that chain.",
     ["inputs"], "all dates 0001..9999, all step sizes and pairs within the bounds",
     "tests sample a few dozen dates; an off-by-one in one century year, the 1582 gap or a negative step over a year end is invisible to them",
     ["Solar.py", "util/SolarUtil.py"], [("day stepping", "Solar.py:next"), ("day difference", "util/SolarUtil.py:getDaysBetween"), ("weekday", "Solar.py:getWeek")],
     SWEEP, TRUST + "Every day of 9999 years is a visited state.")
prop("C02", "Julian day conversion is exact and nonexistent fields are rejected",
     "Converting any civil instant to its Julian day and back returns the same instant to the second, and Julian days increase by exactly the elapsed time. "
     "Dates in the 1582 gap and out-of-range month, day, hour, minute or second fields are rejected, every real instant is accepted.",
     ["inputs"], "all days x instants of the day 0001..9999, all field values in and around the legal ranges",
     "floating-point rounding depends on the exact instant; tests try a handful of Julian days",
     ["Solar.py"], [("Julian day", "Solar.py:getJulianDay"), ("inverse", "Solar.py:fromJulianDay"), ("validation", "Solar.py:__init__")],
     SWEEP, TRUST)
prop("C03", "Instants are totally ordered and hour/minute arithmetic follows the day line",
     "isBefore/isAfter are a strict total order on instants equal to chronological order; the difference in days and in minutes between any two instants and stepping by any number of "
     "hours agree with that order. Text forms sort the same way.",
     ["inputs"], "all ordered pairs of a boundary set of instants; hour steps of both signs",
     "an ordering is a property of pairs and triples; tests compare a few pairs",
     ["Solar.py"], [("order", "Solar.py:isAfter/isBefore"), ("minutes", "Solar.py:subtractMinute"), ("hours", "Solar.py:nextHour")], SWEEP, TRUST)
prop("C04", "Month, quarter, half-year and year stepping keep to the calendar",
     "Stepping a date by months or years lands in the arithmetically right month on the same day number, reduced to the month's last day where needed; month, quarter, half-year and "
     "year units step by any signed amount, enumerate exactly their own days and months in order, and contain the dates they were made from.",
     ["inputs"], "all months of 0001..9999 x signed steps", "tests try a few steps, never every month length/leap/1582 combination",
     ["Solar.py", "SolarMonth.py", "SolarSeason.py", "SolarHalfYear.py", "SolarYear.py"],
     [("clamping", "Solar.py:nextMonth/nextYear"), ("enumeration", "SolarMonth.py:getDays"), ("units", "SolarSeason.py:next")], SWEEP, TRUST)
prop("C05", "Weeks partition months and years for every first day of week",
     "For each of the seven possible week starts, the weeks of a month or year cover its days exactly once in order, a day's week index counts those weeks, the number of weeks of a month "
     "equals the length of its week list, and stepping weeks (whole, or cut at month borders) follows that tiling in both directions.",
     ["inputs"], "all months 0001..9999 x 7 week starts, all days of window years x signed week steps", "28 alignments x 7 starts x step direction never sampled by tests",
     ["SolarWeek.py", "SolarMonth.py", "util/SolarUtil.py"], [("stepping", "SolarWeek.py:next"), ("index", "SolarWeek.py:getIndex"), ("count", "util/SolarUtil.py:getWeeksOfMonth")], SWEEP, TRUST)
prop("C06", "Civil and lunar dates convert both ways, one to one, and agree on every route",
     "Every civil day has exactly one lunar date and converting it back returns the same civil day and time of day; consecutive days have consecutive lunar dates. All constructors and day "
     "stepping agree, text forms name the date, and lunar dates that do not exist are rejected. The lunar calendar is the one fixed in the published tables (corrections and historical calendars included).",
     ["inputs"], "every civil day 0001-01-01..9999-12-31, every lunar year/month/day field combination in range",
     "3.65 million days; tests pin about a hundred", ["Lunar.py", "LunarYear.py", "LunarMonth.py", "Solar.py"],
     [("civil to lunar", "Lunar.py:fromDate/fromSolar"), ("lunar to civil", "Lunar.py:__init__"), ("month table", "LunarYear.py:compute")], SWEEP,
     TRUST + "The month table was captured from the pinned tree and cross-checked with ICU's Chinese calendar and with C08's independent rule check.")
prop("C07", "Lunar years are made of consecutive whole months and stepping them is exact",
     "Each lunar year consists of 12 or 13 months of 29 or 30 days that follow each other without gap or overlap and add up to its length; leap month, month lengths and first days are the same from every "
     "route. Stepping by any signed number of months or years, across leap months and year ends, returns the month that many places away with its own year, index and stem-branch.",
     ["inputs"], "every month of lunar years 1..9999 x signed month and year steps", "year-end and leap-month transitions of a particular year are not sampled",
     ["LunarYear.py", "LunarMonth.py"], [("month table", "LunarYear.py:compute"), ("stepping", "LunarMonth.py:next")], SWEEP, TRUST)
prop("C08", "Lunar months start at new moons and leap months follow the solar-term rule",
     "Every lunar month starts on the day of the astronomical new moon (Beijing time; within the older calendars' accuracy before 1645), the winter solstice always falls in month 11, and from 1645 a year with 13 months from solstice to solstice puts its leap month "
     "at the first month without a mid-term solar term.",
     ["inputs"], "every lunar month 1..9999", "needs an independent astronomical oracle over all years; tests list some leap months",
     ["LunarYear.py", "util/ShouXingUtil.py"], [("new moons", "util/ShouXingUtil.py:calcShuo"), ("leap rule", "LunarYear.py:compute")],
     "explicit-state exploration of all months against an independent rule-based calendar model", TRUST)
prop("C09", "Solar terms come in order at the right instants, the same from every year",
     "Solar terms advance in their fixed order, each at the instant the sun reaches its longitude (15 degrees apart, Beijing time), and the same term has the same instant whether it is read from the year before, its own year or the table carried by any date.",
     ["inputs"], "all 24 terms of years 1..9999, read from every table containing them", "tests pin a few instants in a few years",
     ["LunarYear.py", "util/ShouXingUtil.py", "Lunar.py"], [("terms", "util/ShouXingUtil.py:qiAccurate2"), ("table", "Lunar.py:getJieQiTable")], SWEEP,
     TRUST + "Instants are compared with the pinned tree's and with an independent solar theory.")
prop("C10", "Previous, next and current solar-term lookups are right at every boundary",
     "For any instant, the previous term is the latest one not after it and the next is the earliest one after it, by instant or by whole day as requested, restricted to jie or qi on request. A day's current term is the one that falls on it, if any.",
     ["inputs"], "the seconds around all 240 000 terms of years 1..9999", "only the boundary second distinguishes < from <=; tests rarely hit one",
     ["Lunar.py", "JieQi.py"], [("search", "Lunar.py:getNearJieQi"), ("current", "Lunar.py:getCurrentJieQi")], SWEEP, TRUST)
prop("C11", "Year and month pillars switch exactly at new year, Li Chun and each jie",
     "The year pillar advances by one at the lunar new year, at the Li Chun day, or at the Li Chun instant, depending on the convention asked for; the month pillar advances at each jie, by day or by instant. Stems, branches, indices, zodiac animals, decades and voids all belong to that pillar.",
     ["inputs"], "every day and every term boundary second of 0001..9999", "off-by-one only shows in the hours between midnight and the term or on a few days per year",
     ["Lunar.py"], [("year pillar", "Lunar.py:__computeYear"), ("month pillar", "Lunar.py:__computeMonth")], SWEEP, TRUST)
prop("C12", "Day and two-hour pillars run through their cycles without a break",
     "The day pillar advances by one every civil day and the two-hour pillar by one every two hours starting at 23:00; under the early-rat conventions the day advances at 23:00. The thirteen time slots of a day partition it, and "
     "a slot reached from a date, from its list of slots or directly is the same, with consistent stem, branch, decade, void, clash and range texts.",
     ["inputs"], "every day 0001..9999, every minute of selected days", "the 23:00 and 01:00 boundaries on particular days and conventions are not sampled",
     ["Lunar.py", "LunarTime.py", "util/LunarUtil.py"], [("day pillar", "Lunar.py:__computeDay"), ("time pillar", "Lunar.py:__computeTime"), ("slot", "util/LunarUtil.py:getTimeZhiIndex")], SWEEP, TRUST)
prop("C13", "Eight-character attributes follow from the four pillars by the traditional rules",
     "The four pillars of an instant use instant-exact year and month, and the day rule of the selected sect. Hidden stems, ten gods, five elements, life stages, na-yin, decade/void, and the conception, breath, life and body palaces derive from those pillars by the traditional rules, consistently after switching the sect.",
     ["inputs"], "the full 60 x 60 day/hour space and all month/year pillars, both sects", "tests check about 60 charts of 518 400",
     ["EightChar.py", "util/LunarUtil.py"], [("pillars", "EightChar.py:getDay/getTime"), ("life stages", "EightChar.py:__getDiShi"), ("palaces", "EightChar.py:getMingGong/getShenGong")], SWEEP, TRUST)
prop("C14", "Reverse lookup of four pillars is sound and complete",
     "Every instant returned for a four-pillar query has exactly those pillars under the requested sect and lies at or after the requested base year. Every moment whose solar-term month begins between the base year and the current year, and whose two-hour slot is not cut by a jie, is found when its own pillars are queried.",
     ["inputs"], "moments sampled on a complete grid of days/slots of a 60-year-plus window, both sects", "tests query about 15 charts",
     ["Solar.py"], [("search", "Solar.py:fromBaZi")], SWEEP, TRUST + "The clock is fixed by a stand-in.")
prop("C15", "Luck cycles start on time and tile life without gaps",
     "The start of luck is the time between birth and the nearest jie in the direction given by gender and year stem, scaled three days to a year (or by minutes in the second convention). "
     "Decades, years, months and minor cycles then follow one another without gap or overlap, with pillars advancing by one in the direction of the cycle.",
     ["inputs"], "births around every jie and through the day/year cycles, both genders and conventions", "tests check about 20 births",
     ["eightchar/Yun.py", "eightchar/DaYun.py", "eightchar/LiuNian.py", "eightchar/LiuYue.py", "eightchar/XiaoYun.py"],
     [("start", "eightchar/Yun.py:__computeStart"), ("decades", "eightchar/Yun.py:getDaYun"), ("years", "eightchar/DaYun.py:getLiuNian")], SWEEP, TRUST)
prop("C16", "Nine-nines, dog days and pentads follow the solar terms",
     "The 81 days counted from the winter solstice, the three dog-day periods fixed by the third and fourth Geng day after the summer solstice and the first after Li Qiu, and the 72 five-day pentads are exactly the days the solar terms imply; other days have none.",
     ["inputs"], "every day 0001..9999 in the windows, every pentad", "lengths vary year by year; tests pin a few years",
     ["Lunar.py", "ShuJiu.py", "Fu.py"], [("nine-nines", "Lunar.py:getShuJiu"), ("dog days", "Lunar.py:getFu"), ("pentads", "Lunar.py:getWuHou")], SWEEP, TRUST)
prop("C17", "Daily almanac cycles and directions follow their pillars",
     "The nine stars of year, month, day and hour, the 28 mansions, the 12 day officers, the 12 spirits, six luminaries, na-yin, clash animal and sha direction, direction gods, Tai Sui, Peng Zu taboos, daily fortune and fetal god are the traditional functions of the date's pillars, solar term and lunar month, under each convention and by every route.",
     ["inputs"], "every day 0001..9999 in steps covering all pillar/term/month combinations", "many conventions x many cycles, tests check a few dates each",
     ["Lunar.py", "LunarTime.py", "LunarMonth.py", "LunarYear.py", "NineStar.py", "util/LunarUtil.py"],
     [("stars", "Lunar.py:getDayNineStar"), ("mansions", "Lunar.py:getXiu"), ("directions", "Lunar.py:getDayPositionXi"), ("Tai Sui", "Lunar.py:getDayPositionTaiSui")], SWEEP, TRUST)
prop("C18", "Festivals and zodiac signs fall on exactly their days",
     "Fixed-date, nth-weekday, lunar, solar-term and derived festivals (New Year's Eve, Cold Food, spring and autumn She) are reported on the days their definitions give in every year and on no other day. Every date has the star sign whose range contains it.",
     ["inputs"], "every day 0001..9999 (civil) and every lunar date", "month length, leap month and weekday alignment vary; tests sample a few years",
     ["Solar.py", "Lunar.py", "util/SolarUtil.py", "util/LunarUtil.py"], [("civil", "Solar.py:getFestivals"), ("lunar", "Lunar.py:getFestivals"), ("She days", "Lunar.py:getOtherFestivals")], SWEEP, TRUST)
prop("C19", "Holiday queries return exactly the matching records, also after corrections",
     "Looking up by day, month, year or target returns exactly the records of that key, whatever the argument form. After any sequence of corrections (add, replace, remove, rename) every query answers as if the record set had been edited in order, one record per day.",
     ["inputs", "histories"], "all keys; all correction sequences up to a depth over a small alphabet", "tests apply one or two corrections",
     ["util/HolidayUtil.py", "Holiday.py"], [("lookup", "util/HolidayUtil.py:getHoliday/getHolidays"), ("corrections", "util/HolidayUtil.py:fix")],
     "breadth-first exploration of correction histories on the real store against a record-set model", TRUST)
prop("C20", "Working-day stepping skips exactly weekends and holidays",
     "Stepping by n working days lands on the n-th working day in the given direction, where a day's holiday record decides and weekends are free otherwise; stepping by zero stays. Time of day is kept.",
     ["inputs"], "every day of the recorded years and the borders x signed steps", "tests try few starts",
     ["Solar.py", "util/HolidayUtil.py"], [("stepping", "Solar.py:next")], SWEEP, TRUST)
prop("C21", "Concurrent use of the library gives every caller its own right answer",
     "Threads that convert dates, build lunar years and read attributes concurrently each obtain the results they would obtain alone, under every interleaving; no call blocks forever. A computation that fails does not disturb the others.",
     ["schedules"], "all interleavings of 2-3 threads up to a preemption bound", "tests are single-threaded",
     ["LunarYear.py", "LunarMonth.py", "Lunar.py"], [("shared year cache and lock", "LunarYear.py:fromYear")],
     "stateless exploration of thread interleavings of the real code under a controlled scheduler, preemption-bounded", "All schedules up to the stated preemption bound, switching at bytecode instructions that touch shared state and at lock operations. ")
prop("C22", "Answers do not depend on what was asked before, even after failures",
     "The result of a call depends only on its arguments (and on corrections explicitly applied), never on which dates, years or holidays were queried earlier, in which order, or on calls that were rejected or interrupted by an error. Lists and maps the library returned, or was given, can be changed by the caller without changing later answers.",
     ["histories", "fault_sequences"], "all operation sequences up to a depth, with a failure injected at each internal step", "tests run operations in one fixed order",
     ["LunarYear.py", "Lunar.py", "util/HolidayUtil.py", "util/LunarUtil.py", "EightChar.py"], [("year cache", "LunarYear.py:fromYear"), ("lazy eight-char", "Lunar.py:getEightChar"), ("current index", "util/HolidayUtil.py")],
     "exhaustive exploration of operation histories and fault points on the real code", TRUST)
prop("C23", "Buddhist and Taoist calendars are views of the same lunar date",
     "Every Buddhist and Taoist date corresponds one to one to a lunar date with the year offset by the era; festivals, fasting days, mansions and special days (month, ten-day, yang-gong, ming, jie and hui days) are reported exactly when the lunar date, pillar or solar term satisfies their definition.",
     ["inputs"], "every lunar date of selected centuries and every day of the 60-day and 28-mansion cycles", "tests check a few days",
     ["Foto.py", "Tao.py", "util/FotoUtil.py", "util/TaoUtil.py"], [("views", "Foto.py:fromLunar"), ("fasts", "Foto.py:isDayZhaiShuoWang..."), ("tao days", "Tao.py:isDaySanHui...")], SWEEP, TRUST)
prop("C24", "Almanac advice tables are total, clean and decode to the same lists",
     "For every combination of month and day pillar and day and hour pillar, the recommended and avoided activities and the lucky and unlucky spirits decode to the published lists, in order, without duplicates or unknown entries, and 无 stands exactly for an empty list.",
     ["inputs"], "12 x 60 and 60 x 12 combinations, reached from real dates", "compressed tables with thousands of cells; tests check a few",
     ["util/LunarUtil.py", "Lunar.py", "LunarTime.py"], [("decode", "util/LunarUtil.py:getDayYi/getDayJi/getTimeYi/getDayJiShen")], SWEEP, TRUST + "Lists captured from the pinned tree.")
prop("C25", "Every query is total and leaves its object unchanged",
     "For every supported date all query methods of all calendar objects return without error a value of the documented kind (non-empty where documented), the same one each time they are asked, in any order; asking never changes the object's other answers.",
     ["inputs", "histories"], "all public queries on a covering set of dates, every ordered pair of queries on one object", "tests never call most getters on unusual dates, nor twice",
     ["Lunar.py", "Solar.py", "LunarTime.py", "EightChar.py", "Foto.py", "Tao.py"], [("getters", "Lunar.py"), ("text", "Lunar.py:toFullString")],
     "exhaustive exploration of query pairs on real objects", TRUST)
prop("C26", "Holiday corrections and lookups are atomic with respect to each other",
     "While one thread corrects the holiday data, concurrent lookups in other threads see the data as before or as after that correction, never a mixture, and no error or blocking occurs.",
     ["schedules"], "all interleavings of a correcting and a reading thread up to a preemption bound", "tests are single-threaded",
     ["util/HolidayUtil.py"], [("publication", "util/HolidayUtil.py:fix")],
     "stateless exploration of thread interleavings of the real code under a controlled scheduler, preemption-bounded", "All schedules up to the stated preemption bound, switching at bytecode instructions that touch shared state and at lock operations. ")

prop("C27", "Changing an object changes that object alone, and completely",
     "Objects with setters (solar terms, dog days, nine-nine days, holidays, charts) answer, after any sequence of changes, all queries exactly as an object made with the final values does; no other object, "
     "no date they were obtained from, no copy of them and no later lookup is affected, and a copy (copy, deepcopy, pickle) answers like the object it was made from, except that a chart's convention set on a date's chart is kept by that date.",
     ["histories"], "all sequences of setter calls up to a depth on every kind of mutable object, obtained by every route", "tests call a setter at most once and read one field back",
     ["JieQi.py", "Holiday.py", "Fu.py", "ShuJiu.py", "EightChar.py"], [("kind flags follow the name", "JieQi.py:setName"), ("holiday fields", "Holiday.py:setDay"), ("convention", "EightChar.py:setSect")],
     "exhaustive exploration of histories of changes on real objects", TRUST)
prop("C28", "Every route to an object gives the same answers",
     "An object answers every one of its queries identically however it was obtained: by its constructor or from... function, as a copy (copy, deepcopy, pickle) of a fresh or used object, from fields, a date, a datetime (of any time zone, read as wall-clock time), a Julian day, "
     "by stepping zero or forth and back, as a view of a view, or as a member of a list; it prints as its text form.",
     ["inputs", "histories"], "about 130 routes to 26 kinds of objects on dates covering every calendar feature", "tests use one route per assertion and never compare routes",
     ["Solar.py", "Lunar.py", "LunarTime.py", "LunarMonth.py", "LunarYear.py", "SolarWeek.py", "Foto.py", "Tao.py", "eightchar/Yun.py"],
     [("routes", "Solar.py:fromDate"), ("routes", "Lunar.py:fromSolar/fromYmdHms"), ("routes", "SolarWeek.py:fromDate"), ("routes", "Foto.py:fromYmdHms")],
     "explicit-state exploration of the real code, all construction routes of each state compared in lock-step", TRUST)

prop("C29", "Answers do not depend on the environment of the process",
     "All answers, and the rejection of impossible inputs, are the same whatever the hash seed, time zone, locale, working directory, optimisation level and clock of the process, whichever module of the package is imported first and in "
     "whichever thread the question is asked (only the reverse lookup of charts refers to the current year).",
     ["configurations"], "all combinations of a set of interpreter and environment settings, each in a fresh process", "tests run in one configuration",
     ["__init__.py", "Solar.py", "Lunar.py", "util/HolidayUtil.py"], [("import order", "__init__.py"), ("order of collections", "util/LunarUtil.py:getDayYi"), ("validation", "Solar.py:__init__")],
     "exhaustive exploration of process configurations, real code in a fresh interpreter each", TRUST)

prop("C30", "The views of one moment agree with each other",
     "For every date and time, every group of queries that shows the same fact agrees: pillar, stem, branch, their indices, animal, decade, void and melody; the same fact asked of the date, of its hour, of its chart (under both day "
     "conventions), of its lunar year or month and of its civil day; a direction and its description; an alias and the query it stands for; a query with its convention left out and with the documented default given "
     "(star, tai sui and fu direction, luck: as documented; day activities: convention 1; term: to the second); the nearest term of any kind and the nearest of each kind; and the one-line texts and the parts they are made of.",
     ["inputs"], "about 170 relations between queries on dates covering every calendar feature and all double hours", "tests assert single answers on sample dates and do not relate the queries to each other",
     ["Lunar.py", "LunarTime.py", "EightChar.py", "LunarYear.py", "LunarMonth.py"],
     [("aliases and defaults", "Lunar.py:getPositionFu/getDayPositionFu"), ("full text", "Lunar.py:toFullString"), ("hour view", "LunarTime.py"), ("chart view", "Lunar.py:getBaZi/EightChar.py:getDay")],
     "exhaustive enumeration of bounded inputs on the real code, all relations between the views of each state checked", TRUST)

prop("C31", "A call made in the middle of another call is answered as if alone",
     "When a call interrupts another one at any point on the same thread (a signal handler, a finaliser, a tracing hook), both are answered as they would be alone, neither blocks, and later calls are unaffected; a holiday lookup "
     "made in the middle of a correction, or the other way round, sees the data before or after it.",
     ["interruption points", "histories"], "18 calls and all queries of 13 kinds of objects, interrupted at every distinct place of the package they pass, by several other calls", "tests never call the library from inside itself",
     ["LunarYear.py", "Lunar.py", "util/HolidayUtil.py", "EightChar.py"],
     [("year cache and its lock", "LunarYear.py:fromYear"), ("kept views", "Lunar.py:getEightChar"), ("holiday data", "util/HolidayUtil.py:fix")],
     "systematic enumeration of interruption points on the real code (nested calls injected at each place), each compared with the calls made alone", TRUST)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        c = p["id"]
        assert len(p["title"]) <= 80, (c, len(p["title"]))
        if not os.path.exists(os.path.join(V, "mc", "checks", c.lower() + ".py")):
            na.append({"property": c, "reason": "check not built yet"})
            continue
        mod = importlib.import_module("mc.checks." + c.lower())
        assert mod.ID == c
        checks.append({"property": c, "quick_cmd": "python3 run.py %s --tier=quick" % c, "thorough_cmd": "python3 run.py %s --tier=thorough" % c,
                       "technique": p["technique"], "level": getattr(mod, "LEVEL", "model_checking"),
                       "level_note": p["note"].rstrip() + " Quick bounds: " + mod.BOUNDS["quick"] + "."})
    doc = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Checks load lunar_python from /repo's working tree (pure Python, nothing to build)."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, ensure_ascii=False, indent=1)
    print("%d properties, %d checks, %d not claimed" % (len(P), len(checks), len(na)))


if __name__ == "__main__":
    main()
