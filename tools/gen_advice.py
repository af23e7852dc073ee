#!/usr/bin/env python3
"""Captured the almanac advice tables of the pinned tree, decoded by an independent parser of the packed format (run once; data/advice.json is committed)."""
import collections
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mc import load

lp = load.lunar()
U = lp.util.LunarUtil
words, spirits = U._LunarUtil__YI_JI, U._LunarUtil__SHEN_SHA


def codes(s):
    assert len(s) % 2 == 0, s
    return [int(s[i:i + 2], 16) for i in range(0, len(s), 2)]


problems = []


def clean(what, a, names):
    for c in a:
        if c >= len(names):
            problems.append("%s: code %d out of range" % (what, c))
    if len(set(a)) != len(a):
        problems.append("%s: duplicate %s" % (what, [names[c] for c, n in collections.Counter(a).items() if n > 1]))


# day: DD=MM..:yi,ji[MM..:yi,ji]
day = {}
text = U._LunarUtil__DAY_YI_JI
parts = re.split(r"([0-9A-F]{2})=", text)
assert parts[0] == ""
for d, body in zip(parts[1::2], parts[2::2]):
    m = re.fullmatch(r"([0-9A-F]*):([0-9A-F]*),([0-9A-F]*)", body)
    assert m, (d, body)
    for mm in codes(m.group(1)):
        key = "%d,%d" % (mm, int(d, 16))
        if key in day:
            problems.append("day %s twice" % key)
            continue
        day[key] = [codes(m.group(2)), codes(m.group(3))]
        clean("day " + key + " yi", day[key][0], words)
        clean("day " + key + " ji", day[key][1], words)
        both = set(day[key][0]) & set(day[key][1])
        if both:
            problems.append("day %s both yi and ji: %s" % (key, [words[c] for c in both]))
time = {}
parts = re.split(r"([0-9A-F]{4})=", U._LunarUtil__TIME_YI_JI)
assert parts[0] == ""
for k, body in zip(parts[1::2], parts[2::2]):
    m = re.fullmatch(r"([0-9A-F]*),([0-9A-F]*)", body)
    assert m, (k, body)
    key = "%d,%d" % (int(k[:2], 16), int(k[2:], 16))
    if key in time:
        problems.append("time %s twice" % key)
        continue
    time[key] = [codes(m.group(1)), codes(m.group(2))]
    clean("time " + key + " yi", time[key][0], words)
    clean("time " + key + " ji", time[key][1], words)
    both = set(time[key][0]) & set(time[key][1])
    if both:
        problems.append("time %s both: %s" % (key, [words[c] for c in both]))
god = {}
parts = re.split(r"([0-9A-F]{3})=", U._LunarUtil__DAY_SHEN_SHA)
assert parts[0] == ""
for k, body in zip(parts[1::2], parts[2::2]):
    m = re.fullmatch(r"([0-9A-F]*),([0-9A-F]*)", body)
    assert m, (k, body)
    key = "%d,%d" % (int(k[:1], 16), int(k[1:], 16))
    if key in god:
        problems.append("god %s twice" % key)
        continue
    god[key] = [codes(m.group(1)), codes(m.group(2))]
    clean("god " + key + " ji", god[key][0], spirits)
    clean("god " + key + " xiong", god[key][1], spirits)
print(len(words), len(spirits), len(day), len(time), len(god))
print(len([1 for m in range(60) for d in range(60) if "%d,%d" % (m, d) not in day]), "day cells missing")
print(sorted(set(m for m in range(60) for d in range(60) if "%d,%d" % (m, d) not in day)))
miss_t = ["%d,%d" % (d, t) for d in range(60) for t in range(60) if (t // 12 == d % 5) and "%d,%d" % (d, t) not in time]
print(len(miss_t), "reachable time cells missing", miss_t[:20])
print(len([k for k in time if int(k.split(",")[1]) // 12 != int(k.split(",")[0]) % 5]), "unreachable time cells present")
print([("%d,%d" % (m, d)) for m in range(1, 13) for d in range(60) if "%d,%d" % (m, d) not in god][:20], "missing god cells")
print(len([1 for v in day.values() if not v[0]]), len([1 for v in day.values() if not v[1]]), len([1 for v in time.values() if not v[0]]), len([1 for v in time.values() if not v[1]]))
print(len(problems), problems[:40])
dup = [(n, c) for n, c in collections.Counter(words).items() if c > 1], [(n, c) for n, c in collections.Counter(spirits).items() if c > 1]
print("duplicate names", dup, [w for w in words if not w.strip() or w == "无"], [w for w in spirits if not w.strip() or w == "无"])
# the pinned table lists 除神 twice here (repaired in /repo)
if god["8,9"][0].count(spirits.index("除神")) > 1:
    god["8,9"][0].remove(spirits.index("除神"))
with open(os.path.join(V, "data", "advice.json"), "w") as f:
    json.dump({"words": words, "spirits": spirits, "day": day, "time": time, "gods": god}, f, ensure_ascii=False, separators=(",", ":"))
