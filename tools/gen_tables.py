#!/usr/bin/env python3
"""Captured the published constant tables of the pinned tree into data/tables.json (run once; the file is committed and is the reference)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mc import load

lp = load.lunar()
U, N, F, T, S = lp.util.LunarUtil, lp.NineStar, lp.util.FotoUtil, lp.util.TaoUtil, lp.util.SolarUtil
out = {"lunar": {k: getattr(U, k) for k in (
    "POSITION_XI POSITION_YANG_GUI POSITION_YIN_GUI POSITION_FU POSITION_FU_2 POSITION_CAI POSITION_TAI_SUI_YEAR POSITION_GAN POSITION_TAI_DAY POSITION_TAI_MONTH "
    "PENG_ZU_GAN PENG_ZU_ZHI SEASON YUE_XIANG FESTIVAL OTHER_FESTIVAL XIU XIU_LUCK XIU_SONG SHOU POSITION_DESC GONG ZHENG ANIMAL LU").split()},
    "star": {k: getattr(N, k) for k in ("NUMBER COLOR WU_XING POSITION NAME_BEI_DOU NAME_XUAN_KONG NAME_QI_MEN BA_MEN_QI_MEN NAME_TAI_YI TYPE_TAI_YI SONG_TAI_YI "
                                        "LUCK_XUAN_KONG LUCK_QI_MEN YIN_YANG_QI_MEN").split()},
    "solar": {k: getattr(S, k) for k in "FESTIVAL WEEK_FESTIVAL OTHER_FESTIVAL XING_ZUO".split()},
    "foto": {k: getattr(F, k) for k in dir(F) if k.isupper()}, "tao": {k: getattr(T, k) for k in dir(T) if k.isupper()}}


def plain(o):
    if isinstance(o, dict):
        return {k: plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    if isinstance(o, (str, int, float)) or o is None:
        return o
    return {"text": o.toString(), "full": o.toFullString()}


with open(os.path.join(V, "data", "tables.json"), "w") as f:
    json.dump(plain(out), f, ensure_ascii=False, indent=1)
