#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import fv
from checks import agg, concurrency, convolution, core, files, language, local, parallel

CHECKS = {
    "P01": concurrency.p01,
    "P02": concurrency.p02,
    "P03": concurrency.p03,
    "P04": concurrency.p04,
    "P05": parallel.p05,
    "P06": parallel.p06,
    "P07": local.p07,
    "P08": local.p08,
    "P09": local.p09,
    "P10": agg.p10,
    "P11": agg.p11,
    "P12": core.p12,
    "P13": core.p13,
    "P14": core.p14,
    "P15": core.p15,
    "P16": language.p16,
    "P17": language.p17,
    "P20": core.p20,
    "P21": language.p21,
    "P22": language.p22,
    "P23": language.p23,
    "P24": language.p24,
    "P25": language.p25,
    "P26": files.p26,
    "P27": language.p27,
    "P28": core.p28,
    "P29": files.p29,
    "P30": language.p30,
    "P31": language.p31,
    "P32": language.p32,
    "P33": language.p33,
    "P34": language.p34,
    "P18": convolution.p18,
    "P19": convolution.p19,
}

if __name__ == "__main__":
    sys.exit(fv.main(CHECKS))
