"""Reproducers of the findings listed in KNOWN_FINDINGS.txt: each raises while the defect is present."""
from .lib import *

REPRO = {}


def finding(fid):
    def deco(fn):
        REPRO[fid] = fn
        return fn
    return deco
