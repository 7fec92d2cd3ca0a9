"""P06: the estimated width of a code point is 2 exactly in the documented intervals."""
from utfref import *
from p04 import compare
LEVEL = "other"
DOC = [(0x1100, 0x115F), (0x2329, 0x232A), (0x2E80, 0x303E), (0x3040, 0xA4CF), (0xAC00, 0xD7A3), (0xF900, 0xFAFF), (0xFE10, 0xFE19), (0xFE30, 0xFE6F), (0xFF00, 0xFF60), (0xFFE0, 0xFFE6),
       (0x1F300, 0x1F64F), (0x1F900, 0x1F9FF), (0x20000, 0x2FFFD), (0x30000, 0x3FFFD)]
def width(c): return 2 if any(a <= c <= b for a, b in DOC) else 1
def run(c):
    cuts = sorted({0, 0x110000} | {a for a, b in DOC} | {b + 1 for a, b in DOC})
    pc = {"c": [(a, b - 1) for a, b in zip(cuts, cuts[1:])]}
    R = {"r_width": ({"c": 32}, pc, lambda e: {"w": width(e["c"])} if e["c"] <= 0x10FFFF else None)}
    t, und, res = compare(c, "utf.cpp", R, "P06")
    c.coverage = {"intervals": len(DOC), "outcomes": t["outcomes"], "cells_compared": t["points"], "undecided_outputs": und,
                  "explanation": "Abstract interpretation of the width estimate for an unknown code point up to U+10FFFF: the value sets of the outcomes are compared with the intervals of the documentation, cut at every interval boundary."}
    c.require(t["outcomes"] >= 2, "too few outcomes analysed")
