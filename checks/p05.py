"""P05: conversions between the encodings use exactly the bits the encodings define."""
from utfref import *
from p04 import compare
LEVEL = "other"
_L = [(0, 0x7F), (0x80, 0xBF), (0xC0, 0xC1), (0xC2, 0xDF), (0xE0, 0xE0), (0xE1, 0xEC), (0xED, 0xED), (0xEE, 0xEF), (0xF0, 0xF0), (0xF1, 0xF3), (0xF4, 0xF4), (0xF5, 0xF7), (0xF8, 0xFF)]
_T = [(0, 0x7F), (0x80, 0xBF), (0xC0, 0xFF)]
B4 = {"b0": _L, "b1": [(0, 0x7F), (0x80, 0x8F), (0x90, 0x9F), (0xA0, 0xBF), (0xC0, 0xFF)], "b2": _T, "b3": _T} # value classes: shortest forms, surrogates, range
PC = {"c": [(0, 0x7F), (0x80, 0x7FF), (0x800, 0xD7FF), (0xD800, 0xDFFF), (0xE000, 0xFFFF), (0x10000, 0x10FFFF), (0x110000, 0xFFFFFFFF)]}
def scalar(c): return c <= 0x10FFFF and not 0xD800 <= c <= 0xDFFF
def enc16(c): return [c] if c < 0x10000 else [0xD800 + (c - 0x10000 >> 10), 0xDC00 + (c - 0x10000 & 0x3FF)]
def cp4(f):
    def g(e):
        d = dec8(units(e, 4))
        if d is None or not scalar(d[0]) or len(enc8(d[0])) != d[1]: return None
        return f(d[0], d[1], units(e, 4))
    return g
def outs(pre, xs, **kw): return {**{"%s%d" % (pre, i): x for i, x in enumerate(xs)}, **kw}
def refs():
    R = {}
    s4 = syms(8)
    R["r_enc32"] = ({"c": 32}, PC, lambda e: outs("b", enc8(e["c"]), n=len(enc8(e["c"])), used=1) if scalar(e["c"]) else None)
    R["r_dec32"] = (s4, B4, cp4(lambda v, n, b: {"c": v, "n": n}))
    R["r_dec32_conv"] = (s4, B4, cp4(lambda v, n, b: {"c": v}))
    R["r_enc16"] = (s4, B4, cp4(lambda v, n, b: outs("u", enc16(v), n=len(enc16(v)), used=n)))
    R["r_encw"] = (s4, B4, cp4(lambda v, n, b: {"n": 1, "c": v, "used": n}))
    for nm in ("r_emit8", "r_emit8c"): R[nm] = (s4, B4, cp4(lambda v, n, b: outs("o", b[:n], n=n)))
    R["r_emit16"] = (s4, B4, cp4(lambda v, n, b: outs("o", enc16(v), n=len(enc16(v)))))
    R["r_emit32"] = (s4, B4, cp4(lambda v, n, b: outs("o", [v], n=1))); R["r_emitw"] = R["r_emit32"]
    U2 = {"u0": 16, "u1": 16}; PU = {"u0": P16, "u1": P16}
    def d16(e):
        us = [e["u0"], e["u1"]]
        if hi(us[0]): return {"c": 0x10000 + ((us[0] - 0xD800) << 10) + us[1] - 0xDC00, "n": 2} if lo(us[1]) else ("throw", "invalid_surrogate")
        return None if lo(us[0]) else {"c": us[0], "n": 1}
    R["r_dec16"] = (U2, PU, d16)
    R["r_dec16_one"] = ({"u0": 16}, None, lambda e: ("throw", "invalid_surrogate") if hi(e["u0"]) else None if lo(e["u0"]) else {"c": e["u0"], "n": 1})
    def d16cp(e):
        r = d16(e)
        return outs("b", enc8(r["c"]), n=r["n"], k=len(enc8(r["c"]))) if isinstance(r, dict) else r
    R["r_dec16_cp"] = (U2, PU, d16cp); R["r_dec16_pair"] = (U2, PU, d16cp)
    def d8(N):
        def f(e):
            d = dec8(units(e, N))
            return None if d is None or not scalar(d[0]) or len(enc8(d[0])) != d[1] else outs("o", units(e, d[1]), used=d[1], k=d[1], c=d[0])
        return f
    for n in (1, 2, 3, 4):
        for p in ("r_dec8_", "r_dec8c_"): R[p + str(n)] = (syms(8, n), {k: v for k, v in B4.items() if int(k[1]) < n}, d8(n))
    R["r_decw"] = ({"c": 32}, PC, lambda e: {"c": e["c"], "n": 1} if scalar(e["c"]) else None)
    return R
def run(c):
    R = refs()
    t, und, res = compare(c, "utf.cpp", R, "P05")
    c.coverage = {"roots": len(R), "outcomes": t["outcomes"], "cells_compared": t["points"], "abstract_steps": t["steps"], "undecided_outputs": und, "library_functions_per_root_max": t["fns"],
                  "explanation": "Abstract interpretation of every conversion on unknown code units. Results are linear forms over bit slices of the inputs; each outcome is compared with the definition of the encoding on the base and on each single free bit of every cube of its input box (exact for linear forms), value by value where the form is not linear."}
    c.assumptions = ["code points that are not scalar values and incomplete sequences are not constrained here (P24 keeps them memory safe)"]
    c.require(t["outcomes"] >= 80, "too few outcomes analysed")
