"""Roots of escaped output: strings of unknown units, well-formed or not, and an unknown character."""
import os
import ai, build, textcmp, specroots
from specref import escape
from utfref import enc8

LENS = {"char": 4, "char8_t": 4, "char16_t": 3, "char32_t": 2, "wchar_t": 2}
def source(n):
    out = ['#include "spec.hpp"', "ROOT r_cp() { std::uint32_t v = pax_u32(\"v\"); pax_assume(v < 0x110000 && (v < 0xD800 || v > 0xDFFF)); show(papilio::utf::codepoint((char32_t)v)); }"]
    out += ["ROOT r_str%d() { const C* s = (const C*)pax_buf(\"s\", sizeof(C), %d); show(std::basic_string_view<C>(s, %d)); }" % (k, k, k) for k in range(n + 1)]
    d = os.path.join(build.BUILD, "gen"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "esc%d.cpp" % n); s = "\n".join(out) + "\n"
    if not os.path.exists(p) or open(p).read() != s:
        with open(p + ".tmp%d" % os.getpid(), "w") as f: f.write(s)
        os.replace(p + ".tmp%d" % os.getpid(), p)
    return p

class Skip(Exception): pass
def plain(c, q):
    if c == 0x7F or 0x80 <= c < 0xA0: raise Skip()        # whether these count as printable is not specified
    return escape(c, q)
def hexa(u): return [ord(x) for x in "\\x{%x}" % u]

def expected(us, units):
    """the units that the escaped text consists of"""
    o, i, n = [], 0, len(us)
    while i < n:
        u = us[i]; i += 1
        if units == 4:
            o += hexa(u) if u > 0x10FFFF or 0xD800 <= u <= 0xDFFF else plain(u, '"')
        elif units == 2:
            if 0xD800 <= u <= 0xDBFF and i < n and 0xDC00 <= us[i] <= 0xDFFF: o += [u, us[i]]; i += 1
            else: o += hexa(u) if 0xD800 <= u <= 0xDFFF else plain(u, '"')
        elif u < 0x80: o += plain(u, '"')
        else:
            k = 1 if 0xC0 <= u < 0xE0 else 2 if 0xE0 <= u < 0xF0 else 3 if 0xF0 <= u < 0xF8 else 0
            t = []
            while len(t) < k and i < n and 0x80 <= us[i] < 0xC0: t.append(us[i]); i += 1
            if k == 0 or len(t) < k:
                for x in [u] + t: o += hexa(x)
            else:
                cp = u & (0x7F >> (k + 1))
                for x in t: cp = cp << 6 | (x & 63)
                if cp > 0x10FFFF or 0xD800 <= cp < 0xE000 or len(enc8(cp)) != k + 1: raise Skip()   # overlong, surrogates
                if cp < 0xA0: raise Skip()
                o += [u] + t
    return o

def ref_str(s, env, units):
    try: return [("ok", [("o", (u,), False) for u in expected(s, units)])]
    except Skip: return [("any",)]
def ref_cp(v, units):
    try:
        o = []
        for c in plain(v, "'"):
            if units == 1: o += enc8(c)
            elif units == 2 and c > 0xFFFF: o += [0xD800 + ((c - 0x10000) >> 10), 0xDC00 + (c & 0x3FF)]
            else: o.append(c)
        return [("ok", [("o", (u,), False) for u in o])]
    except Skip: return [("any",)]

S8 = [0, 9, 10, 13, 31, 32, 34, 39, 65, 92, 126, 127, 128, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xC3, 0xDF, 0xE0, 0xE6, 0xED, 0xF0, 0xF4, 0xF7, 0xF8, 0xFF]
SW = [0, 9, 10, 11, 13, 31, 32, 34, 39, 65, 92, 126, 0xFF, 0x7FF, 0x6587, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0xFFFFFFFF]

def decide(c, ch, maxlen=None, timeout=300, **cfg):
    n = maxlen or LENS[ch]
    units = {"char": 1, "char8_t": 1, "char16_t": 2}.get(ch, 4)
    res = ai.run(source(n), [], rules=specroots.RULES, defs=["PAX_CHAR=" + ch, "PAX_PRE=" + specroots.PRE[ch]], timeout=timeout, **dict(dict(peel=200, K=4000), **cfg))
    R = {"r_str%d" % k: textcmp.Root([0] * k, list(range(k)), lambda s, e: ref_str(s, e, units), tag="escaped text of %d units" % k, text=False, special=S8 if units == 1 else SW, dense=2) for k in range(n + 1)}
    R["r_cp"] = textcmp.Root([], [], lambda s, e: ref_cp(e["v"], units), {"v": (32, SW + list(range(128)) + [0xA0, 0xD7, 0xFE], True, 200)}, tag="escaped character", text=False)
    return textcmp.decide(c, ch, res, {k: v for k, v in R.items() if k in res}), res
