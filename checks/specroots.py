"""Roots of format specifications: every template with an unknown unit at each position, every truncation, and unknown values."""
import os
import ai, build, textcmp, specref
from specref import sx

# kind -> (C++ value, Python value)
VALUES = {
    "i": ("int", "-42", lambda e: -42), "c65": ("int", "65", lambda e: 65), "u": ("unsigned", "2748u", lambda e: 2748), "neg1": ("int", "-1", lambda e: -1),
    "b": ("bool", "true", lambda e: 1), "z": ("chr", "papilio::utf::codepoint(U'\\u6587')", lambda e: 0x6587), "q": ("chr", "papilio::utf::codepoint(U'\\'')", lambda e: 39),
    "s": ("str", 'std::basic_string_view<C>(TXT("a\\u6587\\"b"))', lambda e: [97, 0x6587, 34, 98]), "e": ("str", 'std::basic_string_view<C>()', lambda e: []),
    "p": ("ptr", "(const void*)nullptr", lambda e: 0), "n": ("enum", "En::Two", lambda e: ("Two", 2)),
    "inf": ("infnan", "std::numeric_limits<double>::infinity()", lambda e: (False, "inf")), "nan": ("infnan", "-std::numeric_limits<float>::quiet_NaN()", lambda e: (True, "nan")),
}
# (template, kinds)
SPECS = [
    ("{:*^+#{1}x}", "i u"), ("{:08}", "i b"), ("{: #B}|", "u"), ("{0:<5c}", "c65 neg1"), ("{:{}d}", "i"), ("{:{1}}", "u s"), ("{:e>12L}", "i"), ("{:+#06o}", "i u"), ("{:-3}", "i"), ("{:5.3d}", "i"), ("{:X}", "u"),
    ("{:6}", "b z s p n inf"), ("{:_^{1}s}", "b s n"), ("{:.3}", "s"), ("{:>6.{1}s}", "s"), ("{:^{}.2}", "s"), ("{:?}", "z q s"), ("{:*<5c}", "z"), ("{:x}", "b z n"), ("{:#06b}", "b"), ("{}", "i u b z s e p n inf nan"),
    ("{:#12P}", "p"), ("{:p}{}", "p"), ("{:+7F}", "inf nan"), ("{: <6g}", "nan"), ("{:d}", "s p z"), ("{0:{1}}{2}", "e"),
]
# unknown values: (C++ type, bits, signed, spec, candidates)
TYPES = [("signed char", 8, 1), ("unsigned char", 8, 0), ("short", 16, 1), ("unsigned short", 16, 0), ("int", 32, 1), ("unsigned", 32, 0), ("long long", 64, 1), ("unsigned long long", 64, 0)]
VSPECS = ["{}", "{:d}", "{:x}", "{:#X}", "{:b}", "{:#o}", "{:+#B}", "{: 08}", "{:_^9}", "{:06x}"]

RULES = [["script_base::chars_to_float", "opaque"], ["std::use_facet<", "stop"]]
HEAD = '''#include "spec.hpp"
#include <limits>
enum class En { One = 1, Two = 2, Three = 3 };
'''

def esc(t): return "TXT(\"%s\")" % t.replace("\\", "\\\\").replace('"', '\\"')

def source(which, specs):
    out = [HEAD]; roots = {}
    if which in ("hole", "cut"):
        for n, (t, kinds) in enumerate(specs):
            for k in kinds.split():
                def root(nm, ln, h):
                    roots[nm] = (t[:ln], [h] if h >= 0 else [], k)
                    out.append("ROOT %s() { go(%s, %d, %d, -1, %s); }" % (nm, esc(t), ln, h, VALUES[k][1]))
                if which == "hole":
                    for h in range(len(t)): root("r_h%d_%s_%d" % (n, k, h), len(t), h)
                else:
                    for ln in range(len(t) + 1): root("r_c%d_%s_%d" % (n, k, ln), ln, -1)
    else:
        for n, t in enumerate(VSPECS):
            for m, (ty, bits, sg) in enumerate(TYPES):
                nm = "r_v%d_%d" % (n, m); roots[nm] = (t, [], m)
                out.append("ROOT %s() { go(%s, %d, -1, -1, unknown<%s>()); }" % (nm, esc(t), len(t), ty))
    d = os.path.join(build.BUILD, "gen"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "spec_%s.cpp" % which); s = "\n".join(out) + "\n"
    if not os.path.exists(p) or open(p).read() != s:
        with open(p + ".tmp%d" % os.getpid(), "w") as f: f.write(s)
        os.replace(p + ".tmp%d" % os.getpid(), p)
    return p, roots

PRE = {"char": "", "char8_t": "u8", "char16_t": "u", "char32_t": "U", "wchar_t": "L"}
def run(which, ch, specs=SPECS, timeout=150, **cfg):
    p, roots = source(which, specs)
    return ai.run(p, [], rules=RULES, defs=["PAX_CHAR=" + ch, "PAX_PRE=" + PRE[ch]], timeout=timeout, **dict(dict(peel=200, K=2000), **cfg)), roots

def vcand(bits):
    c = set()
    for b in (10, 16, 8, 2):
        k = 1
        while k < 1 << bits: c |= {k, k - 1, k + 1, -k, 1 - k, k * 7 // 5}; k *= b
    c |= {(1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, 0xAB % (1 << bits), 12345678901234567890 % (1 << bits)}
    return sorted(x % (1 << bits) for x in c)

def decide(c, which, ch, select=lambda tag, kind: True, **kw):
    res, roots = run(which, ch, **kw)
    units = {"char": 1, "char8_t": 1, "char16_t": 2}.get(ch, 4)
    R = {}
    for nm, (t, holes, k) in roots.items():
        if nm not in res: continue
        base = [ord(x) for x in t]
        W = {"w": (32, [0, 1, 5, 9, -1, -2], "{1" in t or "{}" in t[1:])}
        if which == "val":
            ty, bits, sg = TYPES[k]
            ref = lambda s, e, bits=bits, sg=sg: specref.run(s, "int", lambda: sx(e["v"] & ((1 << bits) - 1), bits) if sg else e["v"] & ((1 << bits) - 1), e, units)
            R[nm] = textcmp.Root(base, holes, ref, {"v": (64, vcand(bits), True), "w": (32, [1], False)}, tag="%s of %s" % (t, ty))
        else:
            kind, _, py = VALUES[k]
            R[nm] = textcmp.Root(base, holes, lambda s, e, kind=kind, py=py: specref.run(s, kind, lambda: py(e), e, units), W, tag="%s of %s" % (t, k))
    return textcmp.decide(c, ch, res, R, select), res
