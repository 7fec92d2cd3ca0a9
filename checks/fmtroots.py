"""Roots of the format string interpreter: templates with unknown units at every position, and their comparison with lang.py."""
import os
import ai, build, lang, textcmp

# argument 0, 1: probes, 2: an unknown integer, ab: a probe
TEMPLATES = [
    "a{1}b{{}}{ab:x}",
    "{}{:xy}z}}",
    "{0}{ab}{}",
    "{}{ab}{}",
    "{[1]}{.a}",
    "{0[12:-3]}",
    "{1['k'].bc[:2]}",
    "{ab[:][-7:]}",
    "{ab['a\\'b']:s}",
    "{$ {2}==1 ? 'a' : 'b'}",
    "{${2}!=-7?{0:p}:{1}}",
    "{$ {2}<5?'l'}{$ {2}<=5?'m'}",
    "{$ {2}>5?'g'}{$ {2}>=5?'h'}",
    "{$ 3<{2}?'l':$ {2}==0?'z':'e'}",
    "{$!{2}?'n\\t\\\\':{0[1].a:x}}",
    "{$ 'ab'=='ac' ? {} : {}}{:y}",
    "{$ {2} ? {:a} : $ {2} ? {} : {ab}}",
    "{$ '' ? 'x' : $ !'' ? 'y\\'' : 'z'}",
    "{$ {2}> 1.5 ? 'a' : 'b'}",
    "{$ {2}!='s'?'p':'q'}",
    "{$ {2}==1?'1':$ {2}==2?'2':$ {2}==3?'3':'4'}",
]
RULES = [["^pax_sink", "skip"], ["script_base::chars_to_float", "opaque"], ["papilio::formatter<(bool|int|unsigned int|long long|unsigned long long|float|double|long double|void const\\*), [a-z0-9_]+>::parse<", "stop"]]

def source(holes, templates, short):
    """holes: 1 or 2 unknown adjacent units; short: also every truncated template, complete except for its end"""
    out = ['#define PAX_CHAR_SET', '#include "interp.hpp"']
    roots = {}
    for n, t in enumerate(templates):
        lit = "TXT(\"%s\")" % t.replace("\\", "\\\\").replace('"', '\\"')
        def root(nm, ln, h1, h2=-1):
            roots[nm] = (t, ln, [h for h in (h1, h2) if h >= 0])
            out.append("ROOT %s() { go(%s, %d, %d, %d); }" % (nm, lit, ln, h1, h2))
        if short:
            for ln in range(len(t) + 1): root("r_s%d_%d" % (n, ln), ln, -1)
        else:
            for h in range(len(t) - holes + 1): root("r_h%d_%d" % (n, h), len(t), h, h + 1 if holes == 2 else -1)
    d = os.path.join(build.BUILD, "gen"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "interp%d%s.cpp" % (holes, "s" if short else ""))
    s = "\n".join(out) + "\n"
    if not os.path.exists(p) or open(p).read() != s:
        with open(p + ".tmp%d" % os.getpid(), "w") as f: f.write(s)
        os.replace(p + ".tmp%d" % os.getpid(), p)
    return p, roots

CHARS = {"char": ("u8", 8), "char16_t": ("u", 16), "char32_t": ("U", 32), "wchar_t": ("L", 32), "char8_t": ("u8", 8)}
def run(ch="char32_t", holes=1, short=False, templates=TEMPLATES, timeout=150, **cfg):
    p, roots = source(holes, templates, short)
    pre = {"char": "", "char8_t": "u8", "char16_t": "u", "char32_t": "U", "wchar_t": "L"}[ch]
    cfg = dict(dict(peel=200, K=2000), **cfg)
    res = ai.run(p, [], rules=RULES, defs=["PAX_CHAR=" + ch, "PAX_PRE=" + pre], timeout=timeout, **cfg)
    return res, roots

VALS = [0, 1, 2, 3, 4, 5, 6, -7, -6, -8, 7, 1000, lang.IMIN, lang.IMAX, -1]
def _ref(s, env):
    v = env["v"]
    return lang.run(s, v - (1 << 64) if v >> 63 else v)

def mismatches(c, ch, select=lambda tag, kind: True, **kw):
    """analyse and compare one configuration; reports violations; returns counters"""
    res, roots = run(ch, **kw)
    R = {k: textcmp.Root([ord(x) for x in t[:ln]], holes, _ref, {"v": (64, VALS, "{2" in t)}, tag=t) for k, (t, ln, holes) in roots.items() if k in res}
    return textcmp.decide(c, ch, res, R, select)
summarize = textcmp.summarize
