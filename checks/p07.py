"""P07: format specifications of built-in types are accepted and applied exactly as documented."""
import specroots, textcmp, safety
LEVEL = "other"
TEXT = ("Abstract interpretation of parsing and applying a format specification to values of every built-in kind, for %d templates with the unit at every position in turn unknown, for every truncation of them, and with an unknown "
        "number as dynamic width or precision. Each outcome (set of inputs, sequence of output units as terms) is compared with an independent implementation of doc/en/builtin_formatter.md at the borders of its value sets and at "
        "every ASCII character; alarms (undefined behavior, out of bounds, endless loops) of any outcome are violations as well.")
def run(c):
    q = [("hole", "char32_t"), ("cut", "char32_t"), ("hole", "char")]
    if c.tier != "quick": q += [("cut", "char"), ("hole", "char16_t"), ("hole", "wchar_t"), ("cut", "char16_t"), ("cut", "wchar_t")]
    ts = []; sf = []
    for w, ch in q:
        t, res = specroots.decide(c, w, ch); ts.append(t); sf.append(safety.report(c, res))
    textcmp.summarize(c, ts, TEXT % len(specroots.SPECS), configurations=["%s %s" % k for k in q], analysis_gaps=sorted(set(x for s in sf for x in s["undecided"]))[:20])
    c.assumptions = ["the locale-dependent form of bool (L) is not part of these roots", "conversion of finite floating point numbers to digits is std::to_chars and not analysed",
                     "not specified by the documentation and therefore accepted either way: precision 0, precision of kinds that have none, a brace as fill, width together with ?"]
    c.require(sum(t["roots"] for t in ts) >= 100, "roots missing")
    c.require(sum(t["points"] for t in ts) >= 1000, "nothing compared")
