"""P17: escaped output shows every character and every invalid unit unambiguously."""
import escroots, textcmp, safety
LEVEL = "other"
TEXT = ("Abstract interpretation of the ? specification applied to strings of unknown units (well-formed or not) and to an unknown code point; every outcome (set of strings, sequence of output units as terms) is compared with an "
        "independent implementation of the documented escaping rules at the borders of its value sets; alarms of any outcome are violations as well.")
def run(c):
    q = [("char", 3), ("char16_t", 2), ("char32_t", 2)] if c.tier == "quick" else [("char", 3), ("char8_t", 3), ("char16_t", 3), ("char32_t", 3), ("wchar_t", 2)]
    ts = []; sf = []
    for ch, n in q:
        t, res = escroots.decide(c, ch, n); ts.append(t); sf.append(safety.report(c, res))
    textcmp.summarize(c, ts, TEXT, configurations=["%s up to %d units" % k for k in q], analysis_gaps=sorted(set(x for s in sf for x in s["undecided"]))[:20])
    c.assumptions = ["overlong UTF-8, encoded surrogates and control characters from U+007F on are not specified and accepted either way"]
    c.require(sum(t["points"] for t in ts) >= 500, "nothing compared")
