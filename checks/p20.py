"""P20: ranges, tuples, optional, variant and joined values are written element by element."""
import comproots, textcmp, safety
LEVEL = "other"
TEXT = ("Abstract interpretation of formatting %d composite values (arrays, vectors, sets, maps, nested ranges, ranges of strings, characters and tuples, tuples and pairs, optional, variant, joined ranges; some elements are unknown numbers) with %d templates, "
        "the unit at every position in turn unknown, and every truncation. Each outcome (set of inputs, sequence of output units as terms) is compared with an independent reference at the borders of its value sets and at every ASCII character.")
def run(c):
    q = [("hole", "char32_t"), ("cut", "char32_t"), ("hole", "char")]
    if c.tier != "quick": q += [("cut", "char"), ("hole", "char16_t"), ("cut", "char16_t"), ("hole", "wchar_t"), ("hole", "char8_t")]
    ts = []; sf = []
    for w, ch in q:
        t, res = comproots.decide(c, w, ch); ts.append(t); sf.append(safety.report(c, res))
    textcmp.summarize(c, ts, TEXT % (len(comproots.VALUES), len(comproots.SPECS)), configurations=["%s %s" % k for k in q], analysis_gaps=sorted(set(x for s in sf for x in s["undecided"]))[:20])
    c.assumptions = ["whether the elements of a range are shown in their debug form after an element specification is not documented and accepted either way"]
    c.require(sum(t["roots"] for t in ts) >= 100, "roots missing")
    c.require(sum(t["points"] for t in ts) >= 1000, "nothing compared")
