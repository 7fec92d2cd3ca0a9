"""P15: integers are printed exactly, for every value of every type."""
import specroots, textcmp, safety
LEVEL = "other"
TEXT = ("Abstract interpretation of formatting an unknown value of each of the 8 integer types (all 2^8 to 2^64 values) with %d specifications. The digits are terms over the value (quotients, remainders, bit slices, table look-ups); "
        "each outcome (set of values with the same number of digits and sign) is compared with an independent conversion at the borders of its value set and at multiples and neighbours of the powers of the base.")
def run(c):
    q = ["char32_t"] if c.tier == "quick" else ["char32_t", "char", "char16_t", "wchar_t"]
    ts = []; sf = []
    for ch in q:
        t, res = specroots.decide(c, "val", ch); ts.append(t); sf.append(safety.report(c, res))
    textcmp.summarize(c, ts, TEXT % len(specroots.VSPECS), configurations=q, analysis_gaps=sorted(set(x for s in sf for x in s["undecided"]))[:20])
    c.require(sum(t["points"] for t in ts) >= 1000, "nothing compared")
