"""P24: whatever the bytes of a text, reading it never leaves the text."""
import ai, safety
LEVEL = "other"
def run(c):
    n = 5 if c.tier == "quick" else 7
    res = ai.run("textmem.cpp", [], rules=[["^pax_sink", "skip"]], peel=200, K=64, chunk=1, timeout=150 if c.tier == "quick" else 400, defs=["TEXT_MAX=%d" % n])
    c.require(len(res) >= 100, "roots missing")
    t = safety.report(c, res)
    safety.coverage(c, t, "Abstract interpretation of every text primitive (20 kinds x 5 character types) on a text of unknown content, every length up to %d, with unknown positions. Every load is checked against the bounds of the text; terminating and unreachable points and endless loops are reported as well." % n, max_length=n)
    c.assumptions = ["texts up to %d units: an incomplete sequence is at most 4 units long, so every position of it relative to both ends occurs" % n]
    c.require(len(t["undecided"]) < 20, "too many roots undecided: %s" % t["undecided"][:3])
