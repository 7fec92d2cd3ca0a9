"""P21: exactly the well-formed format strings are accepted."""
import fmtroots
LEVEL = "other"
TEXT = ("Abstract interpretation of basic_interpreter on %d template format strings in which the unit at every position in turn is unknown, and on every truncation of them. Each outcome (the set of inputs that take one way "
        "through the code, with the sequence of outputs, argument accesses and formatter calls as terms) is compared with an independent implementation of the language's grammar at the borders of its value sets and at every ASCII character.")
def configs(c):
    q = [dict(ch="char32_t"), dict(ch="char", short=True)]
    return q if c.tier == "quick" else q + [dict(ch="char"), dict(ch="char16_t"), dict(ch="char32_t", short=True), dict(ch="char16_t", short=True), dict(ch="wchar_t")]
def go(c, select, cfgs, templates=fmtroots.TEMPLATES):
    ts = [fmtroots.mismatches(c, select=select, templates=templates, **k) for k in cfgs]
    fmtroots.summarize(c, ts, TEXT % len(templates), configurations=["%s%s" % (k["ch"], " truncations" if k.get("short") else "") for k in cfgs])
    c.assumptions = ["format strings with two or more characters that differ from a template are represented by the templates' contexts", "specifications of built-in types are not part of these roots (see P07)"]
    c.require(sum(t["roots"] for t in ts) >= 50, "roots missing")
    c.require(sum(t["points"] for t in ts) >= 500, "nothing compared")
def run(c): go(c, lambda tag, kind: kind in ("rejects", "accepts"), configs(c))
