"""P02: no format string makes the interpreter leave the text, run into undefined behavior, terminate or stand still."""
import fmtroots, safety, ai
LEVEL = "other"
def run(c):
    cfgs = [dict(ch="char"), dict(ch="char16_t", short=True), dict(ch="char", short=True), dict(ch="char32_t", short=True)]
    if c.tier != "quick": cfgs += [dict(ch="char16_t"), dict(ch="char32_t"), dict(ch="char8_t"), dict(ch="char", holes=2, K=64, timeout=60)]
    res = {}
    for k in cfgs:
        r, _ = fmtroots.run(**k)
        res.update({"%s%s%s:%s" % (k["ch"], "/short" if k.get("short") else "", "/2" if k.get("holes") else "", n): x for n, x in r.items()})
    t = safety.report(c, res)
    safety.coverage(c, t, "Abstract interpretation of basic_interpreter (compiled with traps for undefined behavior) on template format strings with an unknown unit at every position and on every truncation, "
                    "with unknown argument values. Every load and store is checked against its object, every arithmetic operation for overflow, every call for exceptions at noexcept boundaries, every loop for progress.", configurations=[str(k) for k in cfgs])
    c.assumptions = ["contexts of more than two unknown characters are represented by the templates"]
    c.require(len(res) >= 500, "roots missing")
