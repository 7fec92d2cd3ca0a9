"""P03: a scripted field produces exactly the branch its condition selects."""
import fmtroots, p21
LEVEL = "other"
def run(c):
    tm = [t for t in fmtroots.TEMPLATES if "$" in t]
    q = [dict(ch="char32_t"), dict(ch="char")] if c.tier == "quick" else [dict(ch="char32_t"), dict(ch="char"), dict(ch="char16_t"), dict(ch="wchar_t"), dict(ch="char8_t")]
    p21.go(c, lambda tag, kind: True, q, tm)
