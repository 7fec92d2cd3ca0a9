"""P22: every replacement field formats exactly the argument and element it names; everything else is copied."""
import fmtroots, p21
LEVEL = "other"
def run(c):
    tm = [t for t in fmtroots.TEMPLATES if "$" not in t]
    q = [dict(ch="char32_t"), dict(ch="char"), dict(ch="char16_t")] if c.tier == "quick" else [dict(ch="char32_t"), dict(ch="char"), dict(ch="char16_t"), dict(ch="wchar_t"), dict(ch="char8_t"), dict(ch="char32_t", short=True)]
    p21.go(c, lambda tag, kind: kind == "events", q, tm)
