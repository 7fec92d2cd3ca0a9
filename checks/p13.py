"""P13: the locale matters exactly where L asks for it, and it is the one that was passed."""
import scen, textcmp, safety
from scen import Scen
from specref import sx
LEVEL = "other"
HEAD = r'''#include "interp.hpp"
#include <papilio/papilio.hpp>
#include <papilio/formatter/chrono.hpp>
#include <array>
#include <optional>
static bool flag() { return pax_u8("f") & 1; }
struct Str { int v; };      // only stream insertion
inline std::ostream& operator<<(std::ostream& os, const Str&) { pax_event("put"); return os; }
struct Loc { bool v; };     // no specification; formats a nested value with L
struct Asks { int v; };     // asks the context for its locale
namespace papilio {
template <> class formatter<Loc, char> {
public:
    template <class P, class F> auto format(const Loc& p, P&, F& ctx) const { format_context_traits<F>::format_to(ctx, "{:L}", p.v); return ctx.out(); }
};
template <> class formatter<Asks, char> {
public:
    template <class P, class F> auto format(const Asks& p, P&, F& ctx) const { std::locale l = ctx.getloc(); pax_event("put"); return ctx.out(); }
};
}
template <class C> struct Buf {
    using difference_type = std::ptrdiff_t; using value_type = C;
    Buf& operator*() { return *this; } Buf& operator++() { return *this; } Buf operator++(int) { return *this; }
    Buf& operator=(C) { return *this; }
};
template <class V> static void show(std::string_view fmt, bool given, const V& value)
{
    const std::locale& loc = *(const std::locale*)pax_obj("loc", 8);
    auto args = papilio::format_context_traits<Ctx>::make_format_args(value);
    if(given) papilio::vformat_to(out_it{}, loc, fmt, args); else papilio::vformat_to(out_it{}, fmt, args);
}
'''
PUT = ("put", (), False)
O = ("copy", (0, 0), True)     # further copies of a copy do not matter
def source(given, then):
    """the ways in which the wanted locale reaches a call: itself or a copy; then(address) -> the events of the use (a copy has an unknown address: 0)"""
    if given: return [[("copy", (0, 77), False), ("copy", (0, 77), True), O, O] + then(0), [("copy", (0, 77), True)] + then(77)]
    return [[("classic", (), False), O, O, O] + then(0)]
def text(v): return [("o", (ord(c),), False) for c in v]
VALUES = [  # (name, C++ value, [(format, uses the locale)])
    ("bool", "flag()", [("{}", 0), ("{:L}", 1), ("{:>3s}", 0), ("{:>3Ls}", 1), ("{:Ld}", 0), ("{:d}", 0)]),
    ("range", "std::array<bool, 1>{flag()}", [("{}", 0), ("{::L}", 1), ("{:n:L}", 1), ("{::s}", 0)]),
    ("pair", "std::make_pair(flag(), 1)", [("{}", 0)]),
    ("opt", "std::optional<bool>(flag())", [("{}", 0)]),
    ("loc", "Loc{flag()}", [("{}", 1)]),
    ("locopt", "std::optional<Loc>(Loc{flag()})", [("{}", 1)]),
    ("loctup", "std::tuple<Loc>(Loc{flag()})", [("{}", 1)]),
]
SPECIAL = [
    ("asks", "Asks{1}", [("{}", 1)]), ("asksopt", "std::optional<Asks>(Asks{1})", [("{}", 1)]), ("asksjoin", "papilio::join(arr)", [("{}", 1)]),
    ("str", "Str{1}", [("{}", 0), ("{:L}", 1), ("{:>5}", 0), ("{:*<5L}", 1), ("{:*<L}", 1), ("{:*<}", 0)]),
    ("tm", "std::tm{}", [("{:%Y}", 0), ("{:L%Y}", 1), ("{:>9%B}", 0), ("{:>9L%B}", 1)]),
]
def make(groups):
    r = []
    for nm, val, fm in groups:
      for k, (f, uses) in enumerate(fm):
        for given in (0, 1):
            body = "%sshow(\"%s\", %d, %s);" % ("static std::array<Asks, 2> arr{Asks{1}, Asks{2}}; " if "arr" in val else "", f, given, val)
            name = "%s_%d_%d" % (nm, k, given); tag = "%s of %s, %s" % (f, nm, "locale given" if given else "no locale")
            if nm in ("str", "tm"):
                ev = source(given and uses, lambda a: [("imbue", (0, 0, a), False)] + ([PUT] if nm == "str" else []))
                ref = lambda e, ev=ev: [("ok", x) for x in ev]
            elif nm.startswith("asks"):
                ev = source(given, lambda a: [PUT])
                if nm == "asksjoin": ev = [x + text(", ") + x for x in ev]
                ref = lambda e, ev=ev: [("ok", x) for x in ev]
            else:
                def ref(e, f=f, uses=uses, nm=nm, given=given):
                    b = e["f"] & 1
                    t = "true" if b else "false"
                    if f == "{:>3s}": return [("ok", text(t.rjust(3)))]
                    if f in ("{:Ld}", "{:d}"): return [("ok", text(str(b)))]
                    pre = {"range": "[" if ":n" not in f else ""}.get(nm, "")
                    if nm == "loctup": pre = "("
                    if uses: return [("ok", text(pre) + x) for x in source(given, lambda a: [("facet", (a,), False)])]
                    if nm == "range": t = "[%s]" % t
                    if nm == "pair": t = "(%s, 1)" % t
                    return [("ok", text(t))]
            r.append(Scen(name, body, {"f": (8, [0, 1])} if "flag" in val else {}, ref, tag, ptrs={"loc": 77}, stop=True))
    return r
ENTRY = [  # (name, statement with LOC: "loc, " or "")
    ("format", 'bool b = flag(); auto s = papilio::format(LOC{W}"{:L}", b); pax_event("end", s.size());'),
    ("format_to", 'bool b = flag(); papilio::format_to(Buf<{C}>(), LOC{W}"{:L}", b); pax_event("end");'),
    ("format_to_n", 'bool b = flag(); papilio::format_to_n(Buf<{C}>(), 3, LOC{W}"{:L}", b); pax_event("end");'),
    ("formatted_size", 'bool b = flag(); auto n = papilio::formatted_size(LOC{W}"{:L}", b); pax_event("end", n);'),
    ("vformat", 'bool b = flag(); auto s = papilio::vformat(LOC{W}"{:L}", papilio::make_{V}format_args(b)); pax_event("end", s.size());'),
]
def entries():
    r = []
    for nm, st in ENTRY:
        for C, W in (("char", ""), ("wchar_t", "L")):
            for given in (0, 1):
                b = st.replace("{W}", W).replace("{C}", C).replace("{V}", "w" if W else "").replace("LOC", "loc, " if given else "")
                body = ("const std::locale& loc = *(const std::locale*)pax_obj(\"loc\", 8); " if given else "") + b
                ev = source(given, lambda a: [("facet", (a,), False)])
                r.append(Scen("e_%s_%s_%d" % (nm, C, given), body, {}, lambda e, ev=ev: [("ok", x) for x in ev], "%s<%s> of {:L}, %s" % (nm, C, "locale given" if given else "no locale"), ptrs={"loc": 77}, stop=True))
    return r
RULES = [["^std::locale::locale\\(std::locale const&\\)$", "event:copy"], ["^std::locale::classic\\(\\)$", "event:classic"], ["std::use_facet<", "last:facet"],
         ["^std::basic_ios<char.*::imbue\\(", "event:imbue"],
         ["^std::locale::~locale|^std::locale::locale\\(\\)$|std::ios_base|std::basic_streambuf.*streambuf|basic_stringstream|__cxx11::basic_string<char.*::~basic_string", "opaque"]]
TEXT = "Abstract interpretation of %d calls of the formatting functions with and without a locale: every use of a locale (number formatting facets, streams, formatters that ask for it) is an event carrying the locale object it was given; the event sequences of all outcomes are compared with the documented ones."
def run(c):
    ts, gaps, n = [], [], 0
    for nm, sc, extra in (("p13v", make(VALUES), []), ("p13s", make(SPECIAL), [["string_formatter<char>::format<", "skip"]]), ("p13e", entries(), [])):
        t, res = scen.decide(c, nm + ".cpp", HEAD, sc, rules=RULES + extra, defs=["PAX_CHAR=char", "PAX_PRE="])
        sf = safety.report(c, res); ts.append(t); n += len(sc); gaps += sf["undecided"]
    textcmp.summarize(c, ts, TEXT % n, analysis_gaps=gaps[:20])
    c.require(sum(t["points"] for t in ts) >= 40, "nothing compared")
