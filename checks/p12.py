"""P12: styled text switches on exactly what the style selects, and off again."""
import scen, textcmp, safety
from scen import Scen, out
from specref import sx
LEVEL = "other"
HEAD = r'''#include "interp.hpp"
#include <papilio/papilio.hpp>
#include <papilio/print.hpp>
using papilio::color; using papilio::style; using papilio::text_style;
static color col(const char* n) { std::uint8_t c = pax_u8(n); pax_assume(c < 16); return (c & 8) ? color(30 + (c & 7)) : color::none; }
static color one(const char* n, int v) { std::uint8_t c = pax_u8(n); pax_assume(c < 2); return c ? color(v) : color::none; }
static style two(const char* n) { std::uint8_t c = pax_u8(n); pax_assume(c < 4); return c == 0 ? style::none : c == 1 ? style::bold : c == 2 ? style::underline : style(9); }
static style sty(const char* n) { std::uint8_t c = pax_u8(n); pax_assume(c < 16); return style(c); }
static void put(const std::string& s) { for(char c : s) pax_event("o", (std::uint64_t)(unsigned char)c); }
struct Own { int v; };
namespace papilio {
template <> class formatter<Own, char> {
public:
    template <class P> auto parse(P& ctx) { return ctx.begin(); }
    template <class F> auto format(const Own&, F& ctx) const { pax_event("body"); std::uint8_t x = pax_u8("x"); pax_assume(x < 2); if(x) throw 1; return ctx.out(); }
};
}
static void both(const text_style& s) { out_it it; s.set(it); pax_event("t"); s.reset(it); }
extern "C" std::size_t fwrite(const void* p, std::size_t a, std::size_t n, std::FILE*) { for(std::size_t i = 0; i < a * n; ++i) pax_event("o", (std::uint64_t)((const unsigned char*)p)[i]); return n; }
extern "C" int fflush(std::FILE*) { return 0; }
'''
def colr(v): return 30 + (v & 7) if v & 8 else 0
def codes(s, f, b):
    r = "".join("\x1b[%dm" % (i + 1) for i in range(4) if s >> i & 1)
    if f: r += "\x1b[%d;%dm" % (f, b + 10) if b else "\x1b[%dm" % f
    elif b: r += "\x1b[%dm" % (b + 10)
    return r
def reset(s, f, b): return "\x1b[0m" if s or f or b else ""
def one(v, c): return c if v & 1 else 0
def twos(v): return [0, 1, 8, 9][v & 3]
S2, F2 = (8, [0, 1, 2, 3]), (8, [0, 1])
SV, FV = (8, list(range(16))), (8, list(range(16)))
T = ("t", (), False)
def scens():
    r = []
    def add(name, expr, uses, style_of, small=True):
        v = {n: ((S2 if small else SV) if n[0] == "s" else F2 if small else FV) for n in uses}
        r.append(Scen(name, "text_style st = %s; both(st);" % expr, v, lambda e: [("ok", out(codes(*style_of(e))) + [T] + out(reset(*style_of(e))))], expr))
    add("style", 'sty("s")', ["s"], lambda e: (e["s"] & 15, 0, 0), False)
    add("fg", 'papilio::fg(col("f"))', ["f"], lambda e: (0, colr(e["f"]), 0), False)
    add("bg", 'papilio::bg(col("b"))', ["b"], lambda e: (0, 0, colr(e["b"])), False)
    add("fgbg", 'papilio::fg(col("f")) | papilio::bg(col("b"))', ["f", "b"], lambda e: (0, colr(e["f"]), colr(e["b"])), False)
    for i, (x, y, z) in enumerate([("f", "b", "s"), ("f", "s", "b"), ("b", "f", "s"), ("b", "s", "f"), ("s", "f", "b"), ("s", "b", "f")]):
        ex = {"f": 'papilio::fg(one("f", 31))', "b": 'papilio::bg(one("b", 37))', "s": 'two("s")'}
        add("or%d" % i, "%s | %s | %s" % (("text_style(%s)" % ex[x]) if x == "s" else ex[x], ex[y], ex[z]), "fbs", lambda e: (twos(e["s"]), one(e["f"], 31), one(e["b"], 37)))
        add("right%d" % i, "%s | (text_style(%s) | %s)" % (("text_style(%s)" % ex[x]) if x == "s" else ex[x], ex[y], ex[z]), "fbs", lambda e: (twos(e["s"]), one(e["f"], 31), one(e["b"], 37)))
    add("two", 'text_style(two("s")) | two("s2")', ["s", "s2"], lambda e: (twos(e["s"]) | twos(e["s2"]), 0, 0))
    add("mix", '(papilio::fg(one("f", 31)) | two("s")) | (papilio::bg(one("b", 37)) | two("s2"))', ["s", "s2", "f", "b"], lambda e: (twos(e["s"]) | twos(e["s2"]), one(e["f"], 31), one(e["b"], 37)))
    add("assign", 'papilio::bg(one("b", 37)); text_style o = two("s"); o |= papilio::fg(one("f", 31)); st |= o; st |= two("s2")', ["s", "s2", "f", "b"], lambda e: (twos(e["s"]) | twos(e["s2"]), one(e["f"], 31), one(e["b"], 37)))
    add("plain", "text_style()", [], lambda e: (0, 0, 0))
    V3 = {"s": S2, "f": F2, "b": F2}
    st = lambda e: (twos(e["s"]), one(e["f"], 31), one(e["b"], 37))
    mk = 'text_style st = papilio::fg(one("f", 31)) | papilio::bg(one("b", 37)) | two("s"); '
    wrap = lambda e, t: [("ok", out(codes(*st(e)) + t + reset(*st(e))))]
    r.append(Scen("styled_int", mk + 'put(papilio::format("{}", papilio::styled(st, 42)));', V3, lambda e: wrap(e, "42"), "styled(st, 42)"))
    r.append(Scen("styled_spec", mk + 'put(papilio::format("{:>4}", papilio::styled(st, 42)));', V3, lambda e: wrap(e, "  42"), "{:>4} of styled(st, 42)"))
    r.append(Scen("styled_str", mk + 'std::string t("a}"); put(papilio::format("<{}>", papilio::styled(st, t)));', V3, lambda e: [("ok", out("<" + codes(*st(e)) + "a}" + reset(*st(e)) + ">"))], "styled(st, string)"))
    r.append(Scen("styled_two", mk + 'put(papilio::format("{}{}", papilio::styled(st, 1), 2));', V3, lambda e: [("ok", out(codes(*st(e)) + "1" + reset(*st(e)) + "2"))], "styled(st, 1) and 2"))
    r.append(Scen("styled_own", mk + 'papilio::vformat_to(out_it{}, "{}", papilio::format_context_traits<Ctx>::make_format_args(papilio::styled(st, Own{1})));', dict(V3, x=(8, [0, 1])),
                  lambda e: [("throw",)] if e["x"] & 1 else [("ok", out(codes(*st(e))) + [("body", (), False)] + out(reset(*st(e))))], "styled(st, user type)"))
    r.append(Scen("print", mk + 'papilio::print(st, "{}.", 7);', V3, lambda e: wrap(e, "7."), "print(st, ...)"))
    r.append(Scen("println", mk + 'papilio::println(st, "{}.", 7);', V3, lambda e: [("ok", out(codes(*st(e)) + "7." + reset(*st(e)) + "\n"))], "println(st, ...)"))
    r.append(Scen("query", mk + 'pax_event("q", (std::uint64_t)(st.has_style() | st.has_foreground() << 1 | st.has_background() << 2 | st.has_style(style::bold) << 3 | st.has_style(style::faint) << 4 | st.has_style(style::italic) << 5 | st.has_style(style::underline) << 6));', V3,
                  lambda e: [("ok", [("q", (bool(st(e)[0]) | bool(st(e)[1]) << 1 | bool(st(e)[2]) << 2 | st(e)[0] << 3,), False)])], "queries"))
    return r
TEXT = "Abstract interpretation of %d expressions that build, combine and apply text styles with unknown colors and attributes, among them styled() arguments and print(). The sequence of characters of every outcome is compared with the SGR sequences of the selected attributes."
def run(c):
    sc = scens()
    t, res = scen.decide(c, "p12.cpp", HEAD, sc, rules=[["std::use_facet<", "stop"], ["is_terminal", "skip"]], defs=["PAX_CHAR=char", "PAX_PRE="], dense=20)
    sf = safety.report(c, res)
    textcmp.summarize(c, [t], TEXT % len(sc), analysis_gaps=sf["undecided"][:20])
    c.require(t["points"] >= 200, "nothing compared")
