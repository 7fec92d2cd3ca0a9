"""P08: the bounded and counting entry points agree with plain formatting."""
import scen, textcmp, safety
from scen import Scen, out
from specref import sx
LEVEL = "other"
HEAD = r'''#include "interp.hpp"
#include <papilio/papilio.hpp>
#include <cstring>
#include <iterator>
#include <list>
static int num() { int w = (int)pax_u32("w"); pax_assume(w >= -2 && w <= 12); return w; }
static long bound() { long n = (long)pax_u64("n"); pax_assume(n >= 0 && n <= 9); return n; }
static std::string_view text(int w) { return std::string_view("\xe6\x96\x87xy", (std::size_t)(w & 3) + 2); }
static constexpr std::string_view papilio_txt("pqr");
static void res(std::uint64_t v) { pax_event("n", v); }
struct Post { int v; };     // writes with *it++
struct Adl { int v; };
struct Nested { int v; };
namespace papilio {
template <> class formatter<Post, char> {
public:
    template <class P> auto parse(P& ctx) { return ctx.begin(); }
    template <class F> auto format(const Post& p, F& ctx) const { auto it = ctx.out(); for(int i = 0; i < p.v; ++i) *it++ = char('a' + i); return it; }
};
template <> class formatter<Nested, char> {
public:
    template <class P> auto parse(P& ctx) { return ctx.begin(); }
    template <class F> auto format(const Nested& p, F& ctx) const { format_context_traits<F>::format_to(ctx, "<{}>", p.v); return ctx.out(); }
};
}
template <class Ctx2> auto format(const Adl& a, Ctx2& ctx) { auto it = ctx.out(); for(int i = 0; i < a.v; ++i) { *it = '='; ++it; } return it; }
using X = papilio::basic_format_context<out_it, char>;
// an output iterator that counts what it is given and where
struct pos_it {
    using iterator_category = std::output_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void;
    std::uint64_t k = 0;
    struct cell { std::uint64_t k; void operator=(char c) { pax_event("w", k, (std::uint64_t)(unsigned char)c); } };
    cell operator*() { return cell{k}; } pos_it& operator++() { ++k; return *this; } pos_it operator++(int) { auto t = *this; ++k; return t; }
    bool operator==(const pos_it&) const = default;
};
'''
W = lambda e: sx(e["w"], 32)
def text(w): return [0xe6, 0x96, 0x87, 120, 121][:(w & 3) + 2]
def b(s): return [ord(c) for c in s]
ARGS = [
    ("int", "\"a{}b{{\", w", lambda w: b("a%db{" % w)),
    ("wide", "\"{:>4}{:x}\", w, 171", lambda w: b("%4dab" % w)),
    ("text", "\"{}|{:.2}\", text(w), papilio_txt", lambda w: text(w) + b("|pq")),
    ("post", "\"x{}y\", Post{w & 3}", lambda w: b("x" + "abc"[:w & 3] + "y")),
    ("adl", "\"{}{}\", Adl{w & 3}, w", lambda w: b("=" * (w & 3) + str(w))),
    ("nested", "\"{}.\", Nested{w}", lambda w: b("<%d>." % w)),
    ("empty", "\"{0}{0}{0}\", std::string_view()", lambda w: []),
    ("script", "\"{$ {0} > 3 ? 'many' : {0}}!\", w", lambda w: b("many!" if w > 3 else "%d!" % w)),
    ("tuple", "\"{}\", std::make_pair(w, true)", lambda w: b("(%d, true)" % w)),
]
V = {"w": (32, [0, 1, 3, 4, 9, 10, 12, -1, -2])}
VN = dict(V, n=(64, list(range(10))))
def scens():
    r = []
    for nm, a, f in ARGS:
        r.append(Scen("size_" + nm, "int w = num(); res(papilio::formatted_size(%s));" % a, V, lambda e, f=f: [("ok", [("n", (len(f(W(e))),), False)])], "formatted_size(%s)" % a))
        r.append(Scen("n_" + nm, "int w = num(); auto r = papilio::format_to_n(pos_it(), bound(), %s); pax_event(\"n\", (std::uint64_t)r.size); pax_event(\"p\", r.out.k);" % a, VN,
                      lambda e, f=f: [("ok", [("w", (k, c), False) for k, c in enumerate(f(W(e))[:e["n"]])] + [("n", (min(e["n"], len(f(W(e)))),), False), ("p", (min(e["n"], len(f(W(e)))),), False)])], "format_to_n(%s)" % a))
        r.append(Scen("to_" + nm, "int w = num(); auto r = papilio::format_to(pos_it(), %s); pax_event(\"p\", r.k);" % a, V,
                      lambda e, f=f: [("ok", [("w", (k, c), False) for k, c in enumerate(f(W(e)))] + [("p", (len(f(W(e))),), False)])], "format_to(%s)" % a))
        r.append(Scen("str_" + nm, "int w = num(); std::string s = papilio::format(%s); for(char c : s) pax_event(\"o\", (std::uint64_t)(unsigned char)c); res(s.size());" % a, V,
                      lambda e, f=f: [("ok", out(f(W(e))) + [("n", (len(f(W(e))),), False)])], "format(%s)" % a))
        fs, vs = a.rsplit('", ', 1)
        r.append(Scen("rng_" + nm, "int w = num(); auto f = [&](const auto& args) { std::uint64_t k = 0; for(char c : papilio::formatted_range<char>(%s\", args)) { pax_event(\"o\", (std::uint64_t)(unsigned char)c); ++k; } res(k); }; f(papilio::make_format_args(%s));" % (fs, vs), V,
                      lambda e, f=f: [("ok", out(f(W(e))) + [("n", (len(f(W(e))),), False)])], "formatted_range(%s)" % a))
        r.append(Scen("buf_" + nm, "int w = num(); long n = bound(); char* p = (char*)pax_obj(\"buf\", (std::size_t)n); auto r = papilio::format_to_n(p, n, %s); pax_event(\"n\", (std::uint64_t)r.size); pax_event(\"p\", (std::uint64_t)(r.out - p));" % a, VN,
                      lambda e, f=f: [("ok", [("n", (min(e["n"], len(f(W(e)))),), False), ("p", (min(e["n"], len(f(W(e)))),), False)])], "format_to_n(buffer, %s)" % a))
    return r
RULES = [["std::use_facet<", "stop"]]
TEXT = "Abstract interpretation of %d calls of format, format_to, format_to_n, formatted_size and formatted_range with %d format strings, unknown arguments and an unknown bound. The characters written, their positions, the returned iterator and the returned size of every outcome are compared with an independent computation; every store is checked against a buffer of exactly n characters."
def run(c):
    sc = scens()
    t, res = scen.decide(c, "p08.cpp", HEAD, sc, rules=RULES, defs=["PAX_CHAR=char", "PAX_PRE="])
    sf = safety.report(c, res)
    textcmp.summarize(c, [t], TEXT % (len(sc), len(ARGS)), analysis_gaps=sf["undecided"][:20])
    c.require(t["points"] >= 500, "nothing compared")
