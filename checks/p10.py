"""P10: formatting only reads the caller's objects; doing it again gives the same result."""
import scen, ai, safety, textcmp
from scen import Scen
LEVEL = "other"
HEAD = r'''#include "interp.hpp"
#include <papilio/papilio.hpp>
#include <papilio/color.hpp>
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/tuple.hpp>
#include <papilio/formatter/vocabulary.hpp>
#include <papilio/accessor/tuple.hpp>
#include <papilio/accessor/vocabulary.hpp>
#include <papilio/accessor/ranges.hpp>
#include <optional>
#include <variant>
#include <vector>
#include <map>
#include <list>
struct Big { int v; int pad[20]; };              // referred to
struct Small { int v; };                         // copied
struct Owner { std::string s; int v; };
struct Flat { using key_type = int; using mapped_type = int; using value_type = std::pair<const int, int>; value_type d[2]; auto begin() const { return d; } auto end() const { return d + 2; } };
enum class En { a, b };
namespace papilio {
#define FMT(TY) template <> class formatter<TY, char> { public: template <class P> auto parse(P& ctx) { return ctx.begin(); } template <class F> auto format(const TY& p, F& ctx) const { pax_event("u", p.v); return ctx.out(); } }
FMT(Big); FMT(Small); FMT(Owner);
template <class Cx> struct accessor<Owner, Cx> { using A = basic_format_arg<Cx>;
    static A attribute(const Owner& o, const attribute_name& n) { if(n == "s") return A(o.s); return A(o.v); } static A index(const Owner& o, ssize_t i) { return A((int)((unsigned)o.v + (unsigned)i)); } };
}
struct ev_it {
    using iterator_category = std::output_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void;
    ev_it& operator*() { return *this; } ev_it& operator++() { return *this; } ev_it operator++(int) { return *this; }
    ev_it& operator=(char c) { pax_event("o", (std::uint64_t)(unsigned char)c); return *this; }
};
using X = papilio::basic_format_context<ev_it, char>;
using Args = papilio::basic_dynamic_format_args<X>;
using Arg = papilio::basic_format_arg<X>;
static int val() { return (int)pax_u32("x"); }
#define FR(x) pax_freeze("", &(x))
#define FRH(p) pax_freeze("", (p))
#define TRY(...) try { __VA_ARGS__; } catch(...) { pax_event("error"); }
struct Thaw { ~Thaw() { pax_thaw(""); } };
#define TWICE(...) { __VA_ARGS__; } pax_event("again"); { __VA_ARGS__; }
'''
INTF = ["{}", "{:+08d}", "{:#x}", "{0}{0}", "{$ {0} > 5 ? 'a' : {0}}"]
STRF = ["{}", "{:>9}", "{:.2}", "{:?}", "{[1]}", "{[0:2]}", "{[-2:]}", "{.length}", "{$ {0} == 'ab' ? {0} : '-'}", "{0}{0}"]
RNG = ["{}", "{:n}", "{::d}", "{[0]}", "{[-1]}", "{.size}", "{0}{0}"]
VALUES = [  # name, declarations, what to freeze, argument, formats
    ("int", "int q = val();", "FR(q)", "q", INTF), ("ll", "long long q = val();", "FR(q)", "q", INTF[:3]), ("bool", "bool q = val() & 1;", "FR(q)", "q", ["{}", "{:d}", "{:>7}"]),
    ("chr", "char q = 'c';", "FR(q)", "q", ["{}", "{:d}", "{:?}"]), ("cp", "papilio::utf::codepoint q = U'c';", "FR(q)", "q", ["{}", "{:?}"]),
    ("str", "std::string q(\"abcd\");", "FR(q)", "q", STRF), ("lstr", "std::string q(20, 'a');", "FR(q); FRH(q.data())", "q", STRF),
    ("sv", "char b[4]{'a', 'b', 'c', 'd'}; std::string_view q(b, 4);", "FR(q); FR(b)", "q", STRF), ("arr", "char q[5]{'a', 'b', 'c', 'd', 0};", "FR(q)", "(const char*)q", ["{}"]),
    ("ctn", "papilio::utf::string_container q(papilio::independent, \"abcdefghijklmnopqrst\");", "FR(q)", "q", STRF), ("ctv", "char b[4]{'a', 'b', 'c', 'd'}; papilio::utf::string_container q(std::string_view(b, 4));", "FR(q); FR(b)", "q", STRF),
    ("ref", "char b[4]{'a', 'b', 'c', 'd'}; papilio::utf::string_ref q(std::string_view(b, 4));", "FR(q); FR(b)", "q", STRF[:8]),
    ("big", "Big q{val(), {}};", "FR(q)", "q", ["{}", "{0}{0}"]), ("small", "Small q{val()};", "FR(q)", "q", ["{}", "{0}{0}"]),
    ("owner", "Owner q{std::string(18, 'x'), val()};", "FR(q); FRH(q.s.data())", "q", ["{}", "{.s}", "{.s[2:4]}{0.v}", "{[3]}", "{$ {0.s} == 'x' ? {0} : {0.v}}"]),
    ("named", "Owner q{std::string(18, 'x'), val()}; auto n = papilio::arg(\"k\", q);", "FR(q); FR(n); FRH(q.s.data())", "n", ["{k}", "{k.s}", "{0}"]),
    ("namedstr", "std::string q(18, 'x'); auto n = papilio::arg(\"k\", q);", "FR(q); FR(n); FRH(q.data())", "n", ["{k}{k}", "{k[2:4]}"]),
    ("vec", "std::vector<int> q{val(), 2, 3};", "FR(q); FRH(q.data())", "q", RNG), ("std", "std::array<int, 2> q{val(), 2};", "FR(q)", "q", RNG), ("carr", "int q[2]{val(), 2};", "FR(q)", "q", ["{}", "{:n}"]),
    ("vstr", "std::vector<std::string> q{\"ab\", \"c\"};", "FR(q); FRH(q.data())", "q", ["{}", "{::>3}", "{:n}", "{0}"]), ("flat", "Flat q{{{1, val()}, {2, 7}}};", "FR(q)", "q", ["{}", "{:m}"]),
    ("tup", "std::tuple<int, std::string> q(val(), \"ab\");", "FR(q)", "q", ["{}", "{:n}", "{[0]}", "{[1]}", "{[1][0]}"]), ("pair", "std::pair<std::string, Owner> q(\"ab\", Owner{\"s\", val()});", "FR(q)", "q", ["{}", "{:m}", "{.first}", "{.second}", "{.second.s}"]),
    ("opt", "std::optional<std::string> q(\"ab\");", "FR(q)", "q", ["{}", "{:>4}"]), ("null", "std::optional<int> q;", "FR(q)", "q", ["{}"]), ("var", "std::variant<int, std::string> q(std::in_place_index<1>, \"ab\");", "FR(q)", "q", ["{}"]),
    ("join", "std::vector<std::string> q{\"ab\", \"c\"}; auto j = papilio::join(q, \"-\");", "FR(q); FRH(q.data()); FR(j)", "j", ["{}", "{:>3}", "{0}{0}"]),
    ("styled", "std::string q(\"ab\"); auto j = papilio::styled(papilio::fg(papilio::color::red), q);", "FR(q); FR(j)", "j", ["{}", "{:>3}"]),
    ("enum", "En q = En::b;", "FR(q)", "q", ["{:d}"]), ("ptr", "int z = 0; int* q = &z;", "FR(q); FR(z)", "(const void*)q", ["{}"]),
]
CALLS = [("args", "auto a = papilio::make_format_args<X>(ARG, n2); FR(a); Thaw th; TWICE(papilio::vformat_to(ev_it{}, FMT, a))"), ("to", "TWICE(papilio::format_to(ev_it{}, FMT, ARG, n2))"),
         ("dyn", "Args a; a.emplace(ARG); a.emplace(n2); TWICE(papilio::vformat_to(ev_it{}, FMT, a))"),
         ("size", "TWICE(pax_event(\"n\", papilio::formatted_size(FMT, ARG, n2)))"), ("n", "TWICE(papilio::format_to_n(ev_it{}, 3, FMT, ARG, n2))"), ("str", "TWICE(auto t = papilio::format(FMT, ARG, n2); pax_event(\"n\", t.size()))"),
         ("range", "TWICE(papilio::formatted_range<char> r(FMT, papilio::make_format_args(ARG, n2)); for(char ch : r) pax_event(\"o\", ch))")]
def make(thorough):
    r = []
    for nm, decl, fr, arg, fmts in VALUES:
        for k, f in enumerate(fmts):
            calls = CALLS[:5] if k == 0 or thorough else CALLS[:1] + [CALLS[1 + (k + len(nm)) % 4]]
            for cn, call in calls:
                if nm.startswith("named") and cn == "dyn": continue
                s = '"%s"' % f.replace('"', '\\"')
                body = 'int n2 = 4; FR(n2); %s %s; TRY(%s) pax_thaw("");' % (decl, fr, call.replace("FMT", s).replace("ARG", arg))
                r.append(Scen("%s_%d_%s" % (nm, k, cn), body, {}, None, "%s of %s (%s)" % (f, nm, cn)))
    return r
RULES = [["std::use_facet<", "stop"]]
TEXT = "Abstract interpretation of %d calls of the formatting functions in which every object of the caller - arguments, what they own, stored argument lists - is frozen: a write, move or release of any of them on any path is an alarm. Each call is made twice, and the steps of both runs are compared in every outcome."
def const(a): return a.get("t", [None])[0] == "c"
def again(c, res, sc):
    tags = {"r_" + x.name: x.tag for x in sc}; n = 0; outs = 0
    for nm, x in sorted(res.items()):
        for o in x["outcomes"]:
            if o["kind"] != "ret": continue
            ev = o["trace"]; k = [i for i, e in enumerate(ev) if e["ev"] == "again"]
            if len(k) != 1 or any(e.get("star") for e in ev): continue
            a, b = ev[:k[0]], ev[k[0] + 1:]; n += 1
            bad = None
            if len(a) != len(b): bad = "%d steps the first time, %d the second time" % (len(a), len(b))
            else:
                for i, (p, q) in enumerate(zip(a, b)):
                    if p["ev"] != q["ev"] or any(const(u) and const(v) and u["str"] != v["str"] for u, v in zip(p["args"], q["args"])): bad = "step %d differs: %s / %s" % (i, p["ev"], q["ev"]); break
            if bad: c.violate("again:" + nm, "formatting %s a second time does not give the same result: %s" % (tags[nm], bad), o.get("at", ""), [])
    return n
def run(c):
    sc = make(c.tier != "quick")
    p = scen.source("p10.cpp", HEAD, sc)
    res = ai.run(p, [], rules=RULES, defs=["PAX_CHAR=char", "PAX_PRE="], timeout=20, peel=200, K=2000, cleanups=True)
    t = safety.report(c, res)
    n = again(c, res, sc)
    safety.coverage(c, t, TEXT % len(sc), repeated_outcomes_compared=n)
    c.require(n >= 100, "nothing compared")
