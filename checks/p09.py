"""P09: values are alive whenever formatting uses them, and every copy is destroyed exactly once."""
import scen, textcmp, safety
from scen import Scen
from specref import sx
LEVEL = "other"
HEAD = r'''#include "interp.hpp"
#include <papilio/papilio.hpp>
#include <optional>
#include <variant>
#include <vector>
static long live = 0;
static int copies = 0;
static void may_throw() { int t = pax_u8("t"); pax_assume(t < 4); if(copies++ == t) throw 1; }
// S: small objects that are stored inside of an argument; otherwise copying may fail
template <bool S> struct Tk {
    const Tk* self; int v;
    explicit Tk(int x) noexcept : self(this), v(x) { ++live; }
    Tk(const Tk& o) noexcept(S) : self(nullptr), v(o.v) { o.check(); if(!S) may_throw(); self = this; ++live; }
    Tk(Tk&& o) noexcept(S) : self(nullptr), v(o.v) { o.check(); if(!S) may_throw(); self = this; o.v = -77; ++live; }
    Tk& operator=(const Tk&) = delete;
    ~Tk() { check(); self = nullptr; --live; }
    void check() const { if(self != this) pax_event("dead"); }
};
template <bool S> struct Ow {      // owns one more
    Tk<S> in; char name[4];
    explicit Ow(int x) noexcept : in(x), name{'n', 'm', 0, 0} {}
};
template <bool S> struct Ca { Tk<S> t; };   // converts to a copy
namespace papilio {
template <bool S> class formatter<Tk<S>, char> {
public:
    template <class P> auto parse(P& ctx) { return ctx.begin(); }
    template <class F> auto format(const Tk<S>& p, F& ctx) const { p.check(); pax_event("tk", p.v); return ctx.out(); }
};
template <bool S> class formatter<Ow<S>, char> {
public:
    template <class P> auto parse(P& ctx) { return ctx.begin(); }
    template <class F> auto format(const Ow<S>& p, F& ctx) const { p.in.check(); pax_event("ow", p.in.v); return ctx.out(); }
};
template <bool S, class C> struct accessor<Tk<S>, C> {
    using A = basic_format_arg<C>;
    static A index(const Tk<S>& o, ssize_t i) { o.check(); return A(independent, Tk<S>(o.v + (int)i)); }
    static A attribute(const Tk<S>& o, const basic_attribute_name<char>&) { o.check(); return A(o.v); }
};
template <bool S, class C> struct accessor<Ow<S>, C> {
    using A = basic_format_arg<C>;
    static A index(const Ow<S>& o, ssize_t i) { o.in.check(); return A(independent, Ow<S>(o.in.v + (int)i)); }
    static A attribute(const Ow<S>& o, const basic_attribute_name<char>& n) { o.in.check(); if(n == "s") return A(std::string_view(o.name, 2)); if(n == "i") return A(independent, std::string(o.name, 2)); if(n == "l") return A(independent, std::string(20, o.name[0])); return A(o.in); }
};
}
struct ev_it {
    using iterator_category = std::output_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void;
    ev_it& operator*() { return *this; } ev_it& operator++() { return *this; } ev_it operator++(int) { return *this; }
    ev_it& operator=(char c) { pax_event("o", (std::uint64_t)(unsigned char)c); return *this; }
};
using X = papilio::basic_format_context<ev_it, char>;
using Args = papilio::basic_dynamic_format_args<X>;
using Arg = papilio::basic_format_arg<X>;
static int val() { int x = (int)pax_u32("x"); pax_assume(x >= 3 && x <= 6); return x; }
#define TRY(...) try { __VA_ARGS__; pax_event("ok"); } catch(int) { pax_event("caught"); } catch(...) { pax_event("error"); }
#define END pax_event("live", (std::uint64_t)live)
'''
ev = lambda n, *a: (n, a, False)
def o(s): return [("o", (ord(c),), False) for c in s]
FMT = [  # (format, kinds, events of x)
    ("{}", "TW", None), ("{0}{0}", "TW", None),
    ("{[2]}", "T", lambda x: [ev("tk", x + 2)]), ("{[2][1]}", "T", lambda x: [ev("tk", x + 3)]), ("{[1].v}", "T", lambda x: o(str(x + 1))), 
    ("{0.v}{0}", "T", lambda x: o(str(x)) + [ev("tk", x)]),
    ("{.r}", "W", lambda x: [ev("tk", x)]), ("{[1]}", "W", lambda x: [ev("ow", x + 1)]), ("{[1].r}", "W", lambda x: [ev("tk", x + 1)]), ("{[1].r[1]}", "W", lambda x: [ev("tk", x + 2)]),
    ("{[1].s}", "W", lambda x: o("nm")), ("{.s}", "W", lambda x: o("nm")), ("{[1].s[1]}", "W", lambda x: o("m")), ("{[1][1].s[0:1]}", "W", lambda x: o("n")),
    ("{0[1].s}{0.r}{0[2]}", "W", lambda x: o("nm") + [ev("tk", x), ev("ow", x + 2)]),
    ("{$ {0[1].s} == 'nm' ? {0[3].r} : 'no'}", "W", lambda x: [ev("tk", x + 3)]), ("{$ {0.s} ? {0} : 'no'}", "W", lambda x: [ev("ow", x)]),
    ("{$ !{0[1].s[1:]} ? 'no' : {0[1].r}}", "W", lambda x: [ev("tk", x + 1)]), ("{1:{0[1].r.v}d}", "W", lambda x: o("9".rjust(x + 1))), ("{1:>{0[0].r[1].v}}", "W", lambda x: o("9".rjust(x + 1))),
    ("{0[1].i}{0.i}{0[1].l[-1]}", "W", lambda x: o("nmnmn")), ("{.l}", "W", lambda x: o("n" * 20)), ("{[1].l[2:5]}", "W", lambda x: o("nnn")), ("{$ {0[1].l} == {0[2].l} ? {0[1].l[1:][1:3]} : '-'}", "W", lambda x: o("nn")), ("{0.l[1:]:.{0.r.v}}", "W", lambda x: o("n" * x)),
    ("{0[0].s:>{0[1].r.v}}", "W", lambda x: o("nm".rjust(x + 1))), ("{[1].r.v[2]}", "W", "err"),
]
WRAP = [  # (declarations, argument, events with inner "{}")
    ("std::optional<Tk<S>> q(std::in_place, val());", "q", lambda x: [ev("tk", x)]),
    ("std::variant<int, Tk<S>> q(std::in_place_index<1>, val());", "q", lambda x: [ev("tk", x)]),
    ("std::pair<Tk<S>, int> q(std::piecewise_construct, std::make_tuple(val()), std::make_tuple(1));", "q", None),
    ("Tk<S> q[2]{Tk<S>(val()), Tk<S>(7)};", "q", lambda x: o("[") + [ev("tk", x)] + o(", ") + [ev("tk", 7)] + o("]")),
    ("std::array<Tk<S>, 2> q{Tk<S>(val()), Tk<S>(7)};", "q", lambda x: o("[") + [ev("tk", x)] + o(", ") + [ev("tk", 7)] + o("]")),
    ("std::array<Tk<S>, 2> q{Tk<S>(val()), Tk<S>(7)};", "papilio::join(q)", lambda x: [ev("tk", x)] + o(", ") + [ev("tk", 7)]),
]
STORE = [  # (name, statements, events)
    ("copy", "Arg a(papilio::independent, Tk<S>(val())); Arg b(a); fmt(\"{}{}\", b, a);", lambda x: [ev("tk", x)] * 2),
    ("move", "Arg a(papilio::independent, Tk<S>(val())); Arg b(std::move(a)); fmt(\"{}\", b);", lambda x: [ev("tk", x)]),
    ("assign", "Arg a(papilio::independent, Tk<S>(val())); Arg b(papilio::independent, Tk<S>(9)); b = std::move(a); fmt(\"{}\", b);", lambda x: [ev("tk", x)]),
    ("cassign", "Arg a(papilio::independent, Tk<S>(val())); Arg b(papilio::independent, Tk<S>(9)); b = a; fmt(\"{}{}\", b, a);", lambda x: [ev("tk", x)] * 2),
    ("self", "Arg a(papilio::independent, Tk<S>(val())); Arg& r = a; a = r; fmt(\"{}\", a);", lambda x: [ev("tk", x)]),
    ("swap", "Arg a(papilio::independent, Tk<S>(val())); Arg b(5); swap(a, b); fmt(\"{}{}\", a, b);", lambda x: o("5") + [ev("tk", x)]),
    ("swap2", "Arg a(papilio::independent, Tk<S>(val())); Arg b(papilio::independent, Tk<S>(9)); a.swap(b); fmt(\"{}{}\", a, b);", lambda x: [ev("tk", 9), ev("tk", x)]),
    ("over", "Arg a(papilio::independent, Tk<S>(val())); a = Arg(5); fmt(\"{}\", a);", lambda x: o("5")),
    ("dyn2", "Args d; d.emplace(Arg(papilio::independent, Tk<S>(val()))); for(int i = 0; i < 7; ++i) d.emplace(i); fmta(\"{0}{7}\", d);", lambda x: [ev("tk", x)] + o("6")),
    ("dyn3", "Args d; for(int i = 0; i < 6; ++i) d.emplace(i); d.emplace(Arg(papilio::independent, Tk<S>(val()))); Args e(std::move(d)); fmta(\"{5}{6}\", e);", lambda x: o("5") + [ev("tk", x)]),
    ("dyn4", "Args d; d.emplace(Arg(papilio::independent, Tk<S>(val()))); d.emplace(Arg(papilio::independent, Tk<S>(8))); fmta(\"{}{}\", d); d.clear(); d.emplace(Arg(papilio::independent, Tk<S>(9))); fmta(\"{}\", d);", lambda x: [ev("tk", x), ev("tk", 8), ev("tk", 9)]),
    ("strs", "Args d; { std::string t(20, 'n'); d.emplace(Arg(papilio::independent, t)); Arg u(papilio::independent, std::move(t)); Arg w(u); w = Arg(papilio::independent, std::string(17, 'm')); d.emplace(std::move(w)); d.emplace(u); fmta(\"{}{}{}\", d); }", lambda x: o("n" * 20 + "m" * 17 + "n" * 20)),
    ("fmtm", "Tk<S> t(val()); fmt(\"{}{k}\", t, papilio::arg(\"k\", t));", lambda x: [ev("tk", x)] * 2),
]
def results(full):
    """all went well, or a copy failed after some of the steps"""
    end = [ev("live", 0)]
    r = [("ok", full + [ev("ok")] + end)]
    return r
def accept(full, fails, err=False):
    end = [ev("live", 0)]
    r = [] if err else [("ok", full + [ev("ok")] + end)]
    if err: r += [("ok", full[:k] + [ev("error")] + end) for k in range(len(full) + 1)]
    if fails: r += [("ok", full[:k] + [ev("caught")] + end) for k in range(len(full) + 1)]
    return r
def make(S):
    r = []; sb = "true" if S else "false"
    PRE = "constexpr bool S = %s; live = 0; copies = 0; auto fmt = [](std::string_view f, const auto&... a) { papilio::vformat_to(ev_it{}, f, papilio::make_format_args<X>(a...)); }; auto fmta = [](std::string_view f, const auto& a) { papilio::vformat_to(ev_it{}, f, a); }; (void)fmt; (void)fmta; " % sb
    def add(name, body, ref, tag):
        V = {"x": (32, [3, 4, 5, 6])}
        if not S: V["t"] = (8, [0, 1, 2, 3])
        r.append(Scen("%s_%d" % (name, S), PRE + "TRY(%s) END;" % body, V, ref, "%s, %s" % (tag, "small objects" if S else "objects whose copies may fail")))
    for k, (f, kinds, evs) in enumerate(FMT):
        for kind in kinds:
            base = (lambda x, kind=kind: [ev("tk" if kind == "T" else "ow", x)])
            g = (lambda x, b=base, n=f.count("{"): b(x) * n) if evs is None else (lambda x: o("99999")) if evs == "err" else evs
            T = "%s<S>" % ("Tk" if kind == "T" else "Ow")
            err = evs == "err"
            if f == "{[1].r.v[2]}": g = lambda x: []
            for mode, decl, arg in (("lv", "%s q(val()); " % T, "q"), ("rv", "", "%s(val())" % T)):
                add("f%d%s_%s" % (k, kind, mode), '%sfmt("%s", %s, 9)' % (decl, f, arg), lambda e, g=g, err=err: accept(g(sx(e["x"], 32)), not S, err), "%s of %s" % (f, arg))
    for k, (decl, arg, evs) in enumerate(WRAP):
        if evs is None: evs = lambda x: o("(") + [ev("tk", x)] + o(", 1)")
        add("w%d" % k, '%s fmt("{}", %s)' % (decl, arg), lambda e, g=evs: accept(g(sx(e["x"], 32)), not S), "{} of %s" % decl)
    for nm, st, evs in STORE:
        err = evs == "err"
        add("s_" + nm, st, lambda e, g=(lambda x: [ev("tk", x)]) if err else evs, err=err: accept(g(sx(e["x"], 32)), not S, err), "stored arguments: " + nm)
    return r
RULES = [["std::use_facet<", "stop"]]
TEXT = "Abstract interpretation of %d calls and sequences of operations on stored arguments, with objects that know whether they are alive and whose copies may fail: every use by a formatter or accessor, every copy and every destruction checks that the object exists, the number of objects that are left is compared with the expected one, and the values used with the values given, for every outcome."
def run(c):
    sc = make(1) + make(0)
    t, res = scen.decide(c, "p09.cpp", HEAD, sc, rules=RULES, defs=["PAX_CHAR=char", "PAX_PRE="], cleanups=True, timeout=15)
    sf = safety.report(c, res)
    textcmp.summarize(c, [t], TEXT % len(sc), analysis_gaps=sf["undecided"][:20])
    c.require(t["points"] >= 200, "nothing compared")
