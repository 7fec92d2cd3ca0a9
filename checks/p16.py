"""P16: indices, slices and attributes select exactly the element that the documentation names, and nothing else."""
import scen, textcmp, safety
from scen import Scen
LEVEL = "other"
HEAD = r'''#include "interp.hpp"
#include <papilio/papilio.hpp>
#include <papilio/container.hpp>
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/tuple.hpp>
#include <papilio/formatter/vocabulary.hpp>
#include <papilio/accessor/tuple.hpp>
#include <papilio/accessor/vocabulary.hpp>
#include <papilio/accessor/ranges.hpp>
#include <papilio/accessor/chrono.hpp>
#include <array>
#include <map>
#include <optional>
#include <span>
#include <variant>
#include <vector>
namespace std {   // the tree functions of the compiled standard library, without rebalancing
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if(x->_M_right) { x = x->_M_right; while(x->_M_left) x = x->_M_left; return x; } auto* y = x->_M_parent; while(x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if(x->_M_left) { auto* y = x->_M_left; while(y->_M_right) y = y->_M_right; return y; } auto* y = x->_M_parent; while(x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if(left) { p->_M_left = x; if(p == &h) { h._M_parent = x; h._M_right = x; } else if(p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if(p == h._M_right) h._M_right = x; }
}
}
struct Val { int v; };                          // kept in place
struct Tk {                                     // referred to; knows whether it is alive
    const Tk* self; int v;
    Tk(int x) : self(this), v(x) {}
    Tk(const Tk& o) : self(this), v(o.v) { o.check(); }
    Tk& operator=(const Tk& o) { v = o.v; return *this; }
    ~Tk() { check(); self = nullptr; }
    void check() const { if(self != this) pax_event("dead"); }
};
namespace papilio {
template <> class formatter<Val, char> { public: template <class P> auto parse(P& ctx) { return ctx.begin(); } template <class F> auto format(const Val& p, F& ctx) const { pax_event("u", p.v); return ctx.out(); } };
template <> class formatter<Tk, char> { public: template <class P> auto parse(P& ctx) { return ctx.begin(); } template <class F> auto format(const Tk& p, F& ctx) const { p.check(); pax_event("u", p.v); return ctx.out(); } };
}
struct ev_it {
    using iterator_category = std::output_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void;
    ev_it& operator*() { return *this; } ev_it& operator++() { return *this; } ev_it operator++(int) { return *this; }
    ev_it& operator=(char c) { pax_event("o", (std::uint64_t)(unsigned char)c); return *this; }
};
using X = papilio::basic_format_context<ev_it, char>;
using Args = papilio::basic_dynamic_format_args<X>;
using Arg = papilio::basic_format_arg<X>;
static int pick(const char* nm, int lo, int hi) { int x = pax_u8(nm); pax_assume(x >= lo && x <= hi); for(int i = lo; i < hi; ++i) if(x == i) return i; return hi; }
static int val(const char* nm) { return (int)pax_u32(nm); }
// any index there is; small ones one by one
static papilio::ssize_t any(const char* nm) { papilio::ssize_t i = (papilio::ssize_t)pax_u64(nm); for(int k = -6; k <= 6; ++k) if(i == k) return k; return i; }
static papilio::ssize_t few(const char* nm) { papilio::ssize_t i = (papilio::ssize_t)pax_u64(nm); for(int k = -3; k <= 3; ++k) if(i == k) return k; return i; }
static void show(const Arg& r) { if(!r) { pax_event("null"); return; } Args d; d.emplace(r); papilio::vformat_to(ev_it{}, std::string_view("{}"), d); }
#define TRY(...) try { __VA_ARGS__; } catch(const papilio::format_error&) { pax_event("rejected"); } catch(const std::exception&) { pax_event("rejected"); }
#define NOW(v, n) v; for(int k = 0; k < n; ++k) v.push_back(E(e[k]));
'''
ev = lambda n, *a: (n, a, False)
def txt(s): return [ev("o", ord(c)) for c in s]
NULL = [ev("null")]
REJ = [ev("rejected")]
B32 = [0, 1, 5, 0xffffffff]
I64 = [(k & (2**64 - 1)) for k in list(range(-8, 9)) + [2**31, -2**31, 2**32 + 1, 257, -255, 2**63 - 1, -2**63, 4294967295, 128, -129]]
def s64(x): return x - 2**64 if x >> 63 else x
EL = "int e[4] = {val(\"x\"), 7, 8, 9}; "
ELV = lambda e: [e["x"], 7, 8, 9]
SEQ = {   # name -> (declaration of v with the first n of e, kind of element, has slices)
    "vector": ("std::vector<Val> v; for(int k = 0; k < n; ++k) v.push_back(Val{e[k]});", 1),
    "vectort": ("std::vector<Tk> v; v.reserve(4); for(int k = 0; k < n; ++k) v.push_back(Tk{e[k]});", 1),
    "span": ("Val b[4] = {{e[0]}, {e[1]}, {e[2]}, {e[3]}}; std::span<Val> v(b, (std::size_t)n);", 1),
    "small": ("papilio::small_vector<Val, 2> v; for(int k = 0; k < n; ++k) v.push_back(Val{e[k]});", 1),
    "fixed": ("papilio::fixed_vector<Val, 4> v; for(int k = 0; k < n; ++k) v.push_back(Val{e[k]});", 1),
}
TUP = {
    "tuple3": ("std::tuple<Val, Tk, Val> v(Val{e[0]}, Tk(e[1]), Val{e[2]});", 3), "tuple1": ("std::tuple<Tk> v{Tk(e[0])};", 1), "tuple0": ("std::tuple<> v;", 0),
    "pair": ("std::pair<Val, Tk> v(Val{e[0]}, Tk(e[1]));", 2), "tuple2": ("std::tuple<Tk, Val> v(Tk(e[0]), Val{e[1]});", 2), "cpair": ("papilio::compressed_pair<Val, Tk> v(Val{e[0]}, Tk(e[1]));", 2),
}
MAPS = {  # name -> (declaration, {key: value}, order)
    "int": ("std::map<int, Val> v; v[1] = Val{e[0]}; v[-2] = Val{7}; v[5] = Val{8};", {1: None, -2: 7, 5: 8}, 1),
    "tk": ("std::map<int, Tk> v; v.emplace(1, e[0]); v.emplace(-2, 7);", {1: None, -2: 7}, 1),
    "i8": ("std::map<signed char, Val> v; v[1] = Val{e[0]}; v[-2] = Val{7}; v[127] = Val{8};", {1: None, -2: 7, 127: 8}, 1),
    "u8": ("std::map<unsigned char, Val> v; v[1] = Val{e[0]}; v[255] = Val{7};", {1: None, 255: 7}, 1),
    "u32": ("std::map<unsigned, Val> v; v[1] = Val{e[0]}; v[4294967295u] = Val{7};", {1: None, 4294967295: 7}, 1),
    "long": ("std::map<long long, Val> v; v[1] = Val{e[0]}; v[-2] = Val{7};", {1: None, -2: 7}, 1),
    "great": ("std::map<int, Val, std::greater<int>> v; v[1] = Val{e[0]}; v[-2] = Val{7}; v[5] = Val{8};", {1: None, -2: 7, 5: 8}, -1),
    "flat": ("papilio::fixed_flat_map<int, Val, 4> v; v.insert_or_assign(1, Val{e[0]}); v.insert_or_assign(-2, Val{7}); v.insert_or_assign(5, Val{8});", {1: None, -2: 7, 5: 8}, 1),
    "flattk": ("papilio::fixed_flat_map<int, Tk, 4> v; v.insert_or_assign(1, Tk(e[0])); v.insert_or_assign(-2, Tk(7));", {1: None, -2: 7}, 1),
    "empty": ("std::map<int, Val> v;", {}, 1), "emptyg": ("std::map<int, Val, std::greater<>> v;", {}, -1),
}
SMAPS = {
    "str": ("std::map<std::string, Val> v; v[\"ab\"] = Val{e[0]}; v[\"b\"] = Val{7};", {"ab": None, "b": 7}),
    "strt": ("std::map<std::string, Tk, std::less<>> v; v.emplace(\"ab\", e[0]); v.emplace(\"b\", 7);", {"ab": None, "b": 7}),
    "flat": ("papilio::fixed_flat_map<std::string_view, Val, 4> v; v.insert_or_assign(\"ab\", Val{e[0]}); v.insert_or_assign(\"b\", Val{7});", {"ab": None, "b": 7}),
}
STRS = [("h\u00fcl", 'std::string_view("h\\xc3\\xbc" "l")'), ("abc", 'std::string_view("abc")'), ("", 'std::string_view("")'), ("\U0001F600x", 'std::string_view("\\xf0\\x9f\\x98\\x80x")')]
BADATTR = ["siz", "sizes", "Size", "length2", "firs", "x"]
def make():
    r = []
    X = {"x": (32, B32)}
    def add(name, body, V, ref, tag): r.append(Scen(name, EL + body if " e[" in " " + body or "(e[" in body or "{e[" in body else body, V, ref, tag))
    for nm, (decl, _) in SEQ.items():
        n = "int n = pick(\"n\", 0, 4); "
        el = lambda e, i: [ev("u", ELV(e)[i])]
        def ix(e):
            if e["n"] > 4: return None
            i = s64(e["i"]); j = i + e["n"] if i < 0 else i
            return [("ok", el(e, j) if 0 <= j < e["n"] else NULL)]
        add("ix_" + nm, "%s %s Arg a(v); papilio::ssize_t i = any(\"i\"); TRY(show(a.index(papilio::indexing_value(i))))" % (n, decl), {**X, "n": (8, range(5)), "i": (64, I64)}, ix, "index of " + nm)
        def sl(e):
            if e["n"] > 2 or e["h"] > 1: return None
            n, a, b = e["n"], s64(e["i"]), s64(e["j"])
            a = max(a + n, 0) if a < 0 else a
            b = n if e["h"] else b + n if b < 0 else min(b, n)
            if a < b and a < n:
                out = txt("[")
                for k in range(a, b): out += (txt(", ") if k > a else []) + el(e, k)
                return [("ok", out + txt("]"))]
            return [("ok", NULL), ("ok", txt("[]"))]
        add("sl_" + nm, "%s %s Arg a(v); papilio::ssize_t i = few(\"i\"); int h = pick(\"h\", 0, 1); papilio::index_range g(i); if(!h) g = papilio::index_range(i, few(\"j\")); TRY(show(a.index(papilio::indexing_value(g))))" % (n.replace("4", "2"), decl), {**X, "n": (8, range(3)), "h": (8, [0, 1]), "i": (64, [(k & (2**64 - 1)) for k in list(range(-7, 8)) + [-2**63, 2**62]]), "j": (64, [(k & (2**64 - 1)) for k in list(range(-7, 8)) + [-2**63, 2**62]])}, sl, "slice of " + nm)
        for at in ["size"] + BADATTR[:3]:
            add("at_%s_%s" % (nm, at), "%s %s Arg a(v); TRY(show(a.attribute(\"%s\")))" % (n, decl, at), {**X, "n": (8, range(5))}, lambda e, at=at: None if e["n"] > 4 else [("ok", txt(str(e["n"])) if at == "size" else REJ)], "attribute %s of %s" % (at, nm))
        add("st_" + nm, "%s %s Arg a(v); TRY(show(a.index(papilio::indexing_value(std::string_view(\"k\")))))" % (n, decl), {**X, "n": (8, range(5))}, lambda e: [("ok", REJ)], "name index of " + nm)
    VB = "int n = pick(\"n\", 0, 3); std::vector<bool> v; for(int k = 0; k < n; ++k) v.push_back(k == 1); "
    add("ix_vbool", VB + "Arg a(v); papilio::ssize_t i = any(\"i\"); TRY(show(a.index(papilio::indexing_value(i))))", {"n": (8, range(4)), "i": (64, I64)}, lambda e: None if e["n"] > 3 else [("ok", (lambda j: txt("true" if j == 1 else "false") if 0 <= j < e["n"] else NULL)(s64(e["i"]) + (e["n"] if s64(e["i"]) < 0 else 0)))], "index of vector<bool>")
    for nm, (decl, n) in TUP.items():
        add("ix_" + nm, "%s Arg a(v); papilio::ssize_t i = any(\"i\"); TRY(show(a.index(papilio::indexing_value(i))))" % decl, {**X, "i": (64, I64)}, lambda e, n=n: [("ok", (lambda j: [ev("u", ELV(e)[j])] if 0 <= j < n else NULL)(s64(e["i"]) + (n if s64(e["i"]) < 0 else 0)))], "index of " + nm)
        for at in ["size", "first", "second"] + BADATTR:
            def ref(e, at=at, n=n):
                if at == "size": return [("ok", txt(str(n)))]
                if n == 2 and at in ("first", "second"): return [("ok", [ev("u", ELV(e)[at == "second"])])]
                return [("ok", REJ)]
            add("at_%s_%s" % (nm, at), "%s Arg a(v); TRY(show(a.attribute(\"%s\")))" % (decl, at), X, ref, "attribute %s of %s" % (at, nm))
    for nm, (decl, m, order) in MAPS.items():
        V = lambda e, k, m=m: [ev("u", e["x"] if m[k] is None else m[k])]
        add("mix_" + nm, "%s Arg a(v); papilio::ssize_t i = any(\"i\"); for(long k : {127L, 255L, 4294967295L}) if(i == k) i = k; TRY(show(a.index(papilio::indexing_value(i))))" % decl, {**X, "i": (64, I64 + [127, 255, 256 + 127, 511])}, lambda e, m=m, V=V: [("ok", V(e, s64(e["i"])) if s64(e["i"]) in m else NULL)], "index of map " + nm)
        for at in ["size", "min", "max"] + BADATTR[:4]:
            def ref(e, at=at, m=m, V=V):
                if at == "size": return [("ok", txt(str(len(m))))]
                if at in ("min", "max"):
                    if nm2 == "flat" or nm2 == "flattk" or True: return [("ok", V(e, (min if at == "min" else max)(m)) if m else NULL)]
                return [("ok", REJ)]
            nm2 = nm
            add("mat_%s_%s" % (nm, at), "%s Arg a(v); TRY(show(a.attribute(\"%s\")))" % (decl, at), X, ref, "attribute %s of map %s" % (at, nm))
    for nm, (decl, m) in SMAPS.items():
        for k, key in enumerate(["ab", "b", "a", "abc", "", "c"]):
            add("sm_%s_%d" % (nm, k), "%s Arg a(v); TRY(show(a.index(papilio::indexing_value(std::string_view(\"%s\")))))" % (decl, key), X, lambda e, m=m, key=key: [("ok", [ev("u", e["x"] if m[key] is None else m[key])] if key in m else NULL)], "name index of map " + nm)
    for k, (s, lit) in enumerate(STRS):
        n = len(s)
        enc = lambda t: [ev("o", b) for b in t.encode()]
        add("six_%d" % k, "std::string_view v = %s; Arg a(v); papilio::ssize_t i = any(\"i\"); TRY(show(a.index(papilio::indexing_value(i))))" % lit, {"i": (64, I64)}, lambda e, s=s, n=n, enc=enc: [("ok", (lambda j: enc(s[j]) if 0 <= j < n else [ev("o", 0)])(s64(e["i"]) + (n if s64(e["i"]) < 0 else 0)))], "index of a string")
        def sl(e, s=s, n=n, enc=enc):
            if e["h"] > 1: return None
            a, b = s64(e["i"]), s64(e["j"])
            if a < -n or (not e["h"] and b < -n): return None
            return [("ok", enc(s[a:] if e["h"] else s[a:b]))]
        add("ssl_%d" % k, "std::string_view v = %s; Arg a(v); papilio::ssize_t i = any(\"i\"); int h = pick(\"h\", 0, 1); papilio::index_range g(i); if(!h) g = papilio::index_range(i, any(\"j\")); pax_assume(i < 7); pax_assume(h || g.second < 7); TRY(show(a.index(papilio::indexing_value(g))))" % lit, {"h": (8, [0, 1]), "i": (64, I64), "j": (64, I64)}, sl, "slice of a string")
        for at in ["size", "length"] + BADATTR[:4]:
            add("sat_%d_%s" % (k, at), "std::string_view v = %s; Arg a(v); TRY(show(a.attribute(\"%s\")))" % (lit, at), {}, lambda e, at=at, s=s: [("ok", txt(str(len(s.encode()))) if at == "size" else txt(str(len(s))) if at == "length" else REJ)], "attribute %s of a string" % at)
    for nm, decl, ats in [
        ("opt", "std::optional<Tk> v(Tk(val(\"x\")));", {"value": "u", "has_value": "true", "valu": None}), ("optv", "std::optional<Val> v(Val{val(\"x\")});", {"value": "u", "has_value": "true", "error": None}),
        ("nopt", "std::optional<Tk> v;", {"value": "null", "has_value": "false", "index": None}),
        ("var0", "std::variant<Tk, Val> v(Tk(val(\"x\")));", {"value": "u", "index": "0", "valu": None}), ("var1", "std::variant<Val, Tk> v(Tk(val(\"x\")));", {"value": "u", "index": "1", "has_value": None})]:
        for at, w in ats.items():
            add("va_%s_%s" % (nm, at), "%s Arg a(v); TRY(show(a.attribute(\"%s\")))" % (decl, at), X, lambda e, w=w: [("ok", REJ if w is None else NULL if w == "null" else [ev("u", e["x"])] if w == "u" else txt(w))], "attribute %s of %s" % (at, nm))
    for nm, decl, act in [("var0", "std::variant<Tk, Val, int> v(Tk(val(\"x\")));", 0), ("var1", "std::variant<int, Tk, Val> v(Tk(val(\"x\")));", 1)]:
        add("vi_" + nm, "%s Arg a(v); papilio::ssize_t i = any(\"i\"); TRY(show(a.index(papilio::indexing_value(i))))" % decl, {**X, "i": (64, I64)}, lambda e, act=act: [("ok", (lambda j: [ev("u", e["x"])] if j == act else NULL)(s64(e["i"]) + (3 if s64(e["i"]) < 0 else 0)))], "index of " + nm)
    TM = {"year": ("tm_year", 1900), "mday": ("tm_mday", 0), "hour": ("tm_hour", 0), "min": ("tm_min", 0), "sec": ("tm_sec", 0), "wday": ("tm_wday", 0), "yday": ("tm_yday", 0)}
    for at, (f, off) in TM.items():
        add("tm_" + at, "std::tm v{}; v.tm_year = 31; v.tm_mon = 2; v.tm_mday = 33; v.tm_hour = 34; v.tm_min = 35; v.tm_sec = 36; v.tm_wday = 37; v.tm_yday = 38; v.%s = pick(\"x\", 0, 9); Arg a(v); TRY(show(a.attribute(\"%s\")))" % (f, at), {"x": (8, range(10))}, lambda e, off=off: [("ok", txt(str(e["x"] + off)))] if e["x"] < 10 else None, "attribute %s of tm" % at)
    for at in ("is_dst", "isdst", "years"):
        add("tm_" + at, "std::tm v{}; v.tm_isdst = pick(\"x\", 0, 1); Arg a(v); TRY(show(a.attribute(\"%s\")))" % at, {"x": (8, [0, 1])}, lambda e, at=at: None if e["x"] > 1 else [("ok", txt("true" if e["x"] else "false") if at == "is_dst" else REJ)], "attribute %s of tm" % at)
    return r
RULES = [["std::use_facet<", "stop"]]
TEXT = "Abstract interpretation of %d accesses through the built-in accessors, for every 64-bit index, slices with every pair of small and extreme bounds, unknown element values and containers of 0 to 4 elements: strings, contiguous ranges, tuples and pairs, maps with integer and string keys, optional and variant values and calendar times. The element that is written afterwards (or null, or the error) is compared with the documentation's; elements know whether they are alive."
def run(c):
    sc = make()
    t, res = scen.decide(c, "p16.cpp", HEAD, sc, rules=RULES, defs=["PAX_CHAR=char", "PAX_PRE="], cleanups=True, timeout=20, dense=6)
    sf = safety.report(c, res)
    textcmp.summarize(c, [t], TEXT % len(sc), analysis_gaps=sf["undecided"][:20], time_limited=[r["root"] for r in res.values() if r["budget_exceeded"]][:20])
    c.require(t["points"] >= 200, "nothing compared")
