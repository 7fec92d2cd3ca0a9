"""P18: the containers keep exactly the elements that a standard container would, alive and once each, errors included."""
import scen, textcmp, safety
from scen import Scen
LEVEL = "other"
HEAD = r'''#include "interp.hpp"
#include <papilio/container.hpp>
#include <span>
#include <array>
#include <stdexcept>
static long live = 0;
static int copies = 0, bad = 0, limit = 0;
static void may_throw() { if(copies++ == limit) throw 1; }
static int pick(const char* nm, int lo, int hi) { int x = pax_u8(nm); pax_assume(x >= lo && x <= hi); for(int i = lo; i < hi; ++i) if(x == i) return i; return hi; }
// M: 0: plain; 1: moves do not fail, copies may; 2: both may fail
template <int M> struct Tk {
    const Tk* self; int v;
    Tk() : self(this), v(50) { ++live; }
    Tk(int x) : self(this), v(x) { ++live; }
    Tk(int x, int y) : self(this), v(x + y) { ++live; }
    Tk(const Tk& o) : self(nullptr), v(o.v) { o.check(); may_throw(); self = this; ++live; }
    Tk(Tk&& o) noexcept(M == 1) : self(nullptr), v(o.v) { o.check(); if(M == 2) may_throw(); self = this; o.v = -77; ++live; }
    Tk& operator=(const Tk& o) { check(); o.check(); may_throw(); v = o.v; return *this; }
    Tk& operator=(Tk&& o) noexcept(M == 1) { check(); o.check(); if(M == 2) may_throw(); if(this != &o) { v = o.v; o.v = -77; } return *this; }
    ~Tk() { check(); self = nullptr; --live; }
    void check() const { if(self != this) pax_event("dead"); }
};
template <> struct Tk<0> { int v; Tk() : v(50) {} Tk(int x) : v(x) {} Tk(int x, int y) : v(x + y) {} void check() const {} };
template <class V> static void dump(const V& v)
{
    pax_event("n", (std::uint64_t)v.size());
    for(auto it = v.begin(); it != v.end(); ++it) { it->check(); pax_event("e", it->v); }
    if(v.size() > v.capacity() || v.empty() != (v.size() == 0)) pax_event("bad");
}
template <class V> static void fill(V& v, int n, int base) { for(int i = 0; i < n; ++i) v.emplace_back(base + i); }
template <class V> static void dumpsv(const V& v) { dump(v); if(v.dynamic_allocated() != (v.capacity() != V::static_capacity()) || v.capacity() < V::static_capacity()) pax_event("bad"); }
template <class V> static void dumpm(const V& v) { pax_event("n", (std::uint64_t)v.size()); for(auto& p : v) { p.second.check(); pax_event("kv", p.first, p.second.v); } }
template <class V> static void dumpd(const V& v) { dumpm(v); }
// an input range whose size is not known
template <class O> struct In {
    struct it { using value_type = O; using difference_type = std::ptrdiff_t; int i; O operator*() const { return O(60 + i); } it& operator++() { ++i; return *this; } it operator++(int) { it t = *this; ++i; return t; } };
    struct end_t { int n; friend bool operator==(const it& a, const end_t& b) { return a.i == b.n; } };
    int n; it begin() const { return it{0}; } end_t end() const { return end_t{n}; }
};
struct Dl { void operator()(int* p) const { pax_event("del", *p); delete p; } };
struct Da { void operator()(int* p) const { pax_event("dela", *p); delete[] p; } };
struct Ds { int id = 0; void operator()(int* p) const { pax_event("del", *p, id); delete p; } };
#define TRY(...) try { __VA_ARGS__; pax_event("fine"); } catch(int) { pax_event("caught"); } catch(const std::out_of_range&) { pax_event("range"); } catch(const std::length_error&) { pax_event("length"); } catch(...) { pax_event("error"); }
'''
ev = lambda n, *a: (n, a, False)
def dump(l): return [ev("n", len(l))] + [ev("e", x & (2**64 - 1) if 0 else x) for x in l]
class Out(Exception): pass
class Len(Exception): pass
def rng(n, b): return [b + i for i in range(n)]
# operations: name -> (C++, function(list, env) -> list [, events]); the names of unknowns: p (position), q, m (count), x (value)
def ins(l, p, x): return l[:p] + [x] + l[p:]
SV = {
    "push": ("const O c(41); v.push_back(c); c.check();", lambda l, e: l + [41]),
    "pushm": ("v.push_back(O(41));", lambda l, e: l + [41]),
    "emplace": ("auto& r = v.emplace_back(40, 1); pax_event(\"r\", r.v);", lambda l, e: (l + [41], [ev("r", 41)])),
    "alias": ("int q = Q; if(q < n) { v.push_back(v[q]); }", lambda l, e: l + [l[e["q"]]] if e["q"] < len(l) else l),
    "aliasm": ("if(n) { auto& r = v.emplace_back(std::move(v[0])); pax_event(\"r\", r.v); v[0] = O(7); }", lambda l, e: ([7] + l[1:] + [l[0]], [ev("r", l[0])]) if l else l),
    "insert": ("int p = P; const O c(41); auto it = v.insert(v.begin() + p, c); pax_event(\"r\", (std::uint64_t)(it - v.begin()));", lambda l, e: (ins(l, e["p"], 41), [ev("r", e["p"])])),
    "insertm": ("int p = P; auto it = v.insert(v.begin() + p, O(41)); pax_event(\"r\", (std::uint64_t)(it - v.begin()));", lambda l, e: (ins(l, e["p"], 41), [ev("r", e["p"])])),
    "emplat": ("int p = P; auto it = v.emplace(v.cbegin() + p, 40, 1); pax_event(\"r\", (std::uint64_t)(it - v.begin()));", lambda l, e: (ins(l, e["p"], 41), [ev("r", e["p"])])),
    "insal": ("int p = P; int q = Q; if(q < n) v.insert(v.begin() + p, v[q]);", lambda l, e: ins(l, e["p"], l[e["q"]]) if e["q"] < len(l) else l),
    "pop": ("if(n) v.pop_back();", lambda l, e: l[:-1]),
    "clear": ("v.clear();", lambda l, e: []),
    "at": ("int q = Q; pax_event(\"r\", v.at(q).v);", lambda l, e: (l, [ev("r", l[e["q"]])]) if e["q"] < len(l) else Out),
    "atc": ("int q = Q; const auto& w = v; pax_event(\"r\", w.at(q).v);", lambda l, e: (l, [ev("r", l[e["q"]])]) if e["q"] < len(l) else Out),
    "ends": ("if(n) { const auto& w = v; pax_event(\"r\", v.front().v, v.back().v); pax_event(\"r\", w.front().v, w.back().v); pax_event(\"r\", w.begin()->v, (w.end() - 1)->v); }", lambda l, e: (l, [ev("r", l[0], l[-1])] * 3 if l else [])),
}
SVO = {
    "rev": ("for(auto it = v.rbegin(); it != v.rend(); ++it) pax_event(\"r\", it->v); const auto& w = v; for(auto it = w.crbegin(); it != w.crend(); ++it) pax_event(\"r\", it->v);", lambda l, e: (l, [ev("r", x) for x in l[::-1]] * 2)),
    "append": ("int m = MM; O a[3] = {O(60), O(61), O(62)}; v.append_range(std::span<const O>(a, (std::size_t)m));", lambda l, e: l + rng(e["m"], 60)),
    "appendin": ("int m = MM; v.append_range(In<O>{m});", lambda l, e: l + rng(e["m"], 60)),
    "assign": ("int m = MM; O a[3] = {O(60), O(61), O(62)}; v.assign(a, a + m);", lambda l, e: rng(e["m"], 60)),
    "assignin": ("int m = MM; v.assign_range(In<O>{m});", lambda l, e: rng(e["m"], 60)),
    "assignil": ("v.assign({O(60), O(61), O(62)});", lambda l, e: rng(3, 60)),
    "resize": ("int m = MM; v.resize((std::size_t)m, O(41));", lambda l, e: (l + [41] * 9)[:max(e["m"], 0)] if e["m"] >= len(l) else l[:e["m"]]),
    "resizeal": ("int m = MM; if(n) v.resize((std::size_t)m, v[0]);", lambda l, e: (l + [l[0]] * 9)[:e["m"]] if l else l),
    "resized": ("int m = MM; v.resize((std::size_t)m);", lambda l, e: (l + [50] * 9)[:e["m"]]),
    "reserve": ("int m = MM; v.reserve((std::size_t)m); if(v.capacity() < (std::size_t)m) pax_event(\"bad\");", lambda l, e: l),
    "reserve9": ("v.reserve(9); if(v.capacity() < 9) pax_event(\"bad\"); auto* d = v.data(); for(int i = n; i < 9; ++i) v.emplace_back(i); if(d != v.data()) pax_event(\"bad\");", lambda l, e: l + list(range(len(l), 9))),
    "shrink": ("v.shrink_to_fit();", lambda l, e: l),
    "shrink2": ("v.reserve(7); v.shrink_to_fit();", lambda l, e: l),
    "copy": ("V w(v); dumpsv(w); w.emplace_back(9); dumpsv(w);", lambda l, e: (l, dump(l) + dump(l + [9]))),
    "move": ("V w(std::move(v)); dumpsv(w); w.emplace_back(9); dumpsv(w); v.clear(); dumpsv(v); v.emplace_back(8);", lambda l, e: ([8], dump(l) + dump(l + [9]) + dump([]))),
    "cassign": ("V w; fill(w, MM, 70); w = v; dumpsv(w); w.emplace_back(9); dumpsv(w);", lambda l, e: (l, dump(l) + dump(l + [9]))),
    "massign": ("V w; fill(w, MM, 70); w = std::move(v); dumpsv(w); w.emplace_back(9); dumpsv(w); v.clear(); v.emplace_back(8);", lambda l, e: ([8], dump(l) + dump(l + [9]))),
    "self": ("V& r = v; v = r;", lambda l, e: l),
    "swap": ("V w; fill(w, MM, 70); w.swap(v); dumpsv(v); dumpsv(w); w.emplace_back(9); dumpsv(w);", lambda l, e: (rng(e["m"], 70), dump(rng(e["m"], 70)) + dump(l) + dump(l + [9]))),
    "swapf": ("V w; fill(w, MM, 70); using std::swap; swap(w, v); dumpsv(v); dumpsv(w); v.clear(); dumpsv(v); swap(v, w); dumpsv(w);", lambda l, e: (l, dump(rng(e["m"], 70)) + dump(l) + dump([]) + dump([]))),
    "range": ("O a[3] = {O(60), O(61), O(62)}; V w(a, a + MM); dumpsv(w); V u{O(80), O(81), O(82)}; dumpsv(u);", lambda l, e: (l, dump(rng(e["m"], 60)) + dump(rng(3, 80)))),
    "many": ("for(int i = 0; i < 6; ++i) { v.emplace_back(20 + i); dumpsv(v); } v.shrink_to_fit(); dumpsv(v); while(v.size() > 1) v.pop_back(); v.shrink_to_fit();", lambda l, e: ((l + [20])[:1], sum([dump(l + rng(i + 1, 20)) for i in range(6)], []) + dump(l + rng(6, 20)))),
}
SVO["append_il"] = ("v.append_range(std::array<O, 2>{O(60), O(61)});", lambda l, e: l + [60, 61])
FV = {k: v for k, v in SV.items()}
FVO = {
    "copy": ("V w(v); dump(w); if(n < 3) { w.emplace_back(9); dump(w); }", lambda l, e: (l, dump(l) + (dump(l + [9]) if len(l) < 3 else []))),
    "move": ("V w(std::move(v)); dump(w); v.clear(); dump(v); v.emplace_back(8);", lambda l, e: ([8], dump(l) + dump([]))),
    "count": ("int m = MM; V w((std::size_t)m, O(41)); dump(w);", lambda l, e: (l, dump([41] * e["m"])) if e["m"] <= 3 else Len),
}
def vec(kind, name, op, M):
    code, f = op
    small = kind == "sv"
    D = "dumpsv" if small else "dump"
    nmax = 4 if small else 3
    V = {"n": (8, list(range(nmax + 1)))}
    n = "pick(\"n\", 0, %d)" % nmax
    if small: V["g"] = (8, [0, 1])
    if "P;" in code: V["p"] = (8, list(range(nmax + 1)))
    if "Q;" in code: V["q"] = (8, list(range(nmax + 1)))
    if "MM" in code: V["m"] = (8, [0, 1, 2, 3, 4] if kind == "fv" else [0, 1, 2, 3])
    code = code.replace("P;", "pick(\"p\", 0, n);").replace("Q;", "pick(\"q\", 0, %d);" % nmax).replace("MM", "pick(\"m\", 0, %d)" % (4 if kind == "fv" else 3))
    pre = "live = 0; copies = 0; limit = 99; bad = 0; using O = Tk<%d>; using V = papilio::%s; " % (M, "small_vector<O, 2>" if small else "fixed_vector<O, 3>")
    lim = ""
    if M:
        V["t"] = (8, [0, 1, 2, 3, 99]); lim = "copies = 0; { int t = pax_u8(\"t\"); pax_assume(t < 4 || t == 99); limit = t; } "
    body = pre + "{ V v; int n = %s; %sfill(v, n, 10); %s TRY(%s) copies = 0; limit = 99; if(M0) %s(v); } pax_event(\"live\", (std::uint64_t)live);" % (n, "if(pick(\"g\", 0, 1)) v.reserve(5); " if small else "", lim, code, D)
    # after an error the contents are not specified, but there are such, and they are alive
    body = body.replace("if(M0) %s(v);" % D, "if(ok) %s(v); else { for(auto& i : v) i.check(); v.clear(); v.emplace_back(3); }" % D).replace("pax_event(\"fine\")", "pax_event(\"fine\")")
    body = body.replace("TRY(%s)" % code, "bool ok = false; TRY(%s ok = true)" % code)
    def ref(e):
        l = rng(e["n"], 10)
        r = []
        try: z = f(l, e)
        except IndexError: return None
        end = [ev("live", 0)]
        if z is Out: w = [ev("range")] + end
        elif z is Len: w = [ev("length")] + end
        else:
            l2, evs = z if isinstance(z, tuple) else (z, [])
            if not small and len(l2) > 3: w = [ev("length")] + end; evs = []
            else: w = evs + [ev("fine")] + dump(l2) + end
        r.append(("ok", w))
        if M and e["t"] < 4 and z not in (Out,):
            evs = z[1] if isinstance(z, tuple) else []
            r += [("ok", evs[:k] + [ev("caught")] + end) for k in range(len(evs) + 1)]
        return r
    def ref2(e):
        if e["n"] > nmax or e.get("g", 0) > 1 or e.get("p", 0) > e["n"] or e.get("q", 0) > nmax or e.get("m", 0) > (4 if kind == "fv" else 3) or ("t" in e and 4 <= e["t"] != 99): return None
        return ref(e)
    return Scen("%s_%s_%d" % (kind, name, M), body, V, ref2, "%s, %s" % ("small_vector" if small else "fixed_vector", name))

def srt(d): return [ev("n", len(d))] + [ev("kv", k, d[k]) for k in sorted(d)]
MAP = {  # operations on a map that holds some keys of 0..3; k: the key
    "ioa": ("auto p = m.insert_or_assign(k, O(41)); pax_event(\"r\", p.first->first, p.first->second.v, (std::uint64_t)p.second);", lambda d, k: ({**d, k: 41}, [ev("r", k, 41, int(k not in d))])),
    "ioac": ("const O c(41); auto p = m.insert_or_assign(k, c); c.check(); pax_event(\"r\", p.first->first, p.first->second.v, (std::uint64_t)p.second);", lambda d, k: ({**d, k: 41}, [ev("r", k, 41, int(k not in d))])),
    "try": ("auto p = m.try_emplace(k, 41); pax_event(\"r\", p.first->first, p.first->second.v, (std::uint64_t)p.second);", lambda d, k: ({k: 41, **d}, [ev("r", k, d.get(k, 41), int(k not in d))])),
    "alias": ("if(m.size() && m.size() < 3) m.insert_or_assign(k, m.begin()->second);", lambda d, k: ({**d, k: d[min(d)]}, []) if 0 < len(d) < 3 else (d, [])),
    "at": ("pax_event(\"r\", m.at(k).v); m.at(k) = O(41);", lambda d, k: ({**d, k: 41}, [ev("r", d[k])]) if k in d else Out),
    "atc": ("const auto& w = m; pax_event(\"r\", w.at(k).v);", lambda d, k: (d, [ev("r", d[k])]) if k in d else Out),
    "find": ("const auto& w = m; auto a = m.find(k); auto b = w.find(k); pax_event(\"r\", (std::uint64_t)(a - m.begin()), (std::uint64_t)(b - w.begin()), (std::uint64_t)m.contains(k), (std::uint64_t)w.contains((short)k));",
             lambda d, k: (d, [ev("r", *[sorted(d).index(k) if k in d else len(d)] * 2, *[int(k in d)] * 2)])),
    "lower": ("const auto& w = m; pax_event(\"r\", (std::uint64_t)(m.lower_bound(k) - m.begin()), (std::uint64_t)(w.lower_bound(k) - w.begin()));", lambda d, k: (d, [ev("r", *[len([x for x in d if x < k])] * 2)])),
    "copy": ("V w(m); dumpm(w); m.insert_or_assign(k, O(41)); dumpm(w);", lambda d, k: ({**d, k: 41}, srt(d) * 2)),
    "move": ("V w(std::move(m)); dumpm(w); w.insert_or_assign(k, O(41)); dumpm(w); stop = true;", lambda d, k: ({**d, k: 41}, srt(d) + srt({**d, k: 41}))),
}
def mp(name, op, M, desc):
    code, f = op
    V = {"a": (8, list(range(4))), "b": (8, list(range(4))), "c": (8, list(range(5))), "k": (8, list(range(5)))}
    lim = ""
    if M: V["t"] = (8, [0, 1, 2, 3, 99]); lim = "copies = 0; { int t = pax_u8(\"t\"); pax_assume(t < 4 || t == 99); limit = t; } "
    body = "live = 0; copies = 0; limit = 99; bad = 0; using O = Tk<%d>; using V = papilio::fixed_flat_map<int, O, 3%s>; { V m; bool stop = false; m.insert_or_assign(pick(\"a\", 0, 3), O(10)); m.try_emplace(pick(\"b\", 0, 3), 11); int c = pick(\"c\", 0, 4); if(c < 4) m.insert_or_assign(c, O(12)); int k = pick(\"k\", 0, 4); %s bool ok = false; TRY(%s ok = true) copies = 0; limit = 99; if(ok) { if(!stop) dumpm(m); } else for(auto& i : m) i.second.check(); } pax_event(\"live\", (std::uint64_t)live);" % (M, ", std::greater<>" if desc else "", lim, code)
    if desc: body = body.replace("pick(\"a\", 0, 3)", "-pick(\"a\", 0, 3)").replace("pick(\"b\", 0, 3)", "-pick(\"b\", 0, 3)").replace("m.insert_or_assign(c,", "m.insert_or_assign(-c,").replace("int k = pick(\"k\", 0, 4);", "int k = -pick(\"k\", 0, 4);").replace("dumpm", "dumpd")
    def ref(e):
        if e["a"] > 3 or e["b"] > 3 or e["c"] > 4 or e["k"] > 4 or ("t" in e and 4 <= e["t"] != 99): return None
        d = {e["a"]: 10}; d.setdefault(e["b"], 11)
        if e["c"] < 4: d[e["c"]] = 12
        z = f(d, e["k"]); end = [ev("live", 0)]; evs = []
        if z is Out: w = [ev("range")]
        else:
            d2, evs = z
            if len(d2) > 3: evs = srt(d) if name == "copy" else srt(d) if name == "move" else []; w = evs + [ev("length")]
            else: w = evs + [ev("fine")] + (srt(d2) if name != "move" else [])
        if desc: fix = lambda l: [(n, tuple(-x & 0xffffffff if n == "kv" and i == 0 or n == "r" and name in ("ioa", "ioac", "try") and i == 0 else x for i, x in enumerate(a)), o) for n, a, o in l]
        else: fix = lambda l: l
        w, evs = fix(w), fix(evs)
        r = [("ok", w + end)]
        if M and e["t"] < 4: r += [("ok", evs[:k] + [ev("caught")] + end) for k in range(len(evs) + 1)]
        return r
    return Scen("map_%s_%d%s" % (name, M, "d" if desc else ""), body, V, ref, "fixed_flat_map, %s" % name)
# owning and other pointers: (statements, events)
DEL = lambda x: ev("del", x)
PTR = {
    "own": ("{ P p(papilio::independent, mk()); pax_event(\"r\", *p, (std::uint64_t)p.has_ownership()); }", lambda x: [ev("r", x, 1), DEL(x)]),
    "ref": ("int i = x; { P p(&i, false); pax_event(\"r\", *p, (std::uint64_t)p.has_ownership()); *p = 3; } pax_event(\"r\", i, 0);", lambda x: [ev("r", x, 0), ev("r", 3, 0)]),
    "ref2": ("int i = x; { auto p = P::pointer_to(i); pax_event(\"r\", *p, (std::uint64_t)p.has_ownership()); }", lambda x: [ev("r", x, 0)]),
    "null": ("P p; P q(nullptr); pax_event(\"r\", (std::uint64_t)(bool)p, (std::uint64_t)(p == nullptr && q == p && nullptr == q)); p.reset(); p.reset(nullptr); p.reset(nullptr, true); pax_event(\"r\", (std::uint64_t)p.has_ownership(), 0);", lambda x: [ev("r", 0, 1), ev("r", 0, 0)]),
    "copy": ("{ P p(papilio::independent, mk()); { P q(p); pax_event(\"r\", *q, (std::uint64_t)q.has_ownership()); } pax_event(\"r\", *p, (std::uint64_t)p.has_ownership()); }", lambda x: [ev("r", x, 0), ev("r", x, 1), DEL(x)]),
    "move": ("{ P p(papilio::independent, mk()); P q(std::move(p)); pax_event(\"r\", *q, (std::uint64_t)q.has_ownership()); pax_event(\"r\", (std::uint64_t)(bool)p, (std::uint64_t)p.has_ownership()); }", lambda x: [ev("r", x, 1), ev("r", 0, 0), DEL(x)]),
    "moveref": ("int i = x; { P p(&i, false); P q(std::move(p)); pax_event(\"r\", *q, (std::uint64_t)q.has_ownership()); }", lambda x: [ev("r", x, 0)]),
    "cassign": ("{ P p(papilio::independent, mk()); { P q(papilio::independent, new int(7)); q = p; pax_event(\"r\", *q, (std::uint64_t)q.has_ownership()); } pax_event(\"r\", *p, (std::uint64_t)p.has_ownership()); }", lambda x: [DEL(7), ev("r", x, 0), ev("r", x, 1), DEL(x)]),
    "self": ("{ P p(papilio::independent, mk()); P& r = p; p = r; pax_event(\"r\", *p, (std::uint64_t)p.has_ownership()); }", lambda x: [ev("r", x, 1), DEL(x)]),
    "massign": ("{ P p; { P q(papilio::independent, mk()); p = std::move(q); } pax_event(\"r\", *p, (std::uint64_t)p.has_ownership()); P r(papilio::independent, new int(7)); r = std::move(p); pax_event(\"r\", *r, (std::uint64_t)(bool)p); }", lambda x: [ev("r", x, 1), DEL(7), ev("r", x, 0), DEL(x)]),
    "reset": ("{ P p(papilio::independent, mk()); p.reset(papilio::independent, new int(7)); pax_event(\"r\", *p, (std::uint64_t)p.has_ownership()); int i = 9; p.reset(&i, false); pax_event(\"r\", *p, (std::uint64_t)p.has_ownership()); }", lambda x: [DEL(x), ev("r", 7, 1), DEL(7), ev("r", 9, 0)]),
    "release": ("P p(papilio::independent, mk()); int* r = p.release(); pax_event(\"r\", *r, (std::uint64_t)(p.has_ownership() || p)); delete r;", lambda x: [ev("r", x, 0)]),
    "swap": ("int i = 9; { P p(papilio::independent, mk()); P q(&i, false); p.swap(q); pax_event(\"r\", *p, (std::uint64_t)p.has_ownership()); pax_event(\"r\", *q, (std::uint64_t)q.has_ownership()); }", lambda x: [ev("r", 9, 0), ev("r", x, 1), DEL(x)]),
    "uptr": ("{ std::unique_ptr<int, Dl> u(mk()); P p(std::move(u)); pax_event(\"r\", *p, (std::uint64_t)(p.has_ownership() && !u)); std::unique_ptr<int, Dl> w(new int(7)); p.reset(std::move(w)); pax_event(\"r\", *p, (std::uint64_t)(p.has_ownership() && !w)); std::unique_ptr<int, Dl> z; p.reset(std::move(z)); pax_event(\"r\", (std::uint64_t)(bool)p, (std::uint64_t)p.has_ownership()); P y(std::move(z)); pax_event(\"r\", (std::uint64_t)(bool)y, (std::uint64_t)y.has_ownership()); }", lambda x: [ev("r", x, 1), DEL(x), ev("r", 7, 1), DEL(7), ev("r", 0, 0), ev("r", 0, 0)]),
}
def ptr(name, op):
    return Scen("ptr_" + name, "using P = papilio::optional_unique_ptr<int, Dl>; int x = (int)pax_u32(\"x\"); auto mk = [x] { return new int(x); }; " + op[0], {"x": (32, [0, 1, 0xffffffff])}, lambda e: [("ok", [(n, tuple(a if a == e["x"] else a for a in t), o) for n, t, o in op[1](e["x"])])], "optional_unique_ptr, " + name)
ARR = {   # arrays
    "own": ("{ P p(mk(), true); pax_event(\"r\", p[0], p[1]); }", lambda x: [ev("r", x, 7), ev("dela", x)]),
    "copy": ("{ P p(mk(), true); { P q(p); pax_event(\"r\", q[0], (std::uint64_t)q.has_ownership()); } pax_event(\"end\"); }", lambda x: [ev("r", x, 0), ev("end"), ev("dela", x)]),
    "move": ("{ P p(mk(), true); P q(std::move(p)); pax_event(\"r\", q[0], (std::uint64_t)q.has_ownership()); P r; r = std::move(q); pax_event(\"r\", r[0], (std::uint64_t)(bool)q); q = r; pax_event(\"r\", q[1], (std::uint64_t)q.has_ownership()); }", lambda x: [ev("r", x, 1), ev("r", x, 0), ev("r", 7, 0), ev("dela", x)]),
    "swap": ("int a[2] = {9, 8}; { P p(mk(), true); P q(a, false); p.swap(q); pax_event(\"r\", p[0], (std::uint64_t)p.has_ownership()); pax_event(\"r\", q[0], (std::uint64_t)q.has_ownership()); }", lambda x: [ev("r", 9, 0), ev("r", x, 1), ev("dela", x)]),
    "uptr": ("std::unique_ptr<int[], Da> u(mk()); { P p(std::move(u)); pax_event(\"r\", p[0], (std::uint64_t)(p.has_ownership() && !u)); std::unique_ptr<int[], Da> w(mk()); p.reset(std::move(w)); pax_event(\"r\", p[1], (std::uint64_t)(p.has_ownership() && !w)); P y(std::move(w)); pax_event(\"r\", (std::uint64_t)(bool)y, (std::uint64_t)y.has_ownership()); }", lambda x: [ev("r", x, 1), ev("dela", x), ev("r", 7, 1), ev("r", 0, 0), ev("dela", x)]),
    "release": ("P p(mk(), true); int* r = p.release(); pax_event(\"r\", r[0], (std::uint64_t)(p.has_ownership() || p)); delete[] r; p.reset(mk(), true); p.reset(); pax_event(\"end\");", lambda x: [ev("r", x, 0), ev("dela", x), ev("end")]),
    "make": ("auto a = papilio::make_optional_unique<int[]>(3); pax_event(\"r\", a[2], (std::uint64_t)a.has_ownership()); auto b = papilio::make_optional_unique<int>(x); pax_event(\"r\", *b, (std::uint64_t)b.has_ownership());", lambda x: [ev("r", 0, 1), ev("r", x, 1)]),
}
def arr(name, op):
    return Scen("arr_" + name, "using P = papilio::optional_unique_ptr<int[], Da>; int x = (int)pax_u32(\"x\"); auto mk = [x] { return new int[2]{x, 7}; }; " + op[0], {"x": (32, [0, 1, 0xffffffff])}, lambda e: [("ok", op[1](e["x"]))], "optional_unique_ptr of an array, " + name)
STATE = {   # deleters with a state stay with the object
    "move": ("P p(papilio::independent, new int(5)); p.get_deleter().id = x; P q(std::move(p));", lambda x: [ev("del", 5, x)]),
    "swap": ("P p(papilio::independent, new int(5)); p.get_deleter().id = x; { P q; q.swap(p); } pax_event(\"end\");", lambda x: [ev("del", 5, x), ev("end")]),
    "uptr": ("std::unique_ptr<int, Ds> u(new int(5), Ds{x}); P p(std::move(u));", lambda x: [ev("del", 5, x)]),
    "ureset": ("std::unique_ptr<int, Ds> u(new int(5), Ds{x}); P p(papilio::independent, new int(6)); p.reset(std::move(u));", lambda x: [ev("del", 6, 0), ev("del", 5, x)]),
}
def state(name, op):
    return Scen("del_" + name, "using P = papilio::optional_unique_ptr<int, Ds>; int x = (int)pax_u32(\"x\"); " + op[0], {"x": (32, [0, 1, 0xffffffff])}, lambda e: [("ok", op[1](e["x"]))], "optional_unique_ptr, deleter, " + name)
def make():
    r = []
    for M in (0, 1, 2):
        for k, o in list(SV.items()) + list(SVO.items()): r.append(vec("sv", k, o, M))
        for k, o in list(FV.items()) + list(FVO.items()): r.append(vec("fv", k, o, M))
        for k, o in MAP.items(): r.append(mp(k, o, M, False))
    for k, o in MAP.items(): r.append(mp(k, o, 1, True))
    for k, o in PTR.items(): r.append(ptr(k, o))
    for k, o in ARR.items(): r.append(arr(k, o))
    for k, o in STATE.items(): r.append(state(k, o))
    return r
RULES = []
def run(c):
    sc = make()
    t, res = scen.decide(c, "p18.cpp", HEAD, sc, rules=RULES, defs=["PAX_CHAR=char", "PAX_PRE="], cleanups=True, timeout=20, dense=6)
    sf = safety.report(c, res)
    textcmp.summarize(c, [t], "Abstract interpretation of %d operations on the containers and owning pointers with unknown positions, counts, values and points of failure; the elements know whether they are alive and are counted. Contents, events (construction, destruction, errors) and memory are compared with the operation of a standard container on the same elements." % len(sc), analysis_gaps=sf["undecided"][:20])
    c.require(t["points"] >= 200, "nothing compared")
