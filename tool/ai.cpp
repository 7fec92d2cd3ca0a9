// Trace-partitioning abstract interpreter over LLVM IR (command `ai`).
//
// Values: bit-slice linear forms over symbols (terms.h), pointers as object + linear offset.
// Domains: per-term unions of intervals; objects with cells; event traces.
// Loops: iterated while their course is decided by constants or for a few peeled rounds, then
// joined and widened to a fixpoint.  Nothing is executed and no solver is used.
#include <numeric>
#include "papan_common.h"
#include "terms.h"
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <pthread.h>
#include <chrono>

namespace pap {
namespace {
Pool P;

struct Val {
    enum K : uint8_t { U, I, Ptr, A } k = U;
    Term t = 0; int obj = 0; std::shared_ptr<std::vector<Val>> a;
    static Val i(Term t) { Val v; v.k = I; v.t = t; return v; }
    static Val p(int o, Term off) { Val v; v.k = Ptr; v.obj = o; v.t = off; return v; }
    static Val agg(std::vector<Val> x) { Val v; v.k = A; v.a = std::make_shared<std::vector<Val>>(std::move(x)); return v; }
    bool operator==(const Val& o) const {
        if(k != o.k) return false;
        if(k == U) return true;
        if(k == I) return t == o.t;
        if(k == Ptr) return obj == o.obj && t == o.t;
        return *a == *o.a;
    }
};
struct Cell { unsigned size; Val v; bool operator==(const Cell& o) const { return size == o.size && v == o.v; } };
enum class Def : uint8_t { Undef, Zero, Lazy, Const };
struct Obj { // state-dependent part
    std::map<i64, Cell> cells; Def def = Def::Undef; int epoch = 0; bool freed = false, frozen = false;
    bool operator==(const Obj& o) const { return cells == o.cells && def == o.def && epoch == o.epoch && freed == o.freed && frozen == o.frozen; }
};
struct ObjInfo { // static part
    std::string name; std::string kind; Term size = 0; const GlobalValue* g = nullptr; bool buffer = false; unsigned elem = 1; bool maybeNull = false;
};
std::vector<ObjInfo> objs(1);
std::map<std::string, int> objIdx;
int objId(const std::string& key, const std::function<ObjInfo()>& mk)
{
    auto it = objIdx.find(key);
    if(it != objIdx.end()) return it->second;
    ObjInfo inf = mk();
    objs.push_back(inf);
    return objIdx[key] = (int)objs.size() - 1;
}

struct Ev { std::string name; std::vector<Val> args; std::string star; // star: non-empty for an iterated set of event labels
    bool operator==(const Ev& o) const { return name == o.name && args == o.args && star == o.star; } };
struct TraceNode { Ev e; std::shared_ptr<const TraceNode> up; size_t len; size_t h; };
using Trace = std::shared_ptr<const TraceNode>;
size_t hmix(size_t a, size_t b) { return a * 1000003u ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2)); }
size_t hval(const Val& v) { size_t h = v.k; h = hmix(h, v.t); h = hmix(h, v.obj); if(v.k == Val::A) for(auto& x : *v.a) h = hmix(h, hval(x)); return h; }
Trace traceAdd(Trace t, Ev e)
{
    size_t h = hmix(t ? t->h : 7, std::hash<std::string>()(e.name + "|" + e.star));
    for(auto& a : e.args) h = hmix(h, hval(a));
    size_t l = t ? t->len + 1 : 1;
    return std::make_shared<const TraceNode>(TraceNode{std::move(e), t, l, h});
}
bool traceEq(const Trace& a, const Trace& b)
{
    auto x = a, y = b;
    while(x != y) { if(!x || !y || x->h != y->h || !(x->e == y->e)) return false; x = x->up; y = y->up; }
    return true;
}

using Cons = std::map<Term, VSet>;
using MemMap = std::map<int, std::shared_ptr<const Obj>>;
struct State {
    std::shared_ptr<const MemMap> mem = std::make_shared<MemMap>();
    std::shared_ptr<const Cons> cons = std::make_shared<Cons>();
    Trace trace;
    std::map<std::string, Val> outs;
    unsigned und = 0;       // undecided branches so far
    std::vector<std::pair<std::string, Val>> caught; // exception stack
    std::string excType; Val excObj; int excSel = 0;  // in flight
};

struct FnInfo {
    std::map<const Value*, int> slot; int nslots = 0;
    std::map<const BasicBlock*, int> rpo; std::vector<const BasicBlock*> order;
    std::vector<std::vector<bool>> liveIn;  // by rpo
    std::unique_ptr<DominatorTree> dt; std::unique_ptr<LoopInfo> li;
    std::map<const BasicBlock*, int> header; // header -> index
};
struct LoopCnt { unsigned n = 0, und0 = 0, joins = 0; bool joined = false; Trace t0; };
struct Frame { std::vector<Val> env; std::vector<LoopCnt> lc; };

enum class OK { Ret, Throw, Trap, Unreach, Term, Stop };
struct Outcome { OK kind; State s; Val ret; std::string info; std::string at; };

struct Stop : std::exception {};

struct AI {
    Module& M; const DataLayout& DL; CallResolver R;
    std::map<const Function*, std::unique_ptr<FnInfo>> fi;
    struct Rule { std::shared_ptr<Regex> re; std::string act; };
    std::vector<Rule> rules; std::map<const Function*, std::string> ruleCache;
    // configuration
    unsigned peel = 3, K = 16, cap = 5000, maxDepth = 250, selForkMax = 1, forkIdx = 8; bool cleanups = false; u64 budget = 40000000;
    u64 steps = 0; int fresh = 0; unsigned depth = 0;
    std::set<std::string> alarms; std::vector<json::Object> alarmList; std::map<std::string, int> opaqueSeen; std::set<const Function*> fnsSeen; std::set<const BasicBlock*> blocksSeen;
    size_t joins = 0, statesSeen = 0;
    std::vector<const CallBase*> cstack;
    AI(Module& m) : M(m), DL(m.getDataLayout()), R(m) {}

    // ---------------------------------------------------------------- alarms
    void alarm(const std::string& kind, const Instruction* at, const std::string& detail, const State& s)
    {
        std::string where = loc(at);
        const Function* rf = at->getFunction(); std::string rw = where;
        // nearest library frame
        auto own = [&](const Function* f) { return inRepo(f) && dem(f) != "papilio::unreachable()"; };
        if(!own(rf)) for(auto it = cstack.rbegin(); it != cstack.rend(); ++it) if(own((*it)->getFunction())) { rf = (*it)->getFunction(); rw = loc(*it); break; }
        std::string key = kind + "|" + where + "|" + rw;
        if(!alarms.insert(key).second) return;
        json::Array st; for(auto it = cstack.rbegin(); it != cstack.rend() && st.size() < 14; ++it) st.push_back(dem((*it)->getFunction()).substr(0, 160) + " @ " + loc(*it));
        alarmList.push_back(json::Object{{"kind", kind}, {"at", where}, {"function", dem(at->getFunction())}, {"lib_function", dem(rf)}, {"lib_at", rw}, {"detail", detail}, {"cons", consJson(s)}, {"stack", std::move(st)}});
    }

    // ---------------------------------------------------------------- value sets
    const VSet* con(const State& s, Term t) { auto it = s.cons->find(t); return it == s.cons->end() ? nullptr : &it->second; }
    VSet vs(const State& s, Term t, int d = 0)
    {
        const Node& n = P[t]; unsigned w = n.w;
        if(n.k == Node::Const) return VSet::one(n.c);
        VSet r = VSet::full(w);
        if(n.k == Node::Sym) { if(auto* c = con(s, t)) return *c; return r; }
        if(n.k == Node::Lin) {
            if(n.c) { // constraint on the part without constant
                Term b = P.lin(w, 0, n.sl);
                r = vs(s, b, d + 1).shift(n.c, w);
            } else {
                if(auto* c = con(s, t)) r = *c;
                Term ng = P.neg(t); if(auto* c = con(s, ng)) r = VSet::inter(r, c->neg(w));
                if(n.sl.size() == 1) { // exact for one slice
                    Slice x = n.sl[0]; VSet a = sliceVs(s, x, d);
                    r = VSet::inter(r, scaleVs(a, x.coef, w));
                } else {
                    i128 lo, hi; if(irange(s, t, lo, hi, d)) r = VSet::inter(r, wrapRange(lo, hi, w));
                    if(d <= 2) { // g*(differences of whole atoms): constraints recorded for the difference
                        u64 g = 0; bool ok = true; for(auto& x : n.sl) { i64 k = sgn(x.coef, w); g = std::gcd(g, (u64)(k < 0 ? -k : k)); if(x.lo || P.w(x.atom) != w) ok = false; }
                        if(ok) {
                            std::vector<Slice> q; bool part = g > 1;
                            for(auto& x : n.sl) { if(x.len < w) { VSet v = vs(s, x.atom, d + 3); if(v.empty() || v.max() > maskOf(x.len)) { ok = false; break; } part = true; } q.push_back({(u64)(sgn(x.coef, w) / (i64)g), x.atom, 0, w}); }
                            if(ok && part) { Term b = P.lin(w, 0, q); if(b != t) r = VSet::inter(r, scaleVs(vs(s, b, d + 1), g, w)); }
                        }
                    }
                }
            }
            return r;
        }
        // OpN
        if(auto* c = con(s, t)) r = *c;
        if(d > 6) return r;
        auto& a = n.args;
        switch(n.op) {
        case OpICmp: break;
        case OpSExt: { VSet x = vs(s, a[0], d + 1); unsigned w0 = P.w(a[0]); u64 sb = 1ull << (w0 - 1); VSet q;
            for(auto& p : x.iv) { u64 l = p.first, h = p.second; if(l < sb) q.iv.push_back({l, std::min(h, sb - 1)}); if(h >= sb) q.iv.push_back({(u64)sgn(std::max(l, sb), w0) & maskOf(w), (u64)sgn(h, w0) & maskOf(w)}); }
            q.norm(); r = VSet::inter(r, q); break; }
        case OpZExt: r = VSet::inter(r, vs(s, a[0], d + 1)); break;
        case OpAnd: { VSet x = vs(s, a[0], d + 1), y = vs(s, a[1], d + 1); if(!x.empty() && !y.empty()) r = VSet::inter(r, VSet::range(0, std::min(x.max(), y.max()))); break; }
        case OpOr: case OpXor: { VSet x = vs(s, a[0], d + 1), y = vs(s, a[1], d + 1); if(!x.empty() && !y.empty()) { u64 m = x.max() | y.max(); u64 b = m ? maskOf(64 - __builtin_clzll(m)) : 0; r = VSet::inter(r, VSet::range(n.op == OpOr ? std::max(x.min(), y.min()) : 0, b)); } break; }
        case OpUDiv: { VSet x = vs(s, a[0], d + 1), y = vs(s, a[1], d + 1); if(!x.empty() && !y.empty() && y.min() > 0) r = VSet::inter(r, VSet::range(x.min() / y.max(), x.max() / y.min())); break; }
        case OpSRem: case OpSDiv: if(P.isC(a[1]) && sgn(P.cv(a[1]), w) > 0) { // by a positive constant: truncating, monotone
            i64 c = sgn(P.cv(a[1]), w); VSet x = vs(s, a[0], d + 1); if(x.empty()) break;
            i64 lo = smin(x, w), hi = smax(x, w), l, h; u64 m = maskOf(w);
            if(n.op == OpSRem) { l = lo >= 0 ? 0 : std::max(lo, 1 - c); h = hi <= 0 ? 0 : std::min(hi, c - 1); } else { l = lo / c; h = hi / c; }
            VSet q; if(l >= 0 || h < 0) q = VSet::range((u64)l & m, (u64)h & m); else { q.iv.push_back({0, (u64)h}); q.iv.push_back({(u64)l & m, m}); q.norm(); }
            r = VSet::inter(r, q); } break;
        case OpURem: { VSet x = vs(s, a[0], d + 1), y = vs(s, a[1], d + 1); if(!x.empty() && !y.empty() && y.max() > 0) r = VSet::inter(r, VSet::range(0, std::min(x.max(), y.max() - 1))); break; }
        case OpMul: if(P.isC(a[1]) && P.cv(a[1]) == maskOf(w)) r = VSet::inter(r, vs(s, a[0], d + 1).neg(w)); break; // the negated number (negAtom)
        case OpLShr: { VSet x = vs(s, a[0], d + 1), y = vs(s, a[1], d + 1); if(!x.empty() && !y.empty()) r = VSet::inter(r, VSet::range(y.max() >= 64 ? 0 : x.min() >> y.max(), y.min() >= 64 ? 0 : x.max() >> y.min())); break; }
        case OpSelect: r = VSet::inter(r, VSet::uni(vs(s, a[1], d + 1), vs(s, a[2], d + 1))); break;
        case OpTable: r = VSet::inter(r, tables[n.sub].vals); break;
        default: break;
        }
        return r;
    }
    VSet sliceVs(const State& s, const Slice& x, int d)
    {
        unsigned aw = P.w(x.atom);
        if(d > 8) return VSet::full(x.len);
        VSet a = vs(s, x.atom, d + 1), q;
        bool partial = !(x.lo == 0 && x.len == aw);
        if(!partial) return a;
        u64 m = maskOf(x.len);
        for(auto& p : a.iv) {
            u64 l = p.first >> x.lo, h = p.second >> x.lo;
            if(h - l >= m) { q = VSet::full(x.len); break; }
            l &= m; h &= m;
            if(l <= h) q.iv.push_back({l, h}); else { q.iv.push_back({l, m}); q.iv.push_back({0, h}); }
        }
        q.norm();
        Term st = P.lin(aw, 0, {Slice{1, x.atom, x.lo, x.len}});
        if(auto* c = con(s, st)) q = VSet::inter(q, *c);
        return q;
    }
    static VSet scaleVs(const VSet& a, u64 k, unsigned w)
    {
        u64 m = maskOf(w); k &= m;
        if(k == 1) { VSet r = VSet::inter(a, VSet::full(w)); return r; }
        if(k == m) return VSet::inter(a, VSet::full(w)).neg(w);
        if(a.count() <= 512) { VSet r; for(auto& p : a.iv) for(u64 v = p.first;; ++v) { r.iv.push_back({(v * k) & m, (v * k) & m}); if(v == p.second) break; } r.norm(); return r; }
        if(a.empty()) return a;
        i128 ks = sgn(k, w), lo = ks >= 0 ? ks * (i128)a.min() : ks * (i128)a.max(), hi = ks >= 0 ? ks * (i128)a.max() : ks * (i128)a.min();
        return wrapRange(lo, hi, w);
    }
    static VSet wrapRange(i128 lo, i128 hi, unsigned w)
    {
        i128 sz = (i128)1 << w; if(w == 64) sz = (i128)1 << 64;
        if(hi - lo >= sz - 1) return VSet::full(w);
        i128 base = lo >= 0 ? lo / sz : -((-lo + sz - 1) / sz);
        lo -= base * sz; hi -= base * sz; VSet r;
        if(hi < sz) r.iv.push_back({(u64)lo, (u64)hi}); else { r.iv.push_back({(u64)lo, maskOf(w)}); r.iv.push_back({0, (u64)(hi - sz)}); }
        r.norm(); return r;
    }
    // integer range of a Lin read as  c0(signed) + sum coef(signed) * slice
    bool irange(const State& s, Term t, i128& lo, i128& hi, int d)
    {
        u64 c0; std::vector<Slice> sl; P.parts(t, c0, sl); unsigned w = P.w(t);
        lo = hi = sgn(c0, w);
        for(auto& x : sl) {
            VSet a = sliceVs(s, x, d + 1); if(a.empty()) return false;
            i128 k = sgn(x.coef, w); i128 l = k >= 0 ? k * (i128)a.min() : k * (i128)a.max(), h = k >= 0 ? k * (i128)a.max() : k * (i128)a.min();
            lo += l; hi += h;
        }
        return true;
    }
    // replace atoms fixed by the constraints
    Term norm(const State& s, Term t)
    {
        const Node& n = P[t];
        if(n.k == Node::Const) return t;
        if(n.k == Node::Lin) {
            bool ch = false; u64 c0 = n.c; std::vector<Slice> out; unsigned w = n.w; auto sl = n.sl;
            for(auto& x : sl) { VSet a = sliceVs(s, x, 0); if(a.single()) { c0 += x.coef * a.min(); ch = true; continue; }
                if(!a.empty()) { unsigned nb = a.max() ? 64 - __builtin_clzll(a.max()) : 0; if(nb < x.len) { Slice y = x; y.len = nb; out.push_back(y); ch = true; continue; } }
                out.push_back(x); }
            if(ch) { t = P.lin(w, c0, out); if(P[t].k != Node::Lin) return P.isC(t) ? t : norm1(s, t); }
            return norm1(s, t);
        }
        return norm1(s, t);
    }
    Term norm1(const State& s, Term t) { VSet v = vs(s, t); if(v.single()) return P.cst(P.w(t), v.min()); return t; }

    // exact enumeration over a single small leaf
    bool leafEnum(const State& s, Term t, Term& leaf, VSet& lv)
    {
        std::vector<Term> a; P.atoms(t, a); std::sort(a.begin(), a.end()); a.erase(std::unique(a.begin(), a.end()), a.end());
        if(a.size() != 1) return false;
        leaf = a[0]; lv = vs(s, leaf); return lv.count() <= 70000;
    }
    u64 evalAt(Term t, Term leaf, u64 v)
    {
        const Node& n = P[t]; u64 m = maskOf(n.w);
        if(t == leaf) return v;
        switch(n.k) {
        case Node::Const: return n.c;
        case Node::Sym: return 0;
        case Node::Lin: { u64 r = n.c; for(auto& x : n.sl) r += x.coef * ((evalAt(x.atom, leaf, v) >> x.lo) & maskOf(x.len)); return r & m; }
        case Node::OpN: {
            u64 a = n.args.size() > 0 ? evalAt(n.args[0], leaf, v) : 0, b = n.args.size() > 1 ? evalAt(n.args[1], leaf, v) : 0; unsigned aw = n.args.empty() ? 1 : P.w(n.args[0]);
            switch(n.op) {
            case OpICmp: return VSet::cmp(n.sub, b, aw).contains(a);
            case OpSExt: return (u64)sgn(a, aw) & m; case OpZExt: return a;
            case OpAnd: return a & b; case OpOr: return a | b; case OpXor: return a ^ b;
            case OpUDiv: return b ? a / b : 0; case OpURem: return b ? a % b : 0;
            case OpSDiv: return b ? (u64)(sgn(a, aw) / sgn(b, aw)) & m : 0; case OpSRem: return b ? (u64)(sgn(a, aw) % sgn(b, aw)) & m : 0;
            case OpLShr: return b >= 64 ? 0 : a >> b; case OpAShr: return b >= 64 ? 0 : (u64)(sgn(a, aw) >> b) & m; case OpShl: return b >= 64 ? 0 : (a << b) & m;
            case OpMul: return (a * b) & m;
            case OpSelect: return a ? b : evalAt(n.args[2], leaf, v);
            case OpTable: { auto& tb = tables[n.sub]; u64 o = a - tb.base; return o % tb.stride == 0 && o / tb.stride < tb.v.size() ? tb.v[o / tb.stride] : 0; }
            default: return 0;
            } }
        }
        return 0;
    }
    bool evaluable(Term t) { const Node& n = P[t]; if(n.k == Node::OpN) { if(n.op == OpMisc) return false; for(auto a : n.args) if(!evaluable(a)) return false; } if(n.k == Node::Lin) for(auto& x : n.sl) if(!evaluable(x.atom)) return false; return true; }

    struct Table { u64 base, stride; std::vector<u64> v; VSet vals; };
    std::vector<Table> tables;

    // ---------------------------------------------------------------- refinement
    void setCons(State& s, Term t, VSet v)
    {
        auto c = std::make_shared<Cons>(*s.cons); (*c)[t] = std::move(v); s.cons = c;
    }
    bool refine(State& s, Term t, VSet S, int d = 0) // false: infeasible
    {
        const Node n = P[t]; unsigned w = n.w;
        if(n.k == Node::Const) return S.contains(n.c);
        VSet cur = vs(s, t); VSet nv = VSet::inter(cur, S);
        if(nv.empty()) return false;
        if(nv == cur && n.k != Node::OpN) return true;
        if(d > 8) return true;
        if(n.k == Node::Sym) { setCons(s, t, nv); return true; }
        if(n.k == Node::Lin) {
            if(n.c) return refine(s, P.lin(w, 0, n.sl), nv.shift(0 - n.c, w), d + 1);
            if(n.sl.size() == 1) {
                Slice x = n.sl[0];
                if(x.coef == 1 || x.coef == maskOf(w)) {
                    VSet q = x.coef == 1 ? nv : nv.neg(w);
                    q = VSet::inter(q, VSet::full(x.len));
                    return refineSlice(s, x, q, d);
                }
                VSet a = sliceVs(s, x, 0);
                if(a.count() <= 4096) {
                    VSet q; u64 m = maskOf(w);
                    for(auto& p : a.iv) for(u64 v = p.first;; ++v) { if(nv.contains((v * x.coef) & m)) q.iv.push_back({v, v}); if(v == p.second) break; }
                    q.norm(); if(q.empty()) return false;
                    return refineSlice(s, x, q, d);
                }
                i64 ks = sgn(x.coef, w); i128 lo, hi; 
                if(ks > 0 && irange(s, t, lo, hi, 0) && hi < ((i128)1 << 64) && hi <= (i128)maskOf(w)) { // no wrap: divide
                    VSet q; for(auto& p : nv.iv) { u64 l = (p.first + ks - 1) / ks, h = p.second / ks; if(p.first > maskOf(64) - ks) l = p.first / ks; if(l <= h) q.iv.push_back({l, h}); }
                    q.norm(); if(q.empty()) return false;
                    return refineSlice(s, x, q, d);
                }
            } else { Term leaf; VSet lv; if(leafEnum(s, t, leaf, lv) && evaluable(t)) return refineLeaf(s, t, leaf, lv, nv); }
            // propagate to the slices when the sum cannot wrap (all coefficients positive)
            setCons(s, t, nv);
            i128 lo, hi; bool pos = true; for(auto& x : n.sl) if(sgn(x.coef, w) < 0) pos = false;
            if(pos && irange(s, t, lo, hi, 0) && hi <= (i128)maskOf(w)) {
                for(auto& x : n.sl) {
                    VSet a = sliceVs(s, x, 0); if(a.empty()) return false;
                    i128 rlo = lo - (i128)x.coef * a.min(), rhi = hi - (i128)x.coef * a.max();
                    i128 mx = ((i128)nv.max() - rlo); if(mx < 0) return false; mx /= x.coef;
                    i128 mn = (i128)nv.min() - rhi; mn = mn <= 0 ? 0 : (mn + x.coef - 1) / x.coef;
                    if(mn > mx) return false;
                    if(mn > (i128)a.min() || mx < (i128)a.max()) { if(!refineSlice(s, x, VSet::range((u64)mn, (u64)std::min<i128>(mx, a.max())), d + 1)) return false; }
                }
            }
            return true;
        }
        // OpN
        setCons(s, t, nv);
        if(n.op == OpICmp && nv.single()) return refineCmp(s, n.sub, n.args[0], n.args[1], nv.min() != 0, d);
        if(n.op == OpMul && P.isC(n.args[1]) && P.cv(n.args[1]) == maskOf(w)) return refine(s, n.args[0], nv.neg(w), d + 1);
        if(n.op == OpZExt) return refine(s, n.args[0], VSet::inter(nv, VSet::full(P.w(n.args[0]))), d + 1);
        if(n.op == OpSExt) { unsigned w0 = P.w(n.args[0]); VSet q; for(auto& p : nv.iv) { u64 m = maskOf(w0); if(p.second - p.first >= m) { q = VSet::full(w0); break; } u64 l = p.first & m, h = p.second & m; if(l <= h) q.iv.push_back({l, h}); else { q.iv.push_back({l, m}); q.iv.push_back({0, h}); } } q.norm(); return refine(s, n.args[0], q, d + 1); }
        if(n.op == OpSelect) {
            VSet a = VSet::inter(vs(s, n.args[1]), nv), b = VSet::inter(vs(s, n.args[2]), nv);
            if(a.empty() && b.empty()) return false;
            if(a.empty()) return refine(s, n.args[0], VSet::one(0), d + 1) && refine(s, n.args[2], nv, d + 1);
            if(b.empty()) return refine(s, n.args[0], VSet::one(1), d + 1) && refine(s, n.args[1], nv, d + 1);
            return true;
        }
        Term leaf; VSet lv;
        if(leafEnum(s, t, leaf, lv) && evaluable(t)) return refineLeaf(s, t, leaf, lv, nv);
        return true;
    }
    bool refineLeaf(State& s, Term t, Term leaf, const VSet& lv, const VSet& S)
    {
        VSet q; for(auto& p : lv.iv) for(u64 v = p.first;; ++v) { if(S.contains(evalAt(t, leaf, v))) { if(!q.iv.empty() && q.iv.back().second + 1 == v) q.iv.back().second = v; else q.iv.push_back({v, v}); } if(v == p.second) break; }
        if(q.empty()) return false;
        q.norm();
        if(P[leaf].k == Node::Sym) { setCons(s, leaf, q); return true; }
        return refine(s, leaf, q, 3);
    }
    bool refineSlice(State& s, const Slice& x, const VSet& q, int d)
    {
        unsigned aw = P.w(x.atom);
        if(q.empty()) return false;
        if(x.lo == 0 && x.len == aw) return refine(s, x.atom, q, d + 1);
        VSet a = vs(s, x.atom);
        if(x.lo + x.len == aw || (!a.empty() && x.lo + x.len < 64 && (a.max() >> (x.lo + x.len)) == 0)) { // top slice: intervals
            VSet r; for(auto& p : q.iv) r.iv.push_back({p.first << x.lo, (p.second << x.lo) | maskOf(x.lo)});
            r.norm(); return refine(s, x.atom, r, d + 1);
        }
        if(a.count() <= 70000) {
            VSet r; for(auto& p : a.iv) for(u64 v = p.first;; ++v) { if(q.contains((v >> x.lo) & maskOf(x.len))) { if(!r.iv.empty() && r.iv.back().second + 1 == v) r.iv.back().second = v; else r.iv.push_back({v, v}); } if(v == p.second) break; }
            if(r.empty()) return false; if(r.iv.size() <= 500) { r.norm(); return refine(s, x.atom, r, d + 1); }
        }
        Term st = P.lin(aw, 0, {Slice{1, x.atom, x.lo, x.len}});
        VSet cur = sliceVs(s, x, 0); VSet nv = VSet::inter(cur, q); if(nv.empty()) return false;
        // agree with what is known of the slices around and inside of this one
        std::vector<std::pair<Term, VSet>> upd;
        auto filter = [&](const VSet& v, unsigned lo, unsigned len, const VSet& in, bool& ok) { VSet r; ok = v.count() <= 4096; if(!ok) return r;
            for(auto& p : v.iv) for(u64 k = p.first;; ++k) { if(in.contains((k >> lo) & maskOf(len))) r.iv.push_back({k, k}); if(k == p.second) break; } r.norm(); return r; };
        for(auto& e : *s.cons) {
            const Node& m = P[e.first]; if(m.k != Node::Lin || m.c || m.sl.size() != 1) continue;
            const Slice& y = m.sl[0]; if(y.coef != 1 || y.atom != x.atom || (y.lo == x.lo && y.len == x.len)) continue;
            bool ok;
            if(y.lo <= x.lo && x.lo + x.len <= y.lo + y.len) { VSet r = filter(e.second, x.lo - y.lo, x.len, nv, ok); if(ok) { if(r.empty()) return false; if(!(r == e.second)) upd.push_back({e.first, r});
                VSet z; for(auto& p : r.iv) for(u64 k = p.first;; ++k) { u64 b = (k >> (x.lo - y.lo)) & maskOf(x.len); z.iv.push_back({b, b}); if(k == p.second) break; } std::sort(z.iv.begin(), z.iv.end()); z.norm(); nv = VSet::inter(nv, z); if(nv.empty()) return false; } }
            else if(x.lo <= y.lo && y.lo + y.len <= x.lo + x.len) { VSet r = filter(nv, y.lo - x.lo, y.len, e.second, ok); if(ok) { nv = r; if(nv.empty()) return false; } }
        }
        for(auto& u : upd) setCons(s, u.first, u.second);
        setCons(s, st, nv); return true;
    }
    static int negPred(int p) { static const int n[] = {1, 0, 5, 4, 3, 2, 9, 8, 7, 6}; return n[p]; }
    static int swapPred(int p) { static const int n[] = {0, 1, 4, 5, 2, 3, 8, 9, 6, 7}; return n[p]; }
    bool refineCmp(State& s, int pred, Term a, Term b, bool truth, int d = 0)
    {
        if(!truth) pred = negPred(pred);
        a = norm(s, a); b = norm(s, b);
        unsigned w = P.w(a);
        if(P.isC(b)) return refine(s, a, VSet::cmp(pred, P.cv(b), w), d + 1);
        if(P.isC(a)) return refine(s, b, VSet::cmp(swapPred(pred), P.cv(a), w), d + 1);
        if(pred <= 1) { Term df = P.addT(a, b, ~0ull); if(P.isC(df)) return (P.cv(df) == 0) == (pred == 0);
            if(!refine(s, df, pred == 0 ? VSet::one(0) : VSet::range(1, maskOf(w)), d + 1)) return false;
            if(pred == 0) { VSet x = VSet::inter(vs(s, a), vs(s, b)); return !x.empty() && refine(s, a, x, d + 1) && refine(s, b, x, d + 1); }
            return true; }
        // ranges
        VSet x = vs(s, a), y = vs(s, b); if(x.empty() || y.empty()) return false;
        if(pred >= 2 && pred <= 5) {
            bool lt = pred <= 3; bool strict = pred == 2 || pred == 4;
            Term l = lt ? a : b, h = lt ? b : a; VSet lv = lt ? x : y, hv = lt ? y : x;
            u64 hm = hv.max(), lm = lv.min();
            if(strict) { if(hm == 0 || lm == maskOf(w)) return false; --hm; ++lm; }
            if(lv.min() > hm) return false;
            if(!refine(s, l, VSet::range(0, hm), d + 1) || !refine(s, h, VSet::range(lm, maskOf(w)), d + 1)) return false;
            // difference h - l when neither side can wrap: in [strict, ...]
            Term df = P.addT(h, l, ~0ull);
            if(!P.isC(df)) { i128 lo, hi; if(noWrap(s, l) && noWrap(s, h) && irange(s, df, lo, hi, 0)) { VSet D = VSet::range(strict ? 1 : 0, vs(s, h).empty() ? maskOf(w) : vs(s, h).max()); return refine(s, df, D, d + 1); } }
            else return strict ? (P.cv(df) != 0) : true;
        } else {
            u64 sb = 1ull << (w - 1);
            if(x.max() < sb && y.max() < sb) return refineCmp(s, pred - 4, a, b, true, d + 1);
            bool lt = pred <= 7, strict = pred == 6 || pred == 8; Term l = lt ? a : b, h = lt ? b : a; VSet hv = lt ? y : x, lv = lt ? x : y;
            // signed bounds
            i64 hm = smax(hv, w), lm = smin(lv, w);
            if(strict) { if(hm == sgn(sb, w) || lm == (i64)(sb - 1)) return false; --hm; ++lm; }
            return refine(s, l, VSet::cmp(7, (u64)hm, w), d + 1) && refine(s, h, VSet::cmp(9, (u64)lm, w), d + 1);
        }
        return true;
    }
    static i64 smax(const VSet& v, unsigned w) { u64 sb = 1ull << (w - 1); i64 m = INT64_MIN; for(auto& p : v.iv) { if(p.first < sb) m = std::max(m, (i64)std::min(p.second, sb - 1)); if(p.second >= sb) m = std::max(m, sgn(p.second, w)); } return m; }
    static i64 smin(const VSet& v, unsigned w) { u64 sb = 1ull << (w - 1); i64 m = INT64_MAX; for(auto& p : v.iv) { if(p.first < sb) m = std::min(m, (i64)p.first); if(p.second >= sb) m = std::min(m, sgn(std::max(p.first, sb), w)); } return m; }
    bool noWrap(const State& s, Term t) { i128 lo, hi; return irange(s, t, lo, hi, 0) && lo >= 0 && hi <= (i128)maskOf(P.w(t)); }

    Term icmp(State& s, int pred, Term a, Term b)
    {
        a = norm(s, a); b = norm(s, b); unsigned w = P.w(a);
        if(P.isC(a) && !P.isC(b)) { std::swap(a, b); pred = swapPred(pred); }
        if(P.isC(b)) {
            VSet x = vs(s, a), t = VSet::cmp(pred, P.cv(b), w);
            VSet i = VSet::inter(x, t);
            if(i.empty()) return P.cst(1, 0);
            if(i == x) return P.cst(1, 1);
            if(w == 1) { if(pred == 0) return P.cv(b) ? a : P.addC(a, 1); if(pred == 1) return P.cv(b) ? P.addC(a, 1) : a; }
            // canonical: move the constant of a Lin to the right for eq/ne
            if(pred <= 1 && P[a].k == Node::Lin && P[a].c) { u64 c = P[a].c; Term na = P.lin(w, 0, P[a].sl); b = P.cst(w, P.cv(b) - c); a = na; }
            if(pred == 1) return P.addC(icmp(s, 0, a, b), 1);
            return P.op(OpICmp, 1, {a, b}, pred);
        }
        if(a == b) return P.cst(1, pred == 0 || pred == 3 || pred == 5 || pred == 7 || pred == 9);
        if(pred <= 1) {
            Term df = P.addT(a, b, ~0ull);
            if(P.isC(df)) return P.cst(1, (P.cv(df) == 0) == (pred == 0));
            VSet v = vs(s, df), x = VSet::inter(vs(s, a), vs(s, b));
            if(!v.contains(0) || x.empty()) return P.cst(1, pred == 1);
            if(pred == 1) return P.addC(icmp(s, 0, a, b), 1);
            if(a > b) std::swap(a, b);
            return P.op(OpICmp, 1, {a, b}, 0);
        }
        VSet x = vs(s, a), y = vs(s, b);
        if(!x.empty() && !y.empty()) {
            i64 xl, xh, yl, yh; bool un = pred <= 5;
            if(un) {
                auto lt = [&](u64 ah, u64 bl) { return ah < bl; };
                if(pred == 2) { if(lt(x.max(), y.min())) return P.cst(1, 1); if(x.min() >= y.max()) return P.cst(1, 0); }
                if(pred == 3) { if(x.max() <= y.min()) return P.cst(1, 1); if(x.min() > y.max()) return P.cst(1, 0); }
                if(pred == 4) return icmp(s, 2, b, a);
                if(pred == 5) return icmp(s, 3, b, a);
                // difference known non-negative?
                Term df = P.addT(b, a, ~0ull); 
                if(noWrap(s, a) && noWrap(s, b)) { i128 lo, hi; if(irange(s, df, lo, hi, 0)) { if(pred == 2 && lo >= 1) return P.cst(1, 1); if(pred == 3 && lo >= 0) return P.cst(1, 1); if(pred == 2 && hi <= 0) return P.cst(1, 0); if(pred == 3 && hi < 0) return P.cst(1, 0); }
                    VSet dv = vs(s, df); u64 big = maskOf(w) >> 1; if(!dv.empty() && dv.max() <= big && y.max() <= big) { if(pred == 3) return P.cst(1, 1); if(!dv.contains(0)) return P.cst(1, 1); } }
            } else {
                xl = smin(x, w); xh = smax(x, w); yl = smin(y, w); yh = smax(y, w);
                if(pred == 6) { if(xh < yl) return P.cst(1, 1); if(xl >= yh) return P.cst(1, 0); }
                if(pred == 7) { if(xh <= yl) return P.cst(1, 1); if(xl > yh) return P.cst(1, 0); }
                if(pred == 8) return icmp(s, 6, b, a);
                if(pred == 9) return icmp(s, 7, b, a);
                if(xl >= 0 && yl >= 0) return icmp(s, pred - 4, a, b);
            }
        }
        return P.op(OpICmp, 1, {a, b}, pred);
    }

    // ---------------------------------------------------------------- arithmetic
    // disjoint-bit view: every coefficient a power of two, pieces do not overlap; returns pieces as (bit position, slice)
    bool disjoint(const State& s, Term t, u64& c0, std::vector<std::pair<unsigned, Slice>>& pc)
    {
        std::vector<Slice> sl; P.parts(t, c0, sl); u64 used = 0; pc.clear(); u64 m = maskOf(P.w(t));
        for(auto& x : sl) {
            VSet a = sliceVs(s, x, 0); if(a.empty()) return false;
            unsigned nb = a.max() ? 64 - __builtin_clzll(a.max()) : 0; if(nb < x.len) x.len = nb;
            if(!x.len) continue;
            if(x.coef & (x.coef - 1)) return false;
            unsigned p = __builtin_ctzll(x.coef); u64 bits = (maskOf(x.len) << p);
            if(p + x.len > P.w(t)) { x.len = P.w(t) - p; bits = (maskOf(x.len) << p); }
            if(bits & used) return false;
            used |= bits; pc.push_back({p, x});
        }
        if(c0 & used & m) {
            // try: constant bits overlap -> not disjoint
            return false;
        }
        return true;
    }
    Term andC(State& s, Term a, u64 mask)
    {
        unsigned w = P.w(a); mask &= maskOf(w); a = norm(s, a);
        if(P.isC(a)) return P.cst(w, P.cv(a) & mask);
        if(mask == maskOf(w)) return a; if(!mask) return P.cst(w, 0);
        unsigned top = 64 - __builtin_clzll(mask);
        // (sext x) & mask  with mask inside x
        if(P[a].k == Node::OpN && P[a].op == OpSExt && top <= P.w(P[a].args[0])) return zext(s, andC(s, P[a].args[0], mask), w);
        if(P[a].k == Node::OpN && P[a].op == OpZExt) return zext(s, andC(s, P[a].args[0], mask & maskOf(P.w(P[a].args[0]))), w);
        if(top < w) { Term tr = trunc(s, a, top); return zext(s, andC2(s, tr, mask), w); }
        return andC2(s, a, mask);
    }
    Term andC2(State& s, Term a, u64 mask)
    {
        unsigned w = P.w(a); mask &= maskOf(w); if(P.isC(a)) return P.cst(w, P.cv(a) & mask); if(mask == maskOf(w)) return a;
        u64 c0; std::vector<std::pair<unsigned, Slice>> pc;
        if(disjoint(s, a, c0, pc)) {
            std::vector<Slice> out;
            for(auto& [p, x] : pc) for(unsigned b = 0; b < x.len;) { // contiguous runs
                if(!((mask >> (p + b)) & 1)) { ++b; continue; }
                unsigned e = b; while(e < x.len && ((mask >> (p + e)) & 1)) ++e;
                out.push_back({1ull << (p + b), x.atom, x.lo + b, e - b}); b = e;
            }
            return P.lin(w, c0 & mask, out);
        }
        // constant overlapping from above: low mask -> already truncated; opaque otherwise
        return P.op(OpAnd, w, {a, P.cst(w, mask)});
    }
    Term trunc(State& s, Term a, unsigned w2)
    {
        unsigned w = P.w(a); if(w == w2) return a;
        const Node& n = P[a];
        if(n.k == Node::OpN && (n.op == OpSExt || n.op == OpZExt)) { Term x = n.args[0]; unsigned w0 = P.w(x); if(w2 <= w0) return trunc(s, x, w2); return n.op == OpSExt ? sext(s, x, w2) : zext(s, x, w2); }
        u64 c0; std::vector<Slice> sl; P.parts(a, c0, sl); return P.lin(w2, c0, sl);
    }
    Term zext(State& s, Term a, unsigned w2)
    {
        unsigned w = P.w(a); if(w == w2) return a; a = norm(s, a);
        if(P.isC(a)) return P.cst(w2, P.cv(a));
        u64 c0; std::vector<Slice> sl; P.parts(a, c0, sl);
        i128 lo, hi;
        if(irange(s, a, lo, hi, 0)) {
            i128 sz = (i128)1 << w;
            if(lo >= 0 && hi < sz) { for(auto& x : sl) x.coef = (u64)sgn(x.coef, w); return P.lin(w2, (u64)sgn(c0, w), sl); }
            // one consistent wrap
            i128 k = lo >= 0 ? lo / sz : -((-lo + sz - 1) / sz);
            if(lo - k * sz >= 0 && hi - k * sz < sz) { for(auto& x : sl) x.coef = (u64)sgn(x.coef, w); return P.lin(w2, (u64)(sgn(c0, w) - (i64)(k * sz)), sl); }
            // coefficients read as unsigned
            i128 ulo = c0, uhi = c0; bool ok = true; for(auto& x : sl) { VSet v = sliceVs(s, x, 0); if(v.empty()) { ok = false; break; } ulo += (i128)x.coef * v.min(); uhi += (i128)x.coef * v.max(); }
            if(ok && uhi < sz) return P.lin(w2, c0, sl);
        }
        return P.op(OpZExt, w2, {a});
    }
    Term sext(State& s, Term a, unsigned w2)
    {
        unsigned w = P.w(a); if(w == w2) return a; a = norm(s, a);
        if(P.isC(a)) return P.cst(w2, (u64)sgn(P.cv(a), w));
        VSet v = vs(s, a); u64 sb = 1ull << (w - 1);
        if(!v.empty() && v.max() < sb) return zext(s, a, w2);
        u64 c0; std::vector<Slice> sl; P.parts(a, c0, sl); i128 lo, hi;
        if(P[a].k == Node::Lin && irange(s, a, lo, hi, 0) && lo >= -(i128)sb && hi < (i128)sb) { for(auto& x : sl) x.coef = (u64)sgn(x.coef, w); return P.lin(w2, (u64)sgn(c0, w), sl); }
        if(!v.empty() && v.min() >= sb && (P[a].k == Node::Sym || P[a].k == Node::OpN)) return P.addC(zext(s, a, w2), 0 - (1ull << w));
        return P.op(OpSExt, w2, {a});
    }
    Term lshrC(State& s, Term a, unsigned k)
    {
        unsigned w = P.w(a); a = norm(s, a); if(k >= w) return P.cst(w, 0); if(P.isC(a)) return P.cst(w, P.cv(a) >> k); if(!k) return a;
        u64 c0; std::vector<std::pair<unsigned, Slice>> pc;
        if(disjoint(s, a, c0, pc)) {
            std::vector<Slice> out;
            for(auto& [p, x] : pc) {
                if(p >= k) out.push_back({1ull << (p - k), x.atom, x.lo, x.len});
                else if(p + x.len > k) { unsigned cut = k - p; out.push_back({1, x.atom, x.lo + cut, x.len - cut}); }
            }
            return P.lin(w, c0 >> k, out);
        }
        if(c0 && !(c0 & maskOf(k))) { // the constant has no low bits: shift both parts if their sum does not wrap
            std::vector<Slice> sl; P.parts(a, c0, sl); Term base = P.lin(w, 0, sl); u64 z; VSet bv = vs(s, base); i128 c = sgn(c0, w);
            if(disjoint(s, base, z, pc) && !bv.empty() && c + (i128)bv.min() >= 0 && c + (i128)bv.max() < ((i128)1 << w)) return P.addC(lshrC(s, base, k), (u64)((i64)c >> k));
        }
        return P.op(OpLShr, w, {a, P.cst(w, k)});
    }
    Term bin(State& s, unsigned opc, Term a, Term b)
    {
        a = norm(s, a); b = norm(s, b); unsigned w = P.w(a); bool ca = P.isC(a), cb = P.isC(b); u64 x = P.cv(a), y = P.cv(b), m = maskOf(w);
        switch(opc) {
        case Instruction::Add: return P.addT(a, b);
        case Instruction::Sub: return P.addT(a, b, ~0ull);
        case Instruction::Mul: if(cb) return P.scale(a, y); if(ca) return P.scale(b, x); if(a > b) std::swap(a, b); return P.op(OpMul, w, {a, b});
        case Instruction::Shl: if(cb) return y >= w ? P.cst(w, 0) : P.scale(a, 1ull << y); return P.op(OpShl, w, {a, b});
        case Instruction::LShr: if(cb) return lshrC(s, a, (unsigned)y); return P.op(OpLShr, w, {a, b});
        case Instruction::AShr: { VSet v = vs(s, a); if(cb && !v.empty() && v.max() < (1ull << (w - 1))) return lshrC(s, a, (unsigned)y); if(ca && cb) return P.cst(w, y >= 64 ? 0 : (u64)(sgn(x, w) >> y)); return P.op(OpAShr, w, {a, b}); }
        case Instruction::And: if(cb) return andC(s, a, y); if(ca) return andC(s, b, x); if(a == b) return a; if(a > b) std::swap(a, b); return P.op(OpAnd, w, {a, b});
        case Instruction::Or: {
            if(ca && cb) return P.cst(w, x | y); if(a == b) return a; if(cb && !y) return a; if(ca && !x) return b;
            if(ca) { std::swap(a, b); std::swap(ca, cb); std::swap(x, y); }
            if(cb) { if(y == m) return b; Term r = andC(s, a, ~y); if(!(P[r].k == Node::OpN && P[r].op == OpAnd)) return P.addC(r, y); return P.op(OpOr, w, {a, b}); }
            u64 c0, c1; std::vector<std::pair<unsigned, Slice>> p0, p1;
            if(disjoint(s, a, c0, p0) && disjoint(s, b, c1, p1)) {
                u64 u0 = c0, u1 = c1; for(auto& q : p0) u0 |= maskOf(q.second.len) << q.first; for(auto& q : p1) u1 |= maskOf(q.second.len) << q.first;
                if(!(u0 & u1)) return P.addT(a, b);
            }
            if(a > b) std::swap(a, b);
            return P.op(OpOr, w, {a, b}); }
        case Instruction::Xor: {
            if(ca && cb) return P.cst(w, x ^ y); if(a == b) return P.cst(w, 0); if(cb && !y) return a; if(ca && !x) return b;
            if(ca) { std::swap(a, b); std::swap(ca, cb); std::swap(x, y); }
            if(cb) { if(y == m) return P.addC(P.neg(a), m); if(w == 1) return P.addC(a, 1); if(y == (1ull << (w - 1))) return P.addC(a, y);
                Term in = andC(s, a, y), rest = andC(s, a, ~y); auto opq = [&](Term r) { return P[r].k == Node::OpN && P[r].op == OpAnd; };
                if(!opq(in) && !opq(rest)) return P.addT(P.addC(rest, y), in, ~0ull); }
            if(a > b) std::swap(a, b);
            return P.op(OpXor, w, {a, b}); }
        case Instruction::UDiv: if(cb && y && !(y & (y - 1))) return lshrC(s, a, __builtin_ctzll(y)); if(ca && cb && y) return P.cst(w, x / y);
            if(cb && y) { if(Term q = divLin(s, a, y)) return q; } return P.op(OpUDiv, w, {a, b});
        case Instruction::URem: if(cb && y && !(y & (y - 1))) return andC(s, a, y - 1); if(ca && cb && y) return P.cst(w, x % y);
            { VSet v = vs(s, a); if(cb && !v.empty() && v.max() < y) return a; } return P.op(OpURem, w, {a, b});
        case Instruction::SDiv: case Instruction::SRem: {
            if(ca && cb && y && !(sgn(y, w) == -1)) return P.cst(w, (u64)(opc == Instruction::SDiv ? sgn(x, w) / sgn(y, w) : sgn(x, w) % sgn(y, w)));
            VSet va = vs(s, a), vb = vs(s, b); u64 sb = 1ull << (w - 1);
            if(!va.empty() && !vb.empty() && va.max() < sb && vb.max() < sb) return bin(s, opc == Instruction::SDiv ? Instruction::UDiv : Instruction::URem, a, b);
            if(opc == Instruction::SDiv && cb && y) if(Term q = divLin(s, a, y)) return q; // exact
            if(cb && y && y < sb && !va.empty() && va.min() >= sb) { // a negative number: divide its magnitude
                Term ng = P.neg(a); auto& nn = P[ng];
                if(nn.k == Node::Lin && !(nn.c == 0 && nn.sl.size() == 1 && nn.sl[0].coef == 1)) ng = P.op(OpMul, w, {a, P.cst(w, m)});
                return norm(s, P.neg(norm(s, bin(s, opc == Instruction::SDiv ? Instruction::UDiv : Instruction::URem, ng, b)))); }
            return P.op(opc == Instruction::SDiv ? OpSDiv : OpSRem, w, {a, b}); }
        }
        return freshSym(w, "op");
    }
    // exact division of a Lin all of whose coefficients are multiples of y and which does not wrap (as a signed integer)
    Term divLin(State& s, Term a, u64 y)
    {
        u64 c0; std::vector<Slice> sl; P.parts(a, c0, sl); unsigned w = P.w(a); i64 sy = sgn(y, w); if(sy == 0) return 0;
        if(sgn(c0, w) % sy) return 0; for(auto& x : sl) if(sgn(x.coef, w) % sy) return 0;
        i128 lo, hi; if(!irange(s, a, lo, hi, 0)) return 0; i128 h = (i128)1 << (w - 1); if(lo < -h || hi >= h) return 0;
        for(auto& x : sl) x.coef = (u64)(sgn(x.coef, w) / sy);
        return P.lin(w, (u64)(sgn(c0, w) / sy), sl);
    }
    Term freshSym(unsigned w, const std::string& n) { return P.sym(w, "$" + n + std::to_string(++fresh)); }

    // ---------------------------------------------------------------- memory
    const Obj* obj(const State& s, int id) { auto it = s.mem->find(id); return it == s.mem->end() ? nullptr : it->second.get(); }
    Obj& wobj(State& s, int id)
    {
        std::shared_ptr<MemMap> m;
        if(s.mem.use_count() == 1) m = std::const_pointer_cast<MemMap>(s.mem); else m = std::make_shared<MemMap>(*s.mem);
        auto& p = (*m)[id];
        std::shared_ptr<Obj> o;
        if(!p) { o = std::make_shared<Obj>(); o->def = defaultDef(id); }
        else if(p.use_count() == 1) o = std::const_pointer_cast<Obj>(p);
        else o = std::make_shared<Obj>(*p);
        p = o; s.mem = m;
        return *o;
    }
    Def defaultDef(int id)
    {
        auto& inf = objs[id];
        if(inf.g) { if(auto* gv = dyn_cast<GlobalVariable>(inf.g)) { if(gv->isConstant() && gv->hasInitializer()) return Def::Const; if(gv->hasInitializer() && StringRef(gv->getName()).starts_with("_ZGV")) return Def::Zero; } return Def::Lazy; }
        if(inf.kind == "lazy" || inf.kind == "buf") return Def::Lazy;
        return Def::Undef;
    }
    int globalObj(const GlobalValue* g)
    {
        return objId("g:" + g->getName().str() + (g->hasLocalLinkage() ? "@" + std::to_string((uintptr_t)g) : ""), [&] {
            ObjInfo i; i.name = "@" + g->getName().str(); i.kind = isa<Function>(g) ? "fn" : "global"; i.g = g;
            if(auto* v = dyn_cast<GlobalVariable>(g)) if(v->getValueType()->isSized()) i.size = P.cst(64, DL.getTypeAllocSize(v->getValueType()));
            return i; });
    }
    int lazyObj(const std::string& name, bool maybeNull = false)
    {
        return objId("lazy:" + name, [&] { ObjInfo i; i.name = name; i.kind = "lazy"; i.maybeNull = maybeNull; return i; });
    }
    Val fromConst(const Constant* c)
    {
        Type* ty = c->getType();
        if(auto* ci = dyn_cast<ConstantInt>(c)) { if(ci->getBitWidth() <= 64) return Val::i(P.cst(ci->getBitWidth(), ci->getZExtValue())); return Val(); }
        if(isa<ConstantPointerNull>(c)) return Val::i(P.cst(64, 0));
        if(auto* g = dyn_cast<GlobalValue>(c)) { if(auto* al = dyn_cast<GlobalAlias>(g)) return fromConst(al->getAliasee()); return Val::p(globalObj(g), P.cst(64, 0)); }
        if(isa<UndefValue>(c)) { if(ty->isAggregateType()) { std::vector<Val> v(aggN(ty)); for(unsigned i = 0; i < v.size(); ++i) v[i] = fromConst(UndefValue::get(aggT(ty, i))); return Val::agg(v); } return Val(); }
        if(isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
            if(ty->isVectorTy()) return Val();
            std::vector<Val> v(aggN(ty)); for(unsigned i = 0; i < v.size(); ++i) v[i] = fromConst(c->getAggregateElement(i)); return Val::agg(v);
        }
        if(auto* fp = dyn_cast<ConstantFP>(c)) { auto b = fp->getValueAPF().bitcastToAPInt(); if(b.getBitWidth() <= 64) return Val::i(P.cst(b.getBitWidth(), b.getZExtValue())); return Val::i(P.sym(64, "fpconst")); }
        if(auto* ce = dyn_cast<ConstantExpr>(c)) {
            if(auto* gep = dyn_cast<GEPOperator>(ce)) { APInt o(64, 0); if(gep->accumulateConstantOffset(DL, o)) { Val b = fromConst(cast<Constant>(gep->getPointerOperand())); if(b.k == Val::Ptr) return Val::p(b.obj, P.addC(b.t, o.getZExtValue())); } }
            if(ce->getOpcode() == Instruction::PtrToInt) { Val b = fromConst(ce->getOperand(0)); return ptrToInt(b, DL.getTypeSizeInBits(ty)); }
            if(ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::BitCast) { Val b = fromConst(ce->getOperand(0)); return b; }
            if(Constant* f = ConstantFoldConstant(ce, DL); f && f != ce) return fromConst(f);
        }
        return Val();
    }
    static unsigned aggN(Type* t) { if(auto* s = dyn_cast<StructType>(t)) return s->getNumElements(); if(auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements(); return 0; }
    static Type* aggT(Type* t, unsigned i) { if(auto* s = dyn_cast<StructType>(t)) return s->getElementType(i); return cast<ArrayType>(t)->getElementType(); }
    Val ptrToInt(const Val& v, unsigned w)
    {
        if(v.k == Val::Ptr) { Term t = P.addT(P.sym(64, "&" + std::to_string(v.obj)), v.t); State s; return Val::i(w == 64 ? t : trunc(s, t, w)); }
        return v;
    }
    Val intToPtr(const State& s, Val v)
    {
        if(v.k != Val::I) return v;
        u64 c0; std::vector<Slice> sl; P.parts(v.t, c0, sl);
        for(size_t i = 0; i < sl.size(); ++i) if(P[sl[i].atom].k == Node::Sym && P[sl[i].atom].name[0] == '&' && sl[i].coef == 1 && sl[i].lo == 0 && sl[i].len == 64) {
            int o = std::stoi(P[sl[i].atom].name.substr(1)); sl.erase(sl.begin() + i); return Val::p(o, P.lin(64, c0, sl)); }
        return v;
    }
    unsigned bitsOf(Type* t) { if(t->isPointerTy()) return 64; if(t->isSized()) return (unsigned)std::min<u64>(DL.getTypeSizeInBits(t), 1 << 20); return 64; }
    // a fresh unknown of a type
    Val unknown(Type* t, const std::string& n)
    {
        if(t->isVoidTy()) return Val();
        if(t->isPointerTy()) return Val::p(lazyObj("$" + n + std::to_string(++fresh), true), P.cst(64, 0));
        if(t->isAggregateType()) { std::vector<Val> v(aggN(t)); for(unsigned i = 0; i < v.size(); ++i) v[i] = unknown(aggT(t, i), n); return Val::agg(v); }
        unsigned w = bitsOf(t); if(w > 64 || w == 0) w = 64;
        return Val::i(freshSym(w, n));
    }
    Val initRead(State& s, int id, i64 off, Type* t, const Obj* o)
    {
        auto& inf = objs[id];
        Def d = o ? o->def : defaultDef(id);
        unsigned sz = DL.getTypeStoreSize(t);
        switch(d) {
        case Def::Undef: return Val();
        case Def::Zero: if(t->isPointerTy()) return Val::i(P.cst(64, 0)); return Val::i(P.cst(std::min(64u, bitsOf(t)), 0));
        case Def::Const: {
            auto* gv = cast<GlobalVariable>(inf.g);
            if(off >= 0 && (u64)off + sz <= DL.getTypeAllocSize(gv->getValueType()))
                if(Constant* c = ConstantFoldLoadFromConst(const_cast<Constant*>(gv->getInitializer()), t, APInt(64, off), DL)) return fromConst(c);
            return unknown(t, "ginit"); }
        case Def::Lazy: {
            std::string nm = inf.name + (o && o->epoch ? "'" + std::to_string(o->epoch) : "") + "+" + std::to_string(off);
            Val v;
            if(t->isPointerTy()) v = Val::p(lazyObj("*(" + nm + ")", true), P.cst(64, 0));
            else { unsigned w = bitsOf(t); v = Val::i(P.sym(w > 64 ? 64 : w, w == 8 ? nm : nm + ":" + std::to_string(w / 8))); }
            if(!inf.buffer) wobj(s, id).cells[off] = Cell{sz, v};
            return v; }
        }
        return Val();
    }
    Val loadAt(State& s, int id, i64 off, Type* t)
    {
        if(t->isAggregateType()) {
            std::vector<Val> v(aggN(t));
            for(unsigned i = 0; i < v.size(); ++i) { u64 eo = isa<StructType>(t) ? (u64)DL.getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * DL.getTypeAllocSize(aggT(t, i)).getFixedValue(); v[i] = loadAt(s, id, off + eo, aggT(t, i)); }
            return Val::agg(v);
        }
        const Obj* o = obj(s, id); unsigned sz = DL.getTypeStoreSize(t); unsigned w = bitsOf(t);
        if(o) {
            auto it = o->cells.find(off);
            if(it != o->cells.end() && it->second.size == sz) { Val v = it->second.v; return coerce(s, v, t); }
            bool overlap = false; auto lo = o->cells.upper_bound(off - 64); for(auto j = lo; j != o->cells.end() && j->first < off + (i64)sz; ++j) if(j->first + (i64)j->second.size > off) overlap = true;
            if(overlap) {
                if(w > 64) return Val::i(freshSym(64, "wide"));
                Term r = P.cst(w, 0); Type* b8 = Type::getInt8Ty(M.getContext());
                for(unsigned i = 0; i < sz; ++i) {
                    Val bv = byteAt(s, id, off + i, b8);
                    if(bv.k == Val::U) bv = Val::i(freshSym(8, "pad"));
                    if(bv.k != Val::I) return unknown(t, "mix");
                    Term zb = zext(s, bv.t, std::max(w, 8u)); if(w < 8) zb = trunc(s, bv.t, w);
                    r = P.addT(r, P.scale(zb, 1ull << (8 * i)));
                }
                Val v = Val::i(r); return coerce(s, t->isPointerTy() ? intToPtr(s, v) : v, t);
            }
        }
        return coerce(s, initRead(s, id, off, t, obj(s, id)), t);
    }
    // byte k of a value; slices of the value itself when it is no sum of disjoint pieces, so that the bytes combine again
    Term byteOf(State& s, Term t, unsigned k)
    {
        unsigned vw = P.w(t); u64 c0; std::vector<std::pair<unsigned, Slice>> pc; t = norm(s, t);
        if(P[t].k == Node::Lin && vw > 8 && 8 * k + 8 <= vw && !disjoint(s, t, c0, pc)) return P.lin(8, 0, {Slice{1, t, 8 * k, 8}});
        Term sh = lshrC(s, t, 8 * k); return vw >= 8 ? trunc(s, sh, 8) : zext(s, sh, 8);
    }
    Val byteAt(State& s, int id, i64 off, Type* b8)
    {
        const Obj* o = obj(s, id);
        auto lo = o->cells.upper_bound(off); 
        while(lo != o->cells.begin()) { --lo; if(lo->first + 64 < off) break; if(lo->first <= off && lo->first + (i64)lo->second.size > off) {
            Val v = lo->second.v; if(v.k == Val::Ptr) v = ptrToInt(v, 64); if(v.k != Val::I) return v;
            unsigned k = (unsigned)(off - lo->first); unsigned vw = P.w(v.t); if(8 * k >= vw) return Val::i(P.cst(8, 0));
            return Val::i(byteOf(s, v.t, k)); } }
        return initRead(s, id, off, b8, o);
    }
    Val coerce(State& s, Val v, Type* t)
    {
        if(v.k == Val::I && !t->isPointerTy() && !t->isAggregateType()) { unsigned w = bitsOf(t); if(w <= 64 && P.w(v.t) != w) return Val::i(P.w(v.t) > w ? trunc(s, v.t, w) : zext(s, v.t, w)); }
        if(v.k == Val::I && t->isPointerTy()) return intToPtr(s, v);
        if(v.k == Val::Ptr && t->isIntegerTy()) return ptrToInt(v, bitsOf(t));
        return v;
    }
    void clearRange(State& s, Obj& o, i64 off, i64 n, int id)
    {
        std::vector<std::pair<i64, Cell>> add;
        for(auto it = o.cells.upper_bound(off - 64); it != o.cells.end() && it->first < off + n;) {
            i64 a = it->first, e = a + it->second.size;
            if(e <= off) { ++it; continue; }
            if(a < off || e > off + n) { // keep the remains as bytes
                Val v = it->second.v; if(v.k == Val::Ptr) v = ptrToInt(v, 64);
                for(i64 b = a; b < e; ++b) if(b < off || b >= off + n) { if(v.k == Val::I && 8 * (b - a) < P.w(v.t)) add.push_back({b, Cell{1, Val::i(byteOf(s, v.t, b - a))}}); else add.push_back({b, Cell{1, Val()}}); }
            }
            it = o.cells.erase(it);
        }
        for(auto& p : add) o.cells[p.first] = p.second;
    }
    void storeAt(State& s, int id, i64 off, const Val& v, Type* t)
    {
        if(t->isAggregateType()) {
            for(unsigned i = 0; i < aggN(t); ++i) { u64 eo = isa<StructType>(t) ? (u64)DL.getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * DL.getTypeAllocSize(aggT(t, i)).getFixedValue(); storeAt(s, id, off + eo, v.k == Val::A && i < v.a->size() ? (*v.a)[i] : Val(), aggT(t, i)); }
            return;
        }
        unsigned sz = DL.getTypeStoreSize(t);
        Obj& o = wobj(s, id); clearRange(s, o, off, sz, id); o.cells[off] = Cell{sz, v};
    }
    void havoc(State& s, int id)
    {
        if(objs[id].buffer || objs[id].kind == "fn") return;
        if(objs[id].g) if(auto* gv = dyn_cast<GlobalVariable>(objs[id].g)) if(gv->isConstant()) return;
        Obj& o = wobj(s, id); o.cells.clear(); o.def = Def::Lazy; o.epoch = ++fresh;
    }
    void havocReach(State& s, int id, std::set<int>& seen, int d)
    {
        if(!seen.insert(id).second || d > 3) return;
        std::vector<int> nx; if(auto* o = obj(s, id)) for(auto& c : o->cells) if(c.second.v.k == Val::Ptr) nx.push_back(c.second.v.obj);
        havoc(s, id);
        for(int n : nx) havocReach(s, n, seen, d + 1);
    }
    // bounds check of an access; returns false if certainly outside (path ends)
    bool bounds(State& s, int id, Term off, unsigned n, const Instruction* at)
    {
        auto& inf = objs[id];
        if(!inf.size) return true;
        Term d = norm(s, P.addT(inf.size, off, ~0ull));
        VSet v = vs(s, d); VSet good = VSet::range(n, maskOf(64) >> 1);
        VSet in = VSet::inter(v, good);
        if(in == v) return true;
        alarm("oob", at, inf.kind + " " + inf.name + " size " + P.str(inf.size) + " offset " + P.str(off) + " access " + std::to_string(n), s);
        if(in.empty()) return false;
        return refine(s, d, in);
    }
    Val load(State& s, const Val& p0, Type* t, const Instruction* at, bool& dead)
    {
        Val p = p0.k == Val::I ? intToPtr(s, p0) : p0;
        if(p.k == Val::I && P.isC(norm(s, p.t)) && P.cv(norm(s, p.t)) == 0) { alarm("null", at, "load through a null pointer", s); dead = true; return Val(); }
        if(p.k != Val::Ptr) return unknown(t, "ld");
        Term off = norm(s, p.t); auto& inf = objs[p.obj];
        unsigned sz = DL.getTypeStoreSize(t);
        if(obj(s, p.obj) && obj(s, p.obj)->freed) alarm("freed", at, inf.name, s);
        if(!bounds(s, p.obj, off, sz, at)) { dead = true; return Val(); }
        if(P.isC(off)) return loadAt(s, p.obj, sgn(P.cv(off), 64), t);
        if(inf.buffer && !t->isPointerTy() && !t->isAggregateType()) { return Val::i(P.sym(bitsOf(t), inf.name + "[" + P.str(off) + "]" + (sz == inf.elem ? "" : ":" + std::to_string(sz)))); }
        Def df = obj(s, p.obj) ? obj(s, p.obj)->def : defaultDef(p.obj);
        // single location possible? small index set: keep a table term
        VSet v = vs(s, off);
        if(df == Def::Const && t->isIntegerTy() && bitsOf(t) <= 64) {
            u64 c0; std::vector<Slice> sl; P.parts(off, c0, sl); u64 stride = 0; for(auto& x : sl) stride = stride ? std::__gcd(stride, x.coef) : x.coef; if((i64)stride <= 0) stride = 1;
            u64 total = P.cv(inf.size);
            if(v.empty()) { dead = true; return Val(); }
            u64 lo = v.min(), hi = std::min(v.max(), total - sz);
            if((hi - lo) / stride < 70000) {
                Table tb{lo, stride, {}, {}};
                auto* gv = cast<GlobalVariable>(inf.g); bool ok = true;
                for(u64 o = lo; o <= hi; o += stride) { Constant* c = ConstantFoldLoadFromConst(const_cast<Constant*>(gv->getInitializer()), t, APInt(64, o), DL); auto* ci = dyn_cast_or_null<ConstantInt>(c); if(!ci) { ok = false; break; } tb.v.push_back(ci->getZExtValue()); if(v.contains(o)) tb.vals.iv.push_back({ci->getZExtValue(), ci->getZExtValue()}); }
                if(ok) { tb.vals.norm(); int id = -1; for(size_t i = 0; i < tables.size(); ++i) if(tables[i].base == tb.base && tables[i].stride == tb.stride && tables[i].v == tb.v) id = i; if(id < 0) { tables.push_back(tb); id = tables.size() - 1; }
                    return Val::i(norm(s, P.op(OpTable, bitsOf(t), {off}, id))); }
            }
        }
        return unknown(t, "ldx");
    }
    bool storev(State& s, const Val& p0, const Val& v, Type* t, const Instruction* at)
    {
        Val p = p0.k == Val::I ? intToPtr(s, p0) : p0;
        if(p.k == Val::I && P.isC(norm(s, p.t)) && P.cv(norm(s, p.t)) == 0) { alarm("null", at, "store through a null pointer", s); return false; }
        if(p.k != Val::Ptr) return true;
        Term off = norm(s, p.t);
        if(!bounds(s, p.obj, off, DL.getTypeStoreSize(t), at)) return false;
        if(objs[p.obj].buffer) { alarm("write-ro", at, objs[p.obj].name, s); return true; }
        if(auto* fo = obj(s, p.obj)) if(fo->frozen) { alarm("frozen", at, objs[p.obj].name, s); return true; }
        if(objs[p.obj].g) if(auto* gv = dyn_cast<GlobalVariable>(objs[p.obj].g)) if(gv->isConstant()) { alarm("write-ro", at, objs[p.obj].name, s); return true; }
        if(P.isC(off)) storeAt(s, p.obj, sgn(P.cv(off), 64), v, t); else havoc(s, p.obj);
        return true;
    }
    void copyMem(State& s, const Val& d0, const Val& s0, const Val& nv, const Instruction* at)
    {
        Val d = intToPtr(s, d0), q = intToPtr(s, s0);
        Term n = nv.k == Val::I ? norm(s, nv.t) : 0;
        if(n && P.isC(n) && P.cv(n) == 0) return;
        if(d.k != Val::Ptr) return;
        Term od = norm(s, d.t);
        if(q.k != Val::Ptr || !n || !P.isC(n) || P.cv(n) > 8192 || !P.isC(od) || !P.isC(norm(s, q.t))) {
            // an unknown number of bytes: check what can be checked
            if(q.k == Val::Ptr && n && objs[q.obj].size) rangeCheck(s, q.obj, norm(s, q.t), n, at);
            if(n && objs[d.obj].size) rangeCheck(s, d.obj, od, n, at);
            if(q.k == Val::Ptr && n && P.isC(n) && P.isC(od) && P.cv(n) <= 64 && objs[q.obj].buffer) {
                unsigned e = objs[q.obj].elem; u64 N = P.cv(n); Type* et = Type::getIntNTy(M.getContext(), 8 * e); bool dead = false;
                for(u64 i = 0; i + e <= N; i += e) { Val b = load(s, Val::p(q.obj, P.addC(q.t, i)), et, at, dead); if(dead) return; storeAt(s, d.obj, sgn(P.cv(od), 64) + i, b, et); }
                return;
            }
            havoc(s, d.obj); return;
        }
        i64 N = P.cv(n), fo = sgn(P.cv(norm(s, q.t)), 64), to = sgn(P.cv(od), 64);
        if(!bounds(s, q.obj, norm(s, q.t), (unsigned)N, at) || !bounds(s, d.obj, od, (unsigned)N, at)) return;
        struct C { i64 o; Cell c; }; std::vector<C> cs; i64 at0 = fo;
        Type* b8 = Type::getInt8Ty(M.getContext());
        const Obj* so = obj(s, q.obj); Def df = so ? so->def : defaultDef(q.obj);
        while(at0 < fo + N) {
            so = obj(s, q.obj);
            if(so) { auto it = so->cells.find(at0); if(it != so->cells.end() && at0 + (i64)it->second.size <= fo + N) { cs.push_back({at0 - fo, it->second}); at0 += it->second.size; continue; } }
            // gap up to the next cell
            i64 nx = fo + N; bool inside = false;
            if(so) { for(auto it = so->cells.upper_bound(at0 - 64); it != so->cells.end() && it->first < fo + N; ++it) { if(it->first <= at0 && it->first + (i64)it->second.size > at0) inside = true; if(it->first > at0) { nx = std::min(nx, it->first); break; } } }
            if(inside) { cs.push_back({at0 - fo, Cell{1, byteAt(s, q.obj, at0, b8)}}); ++at0; continue; }
            if(df == Def::Undef) { at0 = nx; continue; }
            // chunk of default content
            unsigned sz = 1; if(objs[q.obj].buffer) sz = objs[q.obj].elem; else for(unsigned k : {8u, 4u, 2u}) if(at0 % k == 0 && at0 + (i64)k <= nx) { sz = k; break; }
            Type* it = Type::getIntNTy(M.getContext(), sz * 8);
            Val v = sz == 8 && df == Def::Const ? constChunk(s, q.obj, at0) : loadAt(s, q.obj, at0, it);
            cs.push_back({at0 - fo, Cell{sz, v}}); at0 += sz;
        }
        if(objs[d.obj].buffer) return;
        if(auto* fo = obj(s, d.obj)) if(fo->frozen) { alarm("frozen", at, objs[d.obj].name, s); return; }
        Obj& o = wobj(s, d.obj); clearRange(s, o, to, N, d.obj);
        for(auto& c : cs) o.cells[to + c.o] = c.c;
        if(df == Def::Undef && o.def != Def::Undef) for(i64 b = 0; b < N;) { bool cov = false; for(auto& c : cs) if(b >= c.o && b < c.o + (i64)c.c.size) { b = c.o + c.c.size; cov = true; break; } if(!cov) { o.cells[to + b] = Cell{1, Val()}; ++b; } }
    }
    Val constChunk(State& s, int id, i64 off)
    {
        auto* gv = cast<GlobalVariable>(objs[id].g);
        Constant* c = ConstantFoldLoadFromConst(const_cast<Constant*>(gv->getInitializer()), PointerType::getUnqual(M.getContext()), APInt(64, off), DL);
        if(c && !isa<ConstantPointerNull>(c) && !isa<UndefValue>(c)) { Val v = fromConst(c); if(v.k == Val::Ptr) return v; }
        return loadAt(s, id, off, Type::getInt64Ty(M.getContext()));
    }
    void rangeCheck(State& s, int id, Term off, Term n, const Instruction* at)
    {
        // off + n <= size ?
        Term d = norm(s, P.addT(P.addT(objs[id].size, off, ~0ull), n, ~0ull)); VSet v = vs(s, d);
        if(!v.subsetOf(VSet::range(0, maskOf(64) >> 1))) alarm("oob-range", at, objs[id].name + " size " + P.str(objs[id].size) + " offset " + P.str(off) + " length " + P.str(n), s);
    }

    // ---------------------------------------------------------------- function info
    FnInfo& info(const Function* f)
    {
        auto& p = fi[f]; if(p) return *p;
        p = std::make_unique<FnInfo>(); FnInfo& x = *p;
        for(auto& a : f->args()) x.slot[&a] = x.nslots++;
        ReversePostOrderTraversal<const Function*> rpo(f);
        for(auto* b : rpo) { x.rpo[b] = x.order.size(); x.order.push_back(b); for(auto& i : *b) if(!i.getType()->isVoidTy()) x.slot[&i] = x.nslots++; }
        x.dt = std::make_unique<DominatorTree>(const_cast<Function&>(*f)); x.li = std::make_unique<LoopInfo>(*x.dt);
        // retreating-edge targets are treated as headers (handles irreducible graphs too)
        for(auto* b : x.order) for(auto* su : successors(b)) if(x.rpo.count(su) && x.rpo[su] <= x.rpo[b] && !x.header.count(su)) { int k = x.header.size(); x.header[su] = k; }
        // liveness
        size_t nb = x.order.size(); x.liveIn.assign(nb, std::vector<bool>(x.nslots, false)); bool ch = true;
        while(ch) {
            ch = false;
            for(size_t bi = nb; bi-- > 0;) {
                auto* b = x.order[bi]; std::vector<bool> l(x.nslots, false);
                for(auto* su : successors(b)) { if(!x.rpo.count(su)) continue; auto q = x.liveIn[x.rpo[su]]; for(auto& ph : su->phis()) q[x.slot[&ph]] = false; for(int i = 0; i < x.nslots; ++i) if(q[i]) l[i] = true;
                    for(auto& ph : su->phis()) { auto* v = ph.getIncomingValueForBlock(b); auto it = x.slot.find(v); if(it != x.slot.end()) l[it->second] = true; } }
                for(auto it = b->rbegin(); it != b->rend(); ++it) { auto& in = *it; auto sl = x.slot.find(&in); if(isa<PHINode>(in)) { /* defined at the edge: live in */ continue; } if(sl != x.slot.end()) l[sl->second] = false; for(auto& o : in.operands()) { auto q = x.slot.find(o.get()); if(q != x.slot.end()) l[q->second] = true; } }
                // phis of this block used here or later stay live-in; unused ones are harmless
                if(l != x.liveIn[bi]) { x.liveIn[bi] = l; ch = true; }
            }
        }
        return x;
    }

    // ---------------------------------------------------------------- joins
    static bool mentions(Term t, const std::set<Term>& ss) { std::vector<Term> a; P.atoms(t, a); for(auto x : a) if(ss.count(x)) return true; return false; }
    // join two values; `nm` names the fresh symbol
    Val joinVal(State& out, const State& a, const Val& x, const State& b, const Val& y, const std::string& nm, bool widen)
    {
        if(x == y) return x;
        if(x.k == Val::U || y.k == Val::U) return Val();
        if(x.k == Val::A && y.k == Val::A && x.a->size() == y.a->size()) { std::vector<Val> v; for(size_t i = 0; i < x.a->size(); ++i) v.push_back(joinVal(out, a, (*x.a)[i], b, (*y.a)[i], nm + "." + std::to_string(i), widen)); return Val::agg(v); }
        auto joinT = [&](Term p, Term q) {
            unsigned w = P.w(p); VSet u = VSet::uni(vs(a, p), vs(b, q));
            if(widen) u = widenVs(vs(a, p), u, w);
            Term f = P.sym(w, nm); setCons(out, f, u); return f; };
        if(x.k == Val::I && y.k == Val::I) { if(P.w(x.t) != P.w(y.t)) return Val(); return Val::i(joinT(x.t, y.t)); }
        if(x.k == Val::Ptr && y.k == Val::Ptr && x.obj == y.obj) {
            Term sz = objs[x.obj].size;
            if(objs[x.obj].buffer && sz && !P.isC(sz)) { // anchor at the end:  off = size - elem*r
                unsigned e = objs[x.obj].elem; State ta = a, tb = b; Term ra = P.addT(sz, x.t, ~0ull), rb = P.addT(sz, y.t, ~0ull);
                if(e > 1) { Term qa = divLin(ta, ra, e), qb = divLin(tb, rb, e); if(qa && qb) { Term f = joinT(qa, qb); return Val::p(x.obj, P.addT(sz, P.scale(f, e), ~0ull)); } }
                else { Term f = joinT(ra, rb); return Val::p(x.obj, P.addT(sz, f, ~0ull)); }
            }
            // keep the stride
            Term df = P.addT(y.t, x.t, ~0ull); 
            if(P.isC(x.t) && P.isC(df)) { u64 g = P.cv(df); i64 sg = (i64)g; u64 st = sg < 0 ? (u64)-sg : g; if(st > 1 && !(st & (st - 1))) { } }
            return Val::p(x.obj, joinT(x.t, y.t));
        }
        // null-or-pointer and other mixtures: an unknown
        if(x.k == Val::Ptr || y.k == Val::Ptr) { int id = lazyObj(nm + "?ptr", true); havoc(out, id); havocMixed(out, x, y); return Val::p(id, P.cst(64, 0)); }
        return Val();
    }
    void havocMixed(State&, const Val&, const Val&) { ++mixed; }
    size_t mixed = 0;
    static VSet widenVs(const VSet& old, const VSet& u, unsigned w)
    {
        if(old == u || old.empty() || u.empty()) return u;
        u64 lo = u.min(), hi = u.max(), m = maskOf(w);
        if(lo < old.min()) lo = 0;
        if(hi > old.max()) { static const u64 th[] = {1, 4, 9, 16, 127, 255, 65535, 0x7fffffffull, 0xffffffffull, 0x7fffffffffffffffull}; u64 n = m; for(u64 x : th) if(x >= hi && x < n) { n = x; break; } hi = n; }
        return VSet::range(lo, hi);
    }
    static std::set<std::string> starLabels(const Trace& from, const Trace& to) // events after `from`
    {
        std::set<std::string> r; auto t = to;
        while(t && t != from && !(from && t->len <= from->len)) { if(!t->e.star.empty()) { SmallVector<StringRef, 8> p; StringRef(t->e.star).split(p, '|'); for(auto& x : p) r.insert(x.str()); } else r.insert(evLabel(t->e)); t = t->up; }
        return r;
    }
    static std::string evLabel(const Ev& e)
    {
        std::string r = e.name + "("; for(size_t i = 0; i < e.args.size(); ++i) r += (i ? "," : "") + (e.args[i].k == Val::I ? (P.isC(e.args[i].t) ? P.str(e.args[i].t) : std::string("?")) : std::string("*")); return r + ")";
    }
    State joinState(const State& a, Frame& fa, const State& b, const Frame& fb, const std::string& nm, bool widen, const std::vector<bool>* live, Term watermark)
    {
        ++joins;
        State o; o.cons = std::make_shared<Cons>(); o.trace = a.trace; o.und = std::max(a.und, b.und); o.caught = a.caught; o.excType = a.excType; o.excObj = a.excObj; o.excSel = a.excSel;
        auto c = std::make_shared<Cons>();
        for(auto& [t, v] : *a.cons) {
            auto it = b.cons->find(t);
            if(it != b.cons->end()) { VSet u = VSet::uni(v, it->second); if(widen) u = widenVs(v, u, P.w(t)); if(!u.isFull(P.w(t))) (*c)[t] = u; }
            else { // implied in b?
                VSet vb = vs(b, t); if(!vb.isFull(P.w(t))) { VSet u = VSet::uni(v, vb); if(widen) u = widenVs(v, u, P.w(t)); if(!u.isFull(P.w(t))) (*c)[t] = u; } }
        }
        for(auto& [t, v] : *b.cons) if(!a.cons->count(t)) { VSet va = vs(a, t); if(va.isFull(P.w(t))) continue; VSet u = VSet::uni(v, va); if(widen) u = widenVs(va, u, P.w(t)); if(!u.isFull(P.w(t))) (*c)[t] = u; }
        o.cons = c;
        auto mm = std::make_shared<MemMap>();
        for(auto& [id, pa] : *a.mem) {
            auto it = b.mem->find(id);
            if(it == b.mem->end()) { (*mm)[id] = pa; continue; }
            if(pa == it->second || *pa == *it->second) { (*mm)[id] = pa; continue; }
            const Obj &x = *pa, &y = *it->second; auto r = std::make_shared<Obj>();
            r->def = x.def == y.def ? x.def : (x.def == Def::Undef || y.def == Def::Undef ? Def::Undef : Def::Lazy);
            r->epoch = x.epoch == y.epoch ? x.epoch : ++fresh; r->freed = x.freed || y.freed; r->frozen = x.frozen && y.frozen;
            if(x.def == Def::Lazy || y.def == Def::Lazy) { if(x.def != y.def) r->epoch = ++fresh; }
            for(auto& [off, ca] : x.cells) {
                auto q = y.cells.find(off);
                if(q != y.cells.end() && q->second.size == ca.size) { r->cells[off] = Cell{ca.size, joinVal(o, a, ca.v, b, q->second.v, nm + ":" + std::to_string(id) + "+" + std::to_string(off), widen)}; }
                else if(r->def == Def::Lazy && q == y.cells.end() && x.epoch == y.epoch && x.def == y.def) { r->cells[off] = ca; if(ca.v.k == Val::I && P[ca.v.t].k == Node::Sym) {} else r->cells[off] = Cell{ca.size, weak(o, ca, nm, id, off)}; }
                else r->cells[off] = Cell{ca.size, r->def == Def::Lazy || r->def == Def::Zero || r->def == Def::Const ? weak(o, ca, nm, id, off) : Val()};
            }
            for(auto& [off, cb] : y.cells) if(!r->cells.count(off) && !x.cells.count(off)) { bool ov = false; for(auto k = r->cells.upper_bound(off - 64); k != r->cells.end() && k->first < off + (i64)cb.size; ++k) if(k->first + (i64)k->second.size > off) ov = true; if(!ov) r->cells[off] = Cell{cb.size, r->def == Def::Undef ? Val() : weak(o, cb, nm, id, off)}; }
            (*mm)[id] = r;
        }
        for(auto& [id, pb] : *b.mem) if(!a.mem->count(id)) (*mm)[id] = pb;
        // objects created by joinVal
        for(auto& [id, p] : *o.mem) if(!mm->count(id)) (*mm)[id] = p;
        o.mem = mm;
        for(auto& [k, v] : a.outs) { auto it = b.outs.find(k); o.outs[k] = it == b.outs.end() ? Val() : joinVal(o, a, v, b, it->second, nm + ":out:" + k, widen); }
        for(auto& [k, v] : b.outs) if(!a.outs.count(k)) o.outs[k] = Val();
        for(size_t i = 0; i < fa.env.size(); ++i) { if(live && !(*live)[i]) { fa.env[i] = Val(); continue; } fa.env[i] = joinVal(o, a, fa.env[i], b, fb.env[i], nm + ":r" + std::to_string(i), widen); }
        for(size_t i = 0; i < fa.lc.size(); ++i) { fa.lc[i].n = std::max(fa.lc[i].n, fb.lc[i].n); fa.lc[i].joined |= fb.lc[i].joined; }
        return o;
    }
    Val weak(State& o, const Cell& c, const std::string& nm, int id, i64 off)
    {
        if(c.v.k == Val::I) return Val::i(P.sym(P.w(c.v.t), nm + ":w" + std::to_string(id) + "+" + std::to_string(off)));
        return Val();
    }
    // does `b` fit inside `a` (up to renaming of a's own join symbols, prefix nm)?
    bool fits(const State& a, const Frame& fa, const State& b, const Frame& fb, const std::string& nm, const std::vector<bool>* live)
    {
        std::map<Term, Term> sub;
        auto own = [&](Term t) { return P[t].k == Node::Sym && StringRef(P[t].name).starts_with(nm); };
        std::function<bool(Term, Term)> mt = [&](Term x, Term y) -> bool {
            if(P.w(x) != P.w(y)) return false;
            if(own(x)) { auto it = sub.find(x); if(it != sub.end()) return it->second == y; if(!vs(b, y).subsetOf(vs(a, x))) return false; sub[x] = y; return true; }
            if(x == y) return true;
            // size - e*r
            if(P[x].k == Node::Lin) { const auto n = P[x]; for(auto& s : n.sl) if(own(s.atom) && s.lo == 0 && s.len == P.w(s.atom)) {
                std::vector<Slice> rest; for(auto& q : n.sl) if(!(q == s)) rest.push_back(q);
                Term base = P.lin(n.w, n.c, rest); Term r = P.addT(y, base, ~0ull); State tb = b; Term q = s.coef == 1 ? r : divLin(tb, r, s.coef); if(!q) return false; if(P.w(q) != P.w(s.atom)) return false; return mt(s.atom, q); } }
            return false; };
        std::function<bool(const Val&, const Val&)> mv = [&](const Val& x, const Val& y) -> bool {
            if(x.k == Val::U) return true;
            if(x == y) { if(x.k == Val::I) return mt(x.t, y.t); if(x.k == Val::Ptr) return mt(x.t, y.t); return true; }
            if(x.k != y.k) { if(x.k == Val::Ptr && StringRef(objs[x.obj].name).starts_with(nm)) return true; return false; }
            if(x.k == Val::I) return mt(x.t, y.t);
            if(x.k == Val::Ptr) { if(x.obj != y.obj) return StringRef(objs[x.obj].name).starts_with(nm); return mt(x.t, y.t); }
            if(x.a->size() != y.a->size()) return false;
            for(size_t i = 0; i < x.a->size(); ++i) if(!mv((*x.a)[i], (*y.a)[i])) return false;
            return true; };
        for(size_t i = 0; i < fa.env.size(); ++i) { if(live && !(*live)[i]) continue; if(!mv(fa.env[i], fb.env[i])) return false; }
        for(auto& [id, pb] : *b.mem) {
            auto it = a.mem->find(id); if(it == a.mem->end()) { if(pb->cells.empty()) continue; if(objs[id].kind == "alloca" || objs[id].kind == "heap") continue; if(pb->def == Def::Lazy && pb->epoch == 0 && lazyClean(*pb)) continue; return false; }
            if(it->second == pb) continue;
            const Obj &x = *it->second, &y = *pb;
            if(x.def != y.def) { if(!(x.def == Def::Undef || x.def == Def::Lazy)) return false; }
            for(auto& [off, ca] : x.cells) { auto q = y.cells.find(off); if(q == y.cells.end()) { if(ca.v.k == Val::U) continue; if(ca.v.k == Val::I && own(ca.v.t) && vs(a, ca.v.t).isFull(P.w(ca.v.t))) continue; if(x.def == Def::Lazy && y.def == Def::Lazy && x.epoch == y.epoch) continue; return false; } if(q->second.size != ca.size) return ca.v.k == Val::U ? true : false; if(!mv(ca.v, q->second.v)) return false; }
            if(x.def != Def::Undef) for(auto& [off, cb] : y.cells) if(!x.cells.count(off)) { if(x.def == Def::Lazy && (y.def != Def::Lazy || x.epoch != y.epoch)) continue; if(cb.v.k == Val::I && P[cb.v.t].k == Node::Sym && x.def == Def::Lazy) continue; return false; }
        }
        for(auto& [k, v] : b.outs) { auto it = a.outs.find(k); if(it == a.outs.end()) return false; if(!mv(it->second, v)) return false; }
        for(auto& [t, v] : *a.cons) { if(own(t)) continue; std::vector<Term> at; P.atoms(t, at); bool o = false; for(auto x : at) if(own(x)) o = true; Term tt = t; if(o) { tt = substT(t, sub); if(!tt) { continue; } } if(!vs(b, tt).subsetOf(v)) return false; }
        return true;
    }
    static bool lazyClean(const Obj& o) { for(auto& c : o.cells) if(!(c.second.v.k == Val::Ptr || (c.second.v.k == Val::I && P[c.second.v.t].k == Node::Sym))) return false; return true; }
    Term substT(Term t, const std::map<Term, Term>& sub)
    {
        const Node n = P[t];
        if(n.k == Node::Const) return t;
        if(n.k == Node::Sym) { auto it = sub.find(t); return it == sub.end() ? t : it->second; }
        if(n.k == Node::Lin) { Term r = P.cst(n.w, n.c); for(auto& s : n.sl) { Term a = substT(s.atom, sub); if(!a) return 0; if(a == s.atom) r = P.addT(r, P.lin(n.w, 0, {s})); else { if(!(s.lo == 0 && s.len == P.w(s.atom) && P.w(s.atom) == n.w)) return 0; r = P.addT(r, a, s.coef); } } return r; }
        std::vector<Term> as; for(auto a : n.args) { Term q = substT(a, sub); if(!q) return 0; as.push_back(q); }
        return P.op(n.op, n.w, as, n.sub);
    }
#include "ai_exec.inc"
};
} // namespace
#include "ai_cmd.inc"
} // namespace pap
