// Terms (bit-slice linear forms) and value sets for the abstract interpreter.
#pragma once
#include <cstdint>
#include <vector>
#include <deque>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <functional>
#include <cassert>

namespace pap {
using u64 = uint64_t; using i64 = int64_t; using u128 = unsigned __int128; using i128 = __int128;
using Term = int; // index into the pool; 0 = invalid

inline u64 maskOf(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sgn(u64 v, unsigned w) { if(w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskOf(w); return (i64)((v ^ m) - m); }

// sorted, disjoint, non-adjacent unsigned intervals
struct VSet {
    std::vector<std::pair<u64, u64>> iv;
    static VSet full(unsigned w) { VSet s; s.iv.push_back({0, maskOf(w)}); return s; }
    static VSet one(u64 v) { VSet s; s.iv.push_back({v, v}); return s; }
    static VSet range(u64 a, u64 b) { VSet s; s.iv.push_back({a, b}); return s; }
    bool empty() const { return iv.empty(); }
    bool single() const { return iv.size() == 1 && iv[0].first == iv[0].second; }
    bool isFull(unsigned w) const { return iv.size() == 1 && iv[0].first == 0 && iv[0].second == maskOf(w); }
    u64 min() const { return iv.front().first; }
    u64 max() const { return iv.back().second; }
    bool contains(u64 v) const { for(auto& p : iv) if(v >= p.first && v <= p.second) return true; return false; }
    u64 count() const { u64 n = 0; for(auto& p : iv) { u64 d = p.second - p.first; if(d == ~0ull) return ~0ull; if(n + d + 1 < n) return ~0ull; n += d + 1; } return n; }
    void norm() {
        std::sort(iv.begin(), iv.end());
        std::vector<std::pair<u64, u64>> r;
        for(auto& p : iv) {
            if(!r.empty() && (r.back().second == ~0ull || p.first <= r.back().second + 1)) { r.back().second = std::max(r.back().second, p.second); }
            else r.push_back(p);
        }
        if(r.size() > 600) { // hull the smallest gaps away
            std::vector<u64> gaps; for(size_t i = 1; i < r.size(); ++i) gaps.push_back(r[i].first - r[i - 1].second);
            std::nth_element(gaps.begin(), gaps.begin() + (gaps.size() - 500), gaps.end()); u64 g = gaps[gaps.size() - 500];
            std::vector<std::pair<u64, u64>> q; for(auto& p : r) if(!q.empty() && p.first - q.back().second <= g) q.back().second = p.second; else q.push_back(p);
            r = q;
        }
        iv = std::move(r);
    }
    static VSet uni(const VSet& a, const VSet& b) { VSet s; s.iv = a.iv; s.iv.insert(s.iv.end(), b.iv.begin(), b.iv.end()); s.norm(); return s; }
    static VSet inter(const VSet& a, const VSet& b) {
        VSet s; size_t i = 0, j = 0;
        while(i < a.iv.size() && j < b.iv.size()) {
            u64 l = std::max(a.iv[i].first, b.iv[j].first), h = std::min(a.iv[i].second, b.iv[j].second);
            if(l <= h) s.iv.push_back({l, h});
            if(a.iv[i].second < b.iv[j].second) ++i; else ++j;
        }
        return s;
    }
    VSet compl_(unsigned w) const {
        VSet s; u64 m = maskOf(w), cur = 0; bool done = false;
        for(auto& p : iv) { if(p.first > cur) s.iv.push_back({cur, p.first - 1}); if(p.second >= m) { done = true; break; } cur = p.second + 1; }
        if(!done) s.iv.push_back({cur, m});
        return s;
    }
    bool subsetOf(const VSet& b) const { return inter(*this, b) == *this; }
    bool operator==(const VSet& o) const { return iv == o.iv; }
    // {v + c mod 2^w}
    VSet shift(u64 c, unsigned w) const {
        u64 m = maskOf(w); VSet s;
        for(auto& p : iv) {
            u64 a = (p.first + c) & m, b = (p.second + c) & m;
            if(p.second - p.first >= m) return full(w);
            if(a <= b) s.iv.push_back({a, b}); else { s.iv.push_back({a, m}); s.iv.push_back({0, b}); }
        }
        s.norm(); return s;
    }
    VSet neg(unsigned w) const { // {-v}
        u64 m = maskOf(w); VSet s;
        for(auto& p : iv) {
            u64 a = p.first, b = p.second;
            if(a == 0) { s.iv.push_back({0, 0}); if(b == 0) continue; a = 1; }
            s.iv.push_back({(0 - b) & m, (0 - a) & m});
        }
        s.norm(); return s;
    }
    static VSet cmp(int pred, u64 c, unsigned w); // {v : v pred c}; pred: 0 eq 1 ne 2 ult 3 ule 4 ugt 5 uge 6 slt 7 sle 8 sgt 9 sge
};
inline VSet VSet::cmp(int pred, u64 c, unsigned w)
{
    u64 m = maskOf(w), sb = 1ull << (w - 1); c &= m; VSet s;
    auto rng = [&](u64 a, u64 b) { if(a <= b) s.iv.push_back({a, b}); };
    switch(pred) {
    case 0: rng(c, c); break;
    case 1: s = one(c).compl_(w); break;
    case 2: if(c) rng(0, c - 1); break;
    case 3: rng(0, c); break;
    case 4: if(c != m) rng(c + 1, m); break;
    case 5: rng(c, m); break;
    default: { // signed: work in biased space
        u64 bc = c ^ sb; VSet t = cmp(pred - 4, bc, w);
        for(auto& p : t.iv) { // un-bias
            u64 a = p.first, b = p.second;
            if(a < sb && b >= sb) { s.iv.push_back({a ^ sb, m}); s.iv.push_back({0, b ^ sb}); }
            else s.iv.push_back({a ^ sb, b ^ sb});
        }
        s.norm(); }
    }
    return s;
}

enum Op : int { OpICmp = 1, OpSExt, OpZExt, OpAnd, OpOr, OpXor, OpUDiv, OpURem, OpSDiv, OpSRem, OpLShr, OpAShr, OpShl, OpMul, OpSelect, OpTable, OpMisc };

struct Slice { u64 coef; Term atom; unsigned lo, len; bool operator==(const Slice& o) const { return coef == o.coef && atom == o.atom && lo == o.lo && len == o.len; } };
struct Node {
    enum K { Const, Sym, Lin, OpN } k; unsigned w = 0; u64 c = 0;
    std::vector<Slice> sl;           // Lin
    int op = 0, sub = 0; std::vector<Term> args; // OpN (sub: predicate / table id)
    std::string name;                // Sym
};

struct Pool {
    std::deque<Node> n{Node{Node::Const}}; // references stay valid
    std::unordered_map<std::string, Term> idx;
    const Node& operator[](Term t) const { return n[t]; }
    unsigned w(Term t) const { return n[t].w; }
    Term add(std::string key, Node nd) {
        auto it = idx.find(key);
        if(it != idx.end()) return it->second;
        n.push_back(std::move(nd)); return idx[key] = (Term)n.size() - 1;
    }
    Term cst(unsigned w, u64 v) { v &= maskOf(w); Node d{Node::Const}; d.w = w; d.c = v; return add("c" + std::to_string(w) + ":" + std::to_string(v), d); }
    Term sym(unsigned w, const std::string& name) { Node d{Node::Sym}; d.w = w; d.name = name; return add("s" + std::to_string(w) + ":" + name, d); }
    Term op(int o, unsigned w, std::vector<Term> a, int sub = 0) {
        std::string k = "o" + std::to_string(o) + "." + std::to_string(sub) + "." + std::to_string(w);
        for(auto t : a) k += "," + std::to_string(t);
        Node d{Node::OpN}; d.w = w; d.op = o; d.sub = sub; d.args = std::move(a); return add(k, d);
    }
    bool isC(Term t) const { return n[t].k == Node::Const; }
    u64 cv(Term t) const { return n[t].c; }
    // build a canonical Lin
    Term lin(unsigned w, u64 c0, std::vector<Slice> s) {
        u64 m = maskOf(w); c0 &= m;
        // trim, drop
        auto clean = [&](std::vector<Slice>& v) {
            std::vector<Slice> r;
            for(auto x : v) {
                x.coef &= m; if(!x.coef || !x.len) continue;
                unsigned tz = __builtin_ctzll(x.coef);
                if(x.len > w - tz) x.len = w - tz;
                if(isC(x.atom)) { c0 = (c0 + x.coef * ((cv(x.atom) >> x.lo) & maskOf(x.len))) & m; continue; }
                r.push_back(x);
            }
            v = r;
        };
        clean(s);
        bool ch = true;
        while(ch) {
            ch = false;
            std::sort(s.begin(), s.end(), [](const Slice& a, const Slice& b) { return std::tie(a.atom, a.lo, a.len, a.coef) < std::tie(b.atom, b.lo, b.len, b.coef); });
            for(size_t i = 0; i < s.size() && !ch; ++i) for(size_t j = 0; j < s.size() && !ch; ++j) {
                if(i == j || s[i].atom != s[j].atom) continue;
                if(i < j && s[i].lo == s[j].lo && s[i].len == s[j].len) { s[i].coef += s[j].coef; s.erase(s.begin() + j); ch = true; }
                else if(s[j].lo == s[i].lo + s[i].len && s[i].len < 64 && s[j].coef == ((s[i].coef << s[i].len) & m)) { s[i].len += s[j].len; s.erase(s.begin() + j); ch = true; }
                else if(s[i].lo == s[j].lo && s[i].len > s[j].len) { // split the longer one at the common prefix so that they cancel
                    Slice hi = s[i]; hi.lo += s[j].len; hi.len -= s[j].len; hi.coef = (s[j].len < 64 ? s[i].coef << s[j].len : 0) & m;
                    u64 nc = (s[i].coef + s[j].coef) & m;
                    if(nc == 0) { s[i] = hi; s.erase(s.begin() + j); ch = true; }
                }
            }
            if(ch) clean(s);
        }
        if(s.empty()) return cst(w, c0);
        if(c0 == 0 && s.size() == 1 && s[0].coef == 1 && s[0].lo == 0 && s[0].len == w && n[s[0].atom].w == w) return s[0].atom;
        std::string k = "l" + std::to_string(w) + ":" + std::to_string(c0);
        for(auto& x : s) k += ";" + std::to_string(x.coef) + "," + std::to_string(x.atom) + "," + std::to_string(x.lo) + "," + std::to_string(x.len);
        Node d{Node::Lin}; d.w = w; d.c = c0; d.sl = std::move(s); return add(k, d);
    }
    void parts(Term t, u64& c0, std::vector<Slice>& s) const {
        auto& x = n[t];
        if(x.k == Node::Const) { c0 = x.c; s.clear(); }
        else if(x.k == Node::Lin) { c0 = x.c; s = x.sl; }
        else { c0 = 0; s = {Slice{1, t, 0, x.w}}; }
    }
    Term addT(Term a, Term b, u64 cb = 1) { // a + cb*b
        unsigned wd = w(a); u64 c1, c2; std::vector<Slice> s1, s2; parts(a, c1, s1); parts(b, c2, s2);
        for(auto x : s2) { x.coef *= cb; s1.push_back(x); }
        return lin(wd, c1 + cb * c2, s1);
    }
    Term addC(Term a, u64 c) { return addT(a, cst(w(a), c)); }
    Term neg(Term a) { return addT(cst(w(a), 0), a, ~0ull); }
    Term scale(Term a, u64 k) { return addT(cst(w(a), 0), a, k); }
    void atoms(Term t, std::vector<Term>& out) const {
        auto& x = n[t];
        if(x.k == Node::Sym) out.push_back(t);
        else if(x.k == Node::Lin) for(auto& s : x.sl) atoms(s.atom, out);
        else if(x.k == Node::OpN) for(auto a : x.args) atoms(a, out);
    }
    std::string str(Term t) const {
        auto& x = n[t];
        switch(x.k) {
        case Node::Const: return std::to_string(sgn(x.c, x.w));
        case Node::Sym: return x.name;
        case Node::Lin: { std::string r = x.c ? std::to_string(sgn(x.c, x.w)) : "";
            for(auto& s : x.sl) { r += r.empty() ? "" : "+"; if(s.coef != 1) r += std::to_string(sgn(s.coef, x.w)) + "*"; r += str(s.atom); if(!(s.lo == 0 && s.len == n[s.atom].w)) r += "[" + std::to_string(s.lo) + ":" + std::to_string(s.len) + "]"; }
            return "(" + r + ")"; }
        case Node::OpN: { static const char* nm[] = {"?", "icmp", "sext", "zext", "and", "or", "xor", "udiv", "urem", "sdiv", "srem", "lshr", "ashr", "shl", "mul", "select", "table", "misc"};
            std::string r = std::string(nm[x.op]) + "." + std::to_string(x.sub) + "(";
            for(size_t i = 0; i < x.args.size(); ++i) r += (i ? "," : "") + str(x.args[i]);
            return r + ")"; }
        }
        return "?";
    }
};
} // namespace pap
