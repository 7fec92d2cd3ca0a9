"""P04: classification, counting, indexing, iteration and slicing of text in code points."""
import multiprocessing as mp
import ai, oracle
import utfref as U
from utfref import *

def refs():
    """root -> (symbols, pieces, reference)"""
    R = {}
    R["r_class8"] = ({"b": 8}, None, lambda e: {"lead": int(e["b"] >> 6 != 2), "trail": int(e["b"] >> 6 == 2)})
    R["r_count8"] = ({"b": 8}, None, lambda e: {"n": lead(e["b"])} if lead(e["b"]) > 0 else None)
    R["r_size8"] = ({"b": 8}, None, lambda e: {"n": lead(e["b"]), "m": lead(e["b"])} if lead(e["b"]) > 0 else None)
    R["r_class16"] = ({"u": 16}, None, lambda e: {"high": int(hi(e["u"])), "low": int(lo(e["u"]))})
    R["r_size32"] = ({"c": 32}, {"c": [(0, 0x7F), (0x80, 0x7FF), (0x800, 0xFFFF), (0x10000, 0x10FFFF), (0x110000, 0xFFFFFFFF)]}, lambda e: {"n": len(enc8(e["c"]))} if e["c"] <= 0x10FFFF else None)
    R["r_digit"] = ({"c": 32}, {"c": [(0, 0x2F), (0x30, 0x39), (0x3A, 0xFFFFFFFF)]}, lambda e: {"d": int(0x30 <= e["c"] <= 0x39)})
    R["r_space"] = ({"c": 32}, {"c": [(0, 8), (9, 13), (14, 31), (32, 32), (33, 0xFFFFFFFF)]}, lambda e: {"s": int(9 <= e["c"] <= 13 or e["c"] == 32)})
    def add(name, w, f, n=None): R[name] = (syms(w, n), pieces(w, n), f)
    # counting, with the policy for stray units
    def len8(pol, ptr):
        def f(e):
            bs, r, i = units(e, 4), 0, 0
            if ptr: bs = bs[:zero(bs)]
            while i < len(bs):
                n = lead(bs[i])
                if n < 0: return None
                if n == 0:
                    if pol == "exception": return ("throw", "invalid_byte")
                    if pol == "stop": return {"n": r}
                    r += pol == "replace"; i += 1; continue
                if i + n > len(bs): return None
                if any(b >> 6 != 2 for b in bs[i + 1:i + n]): return None
                r += 1; i += n
            return {"n": r}
        return f
    def len16(pol, ptr):
        def f(e):
            us, r, i = units(e, 3), 0, 0
            if ptr: us = us[:zero(us)]
            if U.split16(us) is not None: return {"n": len(U.split16(us))}
            if pol in ("replace", "ignore"): return None
            while i < len(us):
                if hi(us[i]):
                    if i + 1 >= len(us): return None
                    if not lo(us[i + 1]): return ("throw", "invalid_surrogate") if pol == "exception" else {"n": r}
                    i += 2; r += 1
                elif lo(us[i]): return ("throw", "invalid_surrogate") if pol == "exception" else {"n": r}
                else: i += 1; r += 1
        return f
    Z8 = {"b%d" % i: [(0, 0)] + [(1, 0x7F)] + P8[1:] for i in range(4)}
    Z16 = {"b%d" % i: [(0, 0), (1, 0xD7FF)] + P16[1:] for i in range(3)}
    for pol in ("replace", "ignore", "stop", "exception"):
        R["r_len8_" + pol] = (syms(8), pieces(8), len8(pol, False)); R["r_len8c_" + pol] = R["r_len8_" + pol]
        R["r_len8p_" + pol] = (syms(8), Z8, len8(pol, True))
        R["r_len16_" + pol] = (syms(16), pieces(16), len16(pol, False)); R["r_len16p_" + pol] = (syms(16), Z16, len16(pol, True))
    R["r_len32"] = (syms(32, 3), pieces(32, 3), lambda e: {"n": 3})
    R["r_len32p"] = (syms(32, 3), {"b%d" % i: [(0, 0), (1, 0xFFFFFFFF)] for i in range(3)}, lambda e: {"n": zero(units(e, 3))})
    def seq(w, fn):
        def f(e):
            us = units(e, N[w]); s = SPLIT[w](us)
            return None if s is None else fn(s, len(us))
        return f
    for w in (8, 16, 32):
        for k in range(3):
            add("r_idx%d_%d" % (w, k), w, seq(w, lambda s, n, k=k: {"o": s[k][0] if k < len(s) else NPOS}))
            add("r_rdx%d_%d" % (w, k), w, seq(w, lambda s, n, k=k: {"o": s[-1 - k][0] if k < len(s) else NPOS}))
        for k in (1, 2, 3):
            if w == 32 and k == 3: continue
            at = lambda s, n, i: s[i][0] if i < len(s) else n
            ln = lambda s, i: s[i][1] if i < len(s) else 0
            if w != 32: add("r_fwd%d_%d" % (w, k), w, seq(w, lambda s, n, k=k: {"o": at(s, n, min(k, len(s))), "n": min(k, len(s)), "l": ln(s, min(k, len(s))), "end": int(k >= len(s))}))
            else: add("r_fwd%d_%d" % (w, k), w, seq(w, lambda s, n, k=k: {"o": 4 * min(k, len(s)) // 4, "n": min(k, len(s)), "end": int(k >= len(s))}))
            add("r_bwd%d_%d" % (w, k), w, seq(w, lambda s, n, k=k: {"o": s[max(0, len(s) - k)][0], "n": min(k, len(s)), "l": s[max(0, len(s) - k)][1]}))
            if k < 3:
                add("r_cfwd%d_%d" % (w, k), w, seq(w, lambda s, n, k=k: {"o": at(s, n, min(k, len(s))), "end": int(k >= len(s))}))
                add("r_cbwd%d_%d" % (w, k), w, seq(w, lambda s, n, k=k: {"o": s[max(0, len(s) - k)][0]}))
        for k in (0, 1):
            add("r_at%d_%d" % (w, k), w, seq(w, lambda s, n, k=k: {"c": s[k][2]} if k < len(s) else ("throw", "out_of_range")))
            add("r_rat%d_%d" % (w, k), w, seq(w, lambda s, n, k=k: {"c": s[-1 - k][2]} if k < len(s) else ("throw", "out_of_range")))
        def sub(p, c):
            def f(s, n):
                if p > len(s): return ("throw", "out_of_range")
                q = s[p:p + c]
                return {"o": at(s, n, p), "z": sum(x[1] for x in q), "m": len(q)}
            return f
        for p, c in ((0, 1), (1, 1), (1, 9), (2, 0)): add("r_sub%d_%d_%d" % (w, p, c), w, seq(w, sub(p, c)))
        def slc(a, b):
            def f(s, n):
                if max(a if a >= 0 else -a, (b if b >= 0 else -b) if b is not None else 0) > len(s): return None # clipped
                q = s[a:b]
                return {"z": sum(x[1] for x in q), **({"o": q[0][0]} if q else {})}
            return f
        for nm, a, b in (("0_1", 0, 1), ("1_m1", 1, -1), ("m2_m1", -2, -1), ("m1_e", -1, None), ("2_1", 2, 1)): add("r_slice%d_%s" % (w, nm), w, seq(w, slc(a, b)))
    return R

def _one(name):
    r = _ctx["res"][name]; sy, pc, ref = _ctx["R"][name]
    d = oracle.decide_root(r, sy, ref, pieces=pc)
    return name, d.points, d.obligations, d.undecided, [(w, [str(x[2]) + " in " + str(x[1])[:200] for x in o["cons"]]) for w, o in d.bad[:2]]

def compare(c, harness, R, note, **cfg):
    """run the roots of one harness and compare every outcome with its reference"""
    res = ai.run(harness, sorted(R), **{"peel": 200, "K": 4000, **cfg})
    c.require(set(res) == set(R), "roots missing: %s" % sorted(set(R) - set(res)))
    t = dict(outcomes=0, points=0, steps=0, fns=0); und = []
    _ctx.update(res=res, R=R)
    with mp.get_context("fork").Pool(8) as pool:
        done = pool.map(_one, sorted(R), chunksize=1)
    for name, pts, obl, u, bad in done:
        r = res[name]
        t["outcomes"] += len(r["outcomes"]); t["points"] += pts; t["steps"] += r["steps"]; t["fns"] = max(t["fns"], r["lib_functions"])
        und += [name + ": " + x for x in u]
        if r["budget_exceeded"]: und.append(name + ": step budget")
        for what, cons in bad:
            c.violate(note + ":" + name, "%s (%s)" % (what, name), first_lib(r), cons)
    return t, und, res
_ctx = {}

def first_lib(r):
    return ", ".join(r.get("lib_list", [])[:6])

LEVEL = "other"
def run(c):
    R = refs()
    A = {k: v for k, v in R.items() if k in ("r_class8", "r_count8", "r_size8", "r_class16", "r_size32", "r_digit", "r_space")}
    B = {k: v for k, v in R.items() if k not in A}
    t1, u1, _ = compare(c, "utf.cpp", A, "P04")
    t2, u2, _ = compare(c, "utf2.cpp", B, "P04")
    c.coverage = {"roots": len(R), "outcomes": t1["outcomes"] + t2["outcomes"], "cells_compared": t1["points"] + t2["points"], "abstract_steps": t1["steps"] + t2["steps"],
                  "undecided_outputs": u1 + u2, "library_functions_per_root_max": max(t1["fns"], t2["fns"]),
                  "explanation": "Abstract interpretation of the code point primitives on texts of unknown code units (4 bytes, 3 UTF-16 units, 2 or 3 UTF-32 units). Every outcome is a box of inputs with a term per result; the terms are compared with the encodings' definitions cell by cell (cells: value classes split into cubes). Structurally incomplete text is only constrained where the chosen policy defines a result."}
    c.assumptions = ["texts longer than the arrays behave alike: the loops carry only the state the arrays exercise"]
    c.require(t2["outcomes"] >= 500, "too few outcomes analysed")
