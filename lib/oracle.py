"""Compares the terms the abstract interpreter computes with reference functions.

Each outcome of a root is a box of input values (unions of intervals), constraints and terms.  Small
boxes are compared value by value.  Larger ones are split into cubes with fixed and free bits, on
which a linear form of bit slices is determined by its value at the base and at each single bit."""
import itertools

ICMP = ["==", "!=", "<", "<=", ">", ">=", "<", "<=", ">", ">="]

class Undecided(Exception):
    pass

def _m(w): return (1 << w) - 1

def _sx(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v

def _shl(a, b): return a << b if b < 64 else 0
def _div(a, b): return a // b if b else 0
def _rem(a, b): return a % b if b else 0
def _sdiv(a, b, w):
    a, b = _sx(a, w), _sx(b, w)
    return 0 if not b else (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)
def _srem(a, b, w):
    a, b = _sx(a, w), _sx(b, w)
    return 0 if not b else (abs(a) % abs(b)) * (-1 if a < 0 else 1)

class Expr:
    """A term compiled to a Python function of its symbols."""
    def __init__(self, t):
        self.syms, self.tabs, self.affine = {}, [], True
        self.src = self._c(t)
        self.names = sorted(self.syms)
        ns = {"_sx": _sx, "_shl": _shl, "_div": _div, "_rem": _rem, "_sdiv": _sdiv, "_srem": _srem, "_T": self.tabs}
        self.fn = eval("lambda %s: %s" % (",".join(self.syms[n][0] for n in self.names), self.src), ns)
    def at(self, env): return self.fn(*[env[n] for n in self.names])
    def _c(self, t):
        k, w = t[0], t[1]
        if k == "c": return t[2]
        if k == "s":
            n = t[2]
            if n[0] in "$&L" or "'" in n: raise Undecided("unknown value " + n)
            if n not in self.syms: self.syms[n] = ("v%d" % len(self.syms), w)
            return self.syms[n][0]
        if k == "l":
            ps = [t[2]]
            for coef, atom, lo, ln in t[3]:
                if atom[0] not in "sc": self.affine = False
                a = self._c(atom)
                ps.append("%s*((%s>>%d)&%d)" % (coef, a, lo, _m(ln)))
            return "((%s)&%d)" % ("+".join(ps), _m(w))
        self.affine = False
        op, sub, args = t[2], t[3], t[4]
        a = [self._c(x) for x in args]; ws = [x[1] for x in args]; m = _m(w)
        if op == 1:
            if sub >= 6: return "int(_sx(%s,%d)%s_sx(%s,%d))" % (a[0], ws[0], ICMP[sub], a[1], ws[1])
            return "int(%s%s%s)" % (a[0], ICMP[sub], a[1])
        if op == 2: return "(_sx(%s,%d)&%d)" % (a[0], ws[0], m)
        if op == 3: return a[0]
        if op in (4, 5, 6): return "(%s%s%s)" % (a[0], {4: "&", 5: "|", 6: "^"}[op], a[1])
        if op == 7: return "_div(%s,%s)" % tuple(a)
        if op == 8: return "_rem(%s,%s)" % tuple(a)
        if op == 9: return "(_sdiv(%s,%s,%d)&%d)" % (a[0], a[1], w, m)
        if op == 10: return "(_srem(%s,%s,%d)&%d)" % (a[0], a[1], w, m)
        if op == 11: return "(%s>>%s)" % tuple(a)
        if op == 12: return "((_sx(%s,%d)>>%s)&%d)" % (a[0], w, a[1], m)
        if op == 13: return "(_shl(%s,%s)&%d)" % (a[0], a[1], m)
        if op == 14: return "((%s*%s)&%d)" % (a[0], a[1], m)
        if op == 15: return "(%s if %s else %s)" % (a[1], a[0], a[2])
        if op == 16:
            tb = t[5]; base, stride = int(tb["base"]), int(tb["stride"]); v = [int(x) for x in tb["v"]]
            self.tabs.append(v); i = len(self.tabs) - 1
            return "_T[%d][((%s)-%d)//%d]" % (i, a[0], base, stride)
        raise Undecided("operation %d" % op)

def iv(lst): return [(int(a), int(b)) for a, b in lst]
def count(v): return sum(b - a + 1 for a, b in v)

def values(v):
    for a, b in v:
        yield from range(a, b + 1)

def cubes(v):
    """aligned power-of-two intervals"""
    for a, b in v:
        while a <= b:
            k = (a & -a).bit_length() - 1 if a else 64
            while a + (1 << k) - 1 > b: k -= 1
            yield a, k
            a += 1 << k

def cut(v, ps):
    if not ps: return [v]
    out = []
    for p in ps:
        q = [(max(a, p[0]), min(b, p[1])) for a, b in v if max(a, p[0]) <= min(b, p[1])]
        if q: out.append(q)
    return out

class Result:
    def __init__(self): self.points = self.obligations = 0; self.bad = []; self.undecided = []

class Box:
    """One outcome: the inputs it covers and its results as functions of them."""
    def __init__(self, o, widths):
        self.o = o
        self.dom = {n: [(0, _m(w))] for n, w in widths.items()}
        self.extra, self.exprs, self.lost = [], {}, {}
        for t, v, s in o["cons"]:
            if t[0] == "s":
                if t[2] in self.dom: self.dom[t[2]] = iv(v)
            else:
                try:
                    e = Expr(t)
                    if e.names and all(n in self.dom for n in e.names): self.extra.append((e, iv(v)))
                except Undecided: pass
        for n, v in o["outs"].items():
            if "t" not in v: self.lost[n] = v; continue
            try:
                e = Expr(v["t"])
                if any(x not in self.dom for x in e.names): self.lost[n] = v
                else: self.exprs[n] = e
            except Undecided as x: self.lost[n] = str(x)
    def holds(self, env): return all(any(a <= e.at(env) <= b for a, b in v) for e, v in self.extra)
    def covers(self, env):
        return all(any(a <= env[n] <= b for a, b in d) for n, d in self.dom.items()) and self.holds(env)
    def judge(self, env, r):
        """None if acceptable, ("?", why) if unknown, (text,) if wrong; r: None | ("throw", substring|None) | ("any",) | outputs"""
        o = self.o
        if r is None: return None
        if isinstance(r, tuple):
            if r[0] == "any" or (o["kind"] == "throw" and (r[1] is None or r[1] in o["info"])): return None
            return ("expected an exception (%s), found %s" % (r[1] or "any", o["kind"]),)
        if o["kind"] != "ret": return ("expected %s, but the path ends with %s %s at %s" % (r, o["kind"], o["info"], o["at"]),)
        unk = None
        for n, w in r.items():
            if n in self.exprs:
                got = self.exprs[n].at(env)
                if got != w: return ("%s is 0x%X, expected 0x%X" % (n, got, w),)
            elif n in self.lost: unk = ("?", "%s: %s" % (n, str(self.lost[n])[:120]))
            else: return ("no output %s" % n,)
        return unk

def decide(box, others, ref, res, pieces=None, limit=1300000):
    """Compare one outcome with ref(env).  A wrong result counts only where no other outcome that covers the same input is acceptable or unknown
    (outcomes over-approximate: where the analysis lost track of a condition, both sides cover an input)."""
    o = box.o; dom = box.dom; exprs = box.exprs
    def show(env): return ", ".join("%s=0x%X" % (k, v) for k, v in env.items())
    def check(env, prove):
        res.points += 1
        r = ref(env)
        j = box.judge(env, r)
        if j is None: return True
        if j[0] == "?": res.undecided.append(j[1]); return True
        if not box.holds(env): return True
        for b in others:
            if b is not box and b.covers(env):
                q = b.judge(env, r)
                if q is None or q[0] == "?": res.undecided.append("more than one outcome covers an input"); return True
        res.bad.append(("%s: %s" % (show(env), j[0]), o)); return False
    names = list(dom)
    # symbols of full range that appear nowhere do not need enumeration
    res.obligations += 1
    total = 1
    for n in names: total *= count(dom[n])
    exact = all(e.affine for e in exprs.values())
    if total <= (20000 if exact and pieces else limit):
        for vals in itertools.product(*[list(values(dom[n])) for n in names]):
            if not check(dict(zip(names, vals)), True): return
        return
    if not exact: res.undecided.append("not a linear form")
    parts = [cut(dom[n], (pieces or {}).get(n)) for n in names]
    for combo in itertools.product(*parts):
        for cs in itertools.product(*[list(cubes(v)) for v in combo]):
            base = [c[0] for c in cs]
            if not check(dict(zip(names, base)), True): return
            for i, (b, k) in enumerate(cs):
                for bit in range(k):
                    p = list(base); p[i] |= 1 << bit
                    if not check(dict(zip(names, p)), True): return

def decide_root(r, syms, ref, **kw):
    res = Result()
    boxes = [Box(o, syms) for o in r["outcomes"]]
    if r["budget_exceeded"]: res.undecided.append("step budget"); return res
    for b in boxes: decide(b, boxes, ref, res, **kw)
    res.undecided = sorted(set(res.undecided))
    return res
