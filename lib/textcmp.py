"""Compares the outcomes of roots that process a text with unknown units against a reference.

A root has a base text, positions of unknown units (holes), further unknown inputs (vars) and a reference
ref(units, env) -> list of acceptable results: ("ok", [(event, args, optional)]), ("throw",) or ("any",)."""
import itertools, multiprocessing as mp
import oracle, ai

class Const:
    """the address of an object; distinguished only where the root names it"""
    def __init__(self, v): self.v, self.names = v, []
    def at(self, env): return self.v

class Root:
    def __init__(self, base, holes, ref, vars=None, tag="", text=True, special=None, dense=130, ptrs=None, stop=None):
        self.base, self.holes, self.ref, self.vars, self.tag, self.text = base, holes, ref, vars or {}, tag, text
        self.ptrs, self.stop = ptrs or {}, stop
        self.special, self.dense = SPECIAL if special is None else special, dense
        # vars: name -> (bits, candidates, always enumerated)

SPECIAL = sorted(set(range(0, 0x80)) | {0x80, 0xE9, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF})
def cell(k, units): return "s+%d:%d" % (k * units, units) if units > 1 else "s+%d" % k
def scalar(x): return x < 0xD800 or 0xE000 <= x < 0x110000

def show(ev):
    r = ""; out = []
    for n, a in ev:
        if n == "o": r += chr(a[0]) if a[0] < 0x110000 else "?"; continue
        if r: out.append(repr(r)); r = ""
        f = {"f": "format(arg %d, spec of %d)", "i": "index(%d)", "r": "slice(%d, %d)", "s": "key(length %d, first %d)", "a": "attribute(length %d, first %d)"}.get(n)
        out.append(f % tuple(a) if f and f.replace("%%", "").count("%") == len(a) else "%s%s" % (n, tuple(a)))
    if r or not out: out.append(repr(r))
    return "[" + " ".join(out) + "]"

def match(got, want):
    """got: list of (name, args); want may contain optional events"""
    i = 0
    for n, (name, args, opt) in enumerate(want):
        if i < len(got) and got[i] == (name, args) and not (opt and match(got[i:], want[n + 1:])): i += 1
        elif not opt: return False
    return i == len(got)

class FBox:
    """One outcome of a root: which inputs it covers, and the events it produces as functions of them."""
    def __init__(self, o, root, units):
        self.o = o; w = 8 * units
        self.hn = [cell(h, units) for h in root.holes]
        self.fixed = {cell(k, units): c for k, c in enumerate(root.base)}
        self.dom = {n: [(0, (1 << w) - 1)] for n in self.hn}
        for n, v in root.vars.items(): self.dom[n] = [(0, (1 << v[0]) - 1)]
        self.extra = []; self.used = set()
        names = set(self.fixed) | set(root.vars)
        for tm, v, s in o["cons"]:
            if tm[0] == "s":
                if tm[2] in self.dom: self.dom[tm[2]] = oracle.iv(v); self.used.add(tm[2])
            else:
                try:
                    e = oracle.Expr(tm)
                    if all(n in names for n in e.names) and (not e.names or set(e.names) & set(self.dom)): self.extra.append((e, oracle.iv(v))); self.used |= set(e.names)
                except oracle.Undecided: pass
        self.evs = None
        self.stopped = bool(root.stop) and o["kind"] == "stop" and o["info"] == "stop"      # a call of interest that ends the analysis of the path
        if o["kind"] == "ret" or self.stopped:
            self.evs = []
            for x in o["trace"]:
                if "star" in x: self.evs = None; break
                args = []
                for a in x["args"]:
                    if "t" in a and a["t"][0] == "s" and a["t"][2].startswith("&"): args.append(Const(root.ptrs.get(a["t"][2][1:], 0))); continue
                    try: args.append(oracle.Expr(a["t"]) if "t" in a else None)
                    except oracle.Undecided: args.append(None)
                    if args[-1] is not None and any(n not in names for n in args[-1].names): args[-1] = None
                    if args[-1] is not None: self.used |= set(args[-1].names)
                self.evs.append((x["ev"], args))
            if self.stopped and self.evs is not None and isinstance(root.stop, str): self.evs.append((root.stop, []))
    def holds(self, env): return all(any(a <= e.at(env) <= b for a, b in v) for e, v in self.extra)
    def covers(self, env): return all(any(a <= env[n] <= b for a, b in d) for n, d in self.dom.items()) and self.holds(env)
    def judge(self, env, want):
        """None: acceptable; ("?", why): unknown; (text,): wrong"""
        k = self.o["kind"]
        if want[0][0] == "any": return None
        if k == "throw": return None if ("throw",) in want else ("throws %s" % self.o["info"],)
        if (k != "ret" and not self.stopped) or self.evs is None: return ("?", "loop summary in the trace" if k == "ret" else k)
        if any(a is None for _, aa in self.evs for a in aa):
            if not any(x[0] == "ok" for x in want): return ("accepts it",)
            return ("?", "unknown value in the trace")
        got = [(nm, tuple(a.at(env) for a in aa)) for nm, aa in self.evs]
        return None if any(x[0] == "ok" and match(got, x[1]) for x in want) else ("does %s" % show(got),)

def compare(r, root, units):
    """(violations, counters, undecided).  A wrong result counts only where no other outcome that covers the same input is acceptable or unknown:
    outcomes over-approximate what the code does."""
    boxes = [FBox(o, root, units) for o in r["outcomes"] if not (o["kind"] == "stop" and o["info"] == "assume")]
    bad, und, points, cache = [], set(), 0, {}
    if r["budget_exceeded"]: return [], (0, 0), {r["root"] + ": " + str(r.get("why") or "step budget")}
    w = 8 * units
    def pick(d, special, dense=130):
        c = set()
        for a, b in d:
            c |= {a, b}
            if b - a < dense: c |= set(range(a, b + 1))
            c |= {x for x in special if a <= x <= b}
        return sorted(c)
    for bx in boxes:
        hv = [pick(bx.dom[n], [x for x in root.special if x < 1 << w], root.dense) for n in bx.hn]
        vn = list(root.vars)
        vv = []
        for n in vn:
            bits, cand, always = root.vars[n][:3]
            p = pick(bx.dom[n], [x & ((1 << bits) - 1) for x in cand], root.vars[n][3] if len(root.vars[n]) > 3 else 130)
            vv.append(p if always or n in bx.used else p[:1])
        stop = False
        for hs in itertools.product(*hv):
            if root.text and (any(not scalar(x) for x in hs) or (units == 1 and any(x >= 0x80 for x in hs))): continue
            s = list(root.base)
            for h, x in zip(root.holes, hs): s[h] = x
            for vs in itertools.product(*vv):
                env = dict(bx.fixed); env.update(zip(bx.hn, hs)); env.update(zip(vn, vs))
                if not bx.holds(env): continue
                points += 1
                key = (tuple(s), vs)
                if key not in cache: cache[key] = root.ref(s, dict(zip(vn, vs)))
                want = cache[key]
                if want is None: continue
                j = bx.judge(env, want)
                if j is None: continue
                if j[0] == "?": und.add("%s: %s" % (r["root"], j[1])); continue
                excused = False
                for b2 in boxes:
                    if b2 is not bx and b2.covers(env):
                        q = b2.judge(env, want)
                        if q is None or q[0] == "?": excused = True; break
                if excused: und.add("%s: more than one outcome covers an input" % r["root"]); continue
                wn = " or ".join("is rejected" if x[0] == "throw" else "does %s" % show([(a, b) for a, b, op in x[1] if not op]) for x in want)
                kind = "rejects" if bx.o["kind"] == "throw" else "accepts" if not any(x[0] == "ok" for x in want) else "events"
                bad.append((None, "".join(chr(x) if x < 0x110000 else "?" for x in s), dict(zip(vn, vs)), j[0], wn, kind, bx.o["at"])); stop = True; break
            if stop: break
    return bad, (len(boxes), points), und

def _job(k):
    res, roots, units = _ctx
    return k, compare(res[k], roots[k], units)
_ctx = None

def decide(c, ch, res, roots, select=lambda tag, kind: True, describe=None):
    """compare every root; reports violations; returns counters"""
    global _ctx
    units = {"char": 1, "char8_t": 1, "char16_t": 2}.get(ch, 4)
    _ctx = (res, roots, units)
    t = dict(roots=len(res), outcomes=0, points=0, steps=sum(r["steps"] for r in res.values()), fns=set(), und=set())
    with mp.get_context("fork").Pool(8) as pool: done = pool.map(_job, sorted(res), chunksize=4)
    for r in res.values(): t["fns"] |= set(r["lib_list"])
    seen = set()
    for k, (bad, (nb, np), und) in done:
        t["outcomes"] += nb; t["points"] += np; t["und"] |= und
        for _, text, env, got, want, kind, at in bad:
            root = roots[k]
            if not select(root.tag, kind): continue
            key = "%s:%s:%s" % (kind, root.tag, at[-40:].replace(" ", ""))
            key = "".join(x if 33 <= ord(x) < 127 else "_" for x in key)
            if key in seen: continue
            seen.add(key)
            ev = ", ".join("%s = %d" % (n, v - (1 << root.vars[n][0]) if v >> (root.vars[n][0] - 1) and root.vars[n][0] > 8 else v) for n, v in env.items())
            c.violate(key, "%s: %s %r%s %s, but it must be that it %s" % (root.tag, ch, text, " with " + ev if ev else "", got, want), at, ["root " + k])
    return t

def summarize(c, ts, text, **kw):
    und = sorted(set().union(*[t["und"] for t in ts])) if ts else []
    c.coverage = {"roots": sum(t["roots"] for t in ts), "outcomes": sum(t["outcomes"] for t in ts), "points_compared": sum(t["points"] for t in ts), "abstract_steps": sum(t["steps"] for t in ts),
                  "library_functions": len(set().union(*[t["fns"] for t in ts])), "undecided": und[:30], "undecided_count": len(und), **kw, "explanation": text}
