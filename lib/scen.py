"""Scenarios: small functions over unknown inputs, each with a reference that says what the observable steps must be."""
import os
import ai, build, textcmp

class Scen:
    """body: C++ statements of the root; vars: name -> (bits, candidates[, assume-ranges]); ref(env) -> list of acceptable results as in textcmp"""
    def __init__(self, name, body, vars, ref, tag=None, ptrs=None, stop=None):
        self.name, self.body, self.vars, self.ref, self.tag = name, body, vars, ref, tag or name; self.ptrs, self.stop = ptrs, stop

def source(fname, head, scens):
    s = head + "\n" + "\n".join('ROOT r_%s() { %s }' % (x.name, x.body) for x in scens) + "\n"
    d = os.path.join(build.BUILD, "gen"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, fname)
    if not os.path.exists(p) or open(p).read() != s:
        with open(p + ".tmp%d" % os.getpid(), "w") as f: f.write(s)
        os.replace(p + ".tmp%d" % os.getpid(), p)
    return p

def decide(c, fname, head, scens, ch="char", rules=(), only=(), timeout=120, defs=(), dense=130, **cfg):
    """-> (counters, results)"""
    p = source(fname, head, scens)
    kw = dict(peel=200, K=2000); kw.update(cfg)
    res = ai.run(p, list(only), rules=rules, defs=list(defs), timeout=timeout, **kw)
    R = {}
    for x in scens:
        nm = "r_" + x.name
        if nm not in res: continue
        R[nm] = textcmp.Root([], [], lambda s, e, x=x: x.ref(e), {k: (v[0], [y & ((1 << v[0]) - 1) for y in v[1]], True, dense) for k, v in x.vars.items()}, tag=x.tag, text=False, ptrs=x.ptrs, stop=x.stop)
    res = {k: v for k, v in res.items() if k in R}
    return textcmp.decide(c, ch, res, R), res

def out(s): return [("o", (ord(ch) if isinstance(ch, str) else ch,), False) for ch in s]
def ok(*ev): return [("ok", [(n, tuple(a), False) for n, a in ev])]
