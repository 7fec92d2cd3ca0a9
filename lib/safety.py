"""Turns the alarms of the abstract interpreter into violations."""
import ai
BAD = {"oob": "reads or writes outside of the object", "oob-range": "accesses a range outside of the object", "null": "dereferences null", "undef": "reads an indeterminate value",
       "unreachable": "reaches a point the code declares unreachable", "terminate": "an exception meets a noexcept boundary: the program terminates", "freed": "accesses released memory",
       "loopcap": "a loop does not end", "write-ro": "writes to read-only memory", "frozen": "modifies an object that belongs to the caller", "double-free": "releases memory twice", "trap": "traps", "missing-return": "flows off the end of a function", "badfree": "releases memory that was not allocated"}
def name(k): return BAD.get(k) or ("undefined behavior (%s)" % k[3:] if k.startswith("ub:") else None)

def report(c, res, kinds=None, skip=lambda root, a: False):
    """report every alarm once per library function; returns counters"""
    t = dict(outcomes=0, steps=0, fns=set(), undecided=[], roots=len(res))
    seen = set()
    for r in sorted(res):
        x = res[r]
        t["outcomes"] += len(x["outcomes"]); t["steps"] += x["steps"]; t["fns"] |= set(x["lib_list"])
        if x["budget_exceeded"]: t["undecided"].append("%s: %s" % (r, x.get("why") or "step budget"))
        for a in x["alarms"]:
            k = a["kind"]; what = name(k)
            if not what or (kinds and not any(k.startswith(q) for q in kinds)):
                if not what: t["undecided"].append("%s: %s" % (r, k))
                continue
            if skip(r, a): continue
            if k == "ub:builtin-unreachable" and str(a.get("at", "")).startswith("/usr/"): continue   # a hint of the standard library whose invariant the abstraction lost
            f = a.get("lib_function") or a.get("function") or "?"
            key = (k, f)
            if key in seen: continue
            seen.add(key)
            c.violate("%s:%s" % (k, f.split("(")[0].replace(" ", "")), "%s %s (from %s)" % (f[:300], what, r), a.get("lib_at") or a.get("at", ""), [a.get("detail", ""), *map(str, a.get("stack", []))])
    t["undecided"] = sorted(set(t["undecided"]))
    return t

def coverage(c, t, text, **kw):
    c.coverage = {"roots": t["roots"], "outcomes": t["outcomes"], "abstract_steps": t["steps"], "library_functions": len(t["fns"]), "undecided": t["undecided"][:20], **kw, "explanation": text}
