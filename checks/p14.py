"""P14: no hidden state: nothing outlives a call except in the objects of the caller."""
import json, re
import build
LEVEL = "other"
def run(c):
    bc = build.module("inst.cpp")
    d = json.loads(build.run([build.tool(), "shared", bc]))
    c.require(d["functions"] > 5000 and d["call_sites"] > 5000 and d["variables"] > 20, "analysed too little")
    seen = set()
    for v in d["writes"]:
        key = "state:%s:%s" % (v["variable"], re.sub(r".*/", "", v["declared"]).split(":")[0])
        if key in seen: continue
        seen.add(key)
        c.violate(key, "%s, which outlives the call%s, %s in %s" % (v["variable"], " (one for each thread)" if v["thread_local"] else "", v["what"], v["function"]), v["at"], ["declared at " + v["declared"]])
    for v in d["stateful_calls"]:
        key = "call:%s:%s" % (v["callee"], re.sub(r"[<(].*", "", v["function"]))
        if key in seen: continue
        seen.add(key)
        c.violate(key, "%s keeps or changes state of the whole program; it is called by %s" % (v["callee"], v["function"]), v["at"], [])
    c.coverage = {"explanation": "Interprocedural effect analysis over the LLVM IR of the library and an instantiation of every public template: all variables of static or thread storage duration that the library's sources define, every use of them, and the functions their addresses are passed to; a write outside of the guarded initialization is a violation. In addition, all call sites in library functions against a list of C and C++ library functions that keep or change state of the program.",
        "functions": d["functions"], "library_call_sites": d["call_sites"], "variables": d["variables"], "constant_variables": d["constant"], "other_variables": [v["name"] + " " + v["at"] for v in d["not_constant"]][:40], "uses_followed": d["uses"], "parameters_followed": d["parameters_followed"]}
    c.assumptions = ["state inside of the standard library's streams and of the C library's files is the caller's"]
