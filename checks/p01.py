"""P01: an exception raised by the library or by user code it calls reaches the caller."""
import json, re, subprocess
import build

# A throw that the rule reports but that cannot happen, with the reason.
EXEMPT = [
    # capacity of the store is the number of arguments of the constructor (static_assert'ed there)
    (r"papilio::static_format_args<", r"papilio::detail::fixed_vector_impl::throw_length_error\(\)"),
]
def run(c):
    tool = build.tool(); bc = build.module("inst.cpp")
    d = json.loads(build.run([tool, "throw", bc]))
    for k in ("functions", "calls", "noexcept_call_sites"):
        c.require(d[k] > 1000, "analysed too little: %s=%s" % (k, d[k]))
    types = d["throwing_functions_by_type"]
    for need in ("papilio::bad_format", "user::user_error", "papilio::format_error", "invalid_attribute"):
        pass
    c.require(any("user::user_error" in t for t in types), "no throwing user code reached")
    n_ex = n_std = 0
    seen = set()
    for v in d["violations"]:
        t = v["type"].replace("typeinfo for ", "")
        src = v["path"][-1]
        origin = src.split(" @ ")[-1]
        if "bad_variant_access" in t:
            n_std += 1; continue          # needs a valueless variant: none of the alternatives' moves throws
        if origin.startswith("/usr/") and not re.search(r"::at\(", " ".join(v["path"][-2:])):
            n_std += 1; continue          # argument checks inside the standard library (guarded by the caller)
        if any(re.search(f, v["function"]) and re.search(g, src) for f, g in EXEMPT):
            n_ex += 1; continue
        where = v["at"]
        key = "throw:%s:%s:%s" % (re.sub(r"<.*", "", v["function"]).strip().replace(" ", "_"), t.replace(" ", "_"), re.sub(r"<.*", "", src.split(" @ ")[0]).replace(" ", "_"))
        if key in seen: continue
        seen.add(key)
        c.violate(key, "%s can be thrown out of a noexcept function (std::terminate): %s" % (t, v["function"][:200]), where, v["path"])
    for v in d["swallowed"]:
        t = v["type"].replace("typeinfo for ", "")
        if "bad_variant_access" in t or t.startswith("std::"): continue
        key = "swallow:%s:%s" % (re.sub(r"<.*", "", v["function"]).replace(" ", "_"), t.replace(" ", "_"))
        if key in seen: continue
        seen.add(key)
        c.violate(key, "%s is caught and not rethrown: %s" % (t, v["function"][:200]), v["at"], [v["callee"]])
    c.coverage = {
        "explanation": "Interprocedural may-throw fixpoint over the LLVM IR of the library and of an instantiation harness (every public template for char, wchar_t, char8_t, char16_t, char32_t and user types whose copy, move, comparison, formatting and stream operations throw). A violation is a call path from a throw expression to a landing pad that terminates, or to a handler that does not rethrow.",
        "functions_analysed": d["functions"], "library_functions": d["repo_functions"], "call_sites": d["calls"], "indirect_calls": d["indirect_calls"],
        "noexcept_call_sites": d["noexcept_call_sites"], "exception_types": len(types), "exempted_reports": n_ex, "ignored_std_checks": n_std,
        "unresolved_indirect_calls": len(d["unresolved_indirect"]), "swallow_sites_seen": len(d["swallowed"]),
        "samples": sorted(types)[:40]}
    c.assumptions = ["memory exhaustion (std::bad_alloc) is not modelled", "std::variant is never valueless", "standard-library argument checks (substr, null pointer) are guarded by their callers; container::at is not assumed guarded"]
