"""P11: printing delivers the whole text once, or reports an error."""
import scen, textcmp, safety
from scen import Scen
from specref import sx
LEVEL = "other"
HEAD = r'''#include "interp.hpp"
#include <papilio/papilio.hpp>
#include <papilio/print.hpp>
#include <papilio/os/os.hpp>
#include <system_error>
struct Own { int v; };
namespace papilio {
template <> class formatter<Own, char> {
public:
    template <class P> auto parse(P& ctx) { return ctx.begin(); }
    template <class F> auto format(const Own&, F& ctx) const { format_context_traits<F>::append(ctx, 'o', 1); std::uint8_t x = pax_u8("x"); pax_assume(x < 2); if(x) throw 1; return ctx.out(); }
};
}
static bool g_std = true;
extern "C" std::size_t fwrite(const void* p, std::size_t a, std::size_t n, std::FILE* f)
{
    if(!g_std) pax_event("file", f); else if(f != stdout) pax_event("notstdout");
    for(std::size_t i = 0; i < a * n; ++i) pax_event("o", (std::uint64_t)((const unsigned char*)p)[i]);
    std::size_t r = pax_u8("r"); pax_assume(r <= n); return r;
}
extern "C" int fflush(std::FILE* f)
{
    if(!g_std) pax_event("flush", f); else if(f != stdout) pax_event("flushother"); else pax_event("flush");
    std::uint8_t x = pax_u8("fl"); pax_assume(x < 2); return -(int)x;
}
static std::FILE* file() { g_std = false; return (std::FILE*)pax_obj("file", 216); }
static int num() { int w = (int)pax_u32("w"); pax_assume(w >= 8 && w <= 11); return w; }
#define TRY(...) try { __VA_ARGS__; pax_event("done"); } catch(const std::system_error&) { pax_event("syserr"); } catch(...) { pax_event("error"); }
'''
W = lambda e: sx(e["w"], 32)
def o(s): return [("o", (ord(c),), False) for c in s]
def ev(n, *a): return (n, a, False)
def result(e, text, isfile):
    F = (77,) if isfile else ()
    w = ([ev("file", 77)] if isfile else []) + o(text)
    if e.get("r", 0) < len(text): return [w + [ev("syserr")]]
    if e.get("fl", 0): return [w + [ev("flush", *F), ev("syserr")]]
    r = [w + [ev("flush", *F), ev("done")]]
    if not text: r.append([ev("done")])
    return r
CALLS = [  # (name, call, text of w, w used)
    ("text", '"abc"', lambda w: "abc", False), ("empty", '""', lambda w: "", False), ("num", '"<{}>", num()', lambda w: "<%d>" % w, True),
    ("bin", '"{:>3}{:c}", num(), (char)0', lambda w: "%3d\0" % w, True),
]
def scens():
    r = []
    for nm, a, f, uw in CALLS:
        V = dict({"w": (32, [8, 9, 10, 11])} if uw else {}, r=(8, list(range(8))), fl=(8, [0, 1]))
        for fn, nl in (("print", ""), ("println", "\n")):
            for isfile in (0, 1):
                for st in (0, 1):
                    if isfile and st: continue
                    call = "papilio::%s(%s%s%s)" % (fn, "file(), " if isfile else "", "papilio::style::bold, " if st else "", a)
                    if nm == "empty" and st == 0 and fn == "println" and not isfile: pass
                    def ref(e, f=f, nl=nl, isfile=isfile, st=st):
                        t = f(W(e) if "w" in e else 0)
                        if st: t = "\x1b[1m" + t + "\x1b[0m"
                        return [("ok", x) for x in result(e, t + nl, isfile)]
                    V2 = dict(V, r=(8, list(range(18)))) if st else V
                    r.append(Scen("%s_%s_%d%d" % (fn, nm, isfile, st), "TRY(%s)" % call, V2, ref, call, ptrs={"file": 77}))
    for isfile in (0, 1):
        V = {"r": (8, [0, 1]), "fl": (8, [0, 1])}
        call = "papilio::println(%s)" % ("file()" if isfile else "")
        r.append(Scen("ln_%d" % isfile, "TRY(%s)" % call, V, lambda e, isfile=isfile: [("ok", x) for x in result(e, "\n", isfile)], call, ptrs={"file": 77}))
        for fn in ("print", "println"):
            for k, (a, t) in enumerate([('"ab{}c", Own{1}', "aboc"), ('"ab{}{}", 1', None), ('"{:>{}}{}", Own{1}, 1, 2', None)]):
                call = "papilio::%s(%s%s)" % (fn, "file(), " if isfile else "", a)
                def ref(e, t=t, fn=fn, isfile=isfile):
                    if t is None or e.get("x"): return [("ok", [ev("error")])]
                    return [("ok", x) for x in result(e, t + ("\n" if fn == "println" else ""), isfile)]
                if t is None: V3 = {}
                else: V3 = dict(V, r=(8, list(range(7))), x=(8, [0, 1]))
                if k == 2: continue
                r.append(Scen("err_%s_%d_%d" % (fn, isfile, k), "TRY(%s)" % call, V3, ref, call, ptrs={"file": 77}))
    for conv in ("conv", "nonconv"):
        r.append(Scen("out_" + conv, 'TRY(papilio::os::output_%s(file(), "xyz"))' % conv, {"r": (8, [0, 1, 2, 3]), "fl": (8, [0, 1])}, lambda e: [("ok", x) for x in result(e, "xyz", 1)], "output_" + conv, ptrs={"file": 77}))
    V = {"w": (32, [8, 9, 10, 11])}
    for fn, nl in (("print", ""), ("println", "\n")):
        for nm, a, f, uw in CALLS:
            r.append(Scen("os_%s_%s" % (fn, nm), "TRY(papilio::%s(*(std::ostream*)pax_obj(\"os\", 272), %s))" % (fn, a), V if uw else {}, lambda e, f=f, nl=nl: [("ok", [("put", (77, ord(c)), False) for c in f(W(e) if "w" in e else 0) + nl] + [ev("done")])], "%s(stream, %s)" % (fn, a), ptrs={"os": 77}))
    r.append(Scen("os_ln", "TRY(papilio::println(*(std::ostream*)pax_obj(\"os\", 272)))", {}, lambda e: [("ok", [("put", (77, 10), False), ev("done")])], "println(stream)", ptrs={"os": 77}))
    return r
TEXT = "Abstract interpretation of %d calls of print and println on files, standard output and streams, with unknown arguments and unknown results of the write and flush operations; the sequence of writes, flushes and errors of every outcome is compared with the documented one."
RULES = [["std::use_facet<", "stop"], ["is_terminal", "skip"], ["std::ios_base::getloc", "skip"], ["std::locale::", "opaque"],
         ["^std::basic_ostream<char, std::char_traits<char> ?>& std::operator<< ?<std::char_traits<char> ?>\\(std::basic_ostream<char, std::char_traits<char> ?>&, char\\)", "event:put"]]
def run(c):
    sc = scens()
    t, res = scen.decide(c, "p11.cpp", HEAD, sc, rules=RULES, defs=["PAX_CHAR=char", "PAX_PRE="])
    sf = safety.report(c, res)
    textcmp.summarize(c, [t], TEXT % len(sc), analysis_gaps=sf["undecided"][:20])
    c.require(t["points"] >= 200, "nothing compared")
