"""Roots of composite values (ranges, maps, tuples, pairs, optional, variant, joiners): templates with an unknown unit at each position, every truncation."""
import os, re
import ai, build, textcmp, specref, specroots
from specref import sx, D2
from lang import Err, Any

W = lambda e: sx(e["w"], 32)
B = {"int": lambda v: ("int", v), "str": lambda v: ("str", [ord(c) for c in v]), "chr": lambda v: ("chr", ord(v))}
# a value: ("int", 3) ("str", [..]) ("chr", 97) ("range", flavor, element kind sample, [values]) ("tuple", [values]) ("opt", value or None) ("word", "text") ("joiner", sep, sample, [values])
I = lambda v: ("int", v)
S = lambda t: ("str", [ord(c) for c in t])
Ch = lambda t: ("chr", ord(t))
def R(fl, sample, *vs): return ("range", fl, sample, list(vs))
VALUES = {
    "vec": ("std::array<int, 3>{w, -7, 12}", lambda e: R("seq", I(1), I(W(e)), I(-7), I(12))),
    "one": ("std::array<int, 1>{w}", lambda e: R("seq", I(1), I(W(e)))),
    "none": ("std::array<int, 0>{}", lambda e: R("seq", I(1))),
    "cvec": ("std::vector<int>{3, w}", lambda e: R("seq", I(1), I(3), I(W(e)))),
    "svec": ("std::array<std::basic_string_view<C>, 2>{TXT(\"a\\\"\"), TXT(\"\")}", lambda e: R("seq", S("x"), S('a"'), S(""))),
    "chars": ("std::array<papilio::utf::codepoint, 3>{U'a', U'\\u6587', U'\\n'}", lambda e: R("seq", Ch("x"), Ch("a"), Ch("\u6587"), Ch("\n"))),
    "cu": ("std::array<C, 2>{C('x'), C('\"')}", lambda e: R("seq", Ch("x"), Ch("x"), Ch('"'))),
    "set": ("Set{{w, 2}}", lambda e: R("set", I(1), I(W(e)), I(2))),
    "map": ("Map{{{1, w}, {2, 5}}}", lambda e: R("map", ("tuple", [I(1), I(1)]), ("tuple", [I(1), I(W(e))]), ("tuple", [I(2), I(5)]))),
    "vv": ("std::array<std::array<int, 2>, 2>{{{1, w}, {3, 4}}}", lambda e: R("seq", R("seq", I(1), I(1)), R("seq", I(1), I(1), I(W(e))), R("seq", I(1), I(3), I(4)))),
    "vt": ("std::array<std::tuple<int, std::basic_string_view<C>, int>, 1>{std::tuple<int, std::basic_string_view<C>, int>{w, TXT(\"t\"), 0}}", lambda e: R("seq", ("tuple", [I(1), S("x"), I(1)]), ("tuple", [I(W(e)), S("t"), I(0)]))),
    "t0": ("std::tuple<>{}", lambda e: ("tuple", [])),
    "t1": ("std::tuple<int>{w}", lambda e: ("tuple", [I(W(e))])),
    "t3": ("std::tuple<int, std::basic_string_view<C>, papilio::utf::codepoint>{w, TXT(\"q\"), U'\\u6587'}", lambda e: ("tuple", [I(W(e)), S("q"), Ch("\u6587")])),
    "pair": ("std::pair<std::basic_string_view<C>, int>{TXT(\"key\"), w}", lambda e: ("tuple", [S("key"), I(W(e))])),
    "tr": ("std::pair<std::array<int, 2>, std::tuple<int>>{{w, 1}, {2}}", lambda e: ("tuple", [R("seq", I(1), I(W(e)), I(1)), ("tuple", [I(2)])])),
    "opt": ("std::optional<int>{w}", lambda e: ("opt", I(W(e)))),
    "null": ("std::optional<int>{}", lambda e: ("opt", ("word", "nullopt"))),
    "maybe": ("maybe(w)", lambda e: ("opt", I(W(e)) if W(e) > 3 else ("word", "nullopt"))),
    "var": ("pick(w)", lambda e: ("opt", I(W(e)) if W(e) > 3 else S("few") if W(e) > 0 else ("word", "monostate"))),
    "join": ("papilio::join<C>(std::array<int, 3>{w, 0, 8}, TXT(\"--\"))", lambda e: ("joiner", "--", I(1), [I(W(e)), I(0), I(8)])),
    "joins": ("papilio::join<C>(std::array<std::basic_string_view<C>, 2>{TXT(\"ab\"), TXT(\"c\")}, TXT(\"\"))", lambda e: ("joiner", "", S("x"), [S("ab"), S("c")])),
    "join0": ("papilio::join<C>(std::array<int, 0>{}, TXT(\", \"))", lambda e: ("joiner", ", ", I(1), [])),
    "joinp": ("papilio::join<C>(std::array<std::pair<int, int>, 2>{std::pair<int, int>{1, w}, {3, 4}}, TXT(\"; \"))", lambda e: ("joiner", "; ", ("tuple", [I(1), I(1)]), [("tuple", [I(1), I(W(e))]), ("tuple", [I(3), I(4)])])),
    "joino": ("papilio::join<C>(std::array<std::optional<int>, 2>{std::optional<int>{w}, std::nullopt}, TXT(\"|\"))", lambda e: ("joiner", "|", None, [("opt", I(W(e))), ("opt", ("word", "nullopt"))])),
}
SPECS = [
    ("a{}b{{", "vec one none cvec svec chars cu set map vv vt t0 t1 t3 pair tr opt null maybe var join joins join0 joinp joino"),
    ("{:n}", "vec map vt t0 t3 pair tr one joinp"), ("{:m}", "map pair t3"), ("{:n:+3}", "vec"), ("{::*>#5x}", "vec set none"), ("{0:n:n}", "vv map vt"), ("{:s}", "chars cu svec vec"), ("{:?s}", "chars cu"),
    ("{:m:m}", "map"), ("{:n:n:02}", "vv"), ("{:.1}{}", "joins"), ("{:+}", "join opt"), ("{:n:{1}d}", "cvec"), ("{::.3}", "vec"),
]

class Comp(specref.SpecRef):
    def show(self, kind, value):
        if kind == "comp": self.render(value())
        elif kind in ("int", "str", "chr") or True: super().show(kind, value)
    def plain(self, v):
        """with the default specification"""
        s, i = self.s, self.i
        self.s, self.i = [125], 0
        self.render(v); self.s, self.i = s, i
    def endspec(self):
        if self.peek() != 125: raise Err("}")
    def each(self, v, sep, sample):
        """elements with the specification that follows"""
        i, ev = self.i, list(self.ev)
        if sample is None:
            self.endspec()
        else:
            self.render(sample); self.ev = ev
        end = self.i
        for n, x in enumerate(v):
            if n: self.put(sep)
            self.i = i; self.render(x)
        self.i = end
    def render(self, v, brackets=None, sep=None):
        k = v[0]
        if k in ("int", "str", "chr"): return super().show(k, lambda: v[1])
        if k == "word": self.endspec(); return self.put([ord(c) for c in v[1]])
        if k == "opt": self.endspec(); return self.plain(v[1]) if v[1][0] != "word" else self.put([ord(c) for c in v[1][1]])
        if k == "tuple":
            br = "()" if brackets is None else brackets; sep = ", " if sep is None else sep
            c = self.peek()
            if c == 109 and len(v[1]) == 2: br = ""; sep = ": "; self.i += 1
            elif c == 110: br = ""; self.i += 1
            self.endspec()
            self.put([ord(x) for x in br[:1]])
            for n, x in enumerate(v[1]):
                if n: self.put([ord(y) for y in sep])
                self.plain(x)
            return self.put([ord(x) for x in br[1:]])
        if k == "joiner": return self.each(v[3], [ord(c) for c in v[1]], v[2])
        assert k == "range"
        br = {"seq": "[]", "set": "{}", "map": "{}"}[v[1]]; ty = None; dbg = False
        sample = v[2]
        c = self.peek()
        if c == 110: br = ""; ty = "n"; self.i += 1
        elif c == 109: br = "{}"; ty = "m"; self.i += 1
        elif c == 115: ty = "s"; self.i += 1
        elif c == 63:
            self.i += 1
            if self.peek() != 115: raise Err("?s")
            ty = "s"; dbg = True; self.i += 1
        elif c not in (58, 125): raise Err("range type")
        spec = False
        if self.peek() == 58: self.i += 1; spec = True
        if spec and (sample[0] in ("str", "chr") or ty in ("s",)): raise Any()      # debug form of elements is not specified
        if ty == "m" and not (sample[0] == "tuple" and len(sample[1]) == 2): raise Any()
        if ty == "s":
            self.endspec()
            if sample[0] == "int": raise Any()        # not rejected consistently: integers convert to characters
            if sample[0] != "chr": raise Err("s")
            for x in v[3]: self.put(specref.escape(x[1], '"') if dbg else [x[1]])
            return
        kw = dict(brackets="", sep=": ") if ty == "m" else {}
        def one(x): self.render(x, **kw) if x[0] == "tuple" else self.render(x)
        if spec:
            i, ev = self.i, list(self.ev); one(sample); self.ev = ev; end = self.i
        else: self.endspec(); end = self.i
        if self.s[end] != 125: raise Err("}")
        self.put([ord(x) for x in br[:1]])
        for n, x in enumerate(v[3]):
            if n: self.put([44, 32])
            if spec: self.i = i; one(x)
            else:
                s, j = self.s, self.i
                self.s, self.i = [125], 0; one(x); self.s, self.i = s, j
        self.i = end
        self.put([ord(x) for x in br[1:]])

HEAD = '''#include "spec.hpp"
#include <array>
#include <optional>
#include <variant>
#include <vector>
struct Set { using key_type = int; int d[2]; const int* begin() const { return d; } const int* end() const { return d + 2; } };
struct Map { using key_type = int; using mapped_type = int; std::pair<const int, int> d[2]; const std::pair<const int, int>* begin() const { return d; } const std::pair<const int, int>* end() const { return d + 2; } };
using Var = std::variant<std::monostate, int, std::basic_string_view<C>>;
static Var pick(int w) { if(w > 3) return w; if(w > 0) return std::basic_string_view<C>(TXT("few")); return std::monostate(); }
static std::optional<int> maybe(int w) { if(w > 3) return w; return std::nullopt; }
template <class V> static void put2(const C* s, std::size_t len, const V& value, int w)
{
    static constexpr C x[] = {'x', 0};
    auto args = papilio::format_context_traits<Ctx>::make_format_args(value, w, (const C*)x);
    papilio::basic_format_parse_context<Ctx> pc(std::basic_string_view<C>(s, len), args);
    Ctx fc(out_it{}, args);
    papilio::basic_interpreter<Ctx>().format(pc, fc);
}
template <std::size_t N, class F> static void comp(const C (&lit)[N], int len, int hole, F f)
{
    const C* s = (const C*)pax_buf("s", sizeof(C), (std::size_t)len);
    for(int i = 0; i < len; ++i) if(i != hole) pax_assume(s[i] == lit[i]);
    int w = (int)pax_u32("w"); pax_assume(w >= -2 && w <= 9);
    f(w, [&](const auto& v) { put2(s, (std::size_t)len, v, w); });
}
'''
def body(x):
    m = re.match(r"papilio::join<C>\((.*), (TXT\(.*\))\)$", x)
    return "auto r = %s; k(papilio::join<C>(r, %s));" % m.groups() if m else "k(%s);" % x
def source(which, sel=None):
    out = [HEAD]; roots = {}
    for n, (t, kinds) in enumerate(SPECS):
        for k in kinds.split():
            if sel and (n, k) not in sel: continue
            def root(nm, ln, h):
                roots[nm] = (t[:ln], [h] if h >= 0 else [], k)
                out.append("ROOT %s() { comp(%s, %d, %d, [](int w, auto k) { %s }); }" % (nm, specroots.esc(t), ln, h, body(VALUES[k][0])))
            if which == "hole":
                for h in range(len(t)):
                    if n == 0 and h in (0, 3, 4, 5): continue
                    root("r_h%d_%s_%d" % (n, k, h), len(t), h)
            else:
                for ln in range(2 if n == 0 else 1, len(t) + (n != 0)):
                    root("r_c%d_%s_%d" % (n, k, ln), ln, -1)
    d = os.path.join(build.BUILD, "gen"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "comp_%s.cpp" % which); s = "\n".join(out) + "\n"
    if not os.path.exists(p) or open(p).read() != s:
        with open(p + ".tmp%d" % os.getpid(), "w") as f: f.write(s)
        os.replace(p + ".tmp%d" % os.getpid(), p)
    return p, roots

def run1(s, value, env, units):
    r = Comp(s, "comp", lambda: value(env), env, units)
    try: r.main(); x = [("ok", r.ev)]
    except Err: return [("throw",)]
    except Any: return [("any",)]
    return x + [("throw",)] if r.lenient else x

def decide(c, which, ch, timeout=150, **cfg):
    p, roots = source(which)
    res = ai.run(p, [], rules=specroots.RULES, defs=["PAX_CHAR=" + ch, "PAX_PRE=" + specroots.PRE[ch]], timeout=timeout, **dict(dict(peel=200, K=2000), **cfg))
    units = {"char": 1, "char8_t": 1, "char16_t": 2}.get(ch, 4)
    RR = {}
    for nm, (t, holes, k) in roots.items():
        if nm not in res: continue
        py = VALUES[k][1]
        RR[nm] = textcmp.Root([ord(x) for x in t], holes, lambda s, e, py=py: run1(s, py, e, units), {"w": (32, [0, 1, 3, 4, 9, -1, -2], True)}, tag="%s of %s" % (t, k))
    return textcmp.decide(c, ch, res, RR), res
