"""Reference for format specifications and the formatting they request, written from doc/en/builtin_formatter.md."""
import lang
from lang import Err, Any, digit
from p06 import width
from utfref import enc8

INT, CHR, BOOL = "XxBbod", "XxBbodc?", "sXxBbod"
ALIGN = {60: "<", 62: ">", 94: "^"}

def enc(cp, units):
    if units == 1: return enc8(cp)
    if units == 2 and cp > 0xFFFF: cp -= 0x10000; return [0xD800 + (cp >> 10), 0xDC00 + (cp & 0x3FF)]
    return [cp]

class D:
    fill, align, sign, alt, zero, width, prec, loc, type = 32, None, None, False, False, 0, None, False, None

class SpecRef(lang.Ref):
    """kind: what argument 0 is; env: unknown inputs; argument 1 is the integer w, argument 2 a string"""
    def __init__(self, s, kind, value, env, units):
        super().__init__(s, 0, (), nargs=3, names=(), intarg=1)
        self.kind, self.value, self.env, self.units, self.lenient = kind, value, env, units, False
    def event(self, n, *a):
        if n in ("a", "s", "i", "r"): self.access(n, a)
        else: super().event(n, *a)
    def access(self, n, a):
        """only strings have attributes and elements; what these are is the subject of other properties"""
        if self.kind in ("str", "cstr") or self.last != 0: raise Any()
        raise Err("no member")
    def put(self, cps):
        for c in cps:
            for u in enc(c, self.units): self.ev.append(("o", (u,), False))
    def repl(self, run):
        val = self.field()
        c = self.peek()
        if c == 58: self.i += 1
        elif c != 125: raise Any()
        if val[0] == "i": self.show("int", lambda: sx(self.env["w"], 32))
        elif val[1] == 0: self.show(self.kind, self.value)
        else: raise Any()
    def dynamic(self):
        self.i += 1
        val = self.field()
        if not self.at("}"):
            if self.i < len(self.s) and self.s[self.i] != 125: raise Err("}")
            raise Err("end")
        self.i += 1
        if val[0] != "i":
            if val[1] == 2: raise Err("type")
            if self.kind in ("str", "cstr"): raise Err("type")
            raise Any()
        return sx(self.env["w"], 32)
    def number(self):
        n = 0
        while self.i < len(self.s) and digit(self.s[self.i]): n = n * 10 + self.s[self.i] - 48; self.i += 1
        return n
    def spec(self, types, numeric, precision, simple=False):
        """[[fill]align][sign][#][0][width][.precision][L][type]; leaves self.i at the closing brace"""
        d = D(); c = self.peek()
        if c == 125: return d
        if self.i + 1 < len(self.s) and self.s[self.i + 1] in ALIGN:
            d.fill = c; d.align = ALIGN[self.s[self.i + 1]]; self.i += 2
            if c in (0, 123): raise Any()
        elif c in ALIGN: d.align = ALIGN[c]; self.i += 1
        def more(): return self.peek() != 125
        if more() and self.s[self.i] in (43, 45, 32): d.sign = chr(self.s[self.i]); self.i += 1
        if more() and self.s[self.i] == 35: d.alt = True; self.i += 1
        if more() and self.s[self.i] == 48: d.zero = True; self.i += 1
        if more():
            if digit(self.s[self.i]):
                if self.s[self.i] == 48: raise Err("0")
                d.width = self.number()
            elif self.at("{"):
                d.width = self.dynamic()
                if d.width <= 0: raise Err("width")
        if more() and self.at("."):
            self.i += 1
            c = self.peek()
            if digit(c): d.prec = self.number()
            elif c == 123:
                d.prec = self.dynamic()
                if d.prec < 0: raise Err("precision")
            else: raise Err("precision")
            if not d.prec: raise Any()       # "a decimal positive integer"
            if not precision: self.lenient = True
        if more() and self.at("L"): d.loc = True; self.i += 1; self.lenient |= not numeric
        if more():
            if chr(min(self.s[self.i], 0x10FFFF)) in types: d.type = chr(self.s[self.i]); self.i += 1
            else: raise Err("type")
            if self.peek() != 125: raise Err("}")
        if not numeric and (d.sign or d.alt or d.zero): self.lenient = True
        return d
    def pad(self, body, used, d, default):
        n = max(0, d.width - used); a = d.align or default
        l = {"<": 0, ">": n, "^": n // 2}[a]
        self.put([d.fill] * l + body + [d.fill] * (n - l))
    def integer_out(self, v, d):
        t = d.type or "d"
        base = {"b": 2, "o": 8, "d": 10, "x": 16}[t.lower()]
        digs = []; n = abs(v)
        while True:
            digs.append("0123456789abcdef"[n % base]); n //= base
            if not n: break
        s = "".join(reversed(digs))
        if t in "X": s = s.upper()
        pre = {"b": "0" + t, "o": "0", "d": "", "x": "0" + t}[t.lower()] if d.alt else ""
        sg = "-" if v < 0 else {"+": "+", " ": " "}.get(d.sign, "")
        if d.zero and not d.align: s = "0" * max(0, d.width - len(sg + pre + s)) + s
        body = sg + pre + s
        self.pad([ord(c) for c in body], len(body), d, ">")
    def text_out(self, cps, d, default="<"):
        if d.prec is not None:
            k = used = 0
            while k < len(cps) and used + width(cps[k]) <= d.prec: used += width(cps[k]); k += 1
            cps = cps[:k]
        self.pad(list(cps), sum(map(width, cps)), d, default)
    def show(self, kind, value):
        if kind == "int":
            d = self.spec("XxBbodc", True, False)
            v = value()
            if d.type == "c":
                if not 0 <= v <= 0x10FFFF: raise Err("range")
                if d.sign or d.alt or d.zero: raise Any()
                self.text_out([v], D2(d, prec=None))
            else: self.integer_out(v, d)
        elif kind == "bool":
            d = self.spec(BOOL, True, False)
            if d.type in (None, "s"):
                if d.loc: raise Any()
                if d.sign or d.alt or d.zero: self.lenient = True
                if d.prec is not None: raise Any()
                self.text_out(list(map(ord, "true" if value() else "false")), d)
            else: self.integer_out(int(value()), d)
        elif kind == "chr":
            d = self.spec(CHR, False, False)
            if d.type in (None, "c"): self.text_out([value()], D2(d, prec=None))
            elif d.type == "?":
                if d.width: raise Any()
                self.put(escape(value(), "'"))
            else: self.integer_out(value(), d)
        elif kind == "str":
            d = self.spec("s?", False, True)
            if d.type == "?":
                if d.width or d.prec is not None: raise Any()
                for c in value(): self.put(escape(c, '"'))
            else: self.text_out(value(), d)
        elif kind == "ptr":
            d = self.spec("pP", False, False)
            if d.loc: raise Err("L")
            d.alt = True; d.type = {None: "x", "p": "x", "P": "X"}[d.type]
            self.integer_out(value(), d)
        elif kind == "enum":
            d = self.spec("sBbXxod", True, True)
            if d.type in (None, "s"): self.text_out(list(map(ord, value()[0])), d)
            else: self.integer_out(value()[1], d)
        elif kind == "infnan":     # value: (negative, "inf"/"nan")
            d = self.spec("fFgGeEaA", True, True)
            neg, s = value()
            if d.type and d.type in "FGEA": s = s.upper()
            s = ("-" if neg else {"+": "+", " ": " "}.get(d.sign, "")) + s
            if d.zero and not d.align: raise Any()
            self.pad([ord(c) for c in s], len(s), d, ">")
        else: raise Any()

def D2(d, **kw):
    r = D(); r.__dict__.update(d.__dict__); r.__dict__.update(kw); return r

def escape(c, quote):
    t = {9: "\\t", 10: "\\n", 13: "\\r", 92: "\\\\", ord(quote): "\\" + quote}
    if c in t: return [ord(x) for x in t[c]]
    if c < 32: return [ord(x) for x in "\\u{%x}" % c]
    return [c]

def sx(v, bits): return v - (1 << bits) if v >> (bits - 1) & 1 else v

def run(s, kind, value, env, units):
    r = SpecRef(s, kind, value, env, units)
    try: r.main(); x = [("ok", r.ev)]
    except Err: return [("throw",)]
    except Any: return [("any",)]
    return x + [("throw",)] if r.lenient else x
