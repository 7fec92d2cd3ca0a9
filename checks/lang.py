"""Reference interpreter of the format string language, written from doc/en/script.md.

run(units, v) interprets a format string (list of code points) with the arguments
  0, 1: probes   2: the integer v   ab: a third probe (named)
and returns the list of acceptable results: ("ok", events) / ("throw",) / ("any",).
An event is (name, args, optional); accesses in branches that are not executed are optional."""
WS = set(map(ord, " \n\t\r\v\f"))
NPOS = (1 << 63) - 1
IMIN, IMAX = -(1 << 63), (1 << 63) - 1

class Err(Exception): pass
class Any(Exception): pass

def digit(c): return 48 <= c <= 57
def name_ch(c, first): return (not first and digit(c)) or 65 <= c <= 90 or 97 <= c <= 122 or c == 95 or c >= 128

class Ref:
    def __init__(self, s, v, choices, nargs=3, names=("ab",), intarg=2):
        self.s, self.v, self.ch, self.i, self.ev = s, v, choices, 0, []
        self.auto, self.manual, self.n, self.nargs, self.names, self.intarg, self.opt = 0, False, 0, nargs, names, intarg, False
    def peek(self):
        if self.i >= len(self.s): raise Err("end")
        return self.s[self.i]
    def at(self, c): return self.i < len(self.s) and self.s[self.i] == ord(c)
    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in WS: self.i += 1
    def event(self, n, *a): self.ev.append((n, tuple(a), self.opt))
    def out(self, c): self.event("o", c)
    def choose(self):
        b = self.ch[self.n] if self.n < len(self.ch) else None
        if b is None: raise IndexError
        self.n += 1; return b

    def main(self):
        while self.i < len(self.s):
            c = self.s[self.i]
            if c == 125:
                self.i += 1
                if self.peek() != 125: raise Err("single }")
                self.i += 1; self.out(125)
            elif c == 123:
                self.i += 1
                if self.peek() == 123: self.out(123); self.i += 1
                elif self.peek() == 36: self.i += 1; self.script(); self.close()
                else: self.repl(True); self.close()
            else: self.out(c); self.i += 1
    def close(self):
        if self.peek() != 125: raise Err("}")
        self.i += 1

    def integer(self):
        neg = self.at("-"); self.i += neg
        k = self.i; n = 0
        while self.i < len(self.s) and digit(self.s[self.i]): n = n * 10 + self.s[self.i] - 48; self.i += 1
        if self.i == k: raise Any()             # a sign without digits
        n = -n if neg else n
        if not -IMAX <= n <= IMAX: raise Err("overflow")
        return n
    def string(self):
        r = []
        while True:
            c = self.peek(); self.i += 1
            if c == 39: return r
            if c == 92:
                c = self.peek(); self.i += 1
                if c in (110, 116): c = {110: 10, 116: 9}[c]
            r.append(c)
    def skip_string(self):
        while self.i < len(self.s):
            c = self.s[self.i]; self.i += 1
            if c == 39: return
            if c == 92 and self.i < len(self.s): self.i += 1
        raise Err("end")

    def field(self):
        """name and chained accesses; the value is ("p", id) or ("i", v)"""
        c = self.peek()
        if digit(c):
            n = 0
            while self.i < len(self.s) and digit(self.s[self.i]): n = n * 10 + self.s[self.i] - 48; self.i += 1
            self.manual = True
            if self.auto: self.mixed = True
            if n >= self.nargs:
                raise Any() if self.opt else Err("no argument")
            val = ("i",) if n == self.intarg else ("p", n)
        elif name_ch(c, True):
            k = self.i
            while self.i < len(self.s) and name_ch(self.s[self.i], self.i == k): self.i += 1
            nm = "".join(chr(min(x, 0x10FFFF)) for x in self.s[k:self.i])
            if nm not in self.names: raise Any() if self.opt else Err("no argument")
            val = ("p", self.nargs - 1 + self.names.index(nm))
        elif c in map(ord, "}:.["):
            if self.manual: raise Err("mixed")
            n = self.auto; self.auto += 1
            if n >= self.nargs: raise Any() if self.opt else Err("no argument")
            val = ("i",) if n == self.intarg else ("p", n)
        else: raise Err("name")
        self.last = val[-1]
        while self.i < len(self.s):
            if self.at("."):
                self.i += 1; k = self.i
                while self.i < len(self.s) and name_ch(self.s[self.i], self.i == k): self.i += 1
                if self.i == k: raise Err("attribute")
                if val[0] == "i": raise Err("no attribute")
                self.event("a", self.i - k, self.s[k])
            elif self.at("["):
                self.i += 1; a = self.index()
                if self.peek() != 93: raise Err("]")
                self.i += 1
                if val[0] == "i": raise Err("no index")
                self.event(*a)
            else: break
        return val
    def index(self):
        c = self.peek()
        if c == 39:
            self.i += 1; r = self.string()
            return ("s", len(r), r[0] if r else 0)
        if c == 45 or digit(c):
            a = self.integer()
            if not self.at(":"): return ("i", a & (2 ** 64 - 1))
            self.i += 1; b = NPOS
        elif c == 58: a, b = 0, NPOS; self.i += 1
        else: raise Err("index")
        c = self.peek()
        if c == 45 or digit(c): b = self.integer()
        return ("r", a & (2 ** 64 - 1), b & (2 ** 64 - 1))
    def repl(self, run):
        val = self.field()
        c = self.peek()
        if c == 58: self.i += 1
        elif c != 125: raise Any()                # "{0x}": not in the documented grammar
        if val[0] == "i": raise Any()
        k = self.i
        while self.i < len(self.s) and self.s[self.i] != 125: self.i += 1
        if run: self.event("f", val[1], self.i - k)

    def variable(self):
        c = self.peek()
        if c == 123:
            self.i += 1; val = self.field(); self.close()
            if val[0] == "p": raise Err("not a variable")
            return ("i", self.v)
        if c == 39: self.i += 1; return ("s", tuple(self.string()))
        if c == 45 or digit(c) or c == 46:
            k = self.i; j = k + (c == 45)
            while j < len(self.s) and digit(self.s[j]): j += 1
            if j < len(self.s) and self.s[j] == 46:
                e = j + 1
                while e < len(self.s) and digit(self.s[e]): e += 1
                self.i = e
                if e - k - 1 - (c == 45) == 0: raise Any()
                return ("f",)
            return ("i", self.integer())
        raise Err("condition")
    def truth(self, x):
        if x[0] == "f": return self.choose()
        return bool(x[1])
    def condition(self):
        self.ws(); c = self.peek()
        if c == 33:
            self.i += 1; self.ws(); x = self.variable(); r = None
            self.ws()
            if self.peek() != 63: raise Err("?")
            self.i += 1
            return not self.truth(x)
        x = self.variable(); self.ws(); c = self.peek()
        if c == 63: self.i += 1; return self.truth(x)
        if c == 61:
            self.i += 1
            if self.peek() != 61: raise Err("=")
            self.i += 1; op = "=="
        elif c == 33:
            self.i += 1
            if self.peek() != 61: raise Err("!")
            self.i += 1; op = "!="
        elif c in (60, 62):
            self.i += 1; op = chr(c)
            if self.at("="): self.i += 1; op += "="
        else: raise Err("operator")
        self.ws(); y = self.variable(); self.ws()
        if self.peek() != 63: raise Err("?")
        self.i += 1
        if "f" in (x[0], y[0]) and "s" not in (x[0], y[0]): return self.choose()
        if x[0] != y[0]: return op == "!="
        a, b = x[1], y[1]
        return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]

    def branch(self, run):
        self.ws(); c = self.peek()
        keep, self.opt = self.opt, not run
        try:
            if c == 39:
                self.i += 1
                if run:
                    for x in self.string(): self.out(x)
                else: self.skip_string()
            elif c == 123: self.i += 1; self.repl(run); self.close()
            else: raise Err("branch")
        finally: self.opt = keep
        self.ws()
    def script(self):
        done = False
        c = self.condition(); self.branch(c); done = c
        while self.at(":"):
            self.i += 1; self.ws()
            if self.at("$"):
                self.i += 1; c = self.condition() and not done
                self.branch(c); done |= c
            else: self.branch(not done); done = True

def run(s, v, **kw):
    res, todo = [], [()]
    while todo:
        ch = todo.pop()
        r = Ref(s, v, ch, **kw)
        try: r.main(); x = ("ok", r.ev)
        except Err: x = ("throw",)
        except Any: return [("any",)]
        except IndexError: todo += [ch + (True,), ch + (False,)]; continue
        if x not in res: res.append(x)
    return res
