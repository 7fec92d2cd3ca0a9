"""Reference functions for the UTF checks: what the encodings define."""
def lead(b): return 1 if b < 0x80 else 0 if b < 0xC0 else 2 if b < 0xE0 else 3 if b < 0xF0 else 4 if b < 0xF8 else -1
def enc8(c):
    if c < 0x80: return [c]
    if c < 0x800: return [0xC0 | c >> 6, 0x80 | c & 63]
    if c < 0x10000: return [0xE0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63]
    return [0xF0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63]
def dec8(bs):
    """value of one structurally complete sequence, or None"""
    n = lead(bs[0])
    if n < 1 or n > len(bs) or any(b >> 6 != 2 for b in bs[1:n]): return None
    v = bs[0] if n == 1 else bs[0] & (0x3F >> (n - 1)) if n > 1 else 0
    if n > 1: v = bs[0] & (0x7F >> n)
    for b in bs[1:n]: v = v << 6 | b & 63
    return v, n
def hi(u): return 0xD800 <= u <= 0xDBFF
def lo(u): return 0xDC00 <= u <= 0xDFFF
def split8(bs):
    r, i = [], 0
    while i < len(bs):
        d = dec8(bs[i:])
        if d is None: return None
        r.append((i, d[1], d[0])); i += d[1]
    return r
def split16(us):
    r, i = [], 0
    while i < len(us):
        if hi(us[i]):
            if i + 1 >= len(us) or not lo(us[i + 1]): return None
            r.append((i, 2, 0x10000 + ((us[i] - 0xD800) << 10) + us[i + 1] - 0xDC00)); i += 2
        elif lo(us[i]): return None
        else: r.append((i, 1, us[i])); i += 1
    return r
def split32(us): return [(i, 1, c) for i, c in enumerate(us)] if all(c <= 0x10FFFF and not 0xD800 <= c <= 0xDFFF for c in us) else None
SPLIT = {8: split8, 16: split16, 32: split32}
N = {8: 4, 16: 3, 32: 2}
NPOS = (1 << 64) - 1
P8 = [(0, 0x7F), (0x80, 0xBF), (0xC0, 0xDF), (0xE0, 0xEF), (0xF0, 0xF7), (0xF8, 0xFF)]
P16 = [(0, 0xD7FF), (0xD800, 0xDBFF), (0xDC00, 0xDFFF), (0xE000, 0xFFFF)]
P32 = [(0, 0xD7FF), (0xD800, 0xDFFF), (0xE000, 0xFFFF), (0x10000, 0x10FFFF), (0x110000, 0xFFFFFFFF)]
PIECES = {8: P8, 16: P16, 32: P32}
def syms(w, n=None): return {"b%d" % i: w for i in range(n or N[w])}
def pieces(w, n=None): return {"b%d" % i: PIECES[w] for i in range(n or N[w])}
def units(env, n): return [env["b%d" % i] for i in range(n)]
def zero(bs): return bs.index(0) if 0 in bs else len(bs)
