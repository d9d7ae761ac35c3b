"""Sets of Unicode scalar values as sorted tuples of inclusive intervals."""
import unicodedata

FULL = ((0, 0xD7FF), (0xE000, 0x10FFFF))
EMPTY = ()


def mk(*items):
    v = []
    for i in items:
        if isinstance(i, str):
            for ch in i:
                v.append((ord(ch), ord(ch)))
        elif isinstance(i, int):
            v.append((i, i))
        else:
            a, b = i
            v.append((ord(a) if isinstance(a, str) else a, ord(b) if isinstance(b, str) else b))
    return norm(v)


def norm(v):
    out = []
    for a, b in sorted(v):
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def inter(x, y):
    out = []
    i = j = 0
    while i < len(x) and j < len(y):
        a = max(x[i][0], y[j][0])
        b = min(x[i][1], y[j][1])
        if a <= b:
            out.append((a, b))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def union(x, y):
    return norm(list(x) + list(y))


def compl(x):
    out = []
    p = 0
    for a, b in x:
        if p <= a - 1:
            out.append((p, a - 1))
        p = b + 1
    if p <= 0x10FFFF:
        out.append((p, 0x10FFFF))
    return inter(tuple(out), FULL)


def diff(x, y):
    return inter(x, compl(y))


def subset(x, y):
    return not diff(x, y)


def has(x, c):
    return any(a <= c <= b for a, b in x)


def single(x):
    return x[0][0] if len(x) == 1 and x[0][0] == x[0][1] else None


def u8len(c):
    return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4


def wrange(x):
    """range of UTF-8 lengths of the members"""
    if not x:
        return (1, 4)
    return (u8len(x[0][0]), u8len(x[-1][1]))


def show(x):
    def one(c):
        return repr(chr(c)) if 0x20 < c < 0x7F else "U+%04X" % c

    v = [one(a) if a == b else one(a) + ".." + one(b) for a, b in x[:6]]
    return "{" + ", ".join(v) + (", ..." if len(x) > 6 else "") + "}"


ASCII = mk((0, 0x7F))
WS = mk((9, 13), 0x20, 0x85, 0xA0, 0x1680, (0x2000, 0x200A), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000)
LOWER = mk(("a", "z"))
UPPER = mk(("A", "Z"))
DIGIT = mk(("0", "9"))
ALPHA = union(LOWER, UPPER)
ALNUM = union(ALPHA, DIGIT)
HEX = union(DIGIT, mk(("a", "f"), ("A", "F")))
PUNCT = mk((0x21, 0x2F), (0x3A, 0x40), (0x5B, 0x60), (0x7B, 0x7E))
CONTROL = mk((0, 0x1F), 0x7F)
ASCII_WS = mk(9, 10, 12, 13, 0x20)

_uni = {}


def unicode_class(name):
    """Unicode classes, from the Unicode data of the Python in use (only used when the analysed code
    calls the corresponding char method)."""
    if name in _uni:
        return _uni[name]
    v = []
    start = None
    for c in range(0x110000):
        if 0xD800 <= c <= 0xDFFF:
            ok = False
        else:
            ch = chr(c)
            cat = unicodedata.category(ch)
            if name == "alphabetic":
                ok = cat[0] == "L" or cat == "Nl"
            elif name == "numeric":
                ok = cat[0] == "N"
            elif name == "alphanumeric":
                ok = cat[0] in "LN"
            elif name == "lowercase":
                ok = ch.islower() and cat[0] == "L"
            elif name == "uppercase":
                ok = ch.isupper() and cat[0] == "L"
            elif name == "control":
                ok = cat == "Cc"
            else:
                raise KeyError(name)
        if ok and start is None:
            start = c
        elif not ok and start is not None:
            v.append((start, c - 1))
            start = None
    if start is not None:
        v.append((start, 0x10FFFF))
    _uni[name] = tuple(v)
    return _uni[name]
