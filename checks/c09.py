"""C09: truth tables of the two Logic implementations, by exhaustive abstract evaluation of their
bodies on every combination of constant arguments (the argument domain is finite)."""
from sa.common import Report, dump
from sa.harness import *

TRAIT = "cfg_expr::expr::Logic"
KAND = lambda a, b: False if a is False or b is False else (True if a and b else None)
KOR = lambda a, b: True if a is True or b is True else (False if a is False and b is False else None)
KNOT = lambda a: None if a is None else not a


def run():
    rep = Report("C09", "proof")
    p = dump()
    for name, dom in (("bool", (False, True)), ("Option<bool>", (False, True, None))):
        def is_self(t):
            ty = p.types[t]
            if name == "bool":
                return ty["k"] == "bool"
            return ty.get("path") == "core::option::Option" and p.types[ty["args"][0]]["k"] == "bool"

        for meth, n, spec in (("top", 0, lambda: True), ("bottom", 0, lambda: False), ("and", 2, KAND), ("or", 2, KOR), ("not", 1, KNOT)):
            bs = p.find_impl(TRAIT, meth, is_self)
            where = "<%s as Logic>::%s" % (name, meth)
            if len(bs) != 1:
                rep.open("truth table", where, "no unique implementation found (%d)" % len(bs))
                continue
            b = bs[0]
            combos = [()] if n == 0 else [(x,) for x in dom] if n == 1 else [(x, y) for x in dom for y in dom]
            for c in combos:
                eng = engine(p, 60)
                ty = b.locals[0]

                def enc(x):
                    return ("b", x) if name == "bool" else opt(p, ty, None if x is None else ("b", x))

                want = enc(spec(*c))
                w = "%s%r at %s" % (where, c, b.d["span"])
                try:
                    outs = eng.call_body(St(), b, [enc(x) for x in c])
                except Exception as e:
                    rep.open("truth table", w, repr(e))
                    continue
                if eng.stucks or eng.dropped:
                    rep.open("truth table", w, "; ".join(eng.stucks))
                    continue
                if eng.panics:
                    rep.violation("truth table", w, "panics: " + eng.panics[0].msg)
                    continue
                got = [v for _, v in outs]
                if any(v != want and not concrete(v) for v in got):
                    rep.open("truth table", w, "result not constant: %r" % (got,))
                    continue
                rep.check("truth table", bool(got) and all(v == want for v in got), w, "gives %s, the table says %s" % ([show(p, v) for v in got], show(p, want)))
    return rep


def concrete(v):
    if v[0] == "b":
        return v[1] is True or v[1] is False
    return v[0] == "a" and all(concrete(x) for x in v[3])


def show(p, v):
    if v[0] == "b":
        return str(v[1]).lower()
    n = p.types[v[1]]["variants"][v[2]]["name"]
    return n + ("(%s)" % ", ".join(show(p, x) for x in v[3]) if v[3] else "")
