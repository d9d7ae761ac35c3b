"""Running one function on symbolic arguments and judging what it returns."""
from .engine import Limit
from .harness import *
from .lexcheck import full, splitting, facts_text, report_panics
from .models import S_of, norm_s
from .state import Split, Stuck

COW = "alloc::borrow::Cow"


def is_text(eng, v):
    if v[0] in ("s", "S"):
        return True
    if v[0] in ("a", "y"):
        t = eng.ty(v[1] if v[0] == "a" else v[2])
        return t["k"] == "adt" and t.get("path") == COW and eng.ty(t["args"][-1])["k"] == "str"
    return False


def same_val(eng, st, a, b, depth=20):
    """True: equal; False: different; None: not known.  May raise Split."""
    if a == b:
        return True
    while a[0] in ("r", "rv"):
        a = eng.load(st, eng.deref_val(st, a))
    while b[0] in ("r", "rv"):
        b = eng.load(st, eng.deref_val(st, b))
    if a == b:
        return True
    if is_text(eng, a) and is_text(eng, b):
        return st.seq_decide(S_of(eng, st, a), S_of(eng, st, b))
    if a[0] in ("i", "c", "ci") and b[0] in ("i", "c", "ci"):
        if a[0] == "i" and b[0] == "i":
            d = sub(a[1], b[1])
            if st.same(a[1], b[1]):
                return True
            return False if st.decide(("eq", d)) is False else None
        return None
    if a[0] == "b" and b[0] == "b":
        x, y = st.decide(a[1]), st.decide(b[1])
        if x is not None and y is not None:
            return x == y
        return None
    if a[0] == "tu" and b[0] == "tu" and len(a[1]) == len(b[1]):
        return conj(same_val(eng, st, x, y, depth - 1) for x, y in zip(a[1], b[1]))
    if a[0] in ("a", "y") and b[0] in ("a", "y") and depth:
        for v in (a, b):
            if v[0] == "y" and (eng.ty(v[2])["k"] != "adt" or foreign(eng, v[2])):
                return None
        a, b = eng.expand(st, a), eng.expand(st, b)
        if a[2] != b[2]:
            return False
        return conj(same_val(eng, st, x, y, depth - 1) for x, y in zip(a[3], b[3]))
    if a[0] == "q" and b[0] == "q":
        if all(x[0] == "1" for x in a[1] + b[1]):
            if len(a[1]) != len(b[1]):
                return False
            return conj(same_val(eng, st, x[1], y[1], depth - 1) for x, y in zip(a[1], b[1]))
    return None


def foreign(eng, ty):
    p = eng.ty(ty).get("path", "")
    return p.split("::")[0] in ("alloc", "smallvec", "std") and p != COW


def conj(it):
    r = True
    for x in it:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def paths(rep, rule, eng, body, args, st, judge, where=None, loops=True):
    """run body(args) from st; judge(state, value) yields (ok, why) with ok True, False or None, in
    every refinement it asks for.  Returns the number of judged paths."""
    where = where or "%s at %s" % (body.path, body.d["span"])
    n0 = 0
    np = len(eng.panics)
    try:
        for s, v in eng.call_body(st, body, args, loops=loops):
            for s2, r in splitting(eng, s, lambda x: judge(x, v)):
                if r is None:
                    continue
                ok, why = r
                n0 += 1
                if ok is True:
                    rep.ok(rule, where)
                elif ok is None or s2.doubt():
                    rep.open(rule, where, why + (" (after %s)" % s2.doubt()[0] if s2.doubt() else " (not followed)"))
                else:
                    rep.violation(rule, where, why, facts_text(s2))
    except (Limit, Stuck, KeyError, IndexError, TypeError, AssertionError, RecursionError) as e:
        rep.open(rule, where, "analysis stopped: %r" % (e,))
    for x in eng.panics[np:]:
        w = "%s (in %s)" % (x.span, x.where)
        if x.doubt():
            rep.open("panic free", w, "%s (after %s)" % (x.msg, x.doubt()))
        else:
            rep.violation("panic free", w, x.msg, facts_text(x.st))
    for k in eng.stucks:
        rep.open("modelled", "%s: %s" % (where, k), "no model")
    if not n0:
        rep.open(rule, where, "no path returned")
    return n0
