"""C19: equality and original().  The stored text is judged at every accepting return of parse; original,
eq and the Clone impls of the types of an expression are interpreted on symbolic expressions."""
from sa.common import Report, dump
from sa.harness import *
from sa.models import S_of
from sa.parsereport import parse_report
from sa.parsecheck import EXPR, ParseRun
from sa.values import paths, same_val


def reach(p, ty, seen):
    if ty in seen:
        return
    seen.add(ty)
    t = p.types[ty]
    for a in t.get("args", []):
        reach(p, a, seen)
    for v in t.get("variants", []):
        for f in v["fields"]:
            reach(p, f["ty"], seen)
    if "elem" in t:
        reach(p, t["elem"], seen)
    for e in t.get("elems", []):
        reach(p, e, seen)


def run():
    rep = Report("C19", "proof")
    p = dump()
    run = ParseRun(p, "W")
    if run.missing:
        rep.open("parse", "Expression", run.missing)
        return rep

    def expr(eng, st, name):
        st.newtext(name)
        T = ("t", name, ZERO, st.tx[name].n)
        fs = [None, None]
        fs[run.txtf] = ("S", T)
        fs[run.seqf] = ("y", name + ".seq", run.seqty)
        o = ("H", name)
        st.heap[o] = ("a", run.exty, 0, tuple(fs))
        return ("r", o, ()), T

    bs = p.find_inherent(EXPR, "original")
    if len(bs) != 1 or bs[0].argc != 1:
        rep.open("original", "Expression::original", "function not found")
    else:
        eng, st = engine(p, 60), St()
        e, T = expr(eng, st, "t0")

        def judge(s, v):
            S = S_of(eng, s, v)
            whole = S == T or (S[0] == "t" and S[1] == "t0" and s.same(S[2], T[2]) and s.same(S[3], T[3]))
            return True if whole else (s.seq_decide(S, T) is True), "original() is not the stored text"

        paths(rep, "original", eng, bs[0], [e], st, judge)
    for name in ("eq", "ne"):
        bs = p.find_impl("core::cmp::PartialEq", name, lambda t: p.adt_path(t) == EXPR)
        if name == "ne" and not bs:
            continue
        if len(bs) != 1:
            rep.open("equality", "PartialEq for Expression", "no unique implementation found")
            continue
        eng, st = engine(p, 60), St()
        e1, T1 = expr(eng, st, "t0")
        e2, T2 = expr(eng, st, "t1")

        def judge(s, v, name=name):
            if v[0] != "b":
                return None, "the result is not followed"
            r = s.need(v[1])
            if name == "ne":
                r = not r
            d = s.seq_decide(T1, T2)
            if r:
                return d is True, "expressions whose texts are not known to be identical can be equal"
            return d is False, "expressions with identical texts can be unequal"

        paths(rep, "equality", eng, bs[0], [e1, e2], st, judge)
    seen = set()
    reach(p, run.exty, seen)
    n = 0
    for b in p.bodies.values():
        d = b.d
        if not (b.local and d.get("trait") == "core::clone::Clone" and d.get("name") == "clone" and d["impl_self"] in seen):
            continue
        eng, st = engine(p, 60), St()
        ty = d["impl_self"]
        if ty == run.exty:
            e, _ = expr(eng, st, "t0")
        else:
            st.heap[("H", "x")] = ("y", "x", ty)
            e = ("r", ("H", "x"), ())

        def judge(s, v, e=e):
            r = same_val(eng, s, eng.load(s, eng.deref_val(s, e)), v)
            return r, "the clone differs from its source"

        n += paths(rep, "clone", eng, b, [e], st, judge)
    rep.check("clone", n > 0, "Clone for Expression", "no Clone implementation found") if n else rep.open("clone", "Clone for Expression", "not found")
    parse_report(rep, p, ("C19: ",), floors=("C19: original is the parsed text", "C19: parsed text"))
    return rep
