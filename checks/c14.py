"""C14: matching any target-lexicon triple never panics, and is false for abi, atomics and panic predicates."""
from sa.common import Report, dump
from sa.harness import *
from sa.loops import loops_end
from sa.values import paths

TP = "cfg_expr::expr::TargetPredicate"
TRAIT = "cfg_expr::expr::TargetMatcher"
NEVER = ("Abi", "HasAtomic", "Panic")
KNOWN = NEVER + ("Arch", "Endian", "Env", "Family", "Os", "PointerWidth", "Vendor")


def run():
    rep = Report("C14", "proof")
    p = dump()
    bs = p.find_impl(TRAIT, "matches", lambda t: (p.adt_path(t) or "").startswith("target_lexicon"))
    tp = p.type_by_path(TP)
    if len(bs) != 1 or len(tp) != 1:
        rep.open("matches", TRAIT, "the implementation for target-lexicon's Triple was not found")
        return rep
    body, tp = bs[0], tp[0]
    ids, readers, n = set(), {}, 0
    names = [v["name"] for v in p.types[tp]["variants"]]
    rep.check("abi, atomics and panic", all(x in names for x in NEVER), TP, "TargetPredicate has no such variants: " + ", ".join(names))
    for vi, v in enumerate(p.types[tp]["variants"]):
        name = v["name"]
        eng = engine(p, 120)
        st = St()

        def from_str(cx):
            # what target-lexicon reads from a text is any result; that reading itself never panics is checked below
            if cx.rec.get("inst") in p.bodies:
                readers[cx.rec["inst"]] = cx.rec.get("rpath")
            return ("y", fresh(), cx.rt)

        eng.trait_hooks[("core::str::traits::FromStr", "from_str")] = from_str
        tr = p.types[body.locals[1]]["elem"]
        st.heap[("H", "tr")] = eng.sym(st, tr, "triple")
        st.heap[("H", "tp")] = ("a", tp, vi, tuple(eng.sym(st, f["ty"], "pred") for f in v["fields"]))

        def judge(s, r):
            if name not in NEVER:
                return True, ""
            return s.need(r[1]) is False, "matching a triple against a %s predicate gives true" % name

        where = "%s at %s" % (name, body.d["span"])
        if name not in KNOWN:
            rep.open("matches", where, "a predicate this check does not know")
        n += paths(rep, "matches " + name, eng, body, [("r", ("H", "tr"), ()), ("r", ("H", "tp"), ())], st, judge, where)
        ids |= eng.visited
    for i in sorted(readers):
        eng = engine(p, 120)
        st = St()
        b = p.bodies[i]
        n += paths(rep, "reading a value", eng, b, [("s", st.newtext("t"))], st, lambda s, r: (True, ""), "%s at %s" % (b.path, b.d["span"]))
        ids |= eng.visited
    loops_end(rep, p, ids)
    rep.extra["analysed"] = {"paths_judged": n, "functions": sorted({p.bodies[i].path for i in ids if i in p.bodies and p.bodies[i].local}),
                             "readers": sorted({p.bodies[i].path for i in readers})}
    return rep
