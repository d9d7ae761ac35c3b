"""C11: lookup by triple.  The function is interpreted on an unknown text over the constant list the
compiler evaluated; every way it can return is compared with the list."""
from sa.common import Report, dump
from sa.harness import *
from sa.engine import Limit
from sa.lexcheck import splitting, full, report_panics
from sa.targets import builtins, value
from sa.models import str_bounds
from sa.state import Stuck


def order_excludes(st, T, ts):
    """indices of the texts that the comparisons made on this path rule out (they are recorded only
    after equality with the same text was excluded)"""
    lo, hi = str_bounds(st, T)
    return {i for i, t in enumerate(ts) if (hi is not None and t.encode() >= hi) or (lo is not None and t.encode() <= lo)}


def run():
    rep = Report("C11", "proof")
    p = dump()
    rows = builtins(p)
    ts = [r["triple"] for r in rows]
    for i in range(1, len(ts)):
        rep.check("strictly sorted", ts[i - 1].encode() < ts[i].encode(), ts[i], "%r is not greater than %r before it" % (ts[i], ts[i - 1]))
    rep.check("list not empty", len(ts) > 0, "ALL_BUILTINS", "no builtin target")
    bs = [b for b in p.find_path("cfg_expr::targets::get_builtin_target_by_triple")]
    if len(bs) != 1 or bs[0].argc != 1:
        rep.open("lookup", "get_builtin_target_by_triple", "function not found")
        return rep
    b = bs[0]
    where = "get_builtin_target_by_triple at " + b.d["span"]
    eng = engine(p, 400)
    st = St()
    T = st.newtext("t0")
    sorted_ok = all(ts[i - 1].encode() < ts[i].encode() for i in range(1, len(ts)))
    nsome = 0
    found = set()
    allc = value(p, "cfg_expr::targets::builtins::ALL_BUILTINS")
    elems = eng.const(allc["v"], allc["ty"])[1][1]
    index = {}
    for i, e in enumerate(elems):
        index.setdefault(e[1], i)
    try:
        for s, v in eng.call_body(st, b, [("s", T)], loops=False):
            v = full(eng, s, v, 1)
            if v[0] != "a":
                rep.open("lookup", where, "result not followed")
                continue
            name = p.types[v[1]]["variants"][v[2]]["name"]
            if s.taint:
                rep.open("lookup", where, "path not followed: " + s.taint[0])
                continue
            if name == "Some":
                r = v[3][0]
                e = eng.strip_refs(s, r)
                i = index.get(e)
                ok = i is not None and s.seq_decide(T, ("k", ts[i])) is True
                if ok:
                    found.add(i)
                rep.check("found: exactly the target with that triple", ok, where,
                          "can return %s for another triple" % (ts[i] if i is not None else "something not in the list"))
            else:
                out = order_excludes(s, T, ts) if sorted_ok else set()
                left = [t for i, t in enumerate(ts) if i not in out and s.seq_decide(T, ("k", t)) is not False]
                rep.check("not found: no target has that triple", not left, where, "can return None for " + ", ".join(left[:3]))
        if not eng.dropped and not eng.stucks:
            for i, t in enumerate(ts):
                rep.check("every target is found", i in found, t, "%r is never found" % t)
    except (Limit, Stuck) as e:
        rep.open("lookup", where, "analysis stopped: %r" % (e,))
    report_panics(rep, eng)
    rep.extra["analysed"] = {"builtins": len(ts), "mir_steps": eng.steps, "unmodelled": eng.stucks}
    return rep
