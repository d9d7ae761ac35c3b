"""C04: eval and predicates()."""
from sa.common import Report, dump
from sa.evalcheck import EvalRun
from sa.lexcheck import report_panics
from sa.loops import loops_end
from sa.parsereport import parse_report

FLOORS = ("one callback per predicate", "the callback's argument", "operands", "combination", "value of the root",
          "predicates() loses none", "predicates() yields each", "predicates() yields the same", "predicates() ends with the last")


def run():
    rep = Report("C04", "proof")
    p = dump()
    r = EvalRun(p)
    if not r.missing:
        r.run()
    if r.missing:
        rep.open("eval", "Expression::eval", r.missing)
    seen = set()
    for o in r.obs:
        seen.add(o.rule)
        if o.ok:
            rep.ok(o.rule, o.where)
        elif o.ok is None or o.taint:
            rep.open(o.rule, o.where, o.why + (" (after %s)" % o.taint[0] if o.taint else ""))
        else:
            rep.violation(o.rule, o.where, o.why, o.path)
    for f in FLOORS:
        if f not in seen:
            rep.open(f, "Expression::eval", "no path reached this obligation")
    ids = set()
    for e in r.engines:
        report_panics(rep, e)
        ids |= e.visited
        if e.dropped:
            rep.open("modelled", "Expression::eval", "paths were dropped")
    loops_end(rep, p, ids)
    if not r.missing:
        rep.extra["eval"] = {"returns_judged": r.returns, "items_judged": r.yields, "mir_steps": sum(e.steps for e in r.engines)}
    parse_report(rep, p, ("C04: ",))
    return rep
