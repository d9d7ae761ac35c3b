"""C01: parsing never panics and terminates.  Panic freedom: no abstract path of Lexer::new, Lexer::next
(lexer run) or Expression::parse (both worlds) reaches a panic.  Termination: every token consumes text
(lexer run), the lexer ends, and every other loop of a function these paths enter consumes a finite iterator
or pops from a stack."""
from sa.common import Report, dump
from sa.lexcheck import lexrun, report
from sa.parsereport import parse_report
from sa.loops import loops_end

RULES = {"result", "progress", "stops after an error", "end"}


def run():
    rep = Report("C01", "proof")
    p = dump()
    lr = lexrun(p)
    report(rep, lr, RULES, panics=True)
    runs = parse_report(rep, p, ("C02: result",), panics=True)
    names = set()
    if hasattr(lr, "eng"):
        names |= lr.eng.visited
    for o in runs:
        names |= set(o.get("visited", ()))
        if not o["missing"]:
            rep.check("returns", o["stats"]["returns_judged"] > 0, "Expression::parse, " + o["world"], "no path returns")
    loops_end(rep, p, names)
    return rep
