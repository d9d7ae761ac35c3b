"""C07: the lexer's tokens."""
from sa.common import Report, dump
from sa.lexcheck import lexrun, report

RULES = {"result", "stops after an error", "end", "token span in range", "whitespace skipped", "progress", "punctuation token", "keyword token",
         "key text", "identifier characters", "maximal identifier", "keyword not a key", "value quotes", "value text",
         "value ends at the next quote", "token kind", "error justified"}


def run():
    rep = Report("C07", "proof")
    p = dump()
    r = lexrun(p)
    report(rep, r, RULES, panics=True)
    return rep
