"""C08: spans of tokens and errors."""
from sa.common import Report, dump
from sa.lexcheck import lexrun, report
from sa.parsereport import parse_report

RULES = {"result", "token span in range", "token span on boundaries", "punctuation token", "keyword token", "key text", "value quotes", "value text",
         "error text", "error span in range", "error span on boundaries"}


def run():
    rep = Report("C08", "proof")
    p = dump()
    report(rep, lexrun(p), RULES)
    parse_report(rep, p, ("C08: ",), floors=("C08: error text", "C08: error span in range", "C08: error span on boundaries"))
    return rep
