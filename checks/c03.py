"""C03: the parsed expression has the structure of its text"""
from sa.common import Report, dump
from sa.parsereport import parse_report


def run():
    rep = Report("C03", "proof")
    parse_report(rep, dump(), ('C03: ',), floors=('C03: function kind', 'C03: operand count', 'C03: operands are its own', 'C03: operands present', 'C03: one root', 'C03: predicates of the innermost function'))
    return rep
