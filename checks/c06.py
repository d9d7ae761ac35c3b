"""C06: predicates carry the exact text"""
from sa.common import Report, dump
from sa.parsereport import parse_report


def run():
    rep = Report("C06", "proof")
    parse_report(rep, dump(), ('C06: ',), floors=('C06: accepts', 'C06: predicate value'))
    return rep
