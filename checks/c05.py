"""C05: each key denotes its own predicate"""
from sa.common import Report, dump
from sa.parsereport import parse_report


def run():
    rep = Report("C05", "proof")
    parse_report(rep, dump(), ('C05: ',), floors=('C05: accepts', 'C05: predicate kind'))
    return rep
