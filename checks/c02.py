"""C02: parsing accepts exactly the grammar"""
from sa.common import Report, dump
from sa.parsereport import parse_report


def run():
    rep = Report("C02", "proof")
    parse_report(rep, dump(), ('C02: ',), floors=('C02: accepts', 'C02: rejects'))
    return rep
