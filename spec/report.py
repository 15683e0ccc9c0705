"""Findings, their statistics and the report (properties C08 and C09)."""
from punx import finding


def score(findings):
    """findings that count are those whose status has a value"""
    total = sum(f.status.value for f in findings if f.status.value != 0)
    count = sum(1 for f in findings if f.status.value != 0)
    return total, count, (total / count if count else 0)


def summary(findings, statuses):
    for s in statuses:
        yield s, sum(1 for f in findings if f.status is s)


def rows(findings, selected):
    """the rows of the report; nothing selected: all"""
    for f in findings:
        if selected is None or f.status.key in selected:
            yield f.h5_address, f.status, f.test_name, f.comment


def place(f):
    """what findings are sorted by: their address, with blanks before and behind"""
    return f.h5_address.replace("@", " @") + " "


def statistics(counts):
    for s, n in counts:
        yield s.key, n, s.description, s.value
    yield "", "--", "", ""
    yield "TOTAL", sum([n for s, n in counts]), "", ""
