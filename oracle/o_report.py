"""C08 scores and statistics, C09 printed report."""
import io
import re
import types

from . import base, gen_h5, h5case, sets
from .base import Bad, oracle, workdir, brief
from .o_validate import validator, findings

STATUS = {"OK": 100, "NOTE": 75, "WARN": 25, "ERROR": -10000000, "TODO": 0, "UNUSED": 0, "COMMENT": 0, "OPTIONAL": 99}
ADDR = ["/", "/a", "/a/b", "/a@x", "/a/b@y", "/ab", "/a b", "/A", "/a@", "/é", "/a/b/c", "/a.b", "/a0@q", "/a-b", "/a@x2"]
TESTS = ["validItemName", "t", "known NXDL", "a | b", "", "valid name @signal=x", "é"]
COMMENTS = ["", "c", "found", "two words", "Zed | bar", "x" * 60]
ODD_TEXT = ["a\nb", " lead", "trail ", "tab\there", "a  b", "\n", "UPPER", "a" * 300, "%s {0}"]


def lists(r):
    for i in range(250):
        n = r.choice([0, 1, 1, 2, 3, 5, 8, 30])
        fs = [[r.choice(ADDR), r.choice(TESTS), r.choice(list(STATUS)), r.choice(COMMENTS)] for _ in range(n)]
        k = r.randrange(5)
        some = [] if k == 0 else r.sample(list(STATUS), 1 + r.randrange(7)) if k > 1 else None
        yield {"findings": fs, "statuses": some, "bad": r.random() < 0.2}


def odd_lists(r):
    for c in lists(r):
        for f in c["findings"]:
            for k in (0, 1, 3):
                if r.random() < 0.2:
                    f[k] = ("/" if k == 0 else "") + r.choice(ODD_TEXT)
        yield c


def fake(case):
    """a validator with these findings, recorded through record_finding"""
    from punx import finding, validate

    v = object.__new__(validate.Data_File_Validator)
    v.h5 = None
    v.__init_local__()
    v.fname = "some file"
    v.manager = types.SimpleNamespace(nxdl_file_set=types.SimpleNamespace(ref="R", last_modified="M", sha="S"))
    items = {}
    for a, t, s, c in case["findings"]:
        it = items.setdefault(a, types.SimpleNamespace(h5_address=a, validations={}))
        f = v.record_finding(it, t, finding.VALID_STATUS_DICT[s], c)
        g = v.validations[-1]
        if (g.h5_address, g.test_name, str(g.status), g.comment) != (a, t, s, c):
            raise Bad(f"record_finding: {(a, t, s, c)} kept as {(g.h5_address, g.test_name, str(g.status), g.comment)}")
        if it.validations.get(t) is not g or f is not g:
            raise Bad("record_finding: not stored with its item")
    if [(f.h5_address, f.test_name, str(f.status), f.comment) for f in v.validations] != [tuple(x) for x in case["findings"]]:
        raise Bad("record_finding: findings changed")
    return v


@oracle("C08", odd_lists, "random lists of findings and selections of statuses, recorded with record_finding")
def judge_c08(case):
    from punx import finding

    if {k: s.value for k, s in finding.VALID_STATUS_DICT.items()} != STATUS:
        return "statuses: values changed"
    v = fake(case)
    st = [f[2] for f in case["findings"]]
    for sel in (None, case["statuses"]):
        arg = None if sel is None else [finding.VALID_STATUS_DICT[s] for s in sel]
        got = v.finding_summary(arg) if arg is not None else v.finding_summary()
        exp = {s: st.count(s) for s in (sel or STATUS)}
        if {k.key: c for k, c in got.items()} != exp:
            return f"finding_summary: {({k.key: c for k, c in got.items()})} expected {exp}"
    if sum(v.finding_summary().values()) != len(st):
        return "finding_summary: total"
    vals = [STATUS[s] for s in st if STATUS[s]]
    exp = (sum(vals), len(vals), sum(vals) / len(vals) if vals else 0)
    if tuple(v.finding_score()) != exp:
        return f"finding_score: {v.finding_score()} expected {exp}"
    for bad in ("OK", None, 100, types.SimpleNamespace(key="OK", value=100)):
        try:
            finding.Finding("/", "t", bad, "")
        except ValueError:
            continue
        except Exception as exc:  # noqa
            return "Finding: " + brief(exc)
        return f"Finding: takes status {bad!r}"


def c08_files(r):
    for i in range(40):
        yield {"set": r.choice(["odd", "small"]), "file": r.choice([gen_h5.any_file, gen_h5.class_file, gen_h5.app_file])(r)}


@oracle("C08", c08_files, "findings of validations of random files")
def judge_c08_files(case):
    from punx import finding

    with workdir() as d:
        p = h5case.write(case["file"], d)
        v = validator(case["set"])
        got = findings(v, p)
        known = {id(s) for s in finding.VALID_STATUS_LIST}
        for f in v.validations:
            if id(f.status) not in known:
                return "status: unknown"
            i = v.addresses.get(f.h5_address)
            if i is not None and not f.test_name.startswith("NXDL field") and f.test_name not in i.validations:
                return f"item: finding {f.test_name!r} of {f.h5_address!r} is not stored with its item"
        v.close()
        st = [s for _, _, s in got]
        if {k.key: c for k, c in v.finding_summary().items()} != {s: st.count(s) for s in STATUS}:
            return "finding_summary: counts"


# ------------------------------------------------------------------------ C09
def rows_of(text, nlabels):
    """cells of a simple rest table given as text"""
    lines = text.splitlines()
    bars = [i for i, l in enumerate(lines) if re.fullmatch(r"=+( =+)*", l)]
    if len(bars) < 3:
        return []
    cols = [(m.start(), m.end()) for m in re.finditer(r"=+", lines[bars[0]])]
    out = []
    for l in lines[bars[1] + 1: bars[2]]:
        out.append(tuple((l[a:b] if i < len(cols) - 1 else l[a:]).strip() for i, (a, b) in enumerate(cols)))
    return out


@oracle("C09", lists, "random lists of findings and selections of statuses; the printed tables are read back")
def judge_c09(case):
    import sys

    v = fake(case)
    before = list(v.validations)
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        try:
            v.print_report(None if case["statuses"] is None else list(case["statuses"]))
        except Exception as exc:  # noqa
            return "print_report fails: " + brief(exc)
        text = sys.stdout.getvalue()
    finally:
        sys.stdout = old
    if len(before) != len(v.validations) or any(a is not b for a, b in zip(before, v.validations)) or [(f.h5_address, f.test_name, str(f.status), f.comment) for f in v.validations] != [tuple(x) for x in case["findings"]]:
        return "findings: changed by printing"
    if "some file" not in text or "findings\n" not in text or "summary statistics\n" not in text:
        return "report: parts missing"
    head, tail = text.split("\nsummary statistics\n")
    body = head.split("findings\n", 1)[1]
    sel = case["statuses"] or list(STATUS)
    exp = [(a, s, t, c) for a, t, s, c in case["findings"] if s in sel]
    got = rows_of(body, 4)
    if sorted(got) != sorted(tuple(x.strip() for x in e) for e in exp):
        g, e = sorted(got), sorted(exp)
        return f"report: rows {[x for x in g if x not in e][:4]} expected {[x for x in e if x not in g][:4]} ({len(g)}/{len(e)})"
    order = [r[0] for r in got]
    if sorted(order, key=address_key) != order:
        return f"report: order {order}"
    st = [f[2] for f in case["findings"]]
    stats = {r[0]: r[1] for r in rows_of(tail, 4)}
    exp = {s: str(st.count(s)) for s in STATUS}
    exp["TOTAL"] = str(len(st))
    for k, n in exp.items():
        if stats.get(k) != n:
            return f"statistics: {k} {stats.get(k)} expected {n}"


def address_key(a):
    return a.replace("@", " @")
