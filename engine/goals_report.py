"""Goals about findings, statistics and the report."""
from .goals import goal, Ctx, same_term
from .vworld import *
from .values import *
from . import models as M
from spec import report as S_report

DV = "punx/validate.py:Data_File_Validator."
STATUSES = finding.VALID_STATUS_LIST
FIND = ObjClass("FIND")
f_status = F("f_status", Obj, IntS)


def _status(it, o):
    for n, s in enumerate(STATUSES[:-1]):
        if it.run.decide(f_status(o.t) == n):
            return s
    it.run.assume(f_status(o.t) == len(STATUSES) - 1)
    return STATUSES[-1]


FIND.attrs.update({
    "status": _status,
    "h5_address": lambda it, o: SStr(F("f_address", Obj, StrS)(o.t)),
    "test_name": lambda it, o: SStr(F("f_test", Obj, StrS)(o.t)),
    "comment": lambda it, o: SStr(F("f_comment", Obj, StrS)(o.t)),
})
FIND.truth = lambda it, o: True
FIND.setattr = lambda it, o, name, v: it.frame_violation(f"writes {name} of a finding")
FIND.eq = lambda it, a, b: a.t == b.t


def recorded(c):
    """any list of findings"""
    n = z3.Int("findings_n")
    at = F("finding", IntS, Obj)
    c.run.assume(n >= 0)
    seq = SSeq(("findings",), n, lambda j: SObj(at(j), FIND))
    c.seq = seq
    c.validator.validations = seq
    return seq


@goal("C08", "Finding.__init__", "punx/finding.py:Finding.__init__")
def g_finding(run):
    c = VCtx(run)
    it = c.it
    k = run.choose(len(STATUSES) + 3)
    bad = k >= len(STATUSES)
    status = [None, c.text("word"), SObj(z3.Const("other", Obj), ObjClass("other"))][k - len(STATUSES)] if bad else STATUSES[k]
    if k == len(STATUSES) + 2:
        status.cls.eq = lambda it, a, b: False
        status.cls.methods["__str__"] = lambda it, o, a, kw: SStr(z3.String("other_text"))
    a, t, m = c.text("address"), c.text("test"), c.text("comment")
    out = c.call(finding.Finding, a, t, status, m)
    if bad:
        c.prove("unknown status refused", out[0] == "exc" and type(out[1]) is ValueError)
        return
    f = c.no_exception("no exception", out)
    for k, v in (("h5_address", a), ("test_name", t), ("status", status), ("comment", m)):
        c.prove(k, it.getattr(f, k) is v or same_term(it, it.getattr(f, k), v))


@goal("C08", "validate.record_finding", DV + "record_finding")
def g_record(run):
    c = VCtx(run)
    it = c.it
    i = c.item("item")
    addr = it.getattr(i, "h5_address")
    k, m = c.text("test"), c.text("comment")
    status = STATUSES[run.choose(len(STATUSES))]
    out = c.no_exception("no exception", c.call(validate.Data_File_Validator.record_finding, c.validator, i, k, status, m))
    new = strip(c.validator.validations)
    c.prove("one finding more", c.validator.validations is c.findings and len(new) == 1 and isinstance(c.findings.items[0], Rest))
    f = new[0]
    for name, v in (("h5_address", addr), ("test_name", k), ("status", status), ("comment", m)):
        x = it.getattr(f, name)
        c.prove(name, x is v or same_term(it, x, v))
    c.prove("stored with the item", len(c.itemvals.items) == 1 and c.itemvals.items[0][2] is f and same_term(it, c.itemvals.items[0][0], i) and same_term(it, c.itemvals.items[0][1], k))
    c.prove("returned", out is f)


@goal("C08", "validate.finding_score", DV + "finding_score")
def g_score(run):
    c = VCtx(run)
    it = c.it
    seq = recorded(c)
    out = c.no_exception("no exception", c.call(validate.Data_File_Validator.finding_score, c.validator))
    t, n, avg = c.no_exception("spec", c.call(S_report.score, seq))
    c.prove("a triple", isinstance(out, tuple) and len(out) == 3)
    c.same_value("total", out[0], t)
    c.same_value("count", out[1], n)
    c.same_value("average", out[2], avg)


@goal("C08", "validate.finding_summary", DV + "finding_summary")
def g_summary(run):
    c = VCtx(run)
    it = c.it
    seq = recorded(c)
    k = run.choose(len(STATUSES) + 1)
    statuses = [STATUSES[k]] if k < len(STATUSES) else list(STATUSES)
    args = [it.new_list(statuses)] if k < len(STATUSES) else []
    out = c.no_exception("no exception", c.call(validate.Data_File_Validator.finding_summary, c.validator, *args))
    exp = c.no_exception("spec", c.call(S_report.summary, seq, it.new_list(statuses)))
    c.prove("a dictionary", isinstance(out, IDict))
    c.prove("one count for each status", len(out.entries) == len(statuses) and all(e[0] is s for e, s in zip(out.entries, statuses)))
    for (s, n), x in zip(out.entries, exp.items):
        c.same_value("count of " + s.key, n, x[1])


# ------------------------------------------------------------------------ C09
STAT = ObjClass("STATUS")  # one of the statuses, not known which


def _pick(field, conv):
    def f(it, o):
        t = conv(getattr(STATUSES[-1], field))
        for n, s in reversed(list(enumerate(STATUSES[:-1]))):
            t = z3.If(o.t == n, conv(getattr(s, field)), t)
        return SInt(t) if conv is z3.IntVal else SStr(t)

    return f


STAT.attrs.update({"key": _pick("key", z3.StringVal), "value": _pick("value", z3.IntVal), "description": _pick("description", z3.StringVal), "color": _pick("color", z3.StringVal)})
STAT.methods["__str__"] = lambda it, o, a, kw: _pick("key", z3.StringVal)(it, o)
STAT.truth = lambda it, o: True
STAT.setattr = lambda it, o, name, v: it.frame_violation(f"writes {name} of a status")
STAT.eq = lambda it, a, b: (a.t == b.t) if isinstance(b, SObj) and b.cls is STAT else a.t == STATUSES.index(b) if b in STATUSES else False
FIND2 = ObjClass("FIND2", dict(FIND.attrs, status=lambda it, o: SObj(f_status(o.t), STAT)))
FIND2.truth, FIND2.setattr, FIND2.eq = FIND.truth, FIND.setattr, FIND.eq

SELECT = ObjClass("SELECT")  # any non-empty collection of texts
SELECT.contains = lambda it, o, x: F("selected", StrS, BoolS)(zs(x)) if M.is_text(it.force(x)) else False
SELECT.truth = lambda it, o: True


class Table(Sym):
    """pyRestTable.Table: labels and rows"""

    def __init__(self, it, n):
        self.n, self.labels, self.rows = n, it.reg(IList([])), it.reg(IList([]))

    def subst(self, pairs):
        return self

    def sym_getattr(self, it, name):
        if name == "addLabel":
            return Model(name, lambda it, a, kw: it.list_append(self.labels, [a[0]]))
        if name == "addRow":
            def row(it, a, kw):
                r = it.force(a[0])
                r = r.items if isinstance(r, IList) else r
                if not isinstance(r, (list, tuple)) or any(isinstance(x, (Piece, Rest)) for x in r):
                    raise Unsupported("row")
                it.list_append(self.rows, [tuple(r)])
            return Model(name, row)
        if name in ("reST", "__str__"):
            return Model(name, lambda it, a, kw: self.text())
        raise Unsupported("table." + name)

    def text(self):
        return SStr(z3.String(f"table_{self.n}"))

    def sym_str(self, it):
        return self.text()


REF = ObjClass("FSET2", {k: (lambda it, o, k=k: SStr(F("fs_" + k, Obj, StrS)(o.t))) for k in ("ref", "last_modified", "sha")})
MGR2 = ObjClass("MGR2", {"nxdl_file_set": lambda it, o: SObj(z3.Const("file_set", Obj), REF)})


@goal("C09", "validate.print_report", DV + "print_report")
def g_report(run):
    import pyRestTable

    c = VCtx(run)
    it = c.it
    n = z3.Int("findings_n")
    at = F("finding", IntS, Obj)
    run.assume(n >= 0)
    a = z3.Int("a")
    run.assume(z3.ForAll([a], z3.And(f_status(at(a)) >= 0, f_status(at(a)) < len(STATUSES)), patterns=[at(a)]))
    seq = SSeq(("findings",), n, lambda j: SObj(at(j), FIND2))
    v = c.validator
    v.validations, v.manager = seq, SObj(z3.Const("manager", Obj), MGR2)
    tables = []

    def table(it, a, kw):
        tables.append(Table(it, len(tables)))
        return tables[-1]

    it.models[id(pyRestTable.Table)] = Model("Table", table)
    counts = [SInt(z3.Int("count_" + s.key)) for s in STATUSES]

    def summary(it, a, kw):
        c.prove("statistics of all findings", len(a) == 1 and not kw or it.force((list(a[1:]) + list(kw.values()))[0]) is None)
        return it.new_dict([[s, x] for s, x in zip(STATUSES, counts)])

    it.stubs[("punx.validate", "Data_File_Validator.finding_summary")] = Model("finding_summary", summary)
    score = (SInt(z3.Int("total")), SInt(z3.Int("count")), SInt(z3.Int("average")))
    it.stubs[("punx.validate", "Data_File_Validator.finding_score")] = Model("finding_score", lambda it, a, kw: score)
    log = run.logs["print"] = it.reg(IList([]))
    k = run.choose(3)
    sel = [None, it.new_list([]), SObj(z3.Const("statuses", Obj), SELECT)][k]
    args = [] if k == 0 and run.choose(2) else [sel]
    before = dict(v.__dict__)
    c.no_exception("no exception", c.call(validate.Data_File_Validator.print_report, v, *args))
    for s in STATUSES:
        c.prove("name of a status", c.no_exception("str", c.call(str, s)) == s.key)
    c.prove("two tables", len(tables) == 2)
    exp = c.no_exception("spec", c.call(S_report.rows, seq, sel if k == 2 else None))
    c.same_items("rows", tables[0].rows, exp)
    # the order: by address, attributes next to their item
    for x in strip(tables[0].rows):
        c.prove("findings of any number", isinstance(x, Piece))
        tag = x.seq.tag
        c.prove("findings are sorted", bool(tag) and tag[0] == "sorted" and tag[2] is False and tag[1].sort() == StrS)
        i = z3.Int("so")
        ad = it.force(c.no_exception("spec", c.call(S_report.place, SObj(at(i), FIND2))))
        c.prove("sorted by address", z3.PrefixOf(zs(ad), tag[1]))
    exp = c.no_exception("spec", c.call(S_report.statistics, it.new_list([(s, x) for s, x in zip(STATUSES, counts)])))
    c.same_items("statistics", tables[1].rows, exp, ordered=True)
    shown = [x for x in log.items if len(x) == 1 and M.is_text(x[0])]
    pos = [[n for n, x in enumerate(shown) if any(p.eq(t.text().t) for p in M.str_parts(zs(x[0])))] for t in tables]
    c.prove("both tables are printed, the findings first", all(len(p) == 1 for p in pos) and pos[0][0] < pos[1][0])
    c.prove("frame", all(v.__dict__.get(k) is x for k, x in before.items()))
