"""Goals about a whole validation: what is judged, in which state the validator is."""
from .goals import goal, Ctx, same_term
from .vworld import *
from .values import *
from . import models as M
from .world import h5py
from spec import top as S_top
import os

DV = "punx/validate.py:Data_File_Validator."
EXISTS = F("exists", StrS, BoolS)
OPENS = F("opens", StrS, BoolS)
OPENED = F("opened", StrS, Obj)


def os_models(c):
    """files: what exists and what opens is not known"""
    it = c.it
    c.closed = []

    def exists(it, a, kw):
        return SBool(EXISTS(zs(a[0])))

    def h5file(it, a, kw):
        mode = a[1] if len(a) > 1 else kw.get("mode", "r")
        c.prove("opened for reading only", mode == "r")
        s = zs(a[0])
        if not it.run.decide(OPENS(s)):
            raise PyRaise(OSError("cannot open"))
        t = OPENED(s)
        it.run.assume(W.h_kind(t) == 0)
        it.run.assume(W.h_name(t) == z3.StringVal("/"))
        return SObj(t, H5)

    it.models[id(os.path.exists)] = Model("exists", exists)
    it.models[id(h5py.File)] = Model("File", h5file)
    def close(it, o, a, kw):
        c.closed.append(o)

    H5.methods["close"] = H5.methods["__exit__"] = close
    H5.methods["__enter__"] = lambda it, o, a, kw: o


def effect(c, module, qual, label, nargs):
    """the contract of a function is looked at elsewhere: here only that it is called"""
    def f(it, a, kw):
        if kw or len(a) != nargs + 1:
            raise Unsupported("arguments of " + qual)
        it.list_append(c.effects, [tuple([label] + [it.force(x) for x in a[1:]])])

    c.it.stubs[(module, qual)] = Model(label, f)


def used_validator(c):
    """a validator that did something before, or nothing"""
    it, v = c.it, c.validator
    v.validations = it.reg(IList([Rest("earlier findings")]))
    v.addresses = it.reg(IDict([])) if c.run.choose(2) == 0 else addresses(it)
    v.classpaths = classpaths(it)
    v.regexp_cache = Memo()
    v.h5 = None if c.run.choose(2) == 0 else SObj(z3.Const("earlier_file", Obj), H5)
    if v.h5 is not None:
        c.run.assume(W.h_kind(v.h5.t) == 0)
    return v


KINDS = ("item name", "attribute", "group", "application definition", "default plot")


def only(lst, label):
    """the effects of one kind"""
    out = []
    for x in lst.items if isinstance(lst, IList) else lst:
        if isinstance(x, Piece):
            out.append(Piece(x.seq, x.idx, [PiecePath(p.guard, p.facts, only(p.values, label)) for p in x.paths], x.upto))
        elif not isinstance(x, tuple) or not isinstance(x[0], str):
            raise Unsupported("what is judged")
        elif x[0] == label:
            out.append(x)
    return out


def labels(lst):
    for x in lst.items if isinstance(lst, IList) else lst:
        if isinstance(x, Piece):
            for p in x.paths:
                yield from labels(p.values)
        else:
            yield x[0]


def empty(x):
    return isinstance(x, IDict) and not x.entries or isinstance(x, IList) and not x.items


@goal("C10", "validate.validate", DV + "validate", also=("C06:^the catalogue is|^judged once", "C07:default plot", "C01:item name", "C02:judged once: group", "C03:judged once: attribute", "C04:judged once: group", "C05:application definition"))
def g_validate(run):
    c = VCtx(run)
    it = c.it
    os_models(c)
    v = used_validator(c)
    c.effects = it.reg(IList([]))
    h5_0 = v.h5
    before = dict(v.__dict__)
    m = "punx.validate"
    V = "Data_File_Validator."

    def catalog(it, a, kw):
        self, parent, group = a[0], a[1] if len(a) > 1 else kw["parent"], a[2] if len(a) > 2 else kw["group"]
        c.prove("the catalogue is made for the root of the file", parent is None and group is v.h5 and (len(a) < 4 or a[3] is None) and not kw.get("name"))
        for k in ("validations", "addresses", "classpaths", "regexp_cache"):
            c.prove("nothing is left of earlier files: " + k, v.__dict__[k] is not before[k] and empty(v.__dict__[k]))
        v.addresses, v.classpaths = addresses(it), classpaths(it)

    it.stubs[(m, V + "_group_address_catalog_")] = Model("_group_address_catalog_", catalog)
    P = "punx.validations."
    for mod, label, n in (("item_name", "item name", 1), ("attribute", "attribute", 1), ("application_definition", "application definition", 1), ("default_plot", "default plot", 0)):
        effect(c, P + mod, "verify", label, n)
    effect(c, m, V + "validate_group", "group", 1)
    fname = c.text("file")
    out = c.call(validate.Data_File_Validator.validate, v, fname)
    exp = c.call(S_top.refusal, fname, SBool(OPENS(fname.t)))
    if out[0] == "exc":
        for x in c.closed:
            c.prove("no closed file is kept", v.h5 is not x)
        c.prove("a refused file is not judged", empty(c.effects))
    c.same_outcome(out, exp)
    c.prove("file", v.h5 is not h5_0 and same_term(it, v.h5, SObj(OPENED(fname.t), H5)))
    c.prove("earlier file closed", h5_0 is None and not c.closed or len(c.closed) == 1 and c.closed[0] is h5_0)
    c.same_value("file name", v.fname, fname)
    c.prove("file set", v.manager is before["manager"])
    exp = c.no_exception("spec", c.call(S_top.judged, v))
    for k in KINDS:
        c.same_items("judged once: " + k, only(c.effects, k), only(exp, k))
    c.prove("nothing else is judged", all(x in KINDS for x in labels(c.effects)))
    c.prove("one list of findings", empty(v.validations) and v.validations is not before["validations"])


@goal("C10", "validate.Data_File_Validator", DV + "__init__")
def g_validator(run):
    """every validator has its own lists, and the file set it was asked for"""
    c = Ctx(run, {})
    it = c.it
    made = []

    def manager(it, a, kw):
        ref = (list(a) + list(kw.values()) + [None])[0]
        made.append((it.force(ref), SObj(z3.Const("manager", Obj), ObjClass("MGR_"))))
        return made[-1][1]

    it.stubs[("punx.nxdl_manager", "NXDL_Manager")] = Model("NXDL_Manager", manager)
    ref = [None, c.text("file_set"), c.obj("file_set_object", ObjClass("FSET_"))][run.choose(3)]
    two = []
    for _ in range(2):
        v = it.new_object(validate.Data_File_Validator)
        args = [] if ref is None and len(two) else [ref]
        c.no_exception("no exception", c.real(validate.Data_File_Validator.__init__, v, *args))
        two.append(v)
    c.prove("one class table for each", len(made) == 2)
    for (r, m), v in zip(made, two):
        c.prove("of the file set asked for", r is ref and it.force(it.getattr(v, "manager")) is m)
        c.prove("no file", it.force(it.getattr(v, "h5")) is None)
    for k in ("validations", "addresses", "classpaths", "regexp_cache"):
        a, b = [it.force(it.getattr(v, k)) for v in two]
        c.prove("nothing yet: " + k, empty(a) and empty(b))
        c.prove("its own: " + k, a is not b)
        c.prove("not shared with the class: " + k, all(k in v.__dict__ for v in two))


@goal("C10", "validate.close", DV + "close")
def g_close(run):
    c = VCtx(run)
    os_models(c)
    v = c.validator
    h5_0 = v.h5 = None if run.choose(2) == 0 else SObj(z3.Const("earlier_file", Obj), H5)
    if h5_0 is not None:
        run.assume(W.h_kind(h5_0.t) == 0)
    c.no_exception("no exception", c.real(validate.Data_File_Validator.close, v))
    c.prove("no file", v.h5 is None)
    c.prove("closed", [x is h5_0 for x in c.closed] == ([] if h5_0 is None else [True]))
