"""Symbolic validator, NXDL file set and contracts of the validation functions."""
from .values import *
from .interp import Model, UNBOUND
from . import models as M
from . import world as W
from .world import F, SObj, H5, VITEM, DEF
from .goals import Ctx

import punx  # noqa
from punx import finding, utils, validate
from punx.validations import (application_definition, attribute, base_class_items_in_hdf5_group, default_plot,
                              hdf5_group_items_in_base_class, item_name, nx_class_attribute)

STRICT = r"[a-z_][a-z0-9_]*"

# selected file set: one unknown, the same everywhere
NX = z3.Const("nxdl_types", Obj)
CLS = z3.Const("classes", Obj)
RELAXED = "relaxed pattern: "
STRICTK = "strict pattern: " + STRICT


class Memo(Sym):
    """validator.regexp_cache: every key belongs to one pattern (invariant,
    proved at each insertion, goal by goal)"""

    P = F("cache_pattern", StrS, StrS)
    HAS = F("cache_has", StrS, BoolS)

    def __init__(self):
        self.added = []

    def pat(self, k):
        sv = z3.StringVal
        return z3.If(z3.PrefixOf(sv(RELAXED), k), z3.SubString(k, len(RELAXED), z3.Length(k)),
                     z3.If(k == sv(STRICTK), sv(STRICT), self.P(k)))

    def sym_contains(self, it, x):
        if any(M.zs(x).eq(k) for k in self.added):
            return True
        return self.HAS(M.zs(x))

    def sym_getitem(self, it, k):
        from .models import SPattern

        t = z3.simplify(M.zs(k))
        if not any(t.eq(x) for x in self.added):
            if not it.run.decide(self.HAS(t)):
                raise PyRaise(KeyError("regexp_cache"))
        return SPattern(SStr(self.pat(t)))

    def sym_setitem(self, it, k, v):
        from .models import SPattern
        import re

        t = z3.simplify(M.zs(k))
        if isinstance(v, SPattern):
            p = M.zs(v.text)
        elif isinstance(v, re.Pattern):
            p = M.zs(v.pattern)
        else:
            raise Unsupported("regexp_cache value")
        if not it.run.valid(self.pat(t) == p):
            raise Unsupported(f"regexp_cache[{t}] = {p}")
        it.run.prove("invariant of regexp_cache", self.pat(t) == p)
        self.added.append(t)

    def subst(self, pairs):
        return self

    def sym_getattr(self, it, name):
        if name in ("get", "setdefault"):
            raise Unsupported("regexp_cache." + name)
        raise PyRaise(AttributeError(name))


MGR = ObjClass("MGR")
FSET = ObjClass("FSET")
SMGR = ObjClass("SMGR")
NXT = ObjClass("NXT")
MGR.attrs["classes"] = lambda it, o: classes(it)
MGR.attrs["nxdl_file_set"] = lambda it, o: SObj(NX, FSET)
FSET.attrs["schema_manager"] = lambda it, o: SObj(NX, SMGR)
SMGR.attrs["nxdl"] = lambda it, o: SObj(NX, NXT)
NXT.attrs["patterns"] = lambda it, o: (W.map_facts(it, "patterns", NX), W.nmap("patterns", NX))[1]
for _c in (MGR, FSET, SMGR, NXT):
    _c.truth = lambda it, o: True
    _c.setattr = lambda it, o, name, v: it.frame_violation(f"writes {name} of the NXDL file set")


def classes(it):
    W.map_facts(it, "classes", CLS)
    return W.nmap("classes", CLS)


ADDR = z3.Const("addresses", Obj)
CPS = z3.Const("classpaths", Obj)


def addresses(it):
    """catalog by address; every value is an item with that address"""
    has = F("addr_has", StrS, BoolS)
    get = F("addr_get", StrS, Obj)
    n = z3.Int("addr_n")
    key = F("addr_key", IntS, StrS)
    r = it.run
    if "addr_facts" not in r.logs:
        r.logs["addr_facts"] = True
        r.assume(has(z3.StringVal("/")))
        r.assume(W.i_root(get(z3.StringVal("/"))))
        M.distinct_keys(r, n, key, has=has)

    def g(s):
        t = get(s)
        W.item_facts(it, t)
        it.run.assume(z3.Implies(has(s), z3.And(
            W.i_addr(t) == s, z3.Or(z3.Not(W.i_attr(t)), W.i_cp(t) != z3.StringVal(W.NONNX)))))
        return SObj(t, VITEM)

    keys = SSeq(("addresses",), n, lambda j: SStr(key(j)))
    return SMap(("addresses",), lambda s: has(s), g, keys)


def classpaths(it):
    has = F("cp_has", StrS, BoolS)
    n = z3.Int("cp_n")
    key = F("cp_key", IntS, StrS)
    ln = F("cp_len", StrS, IntS)
    at = F("cp_item", StrS, IntS, Obj)
    r = it.run
    if "cp_facts" not in r.logs:
        r.logs["cp_facts"] = True
        M.distinct_keys(r, n, key, has=has)

    def g(s):
        it.run.assume(ln(s) >= 1)

        def item(j):
            t = at(s, j)
            W.item_facts(it, t)
            it.run.assume(W.i_cp(t) == s)
            return SObj(t, VITEM)

        return SSeq(("classpath", s), ln(s), item)

    return SMap(("classpaths",), lambda s: has(s), g, SSeq(("classpaths",), n, lambda j: SStr(key(j))))


class VCtx(Ctx):
    """goal about a validation"""

    def __init__(self, run, stubs=None, whole=()):
        st = dict(STUBS)
        for f in whole:  # contracts taken as a whole on both sides
            st[(f.__module__, f.__qualname__)] = Model(f.__name__, whole_contract(f))
        st.update(stubs or {})
        Ctx.__init__(self, run, st)
        it = self.it
        self.h5 = SObj(z3.Const("h5file", Obj), H5)
        run.assume(W.h_kind(self.h5.t) == 0)
        self.memo = Memo()
        self.findings = it.reg(IList([Rest("validations")]))
        self.itemvals = it.reg(IList([]))
        run.logs["itemvals"] = self.itemvals
        self.validator = it.new_object(
            validate.Data_File_Validator,
            h5=self.h5, validations=self.findings, addresses=addresses(it), classpaths=classpaths(it),
            regexp_cache=self.memo, manager=SObj(z3.Const("manager", Obj), MGR), fname=self.text("fname"))
        self.fields0 = dict(self.validator.__dict__)

    def sv(self):
        """the same validator for the specification"""
        v = self.it.new_object(validate.Data_File_Validator, **self.fields0)
        v.validations = self.it.reg(IList([Rest("validations")]))
        return v

    def found(self, lst=None):
        """recorded findings as (address, test, status)"""
        return [tup(x) for x in strip(lst or self.validator.validations)]

    def check_findings(self, out, spec, *args, value=False):
        """findings of the code are those of the specification (any order)"""
        exp = self.call(spec, *args)
        self.same_outcome(out, exp)
        self.same_items("findings", self.found(), exp[1].items)
        for k in ("addresses", "classpaths", "manager", "h5", "regexp_cache", "fname"):
            if self.validator.__dict__.get(k) is not self.fields0.get(k):
                self.prove("frame: validator." + k, False)


def strip(lst):
    return [x for x in lst.items if not isinstance(x, Rest)]


def tup(x):
    if isinstance(x, Piece):
        return Piece(x.seq, x.idx, [PiecePath(p.guard, p.facts, [tup(v) for v in p.values]) for p in x.paths], x.upto)
    if isinstance(x, (tuple, Tok)):
        return x  # from a contract
    d = x.__dict__
    return (d["h5_address"], d["test_name"], d["status"])


W.VITEM.pycls = validate.ValidationItem


# ------------------------------------------------------------------ contracts
relaxed_ok = F("name_relaxed", StrS, BoolS)
relaxed_pat = F("name_relaxed_pattern", StrS, StrS)


def s_match_key(it, a, kw):
    """contract of item_name.validItemName_match_key"""
    v = W.text_of(it, a[1] if len(a) > 1 else kw["text"])
    if isinstance(v, SSeq) or v is None or isinstance(v, (int, float, IList)):
        return None
    if isinstance(v, SObj):
        if v.cls in (W.ELEM, W.OTHER):
            return None
        raise Unsupported(f"name of {v!r}")
    if it.run.decide(M._t(M.pattern_term(M.re.compile(STRICT), "fullmatch", zs(v)))):
        return STRICTK
    if it.run.decide(relaxed_ok(zs(v))):
        return SStr(z3.Concat(z3.StringVal(RELAXED), relaxed_pat(zs(v))))
    return None


def s_isBaseClass(it, a, kw):
    o = it.force(a[0])
    if not (isinstance(o, SObj) and o.cls is DEF):
        raise Unsupported("isBaseClassNXDL")
    return SBool(F("d_isbase", Obj, BoolS)(o.t))


def s_first_value(it, a, kw):
    """contract of application_definition.first_value: decoded first item, None if there is none"""
    o = it.force(a[0])
    if o is None:
        return None
    if not (isinstance(o, SObj) and o.cls is H5):
        raise Unsupported("first_value")
    if not it.run.decide(W.h_kind(o.t) == 2):
        return None
    t = F("d_first", Obj, Obj)(o.t)
    it.run.assume(z3.Or(W.v_kind(t) == 0, W.v_kind(t) == 1, W.v_kind(t) == 4))
    return W.s_decode(it, [SObj(t, W.VAL)], {})


def s_isNeXusLink(it, a, kw):
    o = it.force(a[0])
    if isinstance(o, SObj) and o.cls is H5:
        return SBool(F("h_link", Obj, BoolS)(o.t))
    raise Unsupported("isNeXusLink")


def s_isHdf5Link(it, a, kw):
    o = it.force(a[0])
    if isinstance(o, SObj) and o.cls is H5:
        return SBool(z3.And(W.h_kind(o.t) != 3, F("h_hardsoft", Obj, BoolS)(o.t)))
    raise Unsupported("isHdf5Link")


def s_item(it, a, kw):
    """contract of ValidationItem(parent, obj, attribute_name=None, name=None): see spec/items.py"""
    names = ("parent", "obj", "attribute_name", "name")
    v = dict(zip(names, a))
    v.update(kw)
    parent, obj, attr, name = [it.force(v.get(k)) for k in names]
    if parent is None:
        raise Unsupported("ValidationItem without parent")
    o = it.new_object(validate.ValidationItem, parent=parent, h5_object=obj, validations=it.new_dict([]))
    if attr is None:
        if name is None or not (isinstance(obj, SObj) and obj.cls is H5 and it.run.valid(W.h_kind(obj.t) != 3)):
            raise Unsupported("ValidationItem of something else")
        o.__dict__.update(is_attribute=False, h5_address=it.call(validate.ValidationItem.child_address, [parent, name]))
    else:
        if it.run.decide(M._t(M.eqterm(it, it.getattr(parent, "classpath"), W.NONNX))):
            address = None
        else:
            address = SStr(z3.Concat(zs(it.getattr(parent, "h5_address")), z3.StringVal("@"), zs(attr)))
        o.__dict__.update(is_attribute=True, name=attr, h5_address=address)
    return o


STUBS = {
    ("punx.validate", "ValidationItem"): Model("ValidationItem", s_item),
    ("punx.utils", "decode_byte_string"): Model("decode_byte_string", W.s_decode, True),
    ("punx.utils", "attribute_text"): Model("attribute_text", W.s_attribute_text, True),
    ("punx.utils", "isHdf5Child"): Model("isHdf5Child", W.s_isHdf5Child, True),
    ("punx.utils", "isNeXusLink"): Model("isNeXusLink", s_isNeXusLink),
    ("punx.utils", "isHdf5Link"): Model("isHdf5Link", s_isHdf5Link),
    ("punx.validations.item_name", "validItemName_match_key"): Model("validItemName_match_key", s_match_key),
    ("punx.validations.attribute", "isBaseClassNXDL"): Model("isBaseClassNXDL", s_isBaseClass),
    ("punx.validations.application_definition", "first_value"): Model("first_value", s_first_value),
}


def whole_contract(f):
    def g(it, a, kw):
        if kw:
            raise Unsupported("keywords in a call by contract")
        return it.new_list([Tok(f.__name__, list(a[1:]))])

    return g


def by_spec(spec, nargs=None):
    """contract of a function that records findings: those of its specification.
    spec(validator, *args) yields (address, test, status)"""

    def f(it, a, kw):
        if kw:
            raise Unsupported("keywords in a call by contract")
        out = it.call(spec, list(a))
        v = it.force(a[0])
        M.list_extend(it, it.getattr(v, "validations"), out)
        return None

    return Model(spec.__name__, f, True)


def contract(mod, name, spec):
    STUBS[("punx.validations." + mod, name)] = by_spec(spec)
