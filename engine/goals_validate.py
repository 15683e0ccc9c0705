"""Goals about the functions that judge the items of a data file."""
from .goals import goal, Ctx, same_term
from .vworld import *
from .values import *
from .interp import Turns
import h5py
import numpy
from spec import names as S_names

from spec import classes as S_classes, pointers as S_pointers, groups as S_groups, appdef as S_appdef, plot as S_plot

contract("item_name", "handle_NX_class", S_names.nx_class_spelling)
contract("item_name", "handle_any_attribute", S_names.any_attribute)
contract("item_name", "handle_groups_and_fields", S_names.group_or_field)

contract("attribute", "nxclass_handler", S_classes.class_attribute)
contract("attribute", "signal_handler", S_pointers.signal)
contract("attribute", "axes_handler", S_pointers.axes)
contract("attribute", "target_handler", S_pointers.target)
contract("attribute", "generic_handler", S_pointers.todo)
contract("attribute", "units_handler", S_pointers.todo)
contract("hdf5_group_items_in_base_class", "child_exists", S_pointers.pointer)
contract("hdf5_group_items_in_base_class", "verify", S_groups.group_against_class)
contract("hdf5_group_items_in_base_class", "verify_group_attributes", S_groups.group_attributes)
contract("hdf5_group_items_in_base_class", "verify_group_children", S_groups.group_items)
contract("base_class_items_in_hdf5_group", "verify", S_groups.class_against_group)
contract("nx_class_attribute", "validate_NX_class_attribute", S_classes.group_class)

IN = "punx/validations/item_name.py:"


@goal("C01", "item_name.getValidItemNamePatterns", IN + "getValidItemNamePatterns")
def g_patterns(run):
    c = VCtx(run)
    out = c.no_exception("no exception", c.real(item_name.getValidItemNamePatterns, c.validator))
    exp = c.no_exception("spec", c.call(S_names.rules, c.sv()))
    c.same_items("rules", out, exp, ordered=True)


@goal("C01", "item_name.validItemName_match_key", IN + "validItemName_match_key")
def g_match_key(run):
    c = VCtx(run)
    text = c.text("text") if run.choose(2) == 0 else SObj(z3.Const("value", Obj), W.ELEM)
    out = c.no_exception("no exception", c.real(item_name.validItemName_match_key, c.validator, text))
    exp = c.no_exception("spec", c.call(S_names.match_key, c.sv(), text))
    c.same_value("rule", out, exp)


@goal("C01", "item_name.handle_groups_and_fields", IN + "handle_groups_and_fields")
def g_hgf(run):
    c = VCtx(run)
    i = c.item("item")
    run.assume(z3.Not(W.i_attr(i.t)))
    out = c.real(item_name.handle_groups_and_fields, c.validator, i)
    c.check_findings(out, S_names.group_or_field, c.sv(), i)


@goal("C01", "item_name.handle_any_attribute", IN + "handle_any_attribute")
def g_haa(run):
    c = VCtx(run)
    i = c.item("item")
    run.assume(W.i_attr(i.t))
    out = c.real(item_name.handle_any_attribute, c.validator, i)
    c.check_findings(out, S_names.any_attribute, c.sv(), i)


@goal("C02", "item_name.handle_NX_class", IN + "handle_NX_class", also=("C01",))
def g_hnx(run):
    c = VCtx(run)
    i = c.item("item")
    run.assume(W.i_attr(i.t))
    run.assume(F("n_has_patterns", Obj, StrS, BoolS)(NX, z3.StringVal("validNXClassName")))
    o = F("n_get_patterns", Obj, StrS, Obj)(NX, z3.StringVal("validNXClassName"))
    run.assume(F("d_re_n", Obj, IntS)(o) >= 1)
    j = z3.Int("j")
    it = F("int_text", IntS, StrS)
    ti = F("text_int", StrS, IntS)
    k = z3.Concat(z3.StringVal("validNXClassName-"), it(j))
    run.assume(z3.ForAll([j], c.memo.P(k) == F("d_re", Obj, IntS, StrS)(o, j), patterns=[it(j)]))
    out = c.real(item_name.handle_NX_class, c.validator, i)
    c.check_findings(out, S_names.nx_class_spelling, c.sv(), i)


@goal("C01", "item_name.verify", IN + "verify")
def g_verify(run):
    c = VCtx(run, whole=(S_names.nx_class_spelling, S_names.any_attribute, S_names.group_or_field,))
    i = c.item("item")
    out = c.real(item_name.verify, c.validator, i)
    c.check_findings(out, S_names.verdict, c.sv(), i)


# ------------------------------------------------------------------------ C02
NC = "punx/validations/nx_class_attribute.py:"
AT = "punx/validations/attribute.py:"


@goal("C02", "attribute.isBaseClassNXDL", AT + "isBaseClassNXDL")
def g_isbase(run):
    c = VCtx(run)
    d = c.obj("definition", DEF)
    out = c.no_exception("no exception", c.real(attribute.isBaseClassNXDL, d))
    exp = c.no_exception("spec", c.call(S_classes.is_base_class, d))
    c.same_value("result", out, exp)


@goal("C02", "validate.usedAsBaseClass", "punx/validate.py:Data_File_Validator.usedAsBaseClass")
def g_usedas(run):
    c = VCtx(run)
    name = c.text("nx_class")
    out = c.no_exception("no exception", c.real(validate.Data_File_Validator.usedAsBaseClass, c.validator, name))
    exp = c.no_exception("spec", c.call(S_classes.used_as_base_class, c.sv(), name))
    c.same_value("result", out, exp)


@goal("C02", "nx_class_attribute.validate_NX_class_attribute", NC + "validate_NX_class_attribute")
def g_group_class(run):
    c = VCtx(run)
    i, name = c.item("item"), c.text("nx_class")
    out = c.real(nx_class_attribute.validate_NX_class_attribute, c.validator, i, name)
    c.check_findings(out, S_classes.group_class, c.sv(), i, name)


def attr_item(c, name="item"):
    """an attribute of NeXus content"""
    i = c.item(name)
    c.run.assume(W.i_attr(i.t))
    c.run.assume(W.i_cp(i.t) != z3.StringVal(W.NONNX))
    return i


@goal("C02", "attribute.nxclass_handler", AT + "nxclass_handler")
def g_nxclass(run):
    c = VCtx(run)
    i = attr_item(c)
    out = c.real(attribute.nxclass_handler, c.validator, i)
    c.check_findings(out, S_classes.class_attribute, c.sv(), i)


# ------------------------------------------------------------------------ C03
@goal("C03", "attribute.signal_handler", AT + "signal_handler")
def g_signal(run):
    c = VCtx(run)
    i = attr_item(c)
    out = c.real(attribute.signal_handler, c.validator, i)
    c.check_findings(out, S_pointers.signal, c.sv(), i)


@goal("C03", "attribute.axes_handler", AT + "axes_handler")
def g_axes(run):
    c = VCtx(run)
    i = attr_item(c)
    out = c.real(attribute.axes_handler, c.validator, i)
    c.check_findings(out, S_pointers.axes, c.sv(), i)


@goal("C03", "attribute.target_handler", AT + "target_handler")
def g_target(run):
    c = VCtx(run)
    i = attr_item(c)
    out = c.real(attribute.target_handler, c.validator, i)
    c.check_findings(out, S_pointers.target, c.sv(), i)


@goal("C03", "attribute.generic_handler", AT + "generic_handler")
def g_generic(run):
    c = VCtx(run)
    i = attr_item(c)
    out = c.real(attribute.generic_handler, c.validator, i)
    c.check_findings(out, S_pointers.todo, c.sv(), i)


@goal("C03", "attribute.units_handler", AT + "units_handler")
def g_units(run):
    c = VCtx(run)
    i = attr_item(c)
    out = c.real(attribute.units_handler, c.validator, i)
    c.check_findings(out, S_pointers.todo, c.sv(), i)


@goal("C03", "attribute.verify", AT + "verify", also=("C02",))
def g_attr_verify(run):
    c = VCtx(run, whole=(S_classes.class_attribute, S_pointers.signal, S_pointers.axes, S_pointers.target, S_pointers.todo,))
    i = c.item("item")
    # HDF5 names with "@" in them are treated as attributes: see DESIGN.md
    run.assume(z3.Or(W.i_attr(i.t), z3.Not(z3.Contains(W.i_name(i.t), z3.StringVal("@")))))
    out = c.real(attribute.verify, c.validator, i)
    c.check_findings(out, S_pointers.attribute, c.sv(), i)


@goal("C03", "hdf5_group_items_in_base_class.child_exists", "punx/validations/hdf5_group_items_in_base_class.py:child_exists")
def g_child_exists(run):
    c = VCtx(run)
    i, a = c.item("item"), c.item("attribute item")
    nexus_group(c, i)
    v = SObj(z3.Const("value", Obj), W.VAL)
    test = c.text("test name")
    value = c.it.force(W.s_decode(c.it, [v], {}))
    out = c.real(hdf5_group_items_in_base_class.child_exists, c.validator, test, value, i, a)
    c.check_findings(out, S_pointers.pointer, c.sv(), test, value, i, a)


# ------------------------------------------------------------------------ C04
HG = "punx/validations/hdf5_group_items_in_base_class.py:"


def nexus_group(c, i):
    k = W.h_kind(W.i_obj(i.t))
    c.run.assume(z3.And(k >= 0, k <= 1, W.i_cp(i.t) != z3.StringVal(W.NONNX)))


def catalogued(c, i):
    """the attributes of the item are in the catalogue (goal C06)"""
    o = W.i_obj(i.t)
    j = z3.Int("cj")
    has = F("addr_has", StrS, BoolS)
    c.run.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < W.a_n(o)), has(
        z3.Concat(W.i_addr(i.t), z3.StringVal("@"), W.a_key(o, j)))), patterns=[W.a_key(o, j)]))


@goal("C04", "base_class_items_in_hdf5_group.verify", "punx/validations/base_class_items_in_hdf5_group.py:verify")
def g_bci(run):
    c = VCtx(run)
    i, d = c.item("item"), c.obj("base class", DEF)
    nexus_group(c, i)
    out = c.real(base_class_items_in_hdf5_group.verify, c.validator, i, d)
    c.check_findings(out, S_groups.class_against_group, c.sv(), i, d)


@goal("C04", "hdf5_group_items_in_base_class.verify_group_attributes", HG + "verify_group_attributes", also=("C03",))
def g_vga(run):
    c = VCtx(run)
    i, d = c.item("item"), c.obj("base class", DEF)
    nexus_group(c, i)
    catalogued(c, i)
    out = c.real(hdf5_group_items_in_base_class.verify_group_attributes, c.validator, i, d)
    c.check_findings(out, S_groups.group_attributes, c.sv(), i, d)


@goal("C04", "hdf5_group_items_in_base_class.verify_group_children", HG + "verify_group_children")
def g_vgc(run):
    c = VCtx(run)
    i, d = c.item("item"), c.obj("base class", DEF)
    nexus_group(c, i)
    out = c.real(hdf5_group_items_in_base_class.verify_group_children, c.validator, i, d)
    c.check_findings(out, S_groups.group_items, c.sv(), i, d)


@goal("C04", "hdf5_group_items_in_base_class.verify", HG + "verify")
def g_hgv(run):
    c = VCtx(run, whole=(S_groups.group_attributes, S_groups.group_items,))
    i, d = c.item("item"), c.obj("base class", DEF)
    nexus_group(c, i)
    catalogued(c, i)
    out = c.real(hdf5_group_items_in_base_class.verify, c.validator, i, d)
    c.check_findings(out, S_groups.group_against_class, c.sv(), i, d)


@goal("C04", "validate.validate_group", "punx/validate.py:Data_File_Validator.validate_group", also=("C02",))
def g_vg(run):
    c = VCtx(run, whole=(S_groups.group_against_class, S_groups.class_against_group, S_classes.group_class,))
    i = c.item("item")
    k = W.h_kind(W.i_obj(i.t))
    run.assume(z3.And(k >= 0, k <= 1))
    catalogued(c, i)
    out = c.real(validate.Data_File_Validator.validate_group, c.validator, i)
    c.check_findings(out, S_groups.group, c.sv(), i)


# ------------------------------------------------------------------------ C05
@goal("C05", "application_definition.verify", "punx/validations/application_definition.py:verify")
def g_appdef(run):
    c = VCtx(run)
    i = c.item("item")
    nexus_group(c, i)
    run.assume(W.c_ok(W.i_obj(i.t), z3.StringVal("definition")))
    out = c.real(application_definition.verify, c.validator, i)
    c.check_findings(out, S_appdef.audit, c.sv(), i)


@goal("C05", "application_definition.first_value", "punx/validations/application_definition.py:first_value")
def g_first_value(run):
    c = Ctx(run, {})
    it = c.it
    kind = run.choose(3)  # no dataset, a single value, an array
    n = z3.Int("size")
    run.assume(n >= 0)
    at = F("flat", IntS, Obj)
    ITEM = ObjClass("ITEM_")
    ITEM.isinst = lambda it, o, cls: False  # neither text nor array
    flat = SSeq(("flat",), n, lambda j: SObj(at(j), ITEM))
    ARRAY = ObjClass("ARRAY", {"flat": lambda it, o: flat, "size": lambda it, o: SInt(n)})
    ARRAY.isinst = lambda it, o, cls: cls is numpy.ndarray
    value = SObj(z3.Const("value", Obj), ARRAY if kind == 2 else ITEM)

    def read(it, o, k):
        if it.force(k) != ():
            raise Unsupported("part of a dataset")
        return value

    DATA = ObjClass("DATA_", {}, {"__getitem__": lambda it, o, a, kw: read(it, o, a[0])})
    DATA.isinst = lambda it, o, cls: bool(kind) and issubclass(h5py.Dataset, cls)
    DATA.getitem = read
    it.stubs[("punx.utils", "decode_byte_string")] = Model("decode_byte_string", lambda it, a, kw: Tok("decoded", [it.force(a[0])]))
    obj = None if kind == 0 and run.choose(2) else SObj(z3.Const("data", Obj), DATA)
    got = it.force(c.no_exception("no exception", c.real(application_definition.first_value, obj)))
    none = lambda: got is None or isinstance(got, Tok) and got.args[0] is None  # noqa
    if kind == 0:
        c.prove("no dataset: no value", none())
    elif kind == 2 and not run.decide(n > 0):
        c.prove("no item: no value", none())
    else:
        x = got.args[0] if isinstance(got, Tok) else None
        c.prove("decoded", isinstance(x, SObj))
        c.prove("the value, or its first item", x.t == (at(0) if kind == 2 else value.t))


# ------------------------------------------------------------------------ C07
@goal("C07", "default_plot.verify", "punx/validations/default_plot.py:verify")
def g_plot(run):
    c = VCtx(run)
    out = c.real(default_plot.verify, c.validator)
    c.check_findings(out, S_plot.default_plot, c.sv())


def s_v3(it, a, kw):
    if it.run.decide(z3.Bool("found_v3")):
        return SStr(z3.String("address_v3"))
    return None


def s_v2(it, a, kw):
    if it.run.decide(z3.Bool("found_v2")):
        return SStr(z3.String("address_v2"))
    return None


STUBS[("punx.validations.default_plot", "default_plot_v3")] = Model("default_plot_v3", s_v3)
STUBS[("punx.validations.default_plot", "default_plot_v2")] = Model("default_plot_v2", s_v2)


def s_pointed(it, a, kw):
    """contract of the local function of default_plot_v3 (goal default_plot.pointed_at)"""
    item, name = it.force(a[0]), it.force(a[1])
    if not (isinstance(item, SObj) and item.cls is W.VITEM and M.is_text(name)):
        raise Unsupported("pointed_at")
    o, n, ad = W.i_obj(item.t), zs(name), zs(W._i_addr(it, item))
    W.need_h5(it, SObj(o, H5))
    if not it.run.valid(W.h_kind(o) <= 1, quick=True):
        raise Unsupported("pointed_at of something that may be no group")
    v = W.a_val(o, n)
    t = W.v_textof(v)
    it.run.assume(z3.Implies(t == z3.StringVal(""), z3.Not(W.c_ok(o, t))))
    cond = z3.And(W.a_has(o, n), W.v_text(v), W.c_ok(o, t))
    return W.LOpt(cond, z3.Concat(ad, z3.If(z3.SuffixOf(z3.StringVal("/"), ad), z3.StringVal(""), z3.StringVal("/")), t))


@goal("C07", "default_plot.pointed_at", "punx/validations/default_plot.py:default_plot_v3")
def g_pointed(run):
    c = VCtx(run)
    f = c.local_function("punx/validations/default_plot.py", "default_plot_v3.<locals>.pointed_at", default_plot.__dict__, "punx.validations.default_plot")
    i, name = c.item("item"), c.text("attribute")
    run.assume(W.h_kind(W.i_obj(i.t)) <= 1)
    got = c.no_exception("no exception", c.call(f, i, name))
    exp = c.no_exception("spec", c.call(S_plot.pointed, i, name))
    c.same_value("address", got, exp)
    con = s_pointed(c.it, [i, name], {})
    c.prove("contract: none", z3.Not(con.cond) if got is None else con.cond)
    if got is not None:
        c.prove("contract: address", con.t == zs(got))


class Marks(Sym):
    """the fields with signal=1 that were found so far, by the address of their group: MARKS(g) of them in group g"""

    N = F("marks", StrS, IntS)
    AT = F("mark", StrS, IntS, Obj)

    def __init__(self, c):
        self.c = c
        self.fresh = []  # (key, list) of groups entered in this turn
        self.more = []  # (key, list) of groups looked up in this turn

    def _known(self, it, k):
        for key, lst in self.fresh + self.more:
            if it.run.valid(key == k):
                return lst

    def sym_contains(self, it, k):
        if self._known(it, zs(k)) is not None:
            return True
        return self.N(zs(k)) >= 1

    def sym_getitem(self, it, k):
        k = zs(k)
        x = self._known(it, k)
        if x is None:
            if not it.run.decide(self.N(k) >= 1):
                raise PyRaise(KeyError("no such group"))
            x = marks_of(it, k)
            self.more.append((k, x))
        return x

    def sym_setitem(self, it, k, v):
        v = it.force(v)
        if self._known(it, zs(k)) is not None or not isinstance(v, IList):
            raise Unsupported("group entered again")
        self.c.prove("fields found before are kept", z3.Not(self.N(zs(k)) >= 1))
        self.fresh.append((zs(k), v))

    def setdefault(self, it, a, kw):
        if not it.truth(SBool(M._t(self.sym_contains(it, a[0])))):
            self.sym_setitem(it, a[0], a[1])
        return self.sym_getitem(it, a[0])

    def sym_getattr(self, it, name):
        if name in ("items", "values", "keys"):
            return Model(name, lambda it, a, kw: Groups(self, name))
        if name == "setdefault":
            return Model(name, self.setdefault)
        raise Unsupported("attribute of the dictionary: " + name)

    def added(self):
        """(group, items) of this turn"""
        out = [(k, [x for x in lst.items if not isinstance(x, Piece)]) for k, lst in self.fresh + self.more]
        return [(k, x) for k, x in out if x]


def marks_of(it, k, asis=False):
    n = Marks.N(k)
    it.run.assume(n >= 1)

    def at(j):
        t = Marks.AT(k, j)
        W.item_facts(it, t)
        W.item_facts(it, W.i_parent(t))
        it.run.assume(z3.And(W.i_attr(t), h_dataset(W.i_parent(t)), W.i_cp(t) != z3.StringVal(W.NONNX), W.i_addr(W.i_parent(W.i_parent(t))) == k))
        return SObj(t, VITEM)

    seq = SSeq(("marks", k), n, at)
    return seq if asis else it.reg(IList([M.piece_of(seq)]))


def h_dataset(t):
    return W.h_kind(W.i_obj(t)) == 2


def other_verdicts(c):
    for x in c.found():
        if isinstance(x, Piece):
            raise Unsupported("findings of a loop in the loop")
        c.prove("not the verdict itself", M._t(z3.Not(M._t(M.eqterm(c.it, x[1], "NeXus default plot")))))


class ClassPaths(Turns):
    """validator.classpaths and its items: one turn for any class path and any item of it"""

    def __init__(self, c, kind=None):
        self.c, self.kind = c, kind

    def sym_getattr(self, it, name):
        if self.kind is None and name in ("items", "keys", "values"):
            return Model(name, lambda it, a, kw: ClassPaths(self.c, name))
        raise Unsupported("attribute of the class paths: " + name)

    def sym_getitem(self, it, k):
        if self.kind is None and it.run.valid(zs(k) == z3.String("some classpath")):
            return OfPath(self.c, k)
        raise Unsupported("class paths")

    def turn(self, it, body):
        c = self.c
        k = SStr(z3.String("some classpath"))
        it.run.assume(F("cp_has", StrS, BoolS)(k.t))
        body({"items": (k, OfPath(c, k)), "values": OfPath(c, k)}.get(self.kind, k))
        # no item was looked at: none is marked
        t = z3.Const("some item", Obj)
        W.item_facts(it, t)
        it.run.assume(W.i_cp(t) == k.t)
        if not c.went:
            c.prove("no marked item is left out", z3.Not(M._t(it.truth_term(it.call(S_plot.marked, [SObj(t, VITEM), k])))))
        if [x for x in c.marks.added()] if c.marks else False:
            raise Unsupported("groups entered for a class path")

    def after(self, it, before):
        c = self.c
        become(c)
        return {}


def become(c):
    """the dictionary of marks, which must be empty before the loop"""
    new = [x for u, x in c.it.containers.items() if isinstance(x, IDict) and u not in c.start]
    if len(new) != 1 or new[0].entries or new[0].rest is not None:
        raise Unsupported("the marked fields are kept in another way")
    c.marks = Marks(c)
    new[0].over = c.marks


class OfPath(Turns):
    """the items of a class path"""

    def __init__(self, c, k):
        self.c, self.k = c, k

    def turn(self, it, body):
        c = self.c
        t = z3.Const("some item", Obj)
        W.item_facts(it, t)
        W.item_facts(it, W.i_parent(t))
        it.run.assume(W.i_cp(t) == zs(self.k))
        x = SObj(t, VITEM)
        become(c)
        body(x)
        marked = M._t(it.truth_term(c.no_exception("spec", c.call(S_plot.marked, x, self.k))))
        added = c.marks.added()
        if added:
            c.prove("marked fields only", marked)
            c.prove("one entry for one field", len(added) == 1 and len(added[0][1]) == 1)
            y = it.force(added[0][1][0])
            c.prove("the field is entered", isinstance(y, SObj) and y.cls is VITEM and y.t == t)
            c.prove("what is known of an entered field", z3.And(W.i_attr(t), h_dataset(W.i_parent(t)), W.i_cp(t) != z3.StringVal(W.NONNX)))
            c.prove("for its group", added[0][0] == W.i_addr(W.i_parent(W.i_parent(t))))
        else:
            c.prove("marked fields are entered", z3.Not(marked))
        for _, lst in c.marks.fresh:
            c.prove("no group without a field", len(lst.items) > 0)
        other_verdicts(c)

    def after(self, it, before):
        self.c.went = True
        return {}


SOME = z3.Bool("some group has exactly one")
SOFAR = z3.Bool("one of the groups so far has exactly one")


class Groups(Turns):
    """the groups with marked fields"""

    def __init__(self, marks, kind):
        self.marks, self.kind = marks, kind

    def _state(self, it, name, value, cond):
        if value is not None:
            return NotImplemented
        self.name = name
        return SStr(z3.String("address so far")) if it.run.decide(cond) else None

    def carried(self, it, name, value):
        if getattr(self, "name", name) != name:
            raise Unsupported("loop with several variables")
        return self._state(it, name, value, SOFAR)

    def turn(self, it, body):
        k = z3.String("some group")
        it.run.assume(Marks.N(k) >= 1)
        lst = marks_of(it, k, True)
        body({"items": (SStr(k), lst), "values": lst, "keys": SStr(k)}[self.kind])

    def turned(self, it, values):
        c = self.marks.c
        if not hasattr(self, "name"):
            raise Unsupported("the loop carries nothing")
        got = it.force(values[self.name])
        one = z3.Or(SOFAR, Marks.N(z3.String("some group")) == 1)
        c.prove("an address if some group has exactly one", z3.Not(one) if got is None else one)
        c.prove("text or nothing", got is None or M.is_text(got))
        other_verdicts(c)

    def after(self, it, before):
        found = {n: x for n, x in before.items() if not isinstance(x, Poison)}
        if len(found) != 1:
            raise Unsupported("loop with several variables")
        n, x = list(found.items())[0]
        x = self._state(it, n, x, SOME)
        if x is NotImplemented:
            raise Unsupported("value before the loop")
        return {n: x}


@goal("C07", "default_plot.default_plot_v2", "punx/validations/default_plot.py:default_plot_v2")
def g_v2(run):
    run.logs["addr_facts"] = run.logs["cp_facts"] = True  # not needed here
    c = VCtx(run)
    c.went, c.marks = False, None
    c.validator.classpaths = ClassPaths(c)
    c.fields0["classpaths"] = c.validator.classpaths
    c.start = set(c.it.containers)
    out = c.no_exception("no exception", c.real(default_plot.default_plot_v2, c.validator))
    if c.marks is None:
        raise Unsupported("class paths are not looked at")
    out = c.it.force(out)
    c.prove("found exactly if some group has exactly one field", z3.Not(SOME) if out is None else SOME)
    c.prove("text or nothing", out is None or M.is_text(out))


@goal("C07", "default_plot.default_plot_v3", "punx/validations/default_plot.py:default_plot_v3", budget=200)
def g_v3(run):
    m = Model("pointed_at", s_pointed)
    c = VCtx(run, {("spec.plot", "pointed"): m, ("punx.validations.default_plot", "default_plot_v3.<locals>.pointed_at"): m})
    out = c.no_exception("no exception", c.real(default_plot.default_plot_v3, c.validator))
    exp = c.no_exception("spec", c.call(S_plot.v3, c.sv()))
    items = list(exp.items)
    last = [x for x in items if isinstance(x, tuple) and isinstance(x[0], str)]
    c.same_items("findings", c.found(), [x for x in items if x is not last[0]])
    isnone = M.identical(c.it, out, None)
    c.prove("no address if nothing was found", M._t(isnone) == z3.Not(M._t(c.it.truth_term(last[0][2]))))
