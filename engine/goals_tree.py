"""Goals about the tree view."""
from .goals import goal, Ctx, same_term
from .vworld import *
from .values import *
from . import models as M
from .world import h5py
from .goals_top import os_models, OPENS
from spec import tree as S_tree
from punx import h5tree
import numpy

T = "punx/h5tree.py:Hdf5TreeView."
View = h5tree.Hdf5TreeView

# ------------------------------------------------------------------------ C12
ARRAY = ObjClass("ARRAY")  # dataset or part of one; not a scalar
SHAPE = ObjClass("SHAPE")  # of rank 4 or more
ITEM = ObjClass("ITEM")
ar_rank = F("ar_rank", Obj, IntS)
ar_dim = F("ar_dim", Obj, IntS, IntS)
ar_part = F("ar_part", Obj, IntS, Obj)
MAXRANK = 3


def dim(it, t, k):
    it.run.assume(ar_dim(t, z3.IntVal(k)) >= 0)
    return SInt(ar_dim(t, z3.IntVal(k)))


def rank_of(it, t):
    """the rank, or None if it is more than MAXRANK"""
    it.run.assume(ar_rank(t) >= 1)
    for r in range(1, MAXRANK + 1):
        if it.run.decide(ar_rank(t) == r):
            return r


def _shape(it, o):
    r = rank_of(it, o.t)
    if r is None:
        return SObj(o.t, SHAPE)
    return tuple(dim(it, o.t, k) for k in range(r))


def _part(it, o, key):
    """array[i] and array[i, :, ...]; everything else is not used here"""
    r = rank_of(it, o.t)
    keys = list(key) if isinstance(key, tuple) else [key]
    whole = slice(None, None, None)
    if len(keys) > (r or MAXRANK + 1):
        raise PyRaise(ValueError("too many indices"))
    if any(k != whole for k in keys[1:] if not isinstance(k, Sym)) or any(isinstance(k, Sym) for k in keys[1:]):
        raise Unsupported("array index")
    i, n = keys[0], ar_dim(o.t, z3.IntVal(0))
    if not isinstance(i, (int, SInt)):
        raise Unsupported(f"array index {i!r}")
    t = zi(i)
    if not it.run.decide(z3.And(t >= -n, t < n)):
        raise PyRaise(IndexError("index out of range"))
    if isinstance(i, int):
        t = n + i if i < 0 else t
    elif not it.run.valid(t >= 0):
        t = z3.If(t < 0, n + t, t)
    p = ar_part(o.t, t)
    if r == 1:
        return SObj(p, ITEM)
    it.run.assume(ar_rank(p) == ar_rank(o.t) - 1)
    for k in range(1, r or 1):
        it.run.assume(ar_dim(p, z3.IntVal(k - 1)) == ar_dim(o.t, z3.IntVal(k)))
    return SObj(p, ARRAY)


ARRAY.attrs["shape"] = _shape
ARRAY.attrs["ndim"] = lambda it, o: SInt(ar_rank(o.t))
ARRAY.getitem = _part
ARRAY.length = lambda it, o: dim(it, o.t, 0)
ARRAY.isinst = lambda it, o, cls: True if cls is h5py.Dataset else False
SHAPE.length = lambda it, o: SInt(ar_rank(o.t))
SHAPE.truth = lambda it, o: True
ITEM.isinst = lambda it, o, cls: False


def _shape_item(it, o, k):
    if k != 0:
        raise Unsupported("dimension of an array of high rank")
    return dim(it, o.t, 0)


SHAPE.getitem = _shape_item


class TCtx(Ctx):
    def __init__(self, run, stubs=None):
        Ctx.__init__(self, run, {**STUBS, **(stubs or {})})
        self.limit = z3.Int("array_items_shown")
        self.view = self.it.new_object(View, array_items_shown=SInt(self.limit), filename=self.text("filename"),
                                       isNeXus=SBool(z3.Bool("isNeXus")), show_attributes=SBool(z3.Bool("show_attributes")))
        self.fields0 = dict(self.view.__dict__)

    def unchanged(self):
        for k, v in self.fields0.items():
            if self.view.__dict__.get(k) is not v:
                self.prove("frame: view." + k, False)


def s_array_text(it, a, kw):
    """contract of _renderNdArray for parts"""
    kw = dict(zip(("self", "obj", "indentation"), a), **kw)
    o = it.force(kw["obj"])
    if not (isinstance(o, SObj) and o.cls is ARRAY):
        raise Unsupported(f"text of {o!r}")
    return SStr(F("array_text", Obj, StrS, StrS)(o.t, zs(it.force(kw.get("indentation", "  ")))))


def same_lists_shown(c):
    """texts made of different lists: say how the lists differ"""
    made = c.run.logs.get("opaque", [])
    if len(made) == 2:
        c.same_items("items shown", made[0][1][-1], made[1][1][-1], ordered=True)


@goal("C12", "h5tree._decideNumShown", T + "_decideNumShown")
def g_shown(run):
    c = TCtx(run)
    n = z3.Int("n")
    run.assume(n >= 0)
    if run.choose(2):
        c.view.array_items_shown = None
    else:
        run.assume(c.limit >= 3)
    c.fields0 = dict(c.view.__dict__)
    out = c.no_exception("no exception", c.call(View._decideNumShown, c.view, SInt(n)))
    exp = c.no_exception("spec", c.call(S_tree.shown, c.view, SInt(n)))
    c.same_value("number of items shown", out, exp)
    c.unchanged()


@goal("C12", "h5tree._renderNdArray", T + "_renderNdArray")
def g_array(run):
    c = TCtx(run)
    run.assume(c.limit >= 3)
    c.it.stubs[("punx.h5tree", "Hdf5TreeView._renderNdArray")] = Model("_renderNdArray", s_array_text)
    a = SObj(z3.Const("array", Obj), ARRAY)
    ind = c.text("indentation")
    out = c.no_exception("no exception", c.recursive(View._renderNdArray, c.view, a, ind))
    exp = c.no_exception("spec", c.call(S_tree.array_text, c.view, a, ind))
    same_lists_shown(c)
    c.same_value("text of the array", out, exp)
    c.unchanged()


# ------------------------------------------------------------------------ C11
def named(f, names, defaults=()):
    """arguments by name"""
    def g(it, a, kw):
        v = dict(defaults)
        v.update(zip(("self",) + names, a))
        v.update(kw)
        return f(it, *[it.force(v[n]) for n in names])

    return g


def block(label, names, defaults=()):
    """lines by contract: one block, the same for the same arguments"""
    return Model(label, named(lambda it, *a: it.new_list([Tok(label, [snapshot(it, x) for x in a])]), names, defaults))


def snapshot(it, v):
    return it.new_dict([[k, x] for k, x in v.entries]) if isinstance(v, IDict) else v


def line(it, ind, name, value):
    return Tok("attribute line", [ind, W.s_decode(it, [name], {}), value])


def text_contract(label, names, defaults=()):
    """text by contract: a function of the dataset (and the indentation)"""
    def f(it, *a):
        ts = [x.t if isinstance(x, SObj) else zs(x) for x in a]
        return SStr(F(label, *([t.sort() for t in ts] + [StrS]))(*ts))

    return Model(label, named(f, names, defaults))


V = "Hdf5TreeView."
TREE = {
    ("punx.h5tree", V + "_renderSingleAttribute"): Model("attribute line", named(line, ("indentation", "name", "value"))),
    ("punx.h5tree", V + "_renderAttributes"): block("attributes", ("obj", "indentation", "extra"), {"indentation": "  ", "extra": IDict([])}),
    ("punx.h5tree", V + "_renderLinkedObject"): block("linked", ("obj", "name", "indentation"), {"indentation": "  "}),
    ("punx.h5tree", V + "_renderDataset"): block("dataset", ("obj", "name", "indentation"), {"indentation": "  "}),
    ("punx.h5tree", V + "_renderGroup"): block("group", ("obj", "name", "indentation", "md", "enclosing"), {"indentation": "  ", "md": None, "enclosing": ()}),
    ("punx.h5tree", V + "_renderDsType"): text_contract("type_text", ("obj",)),
    ("punx.h5tree", V + "_renderDsShape"): text_contract("shape_text", ("obj",)),
    ("punx.h5tree", V + "_renderNdArray"): text_contract("nd_text", ("obj", "indentation"), {"indentation": "  "}),
    ("punx.h5tree", V + "_renderArray"): text_contract("array_text", ("obj", "indentation"), {"indentation": "  "}),
}


def tree_ctx(run):
    c = TCtx(run, TREE)
    run.logs["named datatypes"] = True
    return c


class Around(M.EnclosingTuple):
    """the groups around a group: nothing else is in them"""

    def member_facts(self, it, x):
        if isinstance(x, SObj) and x.cls is H5:
            k = W.h_kind(x.t)
            isgroup = z3.And(k >= 0, k <= 1)
            it.run.assume(z3.Implies(F("in_" + self.name, Obj, BoolS)(W.h_id(x.t)), isgroup))
            for y in self.added:
                if isinstance(y, SObj) and y.cls is H5:
                    ky = W.h_kind(y.t)
                    it.run.assume(z3.Implies(W.h_id(x.t) == W.h_id(y.t), isgroup == z3.And(ky >= 0, ky <= 1)))


def lines_are(c, out, spec, *args):
    got = c.no_exception("no exception", out)
    exp = c.no_exception("spec", c.call(spec, *args))
    c.same_items("lines", got, exp, ordered=True)
    c.unchanged()


@goal("C11", "h5tree._renderGroup", T + "_renderGroup", budget=300)
def g_group(run):
    c = tree_ctx(run)
    g = SObj(z3.Const("group", Obj), H5)
    run.assume(z3.And(W.h_kind(g.t) >= 0, W.h_kind(g.t) <= 1))
    name, ind = c.text("name"), c.text("indentation")
    link = None if run.choose(2) else SObj(z3.Const("its_link", Obj), W.LINK)
    enc = Around("enclosing")
    out = c.recursive(View._renderGroup, c.view, g, name, ind, link, enc)
    c.it.bypass = None
    lines_are(c, out, S_tree.group_lines, c.view, g, name, ind, link, enc)


@goal("C11", "h5tree._renderAttributes", T + "_renderAttributes")
def g_attributes(run):
    c = tree_ctx(run)
    o = SObj(z3.Const("obj", Obj), H5)
    run.assume(z3.And(W.h_kind(o.t) >= 0, W.h_kind(o.t) <= 4, W.h_kind(o.t) != 3))
    ind = c.text("indentation")
    extra = c.it.new_dict([[k, c.text(k)] for k in ("file", "path")[:2 * run.choose(2)]])
    lines_are(c, c.real(View._renderAttributes, c.view, o, ind, extra), S_tree.attribute_lines, c.view, o, ind, extra)


@goal("C11", "h5tree._renderSingleAttribute", T + "_renderSingleAttribute")
def g_single(run):
    c = tree_ctx(run)
    it = c.it
    ind, name = c.text("indentation"), c.text("name")
    t = z3.Const("value", Obj)
    v = c.text("file") if run.choose(2) else SObj(t, W.VAL)
    j = z3.Int("j")
    # an array of text has only text
    run.assume(z3.ForAll([j], z3.Implies(W.v_kind(W.v_item(t, z3.IntVal(0))) == 0, W.v_kind(W.v_item(t, j)) == 0), patterns=[W.v_item(t, j)]))
    out = c.no_exception("no exception", c.real(View._renderSingleAttribute, c.view, ind, name, v))
    exp = c.no_exception("spec", c.call(S_tree.attribute_line, ind, name, v))
    c.same_value("line", out, exp)
    c.unchanged()


@goal("C11", "h5tree._renderLinkedObject", T + "_renderLinkedObject")
def g_linked(run):
    c = tree_ctx(run)
    o = SObj(z3.Const("obj", Obj), H5)
    run.assume(z3.And(W.h_kind(o.t) >= 0, W.h_kind(o.t) <= 4, W.h_kind(o.t) != 3))
    # precondition: it has a target
    sv = z3.StringVal("target")
    run.assume(z3.And(W.a_has(o.t, sv), W.v_text(W.a_val(o.t, sv))))
    ind, name = c.text("indentation"), c.text("name")
    lines_are(c, c.real(View._renderLinkedObject, c.view, o, name, ind), S_tree.linked, o, name, ind)


# datasets
d_shape = F("d_shape", Obj, IntS)  # -1: no value; else the rank
DTYPE = ObjClass("DTYPE")
dt_kind = F("dt_kind", Obj, StrS)
DTYPE.attrs["kind"] = lambda it, o: SStr(dt_kind(o.t))
DTYPE.attrs["itemsize"] = lambda it, o: SInt(F("dt_itemsize", Obj, IntS)(o.t))
DTYPE.methods["__str__"] = lambda it, o, a, kw: SStr(F("dt_text", Obj, StrS)(o.t))
DTYPE.truth = lambda it, o: True
DVALUE = ObjClass("DVALUE")  # what is read from a dataset
DVALUE.methods["__str__"] = lambda it, o, a, kw: SStr(F("dv_text", Obj, StrS)(o.t))
DVALUE.valuelike = True
DECODED = ObjClass("DECODED")  # the same, decoded
DECODED.methods["__str__"] = lambda it, o, a, kw: SStr(F("decoded_text", Obj, StrS)(o.t))
DECODED.valuelike = True


def need_dataset(it, o):
    if not it.run.valid(W.h_kind(o.t) == 2):
        raise Unsupported("shape of something else")


def ds_shape(it, o):
    need_dataset(it, o)
    r = d_shape(o.t)
    it.run.assume(r >= -1)
    if it.run.decide(r == -1):
        return None
    for n in range(3):
        if it.run.decide(r == n):
            return tuple(dim(it, o.t, k) for k in range(n))

    def at(j):
        it.run.assume(ar_dim(o.t, j) >= 0)
        return SInt(ar_dim(o.t, j))

    return SSeq(("shape", o.t), r, at, pytype=tuple)


def rows(it, o):
    """rows of a dataset of rank 1 or more"""
    need_dataset(it, o)
    if not it.run.decide(d_shape(o.t) >= 1):
        raise PyRaise(TypeError("Can't iterate over a scalar dataset"))
    it.run.assume(ar_dim(o.t, z3.IntVal(0)) >= 0)
    row = F("d_row", Obj, IntS, Obj)
    return SSeq(("rows", o.t), ar_dim(o.t, z3.IntVal(0)), lambda j: SObj(row(o.t, j), ROW))


def ds_index(it, o, k):
    if k == ():
        it.run.assume(d_shape(o.t) >= -1)
        return SObj(o.t, DVALUE)
    if k == 0:
        if not it.run.decide(z3.And(d_shape(o.t) >= 1, ar_dim(o.t, z3.IntVal(0)) >= 1)):
            raise PyRaise(ValueError("index out of range"))
        return SObj(F("d_first_row", Obj, Obj)(o.t), DVALUE)
    raise Unsupported("dataset index")


def dvalue_isinst(it, o, cls):
    if cls is numpy.ndarray:
        return d_shape(o.t) >= 1
    if cls in (numpy.bytes_, bytes):
        return z3.And(d_shape(o.t) == 0, dt_kind(o.t) == z3.StringVal("S"))
    raise Unsupported(f"isinstance(value, {cls})")


ROW = ObjClass("ROW")
ROW.attrs["dtype"] = lambda it, o: SObj(F("row_dtype", Obj, Obj)(o.t), DTYPE)
DVALUE.isinst = dvalue_isinst
DVALUE.iterate = lambda it, o: rows(it, SObj(o.t, H5))
W.H5.attrs["shape"] = ds_shape
W.H5.attrs["dtype"] = lambda it, o: (need_dataset(it, o), SObj(o.t, DTYPE))[1]


def decode_row(it, a, kw):
    """contract of decode_byte_string, for what is read from a dataset of strings"""
    v = it.force(a[0])
    if isinstance(v, SObj) and v.cls is DVALUE and it.run.decide(d_shape(v.t) >= 1):
        return SObj(v.t, DECODED)  # a list of text, no value for an empty array
    if isinstance(v, SObj) and v.cls in (ROW, DVALUE):
        return SStr(F("row_text", Obj, StrS)(v.t))
    return W.s_decode(it, a, kw)


def dataset_ctx(run):
    c = tree_ctx(run)
    run.logs["dataset index"] = ds_index
    c.it.stubs[("punx.utils", "decode_byte_string")] = Model("decode_byte_string", decode_row, True)
    d = SObj(z3.Const("dset", Obj), H5)
    run.assume(W.h_kind(d.t) == 2)
    run.assume(c.limit >= 0)
    c.d = d
    return c


_groups = W.H5.iterate
W.H5.iterate = lambda it, o: rows(it, o) if "dataset index" in it.run.logs and it.run.valid(W.h_kind(o.t) == 2) else _groups(it, o)


@goal("C11", "h5tree._renderDsShape", T + "_renderDsShape", also=("C12",))
def g_ds_shape(run):
    c = dataset_ctx(run)
    out = c.no_exception("no exception", c.real(View._renderDsShape, c.view, c.d))
    exp = c.no_exception("spec", c.call(S_tree.shape_text, c.it.getattr(c.d, "shape")))
    c.same_value("shape", out, exp)
    c.unchanged()


@goal("C11", "h5tree._renderDsType", T + "_renderDsType")
def g_ds_type(run):
    c = dataset_ctx(run)
    out = c.no_exception("no exception", c.real(View._renderDsType, c.view, c.d))
    exp = c.no_exception("spec", c.call(S_tree.type_text, c.view, c.d))
    c.same_value("type", out, exp)
    c.unchanged()


@goal("C11", "h5tree._renderDataset", T + "_renderDataset", also=("C12", "C13"))
def g_dataset(run):
    c = dataset_ctx(run)
    ind, name = c.text("indentation"), c.text("name")
    lines_are(c, c.real(View._renderDataset, c.view, c.d, name, ind), S_tree.dataset_lines, c.view, c.d, name, ind)


@goal("C12", "h5tree._renderArray", T + "_renderArray", also=("C11",))
def g_render_array(run):
    c = dataset_ctx(run)
    run.assume(d_shape(c.d.t) >= 0)  # precondition: it has a value
    ind = c.text("indentation")
    out = c.no_exception("no exception", c.real(View._renderArray, c.view, c.d, ind))
    exp = c.no_exception("spec", c.call(S_tree.field_array, c.view, c.d, ind))
    c.same_value("text of the array", out, exp)
    c.unchanged()


@goal("C11", "h5tree.report", T + "report")
def g_report(run):
    c = tree_ctx(run)
    os_models(c)
    if run.choose(2):
        c.view.filename = None
    else:
        run.assume(OPENS(c.view.filename.t))
    show = SBool(z3.Bool("show"))
    out = c.no_exception("no exception", c.real(View.report, c.view, show))
    if c.view.filename is None:
        c.prove("nothing", out is None)
        return
    c.prove("the file is closed", len(c.closed) == 1)
    exp = c.no_exception("spec", c.call(S_tree.tree, c.view, show))
    c.same_items("lines", out, exp, ordered=True)
    c.same_value("attributes are shown", c.view.show_attributes, show)
    c.fields0["show_attributes"] = c.view.show_attributes
    c.unchanged()


@goal("C11", "h5tree.Hdf5TreeView", T + "__init__")
def g_view(run):
    c = Ctx(run, dict(STUBS))
    it = c.it
    os_models(c)
    nexus = Model("isNeXusFile", lambda it, a, kw: SBool(F("is_nexus_file", StrS, BoolS)(zs(a[0]))))
    it.stubs[("punx.utils", "isNeXusFile")] = nexus
    fname = c.text("file")
    v = c.no_exception("no exception", c.call(View, fname))
    exp = c.no_exception("spec", c.call(S_tree.opened, fname))
    for k, x in zip(("filename", "isNeXus"), exp):
        c.same_value(k, it.getattr(v, k), x)
    c.same_value("requested file", it.getattr(v, "requested_filename"), fname)
    c.prove("limit", it.getattr(v, "array_items_shown") == View.array_items_shown >= 3)
