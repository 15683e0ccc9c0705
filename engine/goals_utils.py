"""Goals about punx/utils.py."""
from .goals import goal, Ctx, same_term
from .vworld import *
from .values import *
from .goals_top import os_models, EXISTS, OPENS
from . import models as M
from .world import h5py
from spec import kinds as S_kinds, text as S_text
from . import interp as I
import numpy

U = "punx/utils.py:"


@goal("C21", "utils.isNeXusFile", U + "isNeXusFile", also=("C11",))
def g_nexus_file(run):
    c = VCtx(run)
    it = c.it
    os_models(c)
    fname = c.text("file")
    run.assume(OPENS(fname.t))
    run.logs["read errors"] = 2  # KeyError and RuntimeError: what h5py raises for links
    out = c.no_exception("no exception", c.call(utils.isNeXusFile, fname))
    c.prove("the file is closed", out is None and not c.closed or len(c.closed) == 1)
    exp = c.no_exception("spec", c.call(S_kinds.is_nexus_file, fname))
    c.same_value("NeXus file", out, exp)


@goal("C21", "utils.isNeXusGroup", U + "isNeXusGroup", also=("C11",))
def g_nexus_group(run):
    c = VCtx(run)
    o = SObj(z3.Const("obj", Obj), H5)
    run.assume(W.h_kind(o.t) <= 2)
    name = c.text("class")
    out = c.no_exception("no exception", c.call(utils.isNeXusGroup, o, name))
    exp = c.no_exception("spec", c.call(S_kinds.nexus_group, o, name))
    c.same_value("NeXus group", SBool(M._t(c.it.truth_term(out))), SBool(M._t(c.it.truth_term(exp))))


@goal("C11", "utils.isNeXusLink", U + "isNeXusLink", also=("C01",))
def g_nexus_link(run):
    c = VCtx(run)
    o = SObj(z3.Const("obj", Obj), H5)
    run.assume(z3.And(W.h_kind(o.t) <= 2, W.h_kind(o.t) >= 0))
    out = c.no_exception("no exception", c.real(utils.isNeXusLink, o))
    exp = c.no_exception("spec", c.call(S_kinds.nexus_link, o))
    c.same_value("NeXus link", SBool(M._t(c.it.truth_term(out))), SBool(M._t(c.it.truth_term(exp))))


# ----------------------------------------------------------------------- C13
RAW = ObjClass("RAW")  # a value as h5py gives it
r_kind = F("r_kind", Obj, IntS)  # 0 str 1 bytes 2 array of text 3 other array 4 other 5 list
r_text = F("r_text", Obj, StrS)


def _raw_isinst(it, o, cls):
    k = r_kind(o.t)
    if cls is str:
        return k == 0
    if cls is bytes:
        return k == 1
    if cls is numpy.bytes_:
        return z3.And(k == 1, F("r_numpy", Obj, BoolS)(o.t))
    if cls is numpy.ndarray:
        return z3.Or(k == 2, k == 3)
    if cls is list:
        return k == 5
    if cls is type(None):
        return False
    raise Unsupported(f"isinstance(value, {cls})")


def _raw_dtype(it, o):
    if not it.run.decide(z3.Or(r_kind(o.t) == 2, r_kind(o.t) == 3)):
        raise PyRaise(AttributeError("dtype"))
    return SObj(o.t, DTYPE)


def _dtype_kind(it, o):
    t = F("r_dtype_kind", Obj, StrS)(o.t)
    sv = z3.StringVal
    it.run.assume((r_kind(o.t) == 2) == z3.Or(t == sv("O"), t == sv("S")))
    return SStr(t)


DTYPE = ObjClass("DTYPE", {"kind": _dtype_kind})


def _raw_size(it, o):
    if not it.run.decide(z3.Or(r_kind(o.t) == 2, r_kind(o.t) == 3)):
        raise PyRaise(AttributeError("size"))
    n = F("r_size", Obj, IntS)(o.t)
    it.run.assume(n >= 0)
    return SInt(n)


def _raw_tolist(it, o, a, kw):
    t = F("r_tolist", Obj, Obj)(o.t)
    it.run.assume(z3.Or(r_kind(t) == 5, r_kind(t) <= 1, r_kind(t) == 4))
    return SObj(t, RAW)


def _raw_decode(it, o, a, kw):
    if not it.run.decide(r_kind(o.t) == 1):
        raise PyRaise(AttributeError("decode"))
    enc = it.force((list(a) + [kw.get("encoding", "utf8")])[0])
    err = it.force((list(a) + [None, None])[1] or kw.get("errors", "strict"))
    if not isinstance(enc, str) or not isinstance(err, str):
        raise Unsupported("decode")
    enc = enc.lower().replace("-", "").replace("_", "")
    f = F("decode_" + enc, Obj, StrS) if err in ("strict", "replace") else F(f"decode_{enc}_{err}", Obj, StrS)
    if err == "strict" and not it.run.decide(F("valid_" + enc, Obj, BoolS)(o.t)):
        raise PyRaise(UnicodeDecodeError(enc, b"?", 0, 1, "invalid"))
    return SStr(f(o.t))


def _raw_str(it, o, a, kw):
    return SStr(z3.If(r_kind(o.t) == 0, r_text(o.t), F("r_str", Obj, StrS)(o.t)))


def _raw_len(it, o):
    n = F("r_len", Obj, IntS)(o.t)
    it.run.assume(n >= 0)
    return n


def _raw_iter(it, o):
    if not it.run.decide(r_kind(o.t) == 5):
        raise Unsupported("iteration over a value")
    return SSeq(("rawlist", o.t), _raw_len(it, o), lambda j: SObj(F("r_item", Obj, IntS, Obj)(o.t, j), RAW))


RAW.isinst = _raw_isinst
RAW.attrs.update({"dtype": _raw_dtype, "size": _raw_size})
RAW.methods.update({"tolist": _raw_tolist, "decode": _raw_decode, "__str__": _raw_str})
RAW.iterate = _raw_iter
RAW.length = lambda it, o: _raw_len(it, o)


def raw_ctx(run):
    c = VCtx(run)
    del c.it.stubs[("punx.utils", "decode_byte_string")]
    c.it.stubs[("punx.utils", "_decode_items")] = Model("_decode_items", lambda it, a, kw: Tok("decoded items", [it.force(a[0])]))
    v = SObj(z3.Const("value", Obj), RAW)
    run.assume(z3.And(r_kind(v.t) >= 0, r_kind(v.t) <= 5))
    return c, v


def same_decoded(c, got, exp):
    """native values are the very same object"""
    got, exp = c.it.force(got), c.it.force(exp)
    if isinstance(got, SObj) or isinstance(exp, SObj):
        if M.is_text(got) or M.is_text(exp):
            # a str may be handed on as it is, or copied
            o, s = (got, exp) if isinstance(got, SObj) else (exp, got)
            c.prove("value", z3.And(r_kind(o.t) == 0, r_text(o.t) == zs(s)))
            return
        c.prove("value", isinstance(got, SObj) and isinstance(exp, SObj) and got.t == exp.t)
        return
    if isinstance(got, IList) and isinstance(exp, IList):
        c.same_items("items", got, exp, ordered=True)
        return
    c.same_value("value", got, exp)


@goal("C13", "utils.decode_byte_string", U + "decode_byte_string")
def g_decode(run):
    c, v = raw_ctx(run)
    out = c.no_exception("no exception", c.call(utils.decode_byte_string, v))
    exp = c.no_exception("spec", c.call(S_text.decoded, v))
    same_decoded(c, out, exp)


@goal("C13", "utils._decode_items", U + "_decode_items")
def g_decode_items(run):
    c, v = raw_ctx(run)
    run.assume(r_kind(v.t) != 2)  # no text arrays in text arrays
    out = c.no_exception("no exception", c.recursive(utils._decode_items, v))
    exp = c.no_exception("spec", c.call(S_text.decoded_items, v))
    same_decoded(c, out, exp)


@goal("C13", "utils.attribute_text", U + "attribute_text", also=("C03", "C11"))
def g_attribute_text(run):
    c = VCtx(run)
    it = c.it
    v = SObj(z3.Const("value", Obj), W.VAL)
    t = v.t
    one = W.v_item(t, 0)
    # what "text of a value" means for lists
    run.assume(z3.Implies(W.v_kind(t) == 2, z3.And(W.v_text(t) == z3.And(W.v_n(t) == 1, W.v_text(one)),
                                                   z3.Implies(W.v_n(t) == 1, W.v_textof(t) == W.v_textof(one)))))
    run.assume(z3.Implies(W.v_kind(t) == 0, W.v_text(t)))
    rest = Model("rest", lambda it, a, kw: W.LText(it.force(a[0]).t))
    heads = []

    def rule(st, env):
        state = {k: it.force(x) for k, x in env.vars.items()}
        if len(state) != 1:
            raise Unsupported("state of the loop: " + repr(state))
        k, x = list(state.items())[0]
        heads.append(k)
        if len(heads) > 1:
            if not (isinstance(x, SObj) and x.cls is W.ELEM):
                raise Unsupported("loop goes on with " + repr(x))
            raise I.Return(it.call(rest, [x]))
        if not it.truth(it.eval(st.test, env)):
            it.block(st.orelse, env)
            return
        try:
            it.block(st.body, env)
        except I.Break:
            return
        except I.Continue:
            pass
        return rule(st, env)

    it.while_rule = rule
    out = c.no_exception("no exception", c.real(utils.attribute_text, v))
    it.while_rule = None
    it.stubs[("spec.text", "rest")] = rest
    exp = c.no_exception("spec", c.call(S_text.text, v))
    got = it.force(out)
    c.prove("text", W.v_textof(t) == zs(got) if M.is_text(got) else got is None)
    c.prove("is text", W.v_text(t) if M.is_text(got) else z3.Not(W.v_text(t)))
    c.same_value("value", got, exp)


@goal("C13", "utils.isHdf5Child", U + "isHdf5Child", also=("C03", "C21", "C06"))
def g_child(run):
    c = VCtx(run)
    it = c.it
    g = SObj(z3.Const("group", Obj), H5)
    run.assume(z3.And(W.h_kind(g.t) >= 0, W.h_kind(g.t) <= 1))
    k = run.choose(4)
    a = [c.text("address"), None, SObj(z3.Const("value", Obj), W.OTHER), SInt(z3.Int("number"))][k]
    run.logs["read errors"] = 4
    out = c.no_exception("no exception", c.real(utils.isHdf5Child, g, a))
    if k == 0:
        run.assume(z3.Implies(a.t == z3.StringVal(""), z3.Not(W.c_ok(g.t, a.t))))
    exp = c.no_exception("spec", c.call(S_kinds.child, g, a))
    c.same_value("child", SBool(M._t(it.truth_term(out))), SBool(M._t(it.truth_term(exp))))
    con = c.no_exception("contract", ("ret", W.s_isHdf5Child(it, [g, a], {})))
    c.same_value("contract", SBool(M._t(it.truth_term(out))), SBool(M._t(it.truth_term(con))))


@goal("C01", "utils.isHdf5Link", U + "isHdf5Link", also=())
def g_hdf5_link(run):
    c = Ctx(run, {})
    it = c.it
    k = run.choose(6)
    link = SObj(z3.Const("link", Obj), ObjClass("LINK"))
    link.cls.isinst = lambda it, o, cls: cls is [h5py.HardLink, h5py.SoftLink, h5py.ExternalLink, None][k] if k < 4 else False
    name = c.text("name")

    def get(it, o, a, kw):
        c.prove("the link of that name", len(a) == 1 and kw.get("getlink") is True and it.force(a[0]) is name)
        if k == 4:
            raise PyRaise(UnicodeDecodeError("utf8", b"x", 0, 1, "name"))
        return None if k == 3 else link

    parent = SObj(z3.Const("parent", Obj), ObjClass("PARENT", {}, {"get": get}))
    ATTRS = {"parent": lambda it, o: parent, "name": lambda it, o: name}
    obj = SObj(z3.Const("obj", Obj), ObjClass("ITEM_", dict(ATTRS if k < 5 else {}, hasattr=lambda it, o: (lambda name: k < 5 and name in ATTRS))))
    out = c.no_exception("no exception", c.real(utils.isHdf5Link, obj))
    c.prove("an item with a hard or soft link (or a name that is not text)", it.truth_term(out) if k in (0, 1, 4) else z3.Not(M._t(it.truth_term(out))))
