"""The outside world of the verified code: HDF5 objects, attribute values,
NXDL definitions and catalogued items, known only by uninterpreted functions.

Every function below is an assumption about h5py (or a contract that another
goal proves); ``ASSUMED`` names them for the evidence.
"""
import h5py
import numpy

from .values import *
from .interp import Model, IFunc, UNBOUND, LVal
from . import models as M

NONNX = "non-NeXus content"

ASSUMED = {
    "h5py objects": "File, Group, Dataset are told apart by isinstance; attrs, names and children are functions of the object",
    "h5py attrs": "names are distinct; in/get/[]/items agree with each other",
}


def F(name, *sorts):
    return z3.Function(name, *sorts)


def T(it, o):
    return o.t


# ---------------------------------------------------------------- H5 objects
H5 = ObjClass("H5")
VAL = ObjClass("VAL")  # attribute or field value as h5py returns it
ATTRS = ObjClass("ATTRS")
OTHER = ObjClass("OTHER")  # decoded value which is neither text nor list
ELEM = ObjClass("ELEM")  # item of a decoded list

h_kind = F("h_kind", Obj, IntS)  # 0 file, 1 group, 2 dataset, 3 anything else
h_name = F("h_name", Obj, StrS)
h_parent = F("h_parent", Obj, Obj)
a_has = F("a_has", Obj, StrS, BoolS)
a_val = F("a_val", Obj, StrS, Obj)
a_n = F("a_n", Obj, IntS)
a_key = F("a_key", Obj, IntS, StrS)
c_ok = F("c_ok", Obj, StrS, BoolS)  # an item can be read at this address
c_get = F("c_get", Obj, StrS, Obj)
c_n = F("c_n", Obj, IntS)
c_name = F("c_name", Obj, IntS, StrS)
v_text = F("v_text", Obj, BoolS)  # attribute_text() gives text
v_textof = F("v_textof", Obj, StrS)
v_kind = F("v_kind", Obj, IntS)  # decode_byte_string(): 0 text 1 None 2 list 3 ndarray 4 other
v_n = F("v_n", Obj, IntS)
v_item = F("v_item", Obj, IntS, Obj)
v_str = F("v_str", Obj, StrS)


def _h5_isinst(it, o, cls):
    k = h_kind(o.t)
    if cls is h5py.File:
        return k == 0
    if cls is h5py.Group:
        return z3.Or(k == 0, k == 1)
    if cls is h5py.Dataset:
        return k == 2
    if cls in (h5py.HardLink, h5py.SoftLink, h5py.ExternalLink):
        return False
    if cls is type(None):
        return False
    if cls in (str, bytes, list, tuple, int, float, numpy.ndarray, numpy.bytes_):
        # attribute values are looked at by contracts only
        if it.run.valid(k != 3):
            return False
    raise Unsupported(f"isinstance(h5, {cls})")


H5.isinst = _h5_isinst
H5.truth = lambda it, o: _true_if_h5(it, o)


def _true_if_h5(it, o):
    if it.run.valid(h_kind(o.t) != 3):
        return True  # open objects are true
    raise Unsupported("truth of an attribute value")


def _h5_hasattr(it, o):
    def f(name):
        if name in ("name", "parent", "attrs", "file", "id"):
            return h_kind(o.t) != 3
        if name in ("get", "keys", "items", "values"):
            return z3.Or(h_kind(o.t) == 0, h_kind(o.t) == 1)
        if name in ("shape", "dtype", "size", "ndim"):
            if it.run.valid(h_kind(o.t) != 3):
                return h_kind(o.t) == 2
        if name == "filename":
            return h_kind(o.t) == 0
        raise Unsupported(f"hasattr(h5, {name})")

    return f


H5.attrs["hasattr"] = _h5_hasattr


TYPE = ObjClass("TYPE")
TYPE.eq = lambda it, a, b: False if isinstance(b, (str, SStr)) or b is None else _no_type_eq(b)
H5.attrs["type"] = lambda it, o: SObj(o.t, TYPE)


def _no_type_eq(b):
    raise Unsupported(f"comparison of a type with {b!r}")


def need_h5(it, o):
    if not it.run.decide(h_kind(o.t) != 3):
        raise PyRaise(AttributeError("attribute value has no such attribute"))


def _attrs(it, o):
    need_h5(it, o)
    return SObj(o.t, ATTRS)


def _name(it, o):
    need_h5(it, o)
    return SStr(h_name(o.t))


H5.attrs["attrs"] = _attrs
H5.attrs["name"] = _name
H5.attrs["parent"] = lambda it, o: (need_h5(it, o), SObj(h_parent(o.t), H5))[1]


def val(it, t):
    """value of an attribute: at most the contracts below know what it is"""
    return SObj(t, VAL)


def attr_facts(it, o):
    done = it.run.logs.setdefault("attr_facts", [])
    if any(x.eq(o) for x in done):
        return
    if not it.run.frames:
        done.append(o)
    M.distinct_keys(it.run, a_n(o), lambda j: a_key(o, j), has=lambda s: a_has(o, s))


def attr_keys(it, o):
    attr_facts(it, o)
    return SSeq(("attrs", o), a_n(o), lambda j: SStr(a_key(o, j)))


def attr_items(it, o):
    attr_facts(it, o)
    return SSeq(("attrs", o), a_n(o), lambda j: (SStr(a_key(o, j)), val(it, a_val(o, a_key(o, j)))))


def _attr_get(it, o, a, kw):
    k = it.force(a[0])
    d = a[1] if len(a) > 1 else kw.get("default")
    if not M.is_text(k):
        raise Unsupported("attribute name")
    if it.run.decide(a_has(o.t, zs(k))):
        return val(it, a_val(o.t, zs(k)))
    return d


def _attr_getitem(it, o, k):
    if not M.is_text(k):
        raise Unsupported("attribute name")
    if it.run.decide(a_has(o.t, zs(k))):
        return val(it, a_val(o.t, zs(k)))
    raise PyRaise(KeyError("attribute"))


ATTRS.contains = lambda it, o, x: a_has(o.t, zs(x))
ATTRS.getitem = _attr_getitem
ATTRS.methods["get"] = _attr_get
ATTRS.methods["items"] = lambda it, o, a, kw: attr_items(it, o.t)
ATTRS.methods["keys"] = lambda it, o, a, kw: attr_keys(it, o.t)
ATTRS.iterate = lambda it, o: attr_keys(it, o.t)
ATTRS.length = lambda it, o: (attr_facts(it, o.t), SInt(a_n(o.t)))[1]
ATTRS.truth = lambda it, o: a_n(o.t) > 0


# links
LINK = ObjClass("LINK")
l_kind = F("l_kind", Obj, IntS)  # 0 hard 1 soft 2 external


def _link_isinst(it, o, cls):
    k = l_kind(o.t)
    it.run.assume(z3.And(k >= 0, k <= 2))
    if cls in (h5py.HardLink, h5py.SoftLink, h5py.ExternalLink):
        return k == (h5py.HardLink, h5py.SoftLink, h5py.ExternalLink).index(cls)
    if cls in (type(None), str, h5py.Group, h5py.File, h5py.Dataset):
        return False
    raise Unsupported(f"isinstance(link, {cls})")


def _link_attr(name, cond):
    f = F("l_" + name, Obj, StrS)

    def get(it, o):
        it.run.assume(z3.And(l_kind(o.t) >= 0, l_kind(o.t) <= 2))
        if not it.run.decide(cond(l_kind(o.t))):
            raise PyRaise(AttributeError(name))
        return SStr(f(o.t))

    return get


LINK.isinst = _link_isinst
LINK.truth = lambda it, o: True
LINK.attrs["path"] = _link_attr("path", lambda k: k >= 1)
LINK.attrs["filename"] = _link_attr("filename", lambda k: k == 2)
LINK.attrs["hasattr"] = lambda it, o: (lambda name: {"path": l_kind(o.t) >= 1, "filename": l_kind(o.t) == 2}.get(name, False))
TYPE.attrs["__name__"] = lambda it, o: SStr(F("type_name", Obj, StrS)(o.t))
TYPE.truth = lambda it, o: True


# groups
def child_keys(it, o):
    done = it.run.logs.setdefault("child_facts", [])
    if not any(x.eq(o) for x in done):
        if not it.run.frames:
            done.append(o)
        M.distinct_keys(it.run, c_n(o), lambda j: c_name(o, j))
    return SSeq(("children", o), c_n(o), lambda j: SStr(c_name(o, j)))


def child(it, o, s):
    """item at this address; all errors h5py raises for one that cannot be read"""
    if not it.run.decide(c_ok(o.t, s)):
        k = it.run.choose(it.run.logs.get("read errors", 3))
        if k == 0:
            raise PyRaise(KeyError("no such item"))
        if k == 2:
            raise PyRaise(OSError("cannot open item"))
        if k == 3:
            raise PyRaise(ValueError("not an address"))
        raise PyRaise(RuntimeError("link"))
    t = c_get(o.t, s)
    k = h_kind(t)  # never a File
    if it.run.logs.get("named datatypes"):
        it.run.assume(z3.Or(k == 1, k == 2, k == 4))
    else:
        it.run.assume(z3.And(k >= 1, k <= 2))
    return SObj(t, H5)


def need_group(it, o):
    if not it.run.decide(z3.Or(h_kind(o.t) == 0, h_kind(o.t) == 1)):
        raise Unsupported("item access to something that is not a group")


def _h5_getitem(it, o, k):
    if it.run.decide(z3.Or(h_kind(o.t) == 0, h_kind(o.t) == 1)):
        k = text_of(it, k)
        if not M.is_text(k):
            raise Unsupported(f"group[{k!r}]")
        return child(it, o, zs(k))
    if it.run.decide(h_kind(o.t) == 2):
        if "dataset index" in it.run.logs:
            return it.run.logs["dataset index"](it, o, k)
        if k == ():
            return SObj(F("d_value", Obj, Obj)(o.t), VAL)
        raise Unsupported("dataset index")
    raise Unsupported("index into a value")


def text_of(it, v):
    """text if v is text on this path, else v"""
    v = it.force(v)
    if isinstance(v, SObj) and v.cls in (ELEM,):
        if it.run.decide(v_kind(v.t) == 0):
            return SStr(v_textof(v.t))
    return v


H5.getitem = _h5_getitem
H5.iterate = lambda it, o: (need_group(it, o), child_keys(it, o.t))[1]


def _h5_contains(it, o, x):
    need_group(it, o)
    # a link of this name: whether it can be followed is another question
    return F("c_link", Obj, StrS, BoolS)(o.t, zs(text_of(it, x)))


H5.contains = _h5_contains
H5.methods["keys"] = lambda it, o, a, kw: (need_group(it, o), child_keys(it, o.t))[1]


def _h5_get(it, o, a, kw):
    need_group(it, o)
    if len(a) == 1 and list(kw) == ["getlink"] and it.truth(kw["getlink"]):
        # of a name in the group: what kind of link it is
        return SObj(F("link", Obj, StrS, Obj)(o.t, zs(text_of(it, a[0]))), LINK)
    if kw or len(a) > 1:
        raise Unsupported("Group.get with options")
    k = text_of(it, a[0])
    s = zs(k)
    if it.run.decide(c_ok(o.t, s)):
        return child(it, o, s)
    n = it.run.choose(1 + it.run.logs.get("read errors", 3))
    if n == 0:
        return None
    raise PyRaise([KeyError, RuntimeError, OSError, ValueError][n - 1]("no such item"))


H5.methods["get"] = _h5_get
h_id = F("h_id", Obj, Obj)  # what is in the file: many objects may stand for one group
H5.ident = lambda o: h_id(o.t)
H5.eq = lambda it, a, b: (h_id(a.t) == h_id(b.t)) if isinstance(b, SObj) and b.cls is H5 else _eq_other(it, a, b)


def _eq_other(it, a, b):
    if b is None and it.run.valid(h_kind(a.t) != 3):
        return False
    raise Unsupported(f"comparison of an HDF5 object with {b!r}")


# --------------------------------------------------------- values (contracts)
def s_decode(it, a, kw):
    """contract of utils.decode_byte_string"""
    v = a[0] if a else kw["value"]
    if isinstance(v, LDec):
        return v
    v = it.force(v)
    if isinstance(v, SObj) and v.cls is H5:
        v = SObj(v.t, VAL)  # h5_object of an attribute
    if not (isinstance(v, SObj) and v.cls in (VAL, ELEM)):
        if isinstance(v, SObj):
            return v
        if isinstance(v, bytes):
            return v.decode("utf8", errors="replace")
        return v  # text and all native values
    return LDec(v.t, v.cls is ELEM)


class LDec(LVal):
    """decoded value"""

    def __init__(self, t, elem):
        LVal.__init__(self)
        self.t, self.elem = t, elem

    def subst(self, pairs):
        return LDec(z3.substitute(self.t, *pairs), self.elem)

    def resolve(self, it):
        t, run = self.t, it.run
        k = v_kind(t)
        if run.decide(k == 0):
            run.assume(z3.And(v_text(t), v_str(t) == v_textof(t)))
            return SStr(v_textof(t))
        if self.elem:
            run.assume(k != 1)
        elif run.decide(k == 1):
            run.assume(z3.Not(v_text(t)))
            return None
        if run.decide(k == 2):
            return SSeq(("items", t), _vn(it, SObj(t, VAL)), lambda j: SObj(v_item(t, j), ELEM))
        run.assume(z3.Not(v_text(t)))
        return SObj(t, OTHER)

    def facts(self, it):
        t = self.t
        k = v_kind(t)
        it.run.assume(z3.And(z3.Implies(k == 0, z3.And(v_text(t), v_str(t) == v_textof(t))),
                             z3.Implies(k == 1, v_str(t) == z3.StringVal("None")),
                             z3.Implies(z3.And(k != 0, k != 2), z3.Not(v_text(t)))))
        if self.elem:
            it.run.assume(k != 1)

    def lis_none(self, it):
        if self.memo is not UNBOUND:
            return NotImplemented
        self.facts(it)
        return False if self.elem else v_kind(self.t) == 1

    def lisinst(self, it, cls):
        if self.memo is not UNBOUND:
            return NotImplemented
        self.facts(it)
        k = v_kind(self.t)
        if cls is str:
            return k == 0
        if cls is list:
            return k == 2
        if cls is numpy.ndarray:
            return False if self.elem else k == 3
        if cls in (bytes, numpy.bytes_):
            return False
        return NotImplemented

    def lstr(self, it):
        self.facts(it)
        return SStr(v_str(self.t))


class LText(LVal):
    """the text of a value, None if it is not text"""

    def __init__(self, t):
        LVal.__init__(self)
        self.t = t

    def subst(self, pairs):
        return LText(z3.substitute(self.t, *pairs))

    def resolve(self, it):
        if it.run.decide(v_text(self.t)):
            return SStr(v_textof(self.t))
        return None

    def lis_none(self, it):
        return z3.Not(v_text(self.t))

    def lisinst(self, it, cls):
        if cls is str:
            return v_text(self.t)
        return NotImplemented

    def lstr(self, it):
        return SStr(z3.If(v_text(self.t), v_textof(self.t), z3.StringVal("None")))

    def leq(self, it, other):
        if M.is_text(other):
            return z3.And(v_text(self.t), v_textof(self.t) == zs(other))
        return NotImplemented

    def lin(self, it, container):
        if M.is_text(container):
            return NotImplemented
        if isinstance(container, (IList, tuple)):
            items = container if isinstance(container, tuple) else container.items
            if any(isinstance(x, (Piece, Rest)) or not M.is_text(x) for x in items):
                return NotImplemented
        elif not isinstance(container, (SMap, SSeq)):
            return NotImplemented
        r = M.contains(it, container, SStr(v_textof(self.t)))
        return M.conj([v_text(self.t), r])


class LOpt(LVal):
    """text if the condition holds, else None"""

    def __init__(self, cond, t):
        LVal.__init__(self)
        self.cond, self.t = cond, t

    def subst(self, pairs):
        return LOpt(z3.substitute(self.cond, *pairs), z3.substitute(self.t, *pairs))

    def resolve(self, it):
        return SStr(self.t) if it.run.decide(self.cond) else None

    def lis_none(self, it):
        return z3.Not(self.cond)

    def leq(self, it, other):
        if M.is_text(other):
            return z3.And(self.cond, self.t == zs(other))
        return NotImplemented


def _vn(it, v):
    it.run.assume(v_n(v.t) >= 0)
    return v_n(v.t)


def _other_isinst(it, o, cls):
    k = v_kind(o.t)
    if cls is numpy.ndarray:
        return k == 3
    if cls in (str, bytes, list, type(None), numpy.bytes_, h5py.Group, h5py.File, h5py.Dataset):
        return False
    if cls in (int, float, tuple, bool):
        if it.run.valid(k == 3):
            return False
    raise Unsupported(f"isinstance(value, {cls})")


OTHER.isinst = _other_isinst
OTHER.valuelike = True
OTHER.methods["__str__"] = lambda it, o, a, kw: SStr(v_str(o.t))
OTHER.methods["tolist"] = lambda it, o, a, kw: _tolist(it, o)


def _tolist(it, o):
    # array of rank 0: a number; else a list
    if it.run.decide(F("v_rank0", Obj, BoolS)(o.t)):
        t = F("v_scalar", Obj, Obj)(o.t)
        it.run.assume(z3.And(v_kind(t) == 4, z3.Not(v_text(t))))
        return SObj(t, OTHER)
    return SSeq(("items", o.t), _vn(it, o), lambda j: SObj(v_item(o.t, j), ELEM))


def _elem_isinst(it, o, cls):
    k = v_kind(o.t)
    if cls is str:
        return k == 0
    if cls is list:
        return k == 2
    if cls in (bytes, numpy.bytes_, numpy.ndarray, type(None)):
        return False
    raise Unsupported(f"isinstance(item, {cls})")


ELEM.isinst = _elem_isinst
ELEM.valuelike = True
ELEM.methods["__str__"] = lambda it, o, a, kw: SStr(v_str(o.t))
VAL.valuelike = True
VAL.methods["__str__"] = lambda it, o, a, kw: SStr(F("v_rawstr", Obj, StrS)(o.t))


def s_attribute_text(it, a, kw):
    """contract of utils.attribute_text"""
    v = a[0] if a else kw["value"]
    if isinstance(v, LDec):
        v.facts(it)
        return LText(v.t)
    if isinstance(v, LText):
        return v
    v = it.force(v)
    if M.is_text(v) or v is None:
        return v
    if isinstance(v, SObj) and v.cls in (H5, VAL, ELEM, OTHER):
        if v.cls is H5 and it.run.valid(h_kind(v.t) != 3, quick=True):
            return None
        if v.cls is OTHER:
            it.run.assume(z3.Not(v_text(v.t)))
            return None
        LDec(v.t, v.cls is ELEM).facts(it)
        return LText(v.t)
    if isinstance(v, SSeq) and v.base[0] == "items":
        return LText(v.base[1])
    if isinstance(v, SObj) or isinstance(v, (IList, SSeq)):
        raise Unsupported(f"attribute_text({v!r})")
    if isinstance(v, bytes):
        return v.decode("utf8", errors="replace")
    return None


def s_isHdf5Child(it, a, kw):
    """contract of utils.isHdf5Child"""
    g, s = it.force(a[0]), a[1]
    if isinstance(g, SObj) and g.cls is H5:
        isgroup = z3.Or(h_kind(g.t) == 0, h_kind(g.t) == 1)
        if not it.run.valid(isgroup, quick=True) and not it.run.decide(isgroup):
            # precondition: only groups have get()
            s = it.force(s)
            t = text_of(it, s)
            if M.is_text(t) and it.run.decide(zs(t) != z3.StringVal("")):
                raise PyRaise(AttributeError("get"))
            return False
        # conditions on the kind of the address, no decision
        cond, t = None, None
        if isinstance(s, LText):
            cond, t = v_text(s.t), v_textof(s.t)
        elif isinstance(s, LDec):
            s.facts(it)
            cond, t = v_kind(s.t) == 0, v_textof(s.t)
        elif isinstance(s, SObj) and s.cls is ELEM:
            cond, t = v_kind(s.t) == 0, v_textof(s.t)
        if cond is not None:
            it.run.assume(z3.Implies(t == z3.StringVal(""), z3.Not(c_ok(g.t, t))))
            return SBool(z3.And(cond, c_ok(g.t, t)))
    s = text_of(it, s)
    if isinstance(s, bytes):
        raise Unsupported("bytes address")
    if not M.is_text(s):
        if s is None or isinstance(s, (int, float, IList, SSeq, SInt)) or isinstance(s, SObj) and s.cls in (OTHER, ELEM):
            return False
        raise Unsupported(f"isHdf5Child(.., {s!r})")
    if isinstance(s, str) and s == "":
        return False
    if not (isinstance(g, SObj) and g.cls is H5):
        raise Unsupported("isHdf5Child of something else")
    if isinstance(s, SStr):
        it.run.assume(z3.Implies(s.t == z3.StringVal(""), z3.Not(c_ok(g.t, s.t))))
    return SBool(c_ok(g.t, zs(s)))


# ------------------------------------------------------------------ catalogue
VITEM = ObjClass("ITEM")
VALS = ObjClass("ITEMVALS")

i_parent = F("i_parent", Obj, Obj)
i_root = F("i_root", Obj, BoolS)
i_obj = F("i_obj", Obj, Obj)
i_name = F("i_name", Obj, StrS)
i_addr = F("i_addr", Obj, StrS)
i_cp = F("i_cp", Obj, StrS)
i_attr = F("i_attr", Obj, BoolS)
i_nx = F("i_nx", Obj, StrS)
i_link = F("i_link", Obj, BoolS)
i_val = F("i_val", Obj, StrS, BoolS)


def item_facts(it, t):
    """what the catalogue guarantees about each of its items (goal C06)"""
    done = it.run.logs.setdefault("item_facts", [])
    if any(x.eq(t) for x in done):
        return
    if not it.run.frames:
        done.append(t)
    sv = z3.StringVal
    p = i_parent(t)
    k = h_kind(i_obj(t))
    it.run.assume(z3.And(
        k >= 0, k <= 3,
        i_attr(t) == (k == 3),
        i_root(t) == (k == 0),
        z3.Implies(i_root(t), z3.And(i_addr(t) == sv("/"), i_name(t) == sv("/"), i_cp(t) == sv(""))),
        z3.Implies(i_attr(t), z3.And(
            h_kind(i_obj(p)) <= 2, h_kind(i_obj(p)) >= 0,
            a_has(i_obj(p), i_name(t)), a_val(i_obj(p), i_name(t)) == i_obj(t),
            i_cp(t) == z3.If(i_cp(p) == sv(NONNX), sv(NONNX), z3.Concat(i_cp(p), sv("@"), i_name(t))),
            z3.Implies(i_cp(p) != sv(NONNX), i_addr(t) == z3.Concat(i_addr(p), sv("@"), i_name(t))))),
        z3.Implies(z3.Or(k == 1, k == 2), z3.Or(h_kind(i_obj(p)) == 0, h_kind(i_obj(p)) == 1)),
        z3.Implies(z3.And(k == 1, i_cp(t) != sv(NONNX)), z3.And(
            z3.PrefixOf(sv("NX"), i_nx(t)), z3.PrefixOf(sv("/NX"), i_cp(t)), i_cp(t) == z3.Concat(i_cp(p), sv("/"), i_nx(t)))),
        z3.Implies(z3.And(k == 2, i_cp(t) != sv(NONNX)), i_cp(t) == z3.Concat(i_cp(p), sv("/"), i_name(t))),
        z3.Implies(k != 3, z3.PrefixOf(sv("/"), i_addr(t))),
        z3.Implies(z3.Or(k == 1, k == 2), z3.And(i_addr(t) != sv("/"), z3.Not(z3.SuffixOf(sv("/"), i_addr(t))))),
    ))


def item(it, t):
    item_facts(it, t)
    return SObj(t, VITEM)


def _i_parent(it, o):
    if it.run.decide(i_root(o.t)):
        return None
    return item(it, i_parent(o.t))


def _i_addr(it, o):
    if it.run.decide(z3.And(i_attr(o.t), i_cp(o.t) == z3.StringVal(NONNX))):
        return None
    return SStr(i_addr(o.t))


def has_nx(t):
    return z3.And(h_kind(i_obj(t)) == 1, i_cp(t) != z3.StringVal(NONNX))


def _i_nx(it, o):
    if not it.run.decide(has_nx(o.t)):
        raise PyRaise(AttributeError("nx_class"))
    return SStr(i_nx(o.t))


def _i_hasattr(it, o):
    def f(name):
        if name == "nx_class":
            return has_nx(o.t)
        return name in VITEM.attrs

    return f


def _i_type(it, o):
    if it.run.decide(i_attr(o.t)):
        return SObj(i_obj(o.t), ObjClass("TYPE"))
    if it.run.decide(i_link(o.t)):
        return "NeXus link"
    k = h_kind(i_obj(o.t))
    if it.run.decide(k == 0):
        return "HDF5 file root"
    return "HDF5 group" if it.run.decide(k == 1) else "HDF5 dataset"


VITEM.attrs.update({
    "parent": _i_parent,
    "h5_object": lambda it, o: SObj(i_obj(o.t), H5),
    "name": lambda it, o: SStr(i_name(o.t)),
    "h5_address": _i_addr,
    "classpath": lambda it, o: SStr(i_cp(o.t)),
    "is_attribute": lambda it, o: SBool(i_attr(o.t)),
    "nx_class": _i_nx,
    "object_type": _i_type,
    "validations": lambda it, o: SObj(o.t, VALS),
    "hasattr": _i_hasattr,
})
VITEM.truth = lambda it, o: True
VITEM.methods["__str__"] = lambda it, o, a, kw: SStr(F("i_str", Obj, StrS)(o.t))


def _vals_set(it, o, a, kw):
    log = it.run.logs.get("itemvals")
    if log is not None:
        it.list_append(log, [(SObj(o.t, VITEM), a[0], a[1])])


VALS.contains = lambda it, o, x: i_val(o.t, zs(x))
VALS.methods["__setitem__"] = _vals_set


def _no_item_write(it, o, name, v):
    it.frame_violation(f"writes {name} of a catalogued item")


VITEM.setattr = _no_item_write

# ------------------------------------------------------------------- NXDL
DEF = ObjClass("NXDL")  # NXDL__definition, NXDL__group, NXDL__field, NXDL__attribute ...
d_cat = F("d_cat", Obj, StrS)
d_title = F("d_title", Obj, StrS)


def nmap(kind, o):
    has = F(f"n_has_{kind}", Obj, StrS, BoolS)
    get = F(f"n_get_{kind}", Obj, StrS, Obj)
    n = F(f"n_n_{kind}", Obj, IntS)
    key = F(f"n_key_{kind}", Obj, IntS, StrS)
    keys = SSeq((kind, o), n(o), lambda j: SStr(key(o, j)))
    return SMap((kind, o), lambda s: has(o, s), lambda s: SObj(get(o, s), DEF), keys)


def map_facts(it, kind, o):
    has = F(f"n_has_{kind}", Obj, StrS, BoolS)
    n = F(f"n_n_{kind}", Obj, IntS)
    key = F(f"n_key_{kind}", Obj, IntS, StrS)
    done = it.run.logs.setdefault("map_facts", [])
    if any(k == kind and x.eq(o) for k, x in done):
        return
    if not it.run.frames:
        done.append((kind, o))
    M.distinct_keys(it.run, n(o), lambda j: key(o, j), has=lambda s: has(o, s))


def _map(kind):
    def f(it, o):
        map_facts(it, kind, o.t)
        return nmap(kind, o.t)

    return f


for _k in ("attributes", "fields", "groups", "links", "symbols", "choices", "xml_attributes"):
    DEF.attrs[_k] = _map(_k)


def _fields(it, o):
    """every field of a definition has a default of minOccurs (goals of C14)"""
    m = _map("fields")(it, o)
    inner = m.get

    def get(s):
        v = inner(s)
        it.run.assume(F("n_has_xml_attributes", Obj, StrS, BoolS)(v.t, z3.StringVal("minOccurs")))
        return v

    m.get = get
    return m


DEF.attrs["fields"] = _fields
DEF.attrs["category"] = lambda it, o: SStr(d_cat(o.t))
DEF.attrs["title"] = lambda it, o: SStr(d_title(o.t))
DEF.attrs["name"] = lambda it, o: SStr(F("d_name", Obj, StrS)(o.t))
DEF.attrs["minOccurs"] = lambda it, o: SInt(F("d_minOccurs", Obj, IntS)(o.t))
DEF.attrs["default_value"] = lambda it, o: SInt(F("d_default", Obj, IntS)(o.t))
DEF.truth = lambda it, o: True


def _enums(it, o):
    n = F("d_enum_n", Obj, IntS)(o.t)
    it.run.assume(n >= 0)
    return SSeq(("enumerations", o.t), n, lambda j: SStr(F("d_enum", Obj, IntS, StrS)(o.t, j)))


DEF.attrs["enumerations"] = _enums


def _relist(it, o):
    n = F("d_re_n", Obj, IntS)(o.t)
    it.run.assume(n >= 0)
    return SSeq(("re_list", o.t), n, lambda j: SStr(F("d_re", Obj, IntS, StrS)(o.t, j)))


DEF.attrs["re_list"] = _relist
DEF.attrs["patterns"] = _map("patterns")


def _no_def_write(it, o, name, v):
    it.frame_violation(f"writes {name} of an NXDL definition")


DEF.setattr = _no_def_write


def _item_isinst(it, o, cls):
    from punx.validate import ValidationItem

    return issubclass(ValidationItem, cls)


VITEM.isinst = _item_isinst
