"""Goals about the schema files (property C20)."""
import os

import lxml.etree

from .goals import goal, Ctx, same_term, as_items
from .vworld import *
from .values import *
from .interp import Model, Turns
from . import models as M
from . import world as W
from .goals_cache import path_models
from .goals_nxdl import ATTRIB, NODE, nodes_of, node_n, node_at, at_has, at_text, attr_value, xpath
from spec import schema as S_schema
import punx
from punx import schema_manager as SM

SCHEMA = "punx/schema_manager.py:"
local, comment = F("node_local", Obj, StrS), F("is_comment", Obj, BoolS)
XS = "{http://www.w3.org/2001/XMLSchema}"


# the schema of schemas requires these attributes where they are asked for
def required_item(it, o, k):
    k = it.force(k)
    if k not in ("name", "base", "value"):
        raise Unsupported("attribute " + str(k))
    return SStr(at_text(o.t, z3.StringVal(k)))


REQUIRED = ObjClass("REQUIRED", {}, {"get": lambda it, o, a, kw: required_item(it, o, a[0])}, getitem=required_item)


def tag(it, o):
    """comments have no text as a tag"""
    if it.run.decide(comment(o.t)):
        return SObj(o.t, NOTEXT)
    return SObj(o.t, TAG2 if o.cls is CONTENT else TAG)


def is_local(o, s):
    if s in getattr(o.cls, "never", ()):
        return z3.BoolVal(False)
    if s == getattr(o.cls, "otherwise", None):
        return z3.And([local(o.t) != z3.StringVal(x) for x in o.cls.known])
    return local(o.t) == z3.StringVal(s)


def tag_ends(it, o, a, kw):
    s = it.force(a[0])
    if not isinstance(s, str) or not s.startswith("}"):
        raise Unsupported("end of a tag")
    return SBool(is_local(o, s[1:]))


def tag_split(it, o, a, kw):
    if len(a) != 1 or it.force(a[0]) != "}":
        raise Unsupported("parts of a tag")
    return it.new_list([XS[:-1], SStr(local(o.t))])


def tag_is(it, o, x):
    x = it.force(x)
    if isinstance(x, str) and not x.startswith(XS):
        return False
    if not isinstance(x, str):
        raise Unsupported("comparison of a tag")
    return is_local(o, x[len(XS):])


# the name of an element: its name space and a local name without "}"
TAG = ObjClass("TAG", {}, {"endswith": tag_ends, "split": tag_split}, eq=tag_is)
TAG2 = ObjClass("TAG2", {}, {"endswith": tag_ends}, eq=tag_is)
TAG2.never = ("maxLength",)
KIND1 = ObjClass("KIND1", eq=lambda it, o, x: is_local(o, it.force(x)))
KIND2 = ObjClass("KIND2", eq=lambda it, o, x: is_local(o, it.force(x)))
KIND1.never = ("comment",)
KIND2.never = ("maxLength", "comment")
NOTEXT = ObjClass("COMMENTTAG")
NOTEXT.closed = True
SNODE = ObjClass("SNODE", {"attrib": lambda it, o: SObj(o.t, ATTRIB), "sourceline": lambda it, o: SInt(F("sourceline", Obj, IntS)(o.t)), "tag": tag},
                 {"get": lambda it, o, a, kw: SObj(o.t, ATTRIB).cls.methods["get"](it, SObj(o.t, ATTRIB), a, kw)})
SNODE.isinst = lambda it, o, cls: comment(o.t) if cls is lxml.etree._Comment else None


# content of a restriction, but a length limit
CONTENT = ObjClass("CONTENT", dict(SNODE.attrs, attrib=lambda it, o: SObj(o.t, REQUIRED)), dict(SNODE.methods))
CONTENT.isinst = SNODE.isinst
LIMIT = ObjClass("LIMIT", dict(SNODE.attrs, attrib=lambda it, o: SObj(o.t, REQUIRED)), dict(SNODE.methods))
LIMIT.isinst = SNODE.isinst
# comment or annotation
JUNK = ObjClass("JUNK", dict(SNODE.attrs, tag=lambda it, o: SObj(o.t, NOTEXT) if it.run.decide(comment(o.t)) else XS + "annotation"))
JUNK.isinst = SNODE.isinst


def kind_of(it, a, kw):
    o = it.force(a[0])
    if it.run.decide(comment(o.t)):
        return "comment"
    return SObj(o.t, KIND2 if o.cls is CONTENT else KIND1)


KIND = Model("kind", kind_of)


def seq_of(it, name, cls, wanted=None):
    """nodes of a kind: wanted(node) holds for all"""
    n = z3.Int(name + "_n")
    at = F(name, IntS, Obj)
    j = z3.Int("aj")
    it.run.assume(n >= 0)
    if wanted is not None:
        it.run.assume(z3.ForAll([j], wanted(at(j)), patterns=[at(j)]))
    return SSeq((name,), n, lambda j: SObj(at(j), cls))


def word(it, a, kw):
    return it.call(SM.strip_ns, [a[0]])


@goal("C20", "schema.strip_ns", SCHEMA + "strip_ns", also=("C14",))
def g_strip(run):
    c = Ctx(run, {})
    t = c.text("ref")
    got = c.no_exception("result", c.real(SM.strip_ns, t))
    g = zs(got)
    run.prove("a name without prefix", z3.Not(z3.Contains(g, z3.StringVal(":"))))
    run.prove("the end of the text", z3.Or(g == t.t, z3.SuffixOf(z3.Concat(z3.StringVal(":"), g), t.t)))


@goal("C20", "schema.nxdlType", SCHEMA + "Schema_nxdlType.__init__")
def g_type(run):
    c = Ctx(run, {})
    it = c.it
    names = F("local_name", StrS, StrS)
    it.stubs[("punx.schema_manager", "strip_ns")] = Model("strip_ns", lambda it, a, kw: SStr(names(zs(a[0]))))
    before, after = seq_of(it, "before", JUNK), seq_of(it, "after", JUNK)
    values = seq_of(it, "content", CONTENT)
    content = z3.Const("content_node", Obj)
    k = run.choose(5)
    what = [None, "list", "restriction", "union", "other"][k]
    c.assume(z3.Not(comment(content)))
    if what == "other":
        c.assume(z3.And([local(content) != z3.StringVal(x) for x in ("list", "restriction", "union", "annotation")]))
    elif what:
        c.assume(local(content) == z3.StringVal(what))
        for x in {"list": ["itemType"], "restriction": ["base"], "union": ["memberTypes"]}[what]:
            c.assume(at_has(content, z3.StringVal(x)))
    INNER = ObjClass("INNER", dict(SNODE.attrs), dict(SNODE.methods))
    INNER.isinst = SNODE.isinst
    INNER.iterate = lambda it, o: values
    mid = [SObj(content, INNER)] if what else []
    OUTER = ObjClass("OUTER", dict(SNODE.attrs), dict(SNODE.methods))
    OUTER.isinst = SNODE.isinst
    OUTER.iterate = lambda it, o: IList([M.piece_of(before)] + mid + [M.piece_of(after)])
    node = c.obj("node", OUTER)
    t = it.new_object(SM.Schema_nxdlType)
    out = c.real(SM.Schema_nxdlType.__init__, t, node, *[[], [it.new_dict(), None]][0])
    if what == "other":
        c.prove("unknown content", out[0] == "exc" and isinstance(out[1], ValueError))
        return
    c.no_exception("result", out)
    c.same_value("name", it.getattr(t, "name"), attr_value(SObj(node.t, NODE), "name"))
    base = it.force(it.getattr(t, "restriction"))
    got = it.force(it.getattr(t, "values"))
    union = it.force(it.getattr(t, "union"))
    text = lambda n: at_text(content, z3.StringVal(n))  # noqa
    if what == "restriction":
        c.same_value("base", base, SStr(names(text("base"))))
        want = c.no_exception("spec", c.call(S_schema.listed, values, KIND))
        c.prove("a list of values", isinstance(got, IList))
        c.same_items("values", got, want, ordered=True)
    else:
        c.prove("restricts nothing", base is None)
    if what == "list":
        c.prove("can be read again", isinstance(got, IList) and not getattr(got, "once", False))
        c.same_items("values", got, [SStr(names(text("itemType")))], ordered=True)
    elif what != "restriction":
        c.prove("no values", got is None)
    if what == "union":
        c.prove("can be read again", isinstance(union, (IList, SSeq)) and not getattr(union, "once", False))
        members = it.call(it.getattr(SStr(text("memberTypes")), "split"), [])
        want = c.no_exception("spec", c.call(S_schema.each, members, Model("name", lambda it, a, kw: SStr(names(zs(a[0]))))))
        c.same_items("members", union, want, ordered=True)
    else:
        c.prove("no union", union is None)


class Adjusted(Turns):
    """for v in db.values(): one turn for any v; db is as it was before the loop"""

    def __init__(self, c, db):
        self.c, self.db = c, db

    def turn(self, it, body):
        c, run = self.c, it.run
        has = F("db_has", StrS, BoolS)
        field = lambda o, n, s: F("pattern_" + n, Obj, s)(o)  # noqa

        def make(t, name):
            n = F("pattern_n", Obj, IntS)(t)
            run.assume(n >= 0)
            res = F("pattern_re", Obj, IntS, StrS)
            own = SSeq(("re", t), n, lambda j: SStr(res(t, j)))
            lst = it.reg(IList([M.piece_of(own)]))
            return it.new_object(SM.Schema_pattern, pattern_name=SStr(name), base=SStr(field(t, "base", StrS)), maxLength=SInt(field(t, "max", IntS)), re_list=lst), own

        t, name = z3.Const("v", Obj), z3.String("v_name")
        v, own = make(t, name)
        b = field(t, "base", StrS)
        bt = F("db_get", StrS, Obj)(b)
        base, theirs = make(bt, b)
        self.db.bases = (b, base)
        token = z3.StringVal("token")
        bb = field(bt, "base", StrS)
        run.assume(has(name))
        # a base type restricts none of the valid... types
        run.assume(z3.Implies(z3.And(b != token, has(b)), z3.Or(bb == token, z3.Not(has(bb)))))
        old = {u: len(x.items) for u, x in it.containers.items() if isinstance(x, IList)}
        body(v)
        mine = [x.uid for x in (v.__dict__["re_list"], it.force(v.__dict__["re_list"])) if isinstance(x, IList)]
        for u, n in old.items():
            x = it.containers[u]
            if u not in mine and x is not base.__dict__["re_list"] and len(x.items) != n:
                raise Unsupported("the loop fills a list")
        c.same_items("its base's patterns stay", it.getattr(base, "re_list"), theirs, ordered=True)
        c.same_value("its base stays", it.getattr(base, "base"), SStr(bb))
        c.same_value("its length limit stays", it.getattr(base, "maxLength"), SInt(field(bt, "max", IntS)))
        follows = run.decide(z3.And(b != token, has(b)))
        c.same_value("name", it.getattr(v, "pattern_name"), SStr(name))
        if follows:
            c.same_value("base", it.getattr(v, "base"), SStr(bb))
            c.same_value("length limit", it.getattr(v, "maxLength"), SInt(field(bt, "max", IntS)))
            c.same_items("own patterns, then those of the base", it.getattr(v, "re_list"), IList([M.piece_of(own), M.piece_of(theirs)]), ordered=True)
            c.prove("a list of its own", it.getattr(v, "re_list") is not it.getattr(base, "re_list"))
        else:
            c.same_value("base kept", it.getattr(v, "base"), SStr(b))
            c.same_value("length limit kept", it.getattr(v, "maxLength"), SInt(field(t, "max", IntS)))
            c.same_items("patterns kept", it.getattr(v, "re_list"), own, ordered=True)


class Db(Sym):
    """the dictionary after the first loop"""

    bases = None

    def __init__(self, c):
        self.c = c

    def sym_getattr(self, it, name):
        if name == "values":
            return Model(name, lambda it, a, kw: Adjusted(self.c, self))
        raise Unsupported("attribute of the dictionary")

    def sym_contains(self, it, k):
        return F("db_has", StrS, BoolS)(zs(k))

    def sym_getitem(self, it, k):
        if self.bases is None or not it.run.valid(zs(k) == self.bases[0]):
            raise Unsupported("another type")
        if not it.run.decide(F("db_has", StrS, BoolS)(zs(k))):
            raise PyRaise(KeyError("?"))
        return self.bases[1]


@goal("C20", "schema.patterns", SCHEMA + "SchemaManager.parse_nxdl_patterns")
def g_patterns(run):
    c = Ctx(run, {})
    it = c.it
    names = F("local_name", StrS, StrS)
    number = F("text_int", StrS, IntS)
    it.stubs[("punx.schema_manager", "strip_ns")] = Model("strip_ns", lambda it, a, kw: SStr(names(zs(a[0]))))
    it.models[id(int)] = Model("int", lambda it, a, kw: SInt(number(zs(a[0]))))
    ML = z3.StringVal("maxLength")

    def part(which, t):
        n = F(which + "_n", Obj, IntS)(t)
        at = F(which, Obj, IntS, Obj)
        run.assume(n >= 0)
        return M.piece_of(SSeq((which, t), n, lambda j: SObj(at(t, j), CONTENT)))

    limited = F("has_limit", Obj, BoolS)

    def content(it, o):
        mid = []
        if it.run.decide(limited(o.t)):
            m = F("limit_node", Obj, Obj)(o.t)
            it.run.assume(z3.And(local(m) == ML, z3.Not(comment(m))))
            mid = [SObj(m, LIMIT)]
        return IList([part("first", o.t)] + mid + [part("last", o.t)])

    REST = ObjClass("REST", dict(SNODE.attrs, attrib=lambda it, o: SObj(o.t, REQUIRED)), dict(SNODE.methods))
    REST.isinst = SNODE.isinst
    REST.iterate = content

    def sub(it, o, a, kw):
        xpath(it, o, a, kw)
        if it.force(a[0]) != "xs:restriction":
            raise Unsupported("query")
        r = F("restriction_of", Obj, Obj)(o.t)
        return it.reg(IList([SObj(r, REST)]))

    TYPE = ObjClass("SIMPLETYPE", dict(SNODE.attrs, attrib=lambda it, o: SObj(o.t, REQUIRED)), {"xpath": sub})
    TYPE.isinst = SNODE.isinst

    def top(it, o, a, kw):
        s = xpath(it, o, a, kw)
        c.prove("simple types", it.force(a[0]) == "xs:simpleType")
        at = F("simple", IntS, Obj)
        return SSeq(("simple",), z3.Int("simple_n"), lambda j: SObj(at(j), TYPE))

    run.assume(z3.Int("simple_n") >= 0)
    root = c.obj("root", ObjClass("ROOT", {}, {"xpath": top}))
    ns = Tok("namespaces", [])
    m = it.new_object(SM.SchemaManager, lxml_root=root, ns=ns)
    state = []

    def reached(d):
        """the second loop begins"""
        nodes = top(it, root, ["xs:simpleType"], {"namespaces": ns})
        want = c.no_exception("spec", c.call(S_schema.patterns, nodes, KIND, Model("word", lambda it, a, kw: SStr(names(zs(a[0])))),
                                             Model("restriction", lambda it, a, kw: M.getitem(it, sub(it, it.force(a[0]), ["xs:restriction"], {"namespaces": ns}), 0)),
                                             it.models[id(int)], SM.Schema_pattern))
        c.same_items("types as written", d, want, ordered=True)
        state.append(Db(c))
        d.entries = []
        d.over = state[0]
        return state[0]

    it.dict_values_hook = reached
    got = c.no_exception("result", c.real(SM.SchemaManager.parse_nxdl_patterns, m))
    if not state or got is not state[0]:
        raise Unsupported("another way to adjust the types")
    c.prove("the adjusted types", True)


class TypeItem(Tok):
    """type read from a node: args = [node]"""

    def sym_getattr(self, it, name):
        t = self.args[0].t
        if name == "name":
            it.run.assume(at_text(t, z3.StringVal("name")) != z3.StringVal(""))
            return W.LOpt(at_has(t, z3.StringVal("name")), at_text(t, z3.StringVal("name")))
        raise Unsupported(f"attribute {name} of a type")


class TypesDb(Sym):
    """the dictionary after the loop: a lookup finds the last type of this name"""

    def __init__(self, c):
        self.c = c
        self.gone = []

    def known(self, it, k):
        if not isinstance(k, str):
            raise Unsupported("key")
        if k in self.gone:
            raise PyRaise(KeyError(k))
        if not it.run.decide(F("types_has", StrS, BoolS)(z3.StringVal(k))):
            raise PyRaise(KeyError(k))

    def sym_getitem(self, it, k):
        self.known(it, it.force(k))
        t = F("types_get", StrS, Obj)(zs(k))
        n = F("values_n", Obj, IntS)(t)
        it.run.assume(n >= 0)
        none = F("values_none", Obj, BoolS)(t)
        vals = SSeq(("values", t), n, lambda j: SStr(F("values_at", Obj, IntS, StrS)(t, j)))
        vals.pytype = list
        return SObj(t, ObjClass("TYPE", {"values": lambda it, o: None if it.run.decide(none) else it.reg(IList([M.piece_of(vals)]))}))

    def sym_delitem(self, it, k):
        k = it.force(k)
        self.known(it, k)
        self.gone.append(k)

    def sym_getattr(self, it, name):
        if name == "pop":
            def pop(it, a, kw):
                k = it.force(a[0])
                if len(a) > 1 and (k in self.gone or not it.run.decide(F("types_has", StrS, BoolS)(zs(k)))):
                    return a[1]
                r = self.sym_getitem(it, k)
                self.gone.append(k)
                return r
            return Model(name, pop)
        raise Unsupported("attribute of the dictionary")


@goal("C20", "schema.types", SCHEMA + "SchemaManager.parse_nxdlTypes")
def g_types(run):
    c = Ctx(run, {})
    it = c.it
    path_models(it)
    n = z3.Int("nodes_n")
    run.assume(n >= 0)
    nodes = SSeq(("nodes",), n, lambda j: SObj(F("type_node", IntS, Obj)(j), SNODE))
    ROOT = ObjClass("TYPESROOT", {}, {}, iterate=lambda it, o: nodes)
    root = c.obj("root", ROOT)
    TREE = ObjClass("TYPESTREE", {}, {"getroot": lambda it, o, a, kw: root})
    schema_file = c.text("schema_file")
    ex = F("os_exists", StrS, BoolS)
    ms = it.models[id(os.path.join)]
    own = it.call(ms, [it.call(it.models[id(os.path.dirname)], [schema_file]), "nxdlTypes.xsd"])
    run.assume(ex(schema_file.t))

    def parse(it, a, kw):
        c.prove("the types of its own schema", zs(a[0]) == zs(own))
        if not run.decide(ex(zs(own))):
            raise PyRaise(OSError("no such file"))
        return SObj(z3.Const("types_tree", Obj), TREE)

    it.models[id(lxml.etree.parse)] = Model("parse", parse)
    new = Model("Schema_nxdlType", lambda it, a, kw: TypeItem("type", [it.force(a[0])]))
    it.stubs[("punx.schema_manager", "Schema_nxdlType")] = new
    m = it.new_object(SM.SchemaManager, schema_file=schema_file, ns=Tok("namespaces", []))
    state = []

    def filled(d):
        want = c.no_exception("spec", c.call(S_schema.types, nodes, KIND, Model("item", lambda it, a, kw: TypeItem("type", [it.force(a[0])]))))
        c.same_items("types as written", d, want, ordered=True)
        state.append(TypesDb(c))
        d.entries = []
        d.over = state[0]
        return state[0]

    it.dict_item_hook = filled
    out = c.real(SM.SchemaManager.parse_nxdlTypes, m)
    has = F("types_has", StrS, BoolS)
    both = z3.And(has(z3.StringVal("anyUnitsAttr")), has(z3.StringVal("primitiveType")))
    if out[0] == "exc":
        if isinstance(out[1], punx.FileNotFound):
            c.prove("there is no types schema", z3.Not(ex(zs(own))))
        else:
            c.prove("the types schema is not complete", z3.And(z3.BoolVal(isinstance(out[1], KeyError)), z3.Not(both)), repr(out[1]))
        return
    db, units = [it.force(x) for x in it.force(out[1])]
    if not state or db is not state[0]:
        raise Unsupported("another way to collect the types")
    c.prove("all types but two", sorted(db.gone) == ["anyUnitsAttr", "primitiveType"])
    t = F("types_get", StrS, Obj)(z3.StringVal("anyUnitsAttr"))
    vn = F("values_n", Obj, IntS)(t)
    vals = SSeq(("values", t), vn, lambda j: SStr(F("values_at", Obj, IntS, StrS)(t, j)))
    if run.decide(F("values_none", Obj, BoolS)(t)):
        c.same_items("no units", units, [], ordered=True)
    else:
        c.same_items("units", units, vals, ordered=True)


@goal("C20", "schema.Root", SCHEMA + "Schema_Root.__init__")
def g_root(run):
    c = Ctx(run, {})
    it = c.it
    names = F("local_name", StrS, StrS)
    it.stubs[("punx.schema_manager", "strip_ns")] = Model("strip_ns", lambda it, a, kw: SStr(names(zs(a[0]))))
    calls = []
    n = z3.Int("content_n")
    run.assume(n >= 0)
    odd = run.choose(2)  # content that is not known
    PTAG = ObjClass("PTAG", {}, {"endswith": tag_ends}, eq=tag_is)
    if not odd:
        PTAG.known, PTAG.otherwise = ("attribute", "attributeGroup", "sequence"), "annotation"
    PART = ObjClass("PART", dict(SNODE.attrs, tag=lambda it, o: SObj(o.t, PTAG)))
    PART.isinst = lambda it, o, cls: False if cls is lxml.etree._Comment else None
    parts = SSeq(("content",), n, lambda j: SObj(F("content", IntS, Obj)(j), PART))
    if odd:
        parts = IList([SObj(z3.Const("odd", Obj), PART)])
    TYPE = ObjClass("TYPENODE", {}, {}, iterate=lambda it, o: parts)
    element = c.obj("element", NODE)
    group = it.new_object(SM._GroupParsing, started=z3.Const("left_over", Obj))
    group.__dict__["started"] = SBool(z3.Bool("left_over"))
    it.stubs[("punx.schema_manager", "_GroupParsing")] = Model("_GroupParsing", lambda it, a, kw: group)
    root = c.obj("root", ObjClass("ROOT"))
    ns = it.new_dict()

    def named(it, a, kw):
        v = dict(zip(("tag", "attribute", "value"), a[1:]), **kw)
        c.prove("its type", it.force(v.get("tag")) == "complexType" and it.force(v.get("attribute")) == "name")
        c.same_value("name of its type", v.get("value"), SStr(names(at_text(element.t, z3.StringVal("type")))))
        return SObj(z3.Const("type_node", Obj), TYPE)

    def fresh_start():
        c.prove("no group parsed yet", it.getattr(group, "started") is False)

    it.stubs[("punx.schema_manager", "_Mixin.get_named_node")] = Model("get_named_node", named)
    attrs, kids = [], []

    def parser(what):
        def f(it, a, kw):
            fresh_start()
            x = it.force((list(a[1:]) + list(kw.values()))[0])
            it.list_append(effects, [(what, x)])
        return f

    effects = it.reg(IList([]))
    for k in ("_Mixin.parse_attributeGroup", "Schema_Root.parse_sequence", "_Mixin.parse_attribute"):
        it.stubs[("punx.schema_manager", k)] = Model(k, parser({"_Mixin.parse_attributeGroup": "attributeGroup", "Schema_Root.parse_sequence": "sequence", "_Mixin.parse_attribute": "attribute"}[k]))

    def attribute(it, a, kw):
        fresh_start()
        return TypeName("attribute", [it.force(a[0])])

    it.stubs[("punx.schema_manager", "Schema_Attribute")] = Model("Schema_Attribute", attribute)
    types, units, patterns = it.new_dict(), it.new_list(), it.new_dict()
    MAN = ObjClass("SCHEMAMANAGER", {}, {"parse_nxdlTypes": lambda it, o, a, kw: (types, units), "parse_nxdl_patterns": lambda it, o, a, kw: patterns})
    man = [None, c.obj("schema_manager", MAN)][run.choose(2)]
    s = it.new_object(SM.Schema_Root)
    out = c.real(SM.Schema_Root.__init__, s, element, ns_dict=ns, schema_root=root, schema_manager=man)
    d = s.__dict__
    if out[0] == "exc":
        known = ("attribute", "attributeGroup", "sequence", "annotation")
        t = z3.Const("odd", Obj)
        c.prove("unknown content", z3.And(z3.BoolVal(isinstance(out[1], ValueError)), z3.Or(z3.Not(at_has(element.t, z3.StringVal("type"))), z3.And([z3.BoolVal(bool(odd))] + [local(t) != z3.StringVal(x) for x in known]))))
        return
    if odd:
        return
    fresh_start()
    c.prove("the schema manager", d["schema_manager"] is man)
    if man is not None:
        c.prove("types, units and patterns of its own schema", d["types"] is types and d["units"] is units and d["patterns"] is patterns)
    for k in ("attrs", "children"):
        x = d[k]
        c.prove(k + " of its own", isinstance(x, IDict) and x.uid is not None)


class TypeName(Tok):
    def sym_getattr(self, it, name):
        if name == "name":
            return W.LOpt(at_has(self.args[0].t, z3.StringVal("name")), at_text(self.args[0].t, z3.StringVal("name")))
        raise Unsupported(f"attribute {name}")


class Documents:
    """XML documents and schemas made from them, by file name"""

    def __init__(self, c):
        it, run = c.it, c.run
        one = z3.Bool("one root element")
        self.root_nodes = nodes = it.reg(IList([c.obj("node", ObjClass("NODE_"))])) if run.decide(one) else it.reg(IList([M.piece_of(SSeq(("nodes",), z3.Int("nodes_n"), lambda j: SObj(F("nodes", IntS, Obj)(j), ObjClass("NODE_"))))]))
        if not run.decide(one):
            run.assume(z3.And(z3.Int("nodes_n") >= 0, z3.Int("nodes_n") != 1))
        self.one = one

        def xpath(it, o, a, kw):
            c.prove("the elements of the schema", it.force(a[0]) == "xs:element")
            return nodes

        ROOT = ObjClass("ROOT_", {}, {"xpath": xpath})
        DOC = ObjClass("DOC_", {}, {"getroot": lambda it, o, a, kw: SObj(F("root_of", Obj, Obj)(o.t), ROOT)})
        XSD = ObjClass("XSD_")
        self.doc = lambda name: F("document", StrS, Obj)(name)
        it.models[id(lxml.etree.parse)] = Model("parse", lambda it, a, kw: SObj(self.doc(zs(a[0])), DOC))
        it.models[id(lxml.etree.XMLSchema)] = Model("XMLSchema", lambda it, a, kw: SObj(F("schema_of", Obj, Obj)(it.force(a[0]).t), XSD))
        self.made = []

        def root(it, a, kw):
            x = Tok("schema root", list(a))
            self.made.append((list(a), dict(kw), x))
            return x

        it.stubs[("punx.schema_manager", "Schema_Root")] = Model("Schema_Root", root)


@goal("C20", "schema.SchemaManager", SCHEMA + "SchemaManager.__init__")
def g_schema_manager(run):
    """the schema of the directory asked for, or of the default file set"""
    import os
    import punx
    from punx import cache_manager
    from .goals_nxdl import path_models

    c = Ctx(run, {})
    it = c.it
    ms = path_models(it)
    d = Documents(c)
    k = run.choose(3)  # a directory, the default file set, none
    home = c.text("default_path")
    FS_ = ObjClass("FSET_", {"path": lambda it, o: home})
    default = SObj(z3.Const("default", Obj), FS_) if k != 2 else None
    CM = ObjClass("CM_", {"default_file_set": lambda it, o: default})
    it.stubs[("punx.cache_manager", "CacheManager")] = Model("CacheManager", lambda it, a, kw: SObj(z3.Const("cm", Obj), CM))
    path = c.text("path")
    m = it.new_object(SM.SchemaManager)
    out = c.real(SM.SchemaManager.__init__, m, *([path] if k == 0 else []))
    where = path if k == 0 else home
    f = ms["join"].f(it, [where, "nxdl.xsd"], {})
    there = F("os_exists", StrS, BoolS)(zs(f))
    if out[0] == "exc":
        c.prove("an error of punx", type(out[1]) in (punx.FileNotFound, punx.InvalidNxdlFile, ValueError))
        if type(out[1]) is punx.FileNotFound:
            c.prove("no schema file", k != 2 and z3.Not(there))
        elif k != 2:
            c.prove("not one element", z3.Not(d.one))
        return
    c.prove("a schema file", k != 2 and there)
    c.prove("one element", d.one)
    c.same_value("schema file", it.getattr(m, "schema_file"), f)
    c.same_value("name", it.getattr(m, "name"), ms["basename"].f(it, [where], {}) if not isinstance(ms["basename"], str) else None)
    doc = d.doc(zs(f))
    xsd = it.force(it.getattr(m, "lxml_schema"))
    c.prove("XML schema of the same file", xsd.t == F("schema_of", Obj, Obj)(doc))
    c.prove("read once", len(d.made) == 1 and it.force(it.getattr(m, "nxdl")) is d.made[0][2])
    a, kw = d.made[0][:2]
    c.prove("its only element", a[0] is d.root_nodes.items[0])
    c.prove("its own schema", kw.get("schema_manager") is m and kw["schema_root"].t == F("root_of", Obj, Obj)(doc))


@goal("C20", "cache.schema_manager", "punx/cache_manager.py:NXDL_File_Set.__getattribute__", also=("C10", "C15"))
def g_lazy_schema(run):
    """the schema of a file set is that of its own directory, read when it is asked for"""
    import os
    from punx import cache_manager as CMM
    from .goals_nxdl import path_models

    c = Ctx(run, {})
    it = c.it
    path_models(it)
    made = []

    def new(it, a, kw):
        path = it.force((list(a) + list(kw.values()) + [None])[0])
        made.append((path, Tok("schema manager", [path])))
        return made[-1][1]

    it.stubs[("punx.schema_manager", "SchemaManager")] = Model("SchemaManager", new)

    def plain(it, a, kw):
        o, name = it.force(a[0]), it.force(a[1])
        if name in o.__dict__:
            return o.__dict__[name]
        if hasattr(type(o), name):
            return getattr(type(o), name)
        raise PyRaise(AttributeError(name))

    it.models[id(object.__getattribute__)] = Model("object.__getattribute__", plain)
    path = c.text("path") if run.choose(2) else None
    f = it.new_object(CMM.NXDL_File_Set, path=path, ref=c.text("ref"))
    g = it.new_object(CMM.NXDL_File_Set, path=c.text("other path"), ref=c.text("other ref"))
    there = z3.BoolVal(False) if path is None else F("os_exists", StrS, BoolS)(path.t)
    get = CMM.NXDL_File_Set.__getattribute__
    # anything else is as it is
    c.prove("other attributes", c.no_exception("no exception", c.real(get, f, "ref")) is f.__dict__["ref"])
    one = it.force(c.no_exception("no exception", c.real(get, f, "schema_manager")))
    if one is None:
        c.prove("nothing to read", z3.Not(there))
        return
    c.prove("there is something to read", there)
    c.prove("of its own directory", isinstance(one, Tok) and one.args[0] is path)
    two = it.force(c.no_exception("no exception", c.real(get, f, "schema_manager")))
    c.prove("of its own directory again", isinstance(two, Tok) and two.args[0] is path)
    three = it.force(c.no_exception("no exception", c.real(get, g, "schema_manager")))
    c.prove("not shared", three is None or isinstance(three, Tok) and three.args[0] is g.__dict__["path"])
