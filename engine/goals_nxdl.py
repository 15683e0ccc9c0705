"""Goals about NXDL files (properties C14, C15 and C20)."""
import os
import types

from .goals import goal, Ctx, same_term
from .vworld import *
from .values import *
from .interp import Model
from . import models as M
from . import world as W
from .goals_cache import path_models, names_in
from .goals_cli import FS
from spec import nxdl as S_nxdl
import punx
import punx.nxdl_manager as NM
from punx import cache_manager as CM, nxdl_schema

NXDL = "punx/nxdl_manager.py:"


@goal("C15", "nxdl.get_NXDL_file_list", NXDL + "get_NXDL_file_list")
def g_list(run):
    c = Ctx(run, {})
    it = c.it
    ms = path_models(it)
    listing = Model("listdir", lambda it, a, kw: names_in(it, a[0]))
    it.models[id(os.listdir)] = listing
    d = c.text("nxdl_dir")
    got = c.real(NM.get_NXDL_file_list, d)
    ex = F("os_exists", StrS, BoolS)
    dirs = [zs(ms["join"].f(it, [d, k], {})) for k in S_nxdl.CATEGORIES]
    all_there = z3.And([ex(x) for x in [d.t] + dirs])
    if got[0] == "exc":
        c.prove("an error", isinstance(got[1], OSError), repr(got[1]))
        c.prove("something is missing", z3.Not(all_there))
        return
    c.prove("all is there", all_there)
    want = c.no_exception("spec", c.call(S_nxdl.nxdl_files, d, ms["join"], listing))
    c.same_items("files", got[1], want, ordered=True)


@goal("C15", "nxdl.set_file", NXDL + "NXDL__definition.set_file")
def g_set_file(run):
    c = Ctx(run, {})
    it = c.it
    ms = path_models(it)
    f = c.text("fname")
    d = it.new_object(NM.NXDL__definition, title=c.text("t0"), category=c.text("c0"), file_name=None)
    run.assume(F("os_exists", StrS, BoolS)(f.t))
    c.no_exception("result", c.real(NM.NXDL__definition.set_file, d, f))
    want = c.no_exception("spec", c.call(S_nxdl.title_and_category, f, ms["dirname"], ms["basename"]))
    c.same_value("class", it.getattr(d, "title"), want[0])
    c.same_value("category", it.getattr(d, "category"), want[1])
    c.same_value("file", it.getattr(d, "file_name"), f)


class Definition(Tok):
    """definition read from a file: args = [file, what was done]"""

    def sym_getattr(self, it, name):
        if name in ("set_file", "parse_nxdl_xml"):
            return Model(name, getattr(self, name))
        if name == "title":
            if not self.args:
                return None
            return SStr(F("title_of", StrS, StrS)(zs(self.args[0])))
        if name == "__getattribute__":
            return Model(name, lambda it, a, kw: self.sym_getattr(it, a[0]))
        if name in ("attributes", "groups", "fields", "links"):
            n = z3.Int("items_n")
            it.run.assume(n >= 0)
            key = F("items_key", IntS, StrS)
            return SMap(("items", name), lambda s: z3.BoolVal(True), lambda s: SObj(F("items_get", StrS, Obj)(s), ObjClass("ITEM")), SSeq(("items", name), n, lambda j: SStr(key(j))))
        if name == "symbols":
            n = z3.Int("symbols_n")
            it.run.assume(n >= 0)
            return SSeq(("symbols",), n, lambda j: SStr(F("symbols", IntS, StrS)(j)))
        raise Unsupported(f"attribute {name} of a definition")

    def set_file(self, it, a, kw):
        self.args.append(it.force(a[0]))

    def parse_nxdl_xml(self, it, a, kw):
        self.args.append("parsed")


@goal("C15", "nxdl.NXDL_Manager", NXDL + "NXDL_Manager.__init__", also=("C02",))
def g_manager(run):
    c = Ctx(run, {})
    it = c.it
    path_models(it)
    file_set = c.obj("file_set", FS)
    path_none = z3.Bool("path_none")
    FS2 = ObjClass("FS2", {"path": lambda it, o: W.LOpt(z3.Not(F("fs_nopath", Obj, BoolS)(o.t)), F("fs_path", Obj, StrS)(o.t))})
    FS2.isinst = lambda it, o, cls: cls is CM.NXDL_File_Set
    file_set = c.obj("file_set", FS2)
    other = c.obj("selected", FS2)
    n, at = F("nxdl_files_n", StrS, IntS), F("nxdl_files", StrS, IntS, StrS)
    asked = []

    def listed(it, a, kw):
        asked.append(zs(a[0]))
        run.assume(n(zs(a[0])) >= 0)
        return SSeq(("nxdl_files", zs(a[0])), n(zs(a[0])), lambda j: SStr(at(zs(a[0]), j)))

    def select(it, o, a, kw):
        v = (list(a) + list(kw.values()))[0]
        c.same_value("the file set asked for", v, given)
        state["default"] = other
        return other

    state = {"default": file_set}
    C = ObjClass("CM", {"default_file_set": lambda it, o: state["default"]}, {"select_NXDL_file_set": select})
    it.stubs[("punx.cache_manager", "CacheManager")] = Model("CacheManager", lambda it, a, kw: SObj(z3.Const("cm", Obj), C))
    it.stubs[("punx.nxdl_manager", "get_NXDL_file_list")] = Model("get_NXDL_file_list", listed)
    it.stubs[("punx.nxdl_schema", "NXDL_Summary")] = Model("NXDL_Summary", lambda it, a, kw: Tok("summary", [it.force(a[0])]))
    it.stubs[("punx.nxdl_manager", "NXDL__definition")] = Model("NXDL__definition", lambda it, a, kw: Definition("definition", []))
    how = run.choose(3)
    given = [None, file_set, c.text("name")][how]
    fs = [file_set, file_set, other][how]
    m = it.new_object(NM.NXDL_Manager)
    out = c.real(NM.NXDL_Manager.__init__, m, *([given] if how or run.choose(2) else []))
    no = F("fs_nopath", Obj, BoolS)(fs.t)
    p = F("fs_path", Obj, StrS)(fs.t)
    there = z3.And(z3.Not(no), F("os_exists", StrS, BoolS)(p))
    if out[0] == "exc":
        c.prove("file set missing", isinstance(out[1], punx.FileNotFound), repr(out[1]))
        c.prove("it is missing", z3.Not(there))
        return
    c.prove("file set exists", there)
    c.prove("the file set", it.getattr(m, "nxdl_file_set") is fs)
    c.prove("its own files", len(asked) == 1 and asked[0].eq(p))
    want = c.no_exception("spec", c.call(S_nxdl.definitions, SSeq(("nxdl_files", p), n(p), lambda j: SStr(at(p, j))),
                                         Model("title", lambda it, a, kw: SStr(F("title_of", StrS, StrS)(zs(a[0])))),
                                         Model("read", lambda it, a, kw: Tok("definition", [a[0], "parsed"]))))
    c.same_items("definitions", it.getattr(m, "classes"), want, ordered=True)
    xsd = F("join", StrS, StrS, StrS)(p, z3.StringVal(nxdl_schema.NXDL_XSD_NAME))
    d = it.force(it.getattr(m, "nxdl_defaults"))
    if d is None:
        c.prove("no schema", z3.Not(F("os_exists", StrS, BoolS)(xsd)))
    else:
        c.prove("defaults of its own schema", isinstance(d, Tok) and same_term(it, d.args[0], SStr(xsd)))


# ------------------------------------------------------------------------ C14
def name_map(it, name):
    key, n, at = F(name + "_key", IntS, StrS), z3.Int(name + "_n"), F(name + "_at", StrS, IntS)
    has = F(name + "_has", StrS, BoolS)
    M.distinct_keys(it.run, n, key, at, has)
    return SMap((name,), M.key_of(it.run, n, key, at, has), lambda s: SObj(F(name + "_get", StrS, Obj)(s), ObjClass("ITEM")), SSeq((name,), n, lambda j: SStr(key(j))))


@goal("C14", "nxdl.ensure_unique_name", NXDL + "NXDL__base.ensure_unique_name")
def g_unique(run):
    c = Ctx(run, {})
    it = c.it
    maps = {k: name_map(it, k) for k in ("groups", "fields", "links")}
    old = c.text("name")
    owner = it.new_object(NM.NXDL__group, **maps)
    obj = it.new_object(NM.NXDL__field, name=old)
    c.no_exception("result", c.real(NM.NXDL__base.ensure_unique_name, owner, obj))
    new = it.force(it.getattr(obj, "name"))
    used = lambda t: z3.Or([m.contains(t) for m in maps.values()])  # noqa
    for k, m in maps.items():
        c.prove("not in use in " + k, z3.Not(m.contains(zs(new))))
    if run.decide(used(old.t)):
        # old followed by the smallest number that gives a name not in use
        numbers = []
        todo = [zs(new)]
        while todo:
            t = todo.pop()
            if t.decl().name() == "int_text":
                numbers.append(t)
            else:
                todo.extend(t.children())
        if not numbers:
            c.prove("the name and one", zs(new) == z3.Concat(old.t, z3.StringVal("1")))
            return
        if len(numbers) != 1:
            raise Unsupported("number in the name")
        sfx = numbers[0].arg(0)
        c.prove("the name and a number", z3.And(zs(new) == z3.Concat(old.t, numbers[0]), sfx >= 1))
        m = z3.Int("smaller")
        run.assume(z3.And(m >= 1, m < sfx))
        c.prove("no smaller number is free", used(z3.Concat(old.t, F("int_text", IntS, StrS)(m))))
    else:
        c.same_value("name kept", new, old)


# XML nodes
node_n, node_at = F("xpath_n", Obj, StrS, IntS), F("xpath_at", Obj, StrS, IntS, Obj)
at_has, at_text = F("attrib_has", Obj, StrS, BoolS), F("attrib", Obj, StrS, StrS)


def xpath(it, o, a, kw):
    q = it.force((list(a) + [None])[0])
    ns = [it.force(v) for k, v in kw.items() if k == "namespaces"] + [it.force(x) for x in a[1:]]
    if not isinstance(q, str) or len(ns) != 1:
        raise Unsupported("xpath")
    it.run.prove("name space of the query", isinstance(ns[0], Tok) and ns[0].name == "namespaces")
    return nodes_of(it, o, q)


def nodes_of(it, o, q):
    q = z3.StringVal(q)
    n = node_n(o.t, q)
    it.run.assume(n >= 0)
    return SSeq(("xpath", o.t, q), n, lambda j: SObj(node_at(o.t, q, j), NODE))


def attr_value(o, k):
    return W.LOpt(at_has(o.t, zs(k)), at_text(o.t, zs(k)))


def attr_get(it, o, a, kw):
    k = it.force(a[0])
    if len(a) == 1:
        return attr_value(o, k)
    if it.run.decide(at_has(o.t, zs(k))):
        return SStr(at_text(o.t, zs(k)))
    return a[1]


def attr_item(it, o, k):
    if it.run.decide(at_has(o.t, zs(k))):
        return SStr(at_text(o.t, zs(k)))
    raise PyRaise(KeyError("?"))


ATTRIB = ObjClass("ATTRIB", {}, {"get": attr_get}, getitem=attr_item, contains=lambda it, o, x: at_has(o.t, zs(x)))
ATTRIB.closed = True
NODE = ObjClass("NODE", {"attrib": lambda it, o: SObj(o.t, ATTRIB), "sourceline": lambda it, o: SInt(F("sourceline", Obj, IntS)(o.t)),
                         "base": lambda it, o: SStr(F("node_base", Obj, StrS)(o.t)), "tag": lambda it, o: SStr(F("node_tag", Obj, StrS)(o.t))}, {"xpath": xpath})


class Item(Tok):
    """item of a definition: args = [node it was read from, default that was set]"""

    def __init__(self, name, args, st=None):
        Tok.__init__(self, name, args)
        self.st = st
        self.named = None

    def sym_getattr(self, it, name):
        if name == "parse_nxdl_xml":
            return Model(name, self.parse)
        if name == "name":
            if self.named is None:
                self.named = SStr(F("item_name", Obj, StrS)(self.args[0].t))
            return self.named
        if name == "xml_attributes":
            return XmlAttributes(self)
        if name == "symbols":
            t = self.args[0].t
            n = F("node_symbols_n", Obj, IntS)(t)
            it.run.assume(n >= 0)
            return SSeq(("symbols", t), n, lambda j: SStr(F("node_symbols", Obj, IntS, StrS)(t, j)))
        raise Unsupported(f"attribute {name} of an item")

    def parse(self, it, a, kw):
        it.run.prove("read once", self.args[0] is None)
        self.args[0] = it.force(a[0])

    def leq(self, it, o):
        return o is self


class XmlAttributes(Sym):
    def __init__(self, item):
        self.item = item

    def sym_getitem(self, it, k):
        return Default(self.item, it.force(k))


class Default(Sym):
    def __init__(self, item, key):
        self.item, self.key = item, key

    def sym_setattr(self, it, name, v):
        if name != "default_value" or not isinstance(self.key, str):
            raise Unsupported("default")
        self.item.args[1] = (self.key, it.force(v))


def parse_goal(name, kind, default, query, unique):
    """every node becomes an item of its own, under a name not in use"""

    def body(run):
        c = Ctx(run, {})
        it = c.it
        effects = it.reg(IList([]))
        st = {"free": None, "asked": []}
        plural = kind + "s"

        def put(it, o, a, kw):
            key, v = it.force(a[0]), it.force(a[1])
            c.prove("an item that was read", isinstance(v, Item) and v.args[0] is not None)
            c.prove("under its name", same_term(it, key, v.sym_getattr(it, "name")))
            if unique:
                c.prove("its name is not in use", st["free"] is v)
                st["free"] = None
            else:
                free = [b for t, b in st["asked"] if t.eq(zs(key))]
                c.prove("its name is not in use", bool(free) and z3.Not(free[-1]))
            it.list_append(effects, [(plural, v)])

        def contains(it, o, x):
            b = it.run.fresh("in_use", BoolS)
            st["asked"].append((zs(x), b))
            return b

        STORE = ObjClass("STORE", {}, {"__setitem__": put}, contains=contains)

        def ensure(it, a, kw):
            v = it.force(a[-1])
            v.named = SStr(it.run.fresh("unique", StrS))
            st["free"] = v

        def new(it, a, kw):
            v = dict(zip(("nxdl_definition", "nxdl_defaults"), a), **kw)
            c.prove("part of the definition", it.force(v.get("nxdl_definition")) is definition)
            c.prove("defaults of the schema", it.force(v.get("nxdl_defaults")) is defaults)
            return Item(kind, [None, None], st)

        MANAGER = ObjClass("MANAGER", {"nxdl_defaults": lambda it, o: defaults})
        manager, defaults = c.obj("manager", MANAGER), c.obj("defaults", ObjClass("DEFAULTS"))
        DEF = ObjClass("DEFINITION", {"nxdl_manager": lambda it, o: manager, "category": lambda it, o: SStr(z3.String("category"))})
        definition = c.obj("definition", DEF)
        it.stubs[("punx.nxdl_schema", "get_xml_namespace_dictionary")] = Model("namespaces", lambda it, a, kw: Tok("namespaces", []))
        it.stubs[("punx.nxdl_manager", "NXDL__base.ensure_unique_name")] = Model("ensure_unique_name", ensure)
        it.stubs[("punx.nxdl_manager", "NXDL__" + kind)] = Model("NXDL__" + kind, new)
        owner = it.new_object(NM.NXDL__group, nxdl_definition=definition, name=c.text("owner"), **{plural: c.obj("store", STORE)})
        it.stubs[("punx.nxdl_schema", "render_class_str")] = Model("render_class_str", lambda it, a, kw: SStr(z3.String("rendered")))
        node = c.obj("node", NODE)
        out = c.real(getattr(NM.NXDL__base, "parse_" + plural), owner, node)
        if out[0] == "exc":
            c.prove("a name twice", not unique and type(out[1]) is KeyError and bool(st["asked"]) and st["asked"][-1][1])
            return
        app = z3.String("category") == "applications"
        want = default if default is not None and run.decide(app) else None
        exp = c.no_exception("spec", c.call(S_nxdl.items_of, nodes_of(it, node, query), plural, Model("item", lambda it, a, kw: Item(kind, [it.force(a[0]), want]))))
        c.same_items("items", effects, exp, ordered=True)

    goal("C14", name, NXDL + "NXDL__base.parse_" + kind + "s")(body)


parse_goal("nxdl.parse_fields", "field", ("minOccurs", 1), "nx:field", True)
parse_goal("nxdl.parse_groups", "group", ("minOccurs", 1), "nx:group", True)
parse_goal("nxdl.parse_links", "link", None, "nx:link", True)
parse_goal("nxdl.parse_attributes", "attribute", ("optional", False), "nx:attribute", False)


def xml_world(c):
    """definition, its manager and the recorded calls of the parsers"""
    it = c.it
    w = types.SimpleNamespace()
    w.calls = []
    w.defaults = c.obj("defaults", ObjClass("DEFAULTS"))
    w.file_set = c.obj("file_set", FS)
    MANAGER = ObjClass("MANAGER", {"nxdl_defaults": lambda it, o: w.defaults, "nxdl_file_set": lambda it, o: w.file_set})
    w.manager = c.obj("manager", MANAGER)
    DEF = ObjClass("DEFINITION", {"nxdl_manager": lambda it, o: w.manager, "category": lambda it, o: SStr(z3.String("category"))})
    w.definition = c.obj("definition", DEF)
    it.stubs[("punx.nxdl_schema", "get_xml_namespace_dictionary")] = Model("namespaces", lambda it, a, kw: Tok("namespaces", []))
    for k in ("parse_fields", "parse_groups", "parse_links", "parse_attributes", "parse_symbols"):
        it.stubs[("punx.nxdl_manager", "NXDL__base." + k)] = Model(k, lambda it, a, kw, k=k: w.calls.append((k, a[0], it.force((list(a[1:]) + list(kw.values()))[0]))))
    w.node = c.obj("node", NODE)
    return w


def given(c, name):
    """the XML schema requires this attribute"""
    t = z3.Const("node", Obj)
    c.assume(at_has(t, z3.StringVal(name)))
    return SStr(at_text(t, z3.StringVal(name)))


def same_option(c, name, got, key):
    c.same_value(name, got, attr_value(SObj(z3.Const("node", Obj), NODE), key))


def xml_goal(name, target):
    def deco(f):
        def body(run):
            c = Ctx(run, {})
            f(c, c.it, xml_world(c))

        goal("C14", name, NXDL + target)(body)
        return f

    return deco


@xml_goal("nxdl.parse_symbols", "NXDL__base.parse_symbols")
def g_symbols(c, it, w):
    it.stubs[("punx.nxdl_manager", "NXDL__symbols")] = Model("NXDL__symbols", lambda it, a, kw: Item("symbols", [None, None]))
    owner = it.new_object(NM.NXDL__definition, nxdl_definition=w.definition, symbols=it.new_list())
    c.no_exception("result", c.real(NM.NXDL__base.parse_symbols, owner, w.node))
    want = c.no_exception("spec", c.call(S_nxdl.symbols, nodes_of(it, w.node, "nx:symbols"), Model("of", lambda it, a, kw: Item("symbols", [it.force(a[0]), None]).sym_getattr(it, "symbols"))))
    c.same_items("symbols", it.getattr(owner, "symbols"), want, ordered=True)


@xml_goal("nxdl.symbols", "NXDL__symbols.parse_nxdl_xml")
def g_symbol_names(c, it, w):
    import lxml.etree

    comment = F("is_comment", Obj, BoolS)
    NODE2 = ObjClass("NODE2", dict(NODE.attrs), dict(NODE.methods))
    NODE2.isinst = lambda it, o, cls: comment(o.t) if cls is lxml.etree._Comment else None
    n = z3.Int("children_n")
    c.assume(n >= 0)
    seq = SSeq(("children",), n, lambda j: SObj(F("child_node", IntS, Obj)(j), NODE2))
    CH = ObjClass("SYMBOLS", iterate=lambda it, o: seq)
    owner = it.new_object(NM.NXDL__symbols, nxdl_definition=w.definition, symbols=it.new_list(), name=None)
    c.no_exception("result", c.real(NM.NXDL__symbols.parse_nxdl_xml, owner, c.obj("symbols_node", CH)))

    def kind(it, a, kw):
        parts = it.call(it.getattr(it.getattr(a[0], "tag"), "split"), ["}"])
        return M.getitem(it, parts, -1)

    want = c.no_exception("spec", c.call(S_nxdl.names_given, seq, Model("kind", kind), Model("is_comment", lambda it, a, kw: SBool(comment(it.force(a[0]).t)))))
    c.same_items("symbols", it.getattr(owner, "symbols"), want, ordered=True)


@xml_goal("nxdl.parse_xml_attributes", "NXDL__base.parse_xml_attributes")
def g_copies(c, it, w):
    import copy

    table = name_map(it, "schema")
    D = ObjClass("ELEMENT", {"attributes": lambda it, o: table})
    cp = Model("copy", lambda it, a, kw: Tok("copy", [it.force(a[0])]))
    it.models[id(copy.copy)] = cp
    it.models[id(copy.deepcopy)] = cp
    owner = it.new_object(NM.NXDL__field, xml_attributes=it.new_dict())
    c.no_exception("result", c.real(NM.NXDL__base.parse_xml_attributes, owner, c.obj("element", D)))
    want = c.no_exception("spec", c.call(S_nxdl.copies, table.keys.map(lambda k: (k, table.get(zs(k)))), cp))
    c.same_items("defaults", it.getattr(owner, "xml_attributes"), want)


@xml_goal("nxdl.attribute", "NXDL__attribute.parse_nxdl_xml")
def g_attribute(c, it, w):
    owner = it.new_object(NM.NXDL__attribute, nxdl_definition=w.definition, enumerations=it.new_list(), name=None)
    name = given(c, "name")
    c.no_exception("result", c.real(NM.NXDL__attribute.parse_nxdl_xml, owner, w.node))
    c.same_value("name", it.getattr(owner, "name"), name)
    n, at = node_n, node_at
    got = it.force(it.getattr(owner, "enumerations"))
    q1, q2 = z3.StringVal("nx:enumeration"), z3.StringVal("nx:item")
    want = it.new_list()
    want = c.no_exception("spec", c.call(S_nxdl.attribute_values, nodes_of(it, w.node, "nx:enumeration"), Model("items", lambda it, a, kw: nodes_of(it, it.force(a[0]), "nx:item"))))
    c.same_items("values", got, want, ordered=True)


@xml_goal("nxdl.link", "NXDL__link.parse_nxdl_xml")
def g_link(c, it, w):
    owner = it.new_object(NM.NXDL__link, nxdl_definition=w.definition, name=None, target=None)
    name = given(c, "name")
    c.no_exception("result", c.real(NM.NXDL__link.parse_nxdl_xml, owner, w.node))
    c.same_value("name", it.getattr(owner, "name"), name)
    same_option(c, "target", it.getattr(owner, "target"), "target")


@xml_goal("nxdl.dim", "NXDL__dim.parse_nxdl_xml")
def g_dim(c, it, w):
    owner = it.new_object(NM.NXDL__dim, nxdl_definition=w.definition, name=None)
    c.no_exception("result", c.real(NM.NXDL__dim.parse_nxdl_xml, owner, w.node))
    for k in ("index", "value", "ref", "refindex", "incr"):
        same_option(c, k, owner.__dict__[k], k)
    same_option(c, "name", owner.__dict__["name"], "index")


@xml_goal("nxdl.dimensions", "NXDL__dimensions.parse_nxdl_xml")
def g_dimensions(c, it, w):
    class Dim(Item):
        def sym_getattr(self, it, name):
            if name == "name":
                return attr_value(self.args[0], "index")
            return Item.sym_getattr(self, it, name)

    it.stubs[("punx.nxdl_manager", "NXDL__dim")] = Model("NXDL__dim", lambda it, a, kw: Dim("dim", [None, None]))
    effects = it.reg(IList([]))

    def put(it, o, a, kw):
        it.list_append(effects, [(it.force(a[0]), it.force(a[1]))])

    owner = it.new_object(NM.NXDL__dimensions, nxdl_definition=w.definition, dims=c.obj("dims", ObjClass("STORE", {}, {"__setitem__": put})), rank=None, name=None)
    c.no_exception("result", c.real(NM.NXDL__dimensions.parse_nxdl_xml, owner, w.node))
    same_option(c, "rank", it.getattr(owner, "rank"), "rank")
    want = c.no_exception("spec", c.call(S_nxdl.dims, nodes_of(it, w.node, "nx:dim"), Model("item", lambda it, a, kw: Item("dim", [it.force(a[0]), None]))))
    c.same_items("sizes", effects, want, ordered=True)


@xml_goal("nxdl.field", "NXDL__field.parse_nxdl_xml")
def g_field(c, it, w):
    it.stubs[("punx.nxdl_manager", "NXDL__dimensions")] = Model("NXDL__dimensions", lambda it, a, kw: Item("dimensions", [None, None]))
    owner = it.new_object(NM.NXDL__field, nxdl_definition=w.definition, enumerations=it.new_list(), dimensions=None, name=None)
    name = given(c, "name")
    c.no_exception("result", c.real(NM.NXDL__field.parse_nxdl_xml, owner, w.node))
    c.same_value("name", it.getattr(owner, "name"), name)
    c.prove("attributes read once", len(w.calls) == 1 and w.calls[0][0] == "parse_attributes" and w.calls[0][1] is owner and w.calls[0][2].t.eq(w.node.t))
    ds = nodes_of(it, w.node, "nx:dimensions")
    d = it.force(it.getattr(owner, "dimensions"))
    if d is None:
        c.prove("no dimensions", ds.n != 1)  # the XML schema allows one at most
    else:
        c.prove("dimensions", isinstance(d, Item) and same_term(it, d.args[0], ds.at(z3.IntVal(0))))
        c.prove("one element", ds.n >= 1)
    want = c.no_exception("spec", c.call(S_nxdl.values, nodes_of(it, w.node, "nx:enumeration/nx:item")))
    c.same_items("values", it.getattr(owner, "enumerations"), want, ordered=True)


@xml_goal("nxdl.group", "NXDL__group.parse_nxdl_xml")
def g_group(c, it, w):
    effects = it.reg(IList([]))
    known = F("declared", StrS, BoolS)
    number = F("text_int", StrS, IntS)
    it.models[id(int)] = Model("int", lambda it, a, kw: it.force(a[0]) if isinstance(it.force(a[0]), (int, SInt)) else SInt(number(zs(a[0]))))

    def put(it, o, a, kw):
        c.prove("after the declared attributes", any(x[0] == "parse_attributes" for x in w.calls))
        it.list_append(effects, [(it.force(a[0]), it.force(a[1]))])

    STORE = ObjClass("STORE", {}, {"__setitem__": put}, contains=lambda it, o, x: known(zs(x)))
    n = z3.Int("attrib_n")
    c.assume(n >= 0)
    key, val = F("attrib_key", IntS, StrS), F("attrib_value", IntS, StrS)
    pairs = SSeq(("attrib",), n, lambda j: (SStr(key(j)), SStr(val(j))))
    ATTRIB.methods["items"] = lambda it, o, a, kw: pairs
    owner = it.new_object(NM.NXDL__group, nxdl_definition=w.definition, attributes=c.obj("store", STORE), name=None)
    kind = given(c, "type")
    c.no_exception("result", c.real(NM.NXDL__group.parse_nxdl_xml, owner, w.node))
    node = w.node.t
    nm = z3.StringVal("name")
    short = z3.SubString(kind.t, 2, z3.Length(kind.t) - 2)
    run = c.run
    if run.decide(at_has(node, nm)):
        c.same_value("name", it.getattr(owner, "name"), SStr(at_text(node, nm)))
    else:
        run.assume(z3.Length(kind.t) >= 2)
        c.same_value("name from the type", it.getattr(owner, "name"), SStr(short))
    mo = z3.StringVal("minOccurs")
    c.same_value("minOccurs", it.getattr(owner, "minOccurs"), SInt(z3.If(at_has(node, mo), number(at_text(node, mo)), 0)))
    names = sorted(x[0] for x in w.calls)
    c.prove("all its content is read once", names == ["parse_attributes", "parse_fields", "parse_groups", "parse_links"])
    c.prove("its own content", all(x[1] is owner and x[2].t.eq(node) for x in w.calls))
    want = c.no_exception("spec", c.call(S_nxdl.further, pairs, Model("known", lambda it, a, kw: SBool(known(zs(a[0]))))))
    c.same_items("further attributes", effects, want, ordered=True)


@xml_goal("nxdl.definition", "NXDL__definition.parse_nxdl_xml")
def g_definition(c, it, w):
    import lxml.etree

    run = c.run
    path_models(it)
    tree = c.obj("tree", ObjClass("XMLTREE", {}, {"getroot": lambda it, o, a, kw: w.node}))
    wrong = []

    def parse(it, a, kw):
        c.prove("its own file", len(a) == 1 and it.force(a[0]) is name)
        return tree

    def judge(it, a, kw):
        v = dict(zip(("xml_tree", "file_set"), a), **kw)
        c.prove("judged by the schema of its own file set", it.force(v.get("xml_tree")) is tree and it.force(v.get("file_set")) is w.file_set)
        c.prove("before it is read", not w.calls)
        wrong.append("judged")
        if run.choose(2):
            wrong.append("invalid")
            raise PyRaise(punx.InvalidNxdlFile("text"))

    it.models[id(lxml.etree.parse)] = Model("parse", parse)
    it.stubs[("punx.nxdl_manager", "validate_xml_tree")] = Model("validate_xml_tree", judge)
    name = [None, c.text("file_name")][run.choose(2)]
    owner = it.new_object(NM.NXDL__definition, nxdl_manager=w.manager, file_name=name)
    out = c.real(NM.NXDL__definition.parse_nxdl_xml, owner)
    there = F("os_exists", StrS, BoolS)(name.t) if name is not None else z3.BoolVal(False)
    if out[0] == "exc":
        if wrong:
            c.prove("invalid", wrong == ["judged", "invalid"] and isinstance(out[1], punx.InvalidNxdlFile), repr(out[1]))
        else:
            c.prove("no file", isinstance(out[1], punx.FileNotFound), repr(out[1]))
            c.prove("it is missing", z3.Not(there))
        c.prove("nothing is read", not w.calls)
        return
    c.prove("a valid file", z3.And(there, z3.BoolVal(wrong == ["judged"])))
    names = sorted(x[0] for x in w.calls)
    c.prove("all its content is read once", names == ["parse_attributes", "parse_fields", "parse_groups", "parse_links", "parse_symbols"])
    c.prove("of the root", all(x[1] is owner and x[2].t.eq(w.node.t) for x in w.calls))


@goal("C14", "nxdl.get_nxdl_defaults", NXDL + "NXDL_Manager.get_nxdl_defaults")
def g_nxdl_defaults(run):
    """the defaults are read anew, from the schema file of the file set"""
    c = Ctx(run, {})
    it = c.it
    ms = path_models(it)
    made = []

    def new(it, a, kw):
        made.append((list(a), Tok("summary", list(a))))
        return made[-1][1]

    it.stubs[("punx.nxdl_schema", "NXDL_Summary")] = Model("NXDL_Summary", new)
    path = c.text("path")
    FSET_ = ObjClass("FSET_", {"path": lambda it, o: path})
    m = it.new_object(NM.NXDL_Manager, nxdl_file_set=c.obj("file_set", FSET_))
    f = ms["join"].f(it, [path, "nxdl.xsd"], {})
    there = F("os_exists", StrS, BoolS)(zs(f))
    got = it.force(c.no_exception("no exception", c.real(NM.NXDL_Manager.get_nxdl_defaults, m)))
    if got is None:
        c.prove("no schema file", z3.Not(there))
        return
    c.prove("a schema file", there)
    c.prove("one, of this file set", len(made) == 1 and got is made[0][1])
    c.same_value("file", made[0][0][0], f)
