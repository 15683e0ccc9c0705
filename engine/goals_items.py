"""Goals about the catalogue of the items of a file (property C06)."""
from .goals import goal, Ctx, same_term
from .vworld import *
from . import interp as I
from .interp import IFunc
from .values import *
from spec import items as S_items

VI = "punx/validate.py:ValidationItem."
DV = "punx/validate.py:Data_File_Validator."


class TItem(Tok):
    """an item made by ValidationItem(parent, obj, attribute, name): its contract is spec/items.py"""

    def __init__(self, parent, obj, attr, name):
        Tok.__init__(self, "item", [parent, obj, attr, name])

    def subst(self, pairs):
        return TItem(*[subst(x, pairs) for x in self.args])

    def sym_getattr(self, it, name):
        parent, obj, attr, nm = self.args
        if name == "parent":
            return parent
        if name == "h5_object":
            return obj
        f = {"h5_address": S_items.address, "classpath": S_items.classpath, "name": S_items.item_name, "is_attribute": S_items.is_attribute}.get(name)
        if f is not None:
            return it.force(it.call(f, [parent, obj, attr, nm]))
        if name == "validations":
            return it.new_dict([])
        raise Unsupported(f"attribute {name} of a new item")

    def sym_is_none(self):
        return False


def s_new_item(it, a, kw):
    names = ("parent", "obj", "attribute_name", "name")
    v = dict(zip(names, a))
    v.update(kw)
    return TItem(*[it.force(v.get(k)) for k in names])


class Effects(Sym):
    """a catalogue that only records what is put into it"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.known = []

    def subst(self, pairs):
        return self

    def log(self, it, *what):
        it.list_append(self.ctx.effects, [tuple(it.force(x) for x in what)])


class AddressLog(Effects):
    def sym_setitem(self, it, k, v):
        self.log(it, "address", k, v)

    def sym_getattr(self, it, name):
        raise Unsupported("addresses." + name)


class ClasspathLog(Effects):
    """lists by key; an entry made where there was one already would lose items"""

    def present(self, it, k):
        fr = [id(f) for f in it.run.frames]
        for t, p, at in reversed(self.known):
            if self.same(t, k) and at == fr[:len(at)] and (p or at == fr):
                return p
        p = it.run.decide_free(it.run.fresh("has_classpath", BoolS))
        self.note(it, k, p)
        return p

    def same(self, a, b):
        return zs(a).eq(zs(b))

    def note(self, it, k, p):
        self.known.append((k, p, [id(f) for f in it.run.frames]))

    def sym_contains(self, it, x):
        return self.present(it, it.force(x))

    def sym_setitem(self, it, k, v):
        k = it.force(k)
        if not isinstance(v, IList):
            raise Unsupported("value in classpaths")
        if self.present(it, k):
            self.log(it, "replaced", k)
        for x in v.items:
            self.log(it, "classpath", k, x)
        self.note(it, k, True)

    def bucket(self, k):
        return ClasspathList(self, k)

    def sym_getitem(self, it, k):
        k = it.force(k)
        if not self.present(it, k):
            raise PyRaise(KeyError("classpath"))
        return self.bucket(k)

    def sym_getattr(self, it, name):
        if name == "setdefault":
            def f(it, a, kw):
                k = it.force(a[0])
                if not self.present(it, k):
                    if not (len(a) > 1 and isinstance(a[1], IList) and not a[1].items):
                        raise Unsupported("setdefault")
                    self.note(it, k, True)
                return self.bucket(k)
            return Model("setdefault", f)
        if name == "get":
            def g(it, a, kw):
                k = it.force(a[0])
                if self.present(it, k):
                    return self.bucket(k)
                return a[1] if len(a) > 1 else None
            return Model("get", g)
        raise Unsupported("classpaths." + name)


class ClasspathList(Sym):
    def __init__(self, log, k):
        self.l, self.k = log, k

    def subst(self, pairs):
        return ClasspathList(self.l, subst(self.k, pairs))

    def sym_getattr(self, it, name):
        if name == "append":
            return Model("append", lambda it, a, kw: self.l.log(it, "classpath", self.k, a[0]))
        raise Unsupported("list of a class path: " + name)


def new_child_facts(c, parent, obj, name):
    """names of HDF5 items are not empty and have no slash in them"""
    s = zs(name)
    c.run.assume(z3.And(z3.Length(s) > 0, s != z3.StringVal(""), z3.Not(z3.SuffixOf(z3.StringVal("/"), s)), z3.Not(z3.Contains(s, z3.StringVal("/")))))


@goal("C06", "ValidationItem", VI + "__init__")
def g_item(run):
    c = VCtx(run)
    del c.it.stubs[("punx.validate", "ValidationItem")]
    it = c.it
    obj = SObj(z3.Const("obj", Obj), H5)
    k = W.h_kind(obj.t)
    case = run.choose(3)
    parent = attr = name = None
    if case == 0:
        run.assume(z3.And(k == 0, W.h_name(obj.t) == z3.StringVal("/")))
    else:
        parent = c.item("parent")
        pk = W.h_kind(W.i_obj(parent.t))
        if case == 1:
            run.assume(z3.And(k >= 1, k <= 2, pk <= 1))
            name = c.text("name")
            new_child_facts(c, parent, obj, name)
        else:
            run.assume(z3.And(k == 3, pk <= 2))
            attr = c.text("attribute")
    o = it.new_object(validate.ValidationItem)
    kw = {}
    if attr is not None:
        kw["attribute_name"] = attr
    if name is not None:
        kw["name"] = name
    c.no_exception("no exception", c.call(validate.ValidationItem.__init__, o, parent, obj, **kw))
    args = [parent, obj, attr, name]
    for field, f in (("h5_address", S_items.address), ("classpath", S_items.classpath), ("name", S_items.item_name), ("is_attribute", S_items.is_attribute)):
        exp = c.no_exception("spec", c.call(f, *args))
        c.same_value(field, it.getattr(o, field), exp)
    c.same_value("h5_object", it.getattr(o, "h5_object"), obj)
    c.prove("parent", it.getattr(o, "parent") is parent or same_term(it, it.getattr(o, "parent"), parent))
    v = it.getattr(o, "validations")
    c.prove("no findings yet", isinstance(v, IDict) and not v.entries)
    # what the other contracts know about items of the catalogue (world.item_facts)
    sv = z3.StringVal
    cp = zs(it.getattr(o, "classpath"))
    if case != 2:
        ad = zs(it.getattr(o, "h5_address"))
        c.prove("invariant: address", z3.PrefixOf(sv("/"), ad))
        if case == 1:
            c.prove("invariant: not the root", z3.And(ad != sv("/"), z3.Not(M.suffix(sv("/"), ad))))
            if run.decide(z3.And(k == 1, cp != sv(W.NONNX))):
                nx = zs(it.force(it.getattr(o, "nx_class")))
                c.prove("invariant: class", z3.And(z3.PrefixOf(sv("NX"), nx), z3.PrefixOf(sv("/NX"), cp), cp == z3.Concat(W.i_cp(parent.t), sv("/"), nx)))
            else:
                c.prove("invariant: no class", "nx_class" not in o.__dict__)
        else:
            c.prove("invariant: no class", "nx_class" not in o.__dict__)


@goal("C06", "validate._group_address_catalog_", DV + "_group_address_catalog_")
def g_catalog(run):
    c = VCtx(run)
    it = c.it
    c.effects = it.reg(IList([]))
    it.stubs[("punx.validate", "ValidationItem")] = Model("ValidationItem", s_new_item)

    def again(it, a, kw):
        v = dict(zip(("self", "parent", "group", "name"), a))
        v.update(kw)
        it.list_append(c.effects, [("group", it.force(v["parent"]), it.force(v["group"]), it.force(v.get("name")))])

    it.stubs[("punx.validate", "Data_File_Validator._group_address_catalog_")] = Model("_group_address_catalog_", again)
    enc = Model("same_or_above", lambda it, a, kw: SBool(F("same_or_above", Obj, Obj, BoolS)(ref(it, a[0]), it.force(a[1]).t)))
    it.stubs[("spec.items", "same_or_above")] = enc
    it.stubs[("punx.validate", "Data_File_Validator._group_address_catalog_.<locals>.enclosing")] = enc
    c.validator.addresses = AddressLog(c)
    c.validator.classpaths = ClasspathLog(c)
    group = SObj(z3.Const("group", Obj), H5)
    parent = name = None
    if run.choose(2) == 0:
        run.assume(W.h_kind(group.t) == 0)
        run.assume(W.h_name(group.t) == z3.StringVal("/"))
    else:
        parent, name = c.item("parent"), c.text("name")
        run.assume(z3.And(W.h_kind(group.t) == 1, W.h_kind(W.i_obj(parent.t)) <= 1))
        new_child_facts(c, parent, group, name)
    f = validate.Data_File_Validator._group_address_catalog_
    args = (parent, group, name) if name is not None else (None, group)
    out = c.recursive(f, c.validator, *args)
    c.no_exception("no exception", out)
    exp = c.no_exception("spec", c.call(S_items.content, parent, group, name))
    c.same_items("catalogue", c.effects, exp)
    c.same_items("findings", c.found(), [])


@goal("C06", "validate._group_address_catalog_.enclosing", DV + "_group_address_catalog_")
def g_enclosing(run):
    """the loop, by induction: one turn, then what the contract says about the rest"""
    c = VCtx(run)
    it = c.it
    qual = "Data_File_Validator._group_address_catalog_.<locals>.enclosing"
    same = F("same_or_above", Obj, Obj, BoolS)
    rest = Model("same_or_above", lambda it, a, kw: False if it.force(a[0]) is None else SBool(same(it.force(a[0]).t, it.force(a[1]).t)))
    f = c.local_function("punx/validate.py", qual, validate.__dict__, "punx.validate", rest)
    v = None if run.choose(2) == 0 else c.item("v")
    o = SObj(z3.Const("o", Obj), H5)
    run.assume(W.h_kind(o.t) == 1)
    if v is not None:
        run.assume(W.h_kind(W.i_obj(v.t)) != 3)
    heads = []

    def rule(st, env):
        state = {k: it.force(x) for k, x in env.vars.items() if not isinstance(x, IFunc)}
        vs = [k for k, x in state.items() if x is None or isinstance(x, SObj) and x.cls is W.VITEM]
        hs = [k for k, x in state.items() if isinstance(x, SObj) and x.cls is H5]
        if len(vs) != 1 or len(hs) != 1 or len(state) != 2:
            raise Unsupported("state of the loop: " + repr(state))
        heads.append(st)
        if len(heads) == 1:
            it.while_rule = None
            if not it.truth(it.eval(st.test, env)):
                it.block(st.orelse, env)
                return
            try:
                it.block(st.body, env)
            except I.Break:
                return
            except I.Continue:
                pass
            it.while_rule = rule
            return rule(st, env)
        c.prove("the loop goes on with the same group", state[hs[0]] is o or same_term(it, state[hs[0]], o))
        x = it.force(env.vars[vs[0]])
        raise I.Return(it.call(rest, [x, it.force(env.vars[hs[0]])]))

    it.while_rule = rule
    got = c.no_exception("no exception", c.call(f, v, o))
    it.while_rule = None
    it.stubs[("spec.items", "same_or_above")] = rest
    exp = c.no_exception("spec", c.recursive(S_items.same_or_above, v, o))
    c.prove("result", M._t(it.truth_term(got)) == M._t(it.truth_term(exp)))


def ref(it, item):
    """a new item stands for its group"""
    item = it.force(item)
    if isinstance(item, TItem):
        p = ref(it, item.args[0]) if item.args[0] is not None else z3.Const("nothing", Obj)
        return F("item_of", Obj, Obj, Obj)(p, item.args[1].t)
    return item.t
