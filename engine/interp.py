"""Interpreter of the real punx functions over symbolic values.

The code that is verified is the source text of /repo/punx as it is when the
check runs: modules are imported, their source is parsed with ``ast`` and the
bodies of functions are interpreted statement by statement.  Nothing is
dropped; whatever the interpreter does not understand raises Unsupported.
"""
import ast
import builtins
import importlib
import importlib.util
import os
import re
import sys
import types

from .values import *
from . import values as V
from .explore import PathEnd, Restart, LoopSummary, LoopFrame


class Break(BaseException):
    pass


class Continue(BaseException):
    pass


class Return(BaseException):
    def __init__(self, v):
        self.v = v


UNBOUND = object()


class Env:
    def __init__(self, interp, globs, parent=None, names=None):
        self.uid = interp.run.uid()
        interp.run.envs[self.uid] = self
        self.vars = {}
        self.globs = globs
        self.parent = parent
        self.globalnames = set()
        self.nonlocalnames = set()
        self.localnames = names or set()


class IFunc:
    """function of interpreted source"""

    def __init__(self, node, globs, env=None, defaults=(), kwdefaults=None, name=None, module=None, qual=None):
        self.node, self.globs, self.env = node, globs, env
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.name = name or getattr(node, "name", "<lambda>")
        self.module = module
        self.qual = qual or self.name
        self.__name__ = self.name

    def __repr__(self):
        return f"IFunc({self.qual})"


class IMethod:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Model:
    """operation given by its meaning: f(interp, args, kw) -> value"""

    def __init__(self, name, f, raw=False):
        self.name, self.f = name, f
        self.raw = raw  # takes values whose kind is not decided yet
        self.__name__ = name

    def __repr__(self):
        return f"Model({self.name})"


class Lazy(Sym):
    """value of a cell after a loop, worked out when it is read"""

    def __init__(self, f):
        self.f = f


class LVal(Lazy):
    """value with several possible kinds; its kind is decided when an operation needs it"""

    def __init__(self):
        self.memo = UNBOUND

    def f(self, it):
        if self.memo is UNBOUND:
            self.memo = self.resolve(it)
        return self.memo

    # answers without a decision; NotImplemented: decide
    def lis_none(self, it):
        return NotImplemented

    def lisinst(self, it, cls):
        return NotImplemented

    def lstr(self, it):
        return NotImplemented

    def leq(self, it, other):
        return NotImplemented

    def lin(self, it, container):
        return NotImplemented


class Turns(Sym):
    """what a loop goes through, when the goal gives the invariant of the loop"""

    def turn(self, it, body):
        raise NotImplementedError

    def carried(self, it, name, value):
        """what a variable of the loop may hold when a turn begins; NotImplemented: nothing known"""
        return NotImplemented

    def turned(self, it, values):
        """the variables after the turn"""

    def after(self, it, values):
        """the loop is over: variables"""
        return {}


class Sources:
    """AST of the functions of the files that are interpreted"""

    def __init__(self, roots):
        self.roots = [os.path.realpath(r) + os.sep for r in roots]
        self.files = {}
        self.used = {}

    def covers(self, filename):
        p = os.path.realpath(filename)
        return any(p.startswith(r) for r in self.roots)

    def index(self, filename):
        p = os.path.realpath(filename)
        if p not in self.files:
            with open(p, encoding="utf8", errors="replace") as f:
                tree = ast.parse(f.read(), p)
            idx = {}

            def walk(node, qual):
                for ch in ast.iter_child_nodes(node):
                    q = qual
                    if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        q = qual + [ch.name]
                        line = min([ch.lineno] + [d.lineno for d in ch.decorator_list])
                        idx[("def", line, ch.name)] = (ch, ".".join(q))
                    elif isinstance(ch, ast.Lambda):
                        idx.setdefault(("lam", ch.lineno, "<lambda>"), (ch, ".".join(qual + ["<lambda>"])))
                    elif isinstance(ch, ast.ClassDef):
                        q = qual + [ch.name]
                    walk(ch, q)

            walk(tree, [])
            self.files[p] = idx
        return self.files[p]

    def of(self, fn):
        """IFunc of a real Python function, or None"""
        code = getattr(fn, "__code__", None)
        if code is None or not self.covers(code.co_filename):
            return None
        idx = self.index(code.co_filename)
        e = idx.get(("def", code.co_firstlineno, code.co_name)) or (
            idx.get(("lam", code.co_firstlineno, "<lambda>")) if code.co_name == "<lambda>" else None
        )
        if e is None:
            return None
        node, qual = e
        if code.co_freevars:
            if set(code.co_freevars) - {"__class__"}:
                raise Unsupported(f"closure {fn.__qualname__}")
        f = IFunc(node, fn.__globals__, None, fn.__defaults__ or (), fn.__kwdefaults__, fn.__name__,
                  fn.__module__, fn.__qualname__)
        self.used[(os.path.relpath(os.path.realpath(code.co_filename), self.roots[0]), qual)] = node.lineno
        return f


PURE_NATIVE = {
    "builtins", "re", "os.path", "posixpath", "collections", "_collections", "string", "math", "ntpath",
    "genericpath", "operator", "functools", "itertools", "datetime", "pathlib",
}


class Interp:
    def __init__(self, run, sources, models, stubs=None):
        self.run = run
        self.sources = sources
        self.models = models  # id(native callable) -> Model
        self.stubs = stubs or {}  # (module, qualname) -> Model
        self.depth = 0
        self.no_stub = set()
        self.while_rule = None
        self.dict_values_hook = None
        self.dict_item_hook = None
        self.lift = None  # values that become unknowns of another kind in a loop
        self.bypass = None  # function whose next call is by its body
        self.containers = {}
        self.memo = {}
        self.exc_stack = []

    # ------------------------------------------------------------------ cells
    def reg(self, c):
        c.uid = self.run.uid()
        self.containers[c.uid] = c
        return c

    def uid_of(self, c):
        """containers of unknown origin count as older than any loop"""
        if c.uid is None or self.containers.get(c.uid) is not c:
            self.run.neg -= 1
            c.uid = self.run.neg
            self.containers[c.uid] = c
        return c.uid

    def new_list(self, items=(), pytype=list):
        return self.reg(IList(items, pytype))

    def new_dict(self, entries=()):
        return self.reg(IDict(entries))

    def cell_read(self, cell, uid):
        for f in self.run.frames:
            if uid < f.birth and cell not in f.written:
                f.summary.reads.add(cell)

    def cell_write(self, cell, uid, holder):
        for f in self.run.frames:
            if uid < f.birth:
                f.written[cell] = holder

    def list_read(self, lst):
        u = self.uid_of(lst)
        for f in self.run.frames:
            if u < f.birth:
                f.summary.lreads.add(u)
                if u in f.summary.lwrites:
                    raise Unsupported("list read and extended in the same loop")

    def list_append(self, lst, vals):
        u = self.uid_of(lst)
        for f in self.run.frames:
            if u < f.birth:
                f.appended.setdefault(u, []).extend(vals)
                f.lists[u] = lst
                f.summary.lwrites.add(u)
                if u in f.summary.lreads:
                    raise Unsupported("list read and extended in the same loop")
        lst.items.extend(vals)

    def list_mutate(self, lst, what):
        for f in self.run.frames:
            if self.uid_of(lst) < f.birth:
                raise Unsupported(f"list {what} in a symbolic loop")

    # ------------------------------------------------------------------ names
    def load_name(self, name, env):
        e = env
        while e is not None:
            if name in e.globalnames:
                break
            if name in e.vars:
                v = e.vars[name]
                if v is UNBOUND:
                    raise PyRaise(UnboundLocalError(name))
                self.cell_read(("local", e.uid, name), e.uid)
                if isinstance(v, Lazy) and not isinstance(v, LVal):
                    v = e.vars[name] = self.force(v)
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if name in e.localnames and name not in e.nonlocalnames and e is env:
                raise PyRaise(UnboundLocalError(name))
            e = e.parent
        g = env.globs
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(name))

    def store_name(self, name, v, env):
        e = env
        if name in env.globalnames:
            raise Unsupported("assignment to a global variable")
        if name in env.nonlocalnames:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported("nonlocal " + name)
        self.cell_write(("local", e.uid, name), e.uid, e)
        e.vars[name] = v

    def run_text(self, what):
        """text nothing is known about"""
        self.run.taint.append(what)
        return SStr(self.run.fresh("text_" + what, StrS))

    def force(self, v):
        while isinstance(v, Lazy):
            v = v.f(self)
        if isinstance(v, IDict) and v.over is not None:
            if v.entries:
                raise Unsupported("items of a dict after an update")
            return v.over
        if v is UNBOUND:
            raise PyRaise(UnboundLocalError("variable assigned in a loop"))
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    # -------------------------------------------------------------- functions
    def call_func(self, f, args, kw):
        """interpret function f"""
        if self.depth > 60:
            raise Unsupported("call depth")
        node = f.node
        a = node.args
        names = set()
        if not isinstance(node, ast.Lambda):
            names = _locals_of(node)
        env = Env(self, f.globs, f.env, names)
        env.func = f
        self.bind(f, a, args, kw, env)
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            if _is_generator(node):
                env.yields = self.new_list()
                try:
                    self.block(node.body, env)
                except Return:
                    pass
                return env.yields
            try:
                self.block(node.body, env)
            except Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def bind(self, f, a, args, kw, env):
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        vals = env.vars
        args = list(args)
        if len(args) > len(pos) and a.vararg is None:
            raise PyRaise(TypeError(f"{f.name}() takes {len(pos)} positional arguments"))
        for n, v in zip(pos, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(pos):])
        npo = {x.arg for x in a.posonlyargs}
        for n in list(kw):
            if n in pos and n not in npo:
                if n in vals:
                    raise PyRaise(TypeError(f"{f.name}() got multiple values for argument '{n}'"))
                vals[n] = kw.pop(n)
            elif n in [x.arg for x in a.kwonlyargs]:
                vals[n] = kw.pop(n)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.new_dict([[k, v] for k, v in kw.items()])
        elif kw:
            raise PyRaise(TypeError(f"{f.name}() got an unexpected keyword argument '{next(iter(kw))}'"))
        d = list(f.defaults)
        for n, v in zip(pos[len(pos) - len(d):], d):
            if n not in vals:
                vals[n] = v
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg in f.kwdefaults:
                    vals[x.arg] = f.kwdefaults[x.arg]
                else:
                    raise PyRaise(TypeError(f"missing {x.arg}"))
        for n in pos:
            if n not in vals:
                raise PyRaise(TypeError(f"{f.name}() missing argument '{n}'"))

    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = [self.force(x) if isinstance(x, Lazy) and not isinstance(x, LVal) else x for x in args]
        if isinstance(f, Model):
            return self.call_model(f, args, kw)
        if isinstance(f, IMethod):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, IFunc):
            key = (f.module, f.qual)
            st = self.stubs.get(key)
            if st is not None and key not in self.no_stub:
                return self.call_model(st, args, kw)
            return self.call_func(f, args, kw)
        if isinstance(f, SObj):
            args, kw = self.forced(args, kw)
            if f.cls.call is None:
                raise Unsupported(f"call of {f!r}")
            return f.cls.call(self, f, list(args), kw)
        if isinstance(f, Sym):
            raise Unsupported(f"call of {f!r}")
        m = self.models.get(id(f))
        if m is not None:
            return self.call_model(m, args, kw)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kw)
        if isinstance(f, types.FunctionType):
            key = (f.__module__, f.__qualname__)
            st = self.stubs.get(key)
            if self.bypass == key:
                self.bypass = st = None
            if st is not None and key not in self.no_stub:
                return self.call_model(st, args, kw)
            g = self.sources.of(f)
            if g is not None:
                return self.call_func(g, args, kw)
            return self.native(f, *self.forced(args, kw))
        if isinstance(f, type):
            return self.construct(f, args, kw)
        return self.native(f, *self.forced(args, kw))

    def forced(self, args, kw):
        return [self.force(x) for x in args], {k: self.force(x) for k, x in kw.items()}

    def call_model(self, m, args, kw):
        if not m.raw:
            args, kw = self.forced(args, kw)
        return m.f(self, list(args), kw)

    def native(self, f, args, kw):
        """call native code with concrete arguments"""
        mod = getattr(f, "__module__", None) or getattr(type(getattr(f, "__self__", None)), "__module__", None)
        if isinstance(getattr(f, "__self__", None), dict):
            mod = "builtins"
        if mod not in PURE_NATIVE and not getattr(f, "_pure_native", False):
            raise Unsupported(f"native call {mod}.{getattr(f, '__qualname__', f)}")
        if any(self.opaque(x) for x in list(args) + list(kw.values())):
            owner = getattr(f, "__self__", None)
            if getattr(f, "__objclass__", None) is str and args and isinstance(args[0], SStr) and not kw:
                return self.call(self.getattr(args[0], f.__name__), args[1:], kw)
            if isinstance(owner, dict):
                from . import models

                m = models.METHODS.get(("dict", f.__name__))
                if m is not None and f.__name__ in ("get", "items", "keys", "values"):
                    return m(self, self.new_dict([[k, v] for k, v in owner.items()]), list(args), kw)
            raise Unsupported(f"native call {getattr(f, '__qualname__', f)} with symbolic arguments")
        try:
            return f(*[nativize(x) for x in args], **{k: nativize(x) for k, x in kw.items()})
        except Exception as exc:  # noqa
            raise PyRaise(exc)

    def opaque(self, x):
        if isinstance(x, (IList, IDict)):
            return not x.concrete() or any(self.opaque(y) for y in (x.items if isinstance(x, IList) else [z for e in x.entries for z in e]))
        if isinstance(x, tuple):
            return any(self.opaque(y) for y in x)
        return isinstance(x, (Sym, IFunc, IMethod, Model)) or id(x) in NEWOBJ

    def construct(self, cls, args, kw):
        if issubclass(cls, BaseException):
            try:
                exc = cls(*[x for x in args if not self.opaque(x)])
            except Exception as e2:  # noqa
                raise PyRaise(e2)
            exc._args = list(args)
            return exc
        mod = sys.modules.get(cls.__module__)
        fn = getattr(mod, "__file__", None)
        if fn and self.sources.covers(fn):
            meta = type(cls)
            mc = meta.__dict__.get("__call__")
            if meta is not type and mc is not None:
                st = self.stubs.get((cls.__module__, cls.__qualname__))
                if st is not None:
                    return self.call_model(st, args, kw)
                raise Unsupported(f"metaclass of {cls.__name__}")
            st = self.stubs.get((cls.__module__, cls.__qualname__))
            if st is not None and (cls.__module__, cls.__qualname__) not in self.no_stub:
                return self.call_model(st, args, kw)
            obj = self.new_object(cls)
            init = cls.__init__
            if isinstance(init, types.FunctionType):
                self.call(init, [obj] + list(args), kw)
            elif args or kw:
                raise PyRaise(TypeError(f"{cls.__name__}() takes no arguments"))
            return obj
        return self.native(cls, *self.forced(args, kw))

    def new_object(self, cls, **fields):
        obj = object.__new__(cls)
        NEWOBJ[id(obj)] = (obj, sum(1 for f in self.run.frames))
        self.obj_uid(obj, True)
        obj.__dict__.update(fields)
        return obj

    def obj_uid(self, obj, new=False):
        d = self.run.__dict__.setdefault("objuids", {})
        if id(obj) not in d:
            if new:
                u = self.run.uid()
            else:
                self.run.neg -= 1
                u = self.run.neg
            d[id(obj)] = (u, obj)
        return d[id(obj)][0]

    # ------------------------------------------------------------- attributes
    def getattr(self, o, name, default=UNBOUND):
        o = self.force(o)
        if isinstance(o, SObj):
            a = o.cls.attrs.get(name)
            if a is not None:
                return self.force(a(self, o))
            m = o.cls.methods.get(name)
            if m is not None:
                return Model(name, lambda it, args, kw, m=m, o=o: m(it, o, args, kw))
            py = getattr(o.cls, "pycls", None)
            if py is not None and name in dir(py):
                return self.class_attr(py, name, o)
            if o.cls.attrs.get("*"):
                r = o.cls.attrs["*"](self, o, name)
                if r is not NotImplemented:
                    return r
            if default is not UNBOUND:
                if getattr(o.cls, "closed", False):
                    return default
            if getattr(o.cls, "closed", False):
                raise PyRaise(AttributeError(name))
            raise Unsupported(f"attribute {o.cls.name}.{name}")
        if isinstance(o, (SStr, SInt, SBool, SSeq, SMap, IList, IDict)) or isinstance(o, str) or isinstance(o, tuple):
            m = self.method_of(o, name)
            if m is not None:
                return m
            if default is not UNBOUND:
                return default
            if isinstance(o, (str, tuple)):
                try:
                    return getattr(o, name)
                except AttributeError as exc:
                    raise PyRaise(exc)
            raise PyRaise(AttributeError(f"{type(o).__name__} has no attribute '{name}'"))
        if isinstance(o, Sym):
            f = getattr(o, "sym_getattr", None)
            if f is not None:
                return f(self, name)
            raise Unsupported(f"attribute {name} of {o!r}")
        if id(o) in NEWOBJ:
            d = o.__dict__
            if name in d:
                u = self.obj_uid(o)
                self.cell_read(("attr", u, name), u)
                v = d[name]
                if isinstance(v, Lazy) and not isinstance(v, LVal):
                    v = d[name] = self.force(v)
                return v
            if name == "__dict__":
                raise Unsupported("__dict__")
            if name == "__class__":
                return type(o)
            if hasattr(type(o), name):
                return self.class_attr(type(o), name, o)
            if default is not UNBOUND:
                return default
            raise PyRaise(AttributeError(f"'{type(o).__name__}' object has no attribute '{name}'"))
        if isinstance(o, re.Pattern):
            from . import models

            r = models.native_pattern_getattr(self, o, name)
            if r is not UNBOUND:
                return r
        h = self.models.get(("attr", id(o), name))
        if h is not None:
            return h(self) if not isinstance(h, Model) else h
        try:
            if isinstance(o, type):
                raw = None
                for k in o.__mro__:
                    if name in k.__dict__:
                        raw = k.__dict__[name]
                        break
                if isinstance(raw, (classmethod, staticmethod)):
                    return getattr(o, name)
            return getattr(o, name)
        except AttributeError as exc:
            if default is not UNBOUND:
                return default
            raise PyRaise(exc)

    def class_attr(self, cls, name, obj):
        for k in cls.__mro__:
            if name in k.__dict__:
                raw = k.__dict__[name]
                if isinstance(raw, property):
                    return self.call(raw.fget, [obj])
                if isinstance(raw, types.FunctionType):
                    return IMethod(raw, obj)
                if isinstance(raw, staticmethod):
                    return raw.__func__
                if isinstance(raw, classmethod):
                    return IMethod(raw.__func__, cls)
                if k is object:
                    break
                return raw
        if name in ("__init__",):
            return Model("object.__init__", lambda it, a, kw: None)
        if name == "__getattribute__":
            return Model("__getattribute__", lambda it, a, kw, o=obj: it.getattr(o, a[0]))
        if name == "__setattr__":
            return Model("__setattr__", lambda it, a, kw, o=obj: it.setattr(o, a[0], a[1]))
        raise Unsupported(f"{cls.__name__}.{name}")

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, SObj):
            s = getattr(o.cls, "setattr", None)
            if s is not None:
                return s(self, o, name, v)
            self.run.writes.append((o, name))
            raise Unsupported(f"write to {o.cls.name}.{name}")
        if id(o) in NEWOBJ:
            u = self.obj_uid(o)
            self.cell_write(("attr", u, name), u, o)
            for k in type(o).__mro__:
                raw = k.__dict__.get(name)
                if isinstance(raw, property):
                    if raw.fset is None:
                        raise PyRaise(AttributeError(name))
                    self.call(raw.fset, [o, v])
                    return
            o.__dict__[name] = v
            return
        if isinstance(o, Sym):
            if hasattr(o, "sym_setattr"):
                return o.sym_setattr(self, name, v)
            raise Unsupported(f"setattr on {o!r}")
        h = self.models.get(("setattr", id(o)))
        if h is not None:
            return h(self, name, v)
        self.run.writes.append((o, name))
        raise Unsupported(f"write to {type(o).__name__}.{name} outside of the function's frame")

    def method_of(self, o, name):
        from . import models

        f = models.METHODS.get((_kind(o), name))
        if f is None:
            return None
        return Model(name, lambda it, args, kw: f(it, o, args, kw))

    # ------------------------------------------------------------- statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(type(st).__name__)
        m(st, env)

    def s_Expr(self, st, env):
        self.eval(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Assign(self, st, env):
        v = self.eval_raw(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval_raw(st.value, env), env)

    def s_AugAssign(self, st, env):
        from . import models

        t = st.target
        if isinstance(t, ast.Name):
            old = self.force(self.load_name(t.id, env))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.force(self.getattr(o, t.attr))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            old = models.getitem(self, o, k)
        else:
            raise Unsupported("augmented assignment")
        v = self.eval(st.value, env)
        if isinstance(old, IList) and isinstance(st.op, ast.Add) and old.pytype is list:
            models.list_extend(self, old, v)
            return
        if isinstance(old, list) and isinstance(st.op, ast.Add):
            raise Unsupported("extending a native list")
        new = models.binop(self, st.op, old, v)
        if isinstance(t, ast.Name):
            self.store_name(t.id, new, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, new)
        else:
            models.setitem(self, o, k, new)

    def assign(self, t, v, env):
        from . import models

        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            models.setitem(self, self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = models.unpack(self, v, len(t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env)
        else:
            raise Unsupported("assignment target")

    def s_Delete(self, st, env):
        from . import models

        for t in st.targets:
            if isinstance(t, ast.Name):
                self.store_name(t.id, UNBOUND, env)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if id(o) in NEWOBJ and t.attr in o.__dict__:
                    u = self.obj_uid(o)
                    if any(u < f.birth for f in self.run.frames):
                        raise Unsupported("del in loop")
                    del o.__dict__[t.attr]
                else:
                    raise Unsupported("del attribute")
            elif isinstance(t, ast.Subscript):
                models.delitem(self, self.eval(t.value, env), self.eval(t.slice, env))
            else:
                raise Unsupported("del")

    def s_Return(self, st, env):
        raise Return(None if st.value is None else self.eval_raw(st.value, env))

    def s_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)

    def s_Break(self, st, env):
        raise Break()

    def s_Continue(self, st, env):
        raise Continue()

    def s_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyRaise(AssertionError())

    def s_Raise(self, st, env):
        if st.exc is None:
            if not self.exc_stack:
                raise Unsupported("raise without exception")
            raise PyRaise(self.exc_stack[-1])
        e = self.eval(st.exc, env)
        if isinstance(e, type):
            e = self.construct(e, [], {})
        if not isinstance(e, BaseException):
            raise Unsupported("raise of a symbolic value")
        raise PyRaise(e)

    def s_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except PyRaise as pr:
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        c = self.eval(h.type, env)
                        cs = c if isinstance(c, tuple) else (tuple(c.items) if isinstance(c, IList) else (c,))
                        ok = isinstance(pr.exc, cs)
                    if ok:
                        if h.name:
                            self.store_name(h.name, pr.exc, env)
                        self.exc_stack.append(pr.exc)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.exc_stack.pop()
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        except (PathEnd, Restart, Unsupported, EngineError):
            raise
        except BaseException:
            if st.finalbody:
                self.block(st.finalbody, env)
            raise
        else:
            if st.finalbody:
                self.block(st.finalbody, env)

    def s_With(self, st, env):
        self.with_items(st.items, st.body, env)

    def with_items(self, items, body, env):
        if not items:
            return self.block(body, env)
        it = items[0]
        cm = self.eval(it.context_expr, env)
        if isinstance(cm, SObj) and "__enter__" in cm.cls.methods:
            v = cm.cls.methods["__enter__"](self, cm, [], {})
            ex = cm.cls.methods["__exit__"]
        elif id(cm) in NEWOBJ and hasattr(type(cm), "__enter__"):
            v = self.call(self.class_attr(type(cm), "__enter__", cm))
            def ex(itp, o, a, k):
                return itp.call(itp.class_attr(type(o), "__exit__", o), a)
        else:
            raise Unsupported(f"context manager {cm!r}")
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.with_items(items[1:], body, env)
        except PyRaise as pr:
            r = ex(self, cm, [type(pr.exc), pr.exc, None], {})
            if r is not None and self.truth(r):
                return
            raise
        except (Return, Break, Continue):
            ex(self, cm, [None, None, None], {})
            raise
        ex(self, cm, [None, None, None], {})

    def s_FunctionDef(self, st, env):
        f = self.make_func(st, env)
        for d in reversed(st.decorator_list):
            f = self.call(self.eval(d, env), [f])
        self.store_name(st.name, f, env)

    def make_func(self, node, env):
        a = node.args
        d = [self.eval(x, env) for x in a.defaults]
        kd = {x.arg: self.eval(y, env) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None}
        outer = getattr(env, "func", None)
        q = (outer.qual + ".<locals>." if outer else "") + getattr(node, "name", "<lambda>")
        return IFunc(node, env.globs, env, tuple(d), kd, getattr(node, "name", "<lambda>"),
                     outer.module if outer else env.globs.get("__name__"), q)

    def s_Import(self, st, env):
        for al in st.names:
            m = self.import_module(al.name)
            if al.asname:
                self.store_name(al.asname, m, env)
            else:
                self.store_name(al.name.split(".")[0], self.import_module(al.name.split(".")[0]), env)

    def import_module(self, name):
        try:
            return importlib.import_module(name)
        except ImportError as exc:
            raise PyRaise(exc)

    def s_ImportFrom(self, st, env):
        pkg = env.globs.get("__package__") or env.globs.get("__name__", "").rpartition(".")[0]
        name = "." * st.level + (st.module or "")
        if st.level:
            name = importlib.util.resolve_name("." * st.level + (st.module or ""), pkg) if st.module else pkg.rsplit(".", st.level - 1)[0]
        m = self.import_module(name)
        for al in st.names:
            if hasattr(m, al.name):
                v = getattr(m, al.name)
            else:
                v = self.import_module(name + "." + al.name)
            self.store_name(al.asname or al.name, v, env)

    def s_Global(self, st, env):
        env.globalnames.update(st.names)

    def s_Nonlocal(self, st, env):
        env.nonlocalnames.update(st.names)

    def s_ClassDef(self, st, env):
        raise Unsupported("nested class")

    # ------------------------------------------------------------------ loops
    def s_For(self, st, env):
        it = self.eval(st.iter, env)
        if isinstance(it, Turns):
            return self.turns(st, env, it)

        def body(v):
            self.assign(st.target, v, env)
            self.block(st.body, env)

        broke = self.iterate(it, body)
        if not broke:
            self.block(st.orelse, env)

    def turns(self, st, env, it):
        """a loop whose invariant is given by the goal: any turn, or what follows the loop"""
        names = sorted({n.id for x in [st.target] + st.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})

        before = {n: env.vars[n] for n in names if n in env.vars}

        def forget():
            for n in names:
                self.store_name(n, Poison("variable of a loop: " + n), env)

        if self.run.choose(2) == 0:
            forget()
            for n, x in before.items():
                x = x if isinstance(x, Poison) else it.carried(self, n, x)
                if x is not NotImplemented:
                    self.store_name(n, x, env)

            def body(v):
                try:
                    self.assign(st.target, v, env)
                    self.block(st.body, env)
                except Continue:
                    pass
                except (Break, Return):
                    raise Unsupported("loop that is left")

            it.turn(self, body)
            it.turned(self, env.vars)
            raise PathEnd()
        forget()
        for n, x in it.after(self, before).items():
            self.store_name(n, x, env)
        self.block(st.orelse, env)

    def iterate(self, it, body):
        """run body for each item; returns True if left by break"""
        from . import models

        try:
            for kind, seg in models.segments(self, it):
                if kind == "items":
                    for v in seg:
                        try:
                            body(self.force(v))
                        except Continue:
                            pass
                elif kind == "seq":
                    self.sym_loop(seg, body)
                elif kind == "piece":
                    self.piece_loop(seg, body)
                else:
                    raise Unsupported("iteration")
        except Break:
            return True
        return False

    def piece_loop(self, piece, body):
        """loop over the items another loop has put into a list"""
        q = piece.seq
        domf = q.domf
        if q.upto is not None and piece.upto is not None:
            raise Unsupported("part of a part of a sequence")
        seq = SSeq(q.base, q.n, None, q._before, domf, q.tag, list, piece.upto if q.upto is None else q.upto)

        def run_items(j):
            for p in piece.paths_at(j):
                # which path the first loop took in this iteration
                if self.run.decide(p.guard):
                    for x in p.facts:
                        self.run.assume(x)
                    for v in p.values:
                        if isinstance(v, Piece):
                            raise Unsupported("nested piece iteration")
                        body(v)
                    return
            raise PathEnd()

        self.sym_loop(seq, None, run_items)

    def s_While(self, st, env):
        if self.while_rule is not None:
            return self.while_rule(st, env)
        n = 0
        while True:
            c = self.eval(st.test, env)
            b = self.truth_term(c)
            if not isinstance(b, bool):
                b = z3.simplify(b)
                b = True if z3.is_true(b) else False if z3.is_false(b) else b
            if not isinstance(b, bool):
                break
            if not b:
                self.block(st.orelse, env)
                return
            n += 1
            if n > 200:
                raise Unsupported("long concrete while loop")
            try:
                self.block(st.body, env)
            except Break:
                return
            except Continue:
                pass
        # symbolic condition: iterations are numbered 0, 1, 2, ...
        seq = SSeq(("while",) + tuple(str(x) for x in self.run.key()), None, lambda j: SInt(j))
        left = []

        def one(j):
            if not self.truth(self.eval(st.test, env)):
                left.append("cond")
                raise Break()
            self.block(st.body, env)

        # a body without calls changes nothing but variables, lists and dictionaries
        seq.must_progress = not any(isinstance(x, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await)) for s in st.body for x in ast.walk(s))
        try:
            self.sym_loop(seq, None, one)
        except Break:
            if left:
                self.block(st.orelse, env)
            return
        raise PathEnd()  # never ends

    def sym_loop(self, seq, body, at=None):
        run = self.run
        ex = run.ex
        key = run.key()
        summ = ex.loops.get(key)
        if summ is None:
            summ = ex.loops[key] = LoopSummary()
            summ.reads, summ.lreads, summ.lwrites, summ.written = set(), set(), set(), {}
            summ.id = len(ex.loops)
        def one(j):
            if at is not None:
                at(j)
            else:
                body(seq.at(j))
        mode = run.choose(2)
        if mode == 0:
            try:
                self.loop_arbitrary(seq, one, summ, key)
            except (Unsupported, RecursionError) as exc:
                summ.incomplete = str(exc)
                raise
            raise PathEnd()
        if getattr(summ, "incomplete", None):
            raise Unsupported("after a loop that is not understood")
        idx = summ.idx if hasattr(summ, "idx") else None
        if idx is None:
            raise PathEnd()
        infinite = seq.n is None
        if summ.exits:
            if infinite:
                leaves = True
            else:
                e = run.fresh("leaves", z3.BoolSort())
                leaves = run.decide_free(e)
            if leaves:
                k = run.fresh("k", z3.IntSort())
                run.assume(seq.dom(k))
                self.loop_facts(seq, summ, upto=k)
                # the iteration that leaves
                self.loop_apply(seq, summ, k)
                try:
                    one(k)
                except Continue:
                    pass
                raise PathEnd()  # would have gone on: contradicts the choice of k
        if infinite:
            raise PathEnd()
        self.loop_facts(seq, summ, upto=None)
        self.loop_apply(seq, summ, None)

    def loop_arbitrary(self, seq, one, summ, key):
        run = self.run
        i = z3.Int(f"i_{summ.id}")
        summ.idx = i
        fr = LoopFrame(key, i, run.uid(), len(run.pc), f"A{summ.id}")
        fr.summary = summ
        fr.trail_len = len(run.trail)
        # carried cells hold an unknown value that depends on the iteration
        summ.cells = getattr(summ, "cells", {})
        for cell in list(summ.carried):
            self.cell_set(cell, self.carried_value(cell, summ, i))
        run.frames.append(fr)
        run.assume(seq.dom(i))
        fr.mark = len(run.pc)
        lists_before = {}
        try:
            try:
                one(i)
            except Continue:
                pass
        except (Break, Return, PyRaise):
            self.check_carried(summ, fr, key)
            g = [t for tag, t in run.pc[fr.mark:] if tag == "d"]
            summ.exits.append(g)
            return
        finally:
            run.frames.pop()
        for cell in fr.written:
            summ.written[cell] = True
        self.check_carried(summ, fr, key)
        p = types.SimpleNamespace()
        p.guard = z3.And([t for tag, t in run.pc[fr.mark:] if tag == "d"])
        p.facts = [t for tag, t in run.pc[fr.mark:] if tag == "f"]
        p.appended = {u: list(v) for u, v in fr.appended.items()}
        p.cells = {}
        for cell in fr.written:
            p.cells[cell] = self.cell_get(cell)
        summ.paths.append(p)
        if getattr(seq, "must_progress", False) and not any(p.appended.values()):
            # the next iteration does the same if nothing has changed: it never ends
            same = []
            for cell, v in p.cells.items():
                if cell in summ.carried:
                    was = summ.cells[cell][0]
                    v = self.force(v)
                    if v is was or hasattr(v, "t") and hasattr(was, "t") and z3.eq(z3.simplify(v.t), z3.simplify(was.t)):
                        same.append(cell)
            if set(same) >= {c for c in p.cells if c in summ.carried}:
                run.prove("the loop makes progress", False, "nothing is changed that the loop depends on")

    def check_carried(self, summ, fr, key):
        new = [c for c in summ.written if c in summ.reads and c not in summ.carried]
        if new:
            for c in new:
                summ.carried[c] = True
            ex = self.run.ex
            for d in (ex.width, ex.loops):
                for k in [k for k in d if len(k) > len(key) and k[: len(key)] == key]:
                    del d[k]
            summ.paths, summ.exits, summ.written = [], [], {}
            summ.reads, summ.lreads, summ.lwrites = set(), set(), set()
            self.run.restart_at = fr.trail_len
            raise Restart()

    # cells
    def cell_get(self, cell):
        kind, uid, name = cell
        if kind == "local":
            return self.env_by_uid(uid).vars.get(name, UNBOUND)
        if kind == "attr":
            return self.obj_by_uid(uid).__dict__.get(name, UNBOUND)
        if kind == "dict":
            return self.dict_entry(uid, name)[1]
        raise EngineError(cell)

    def cell_set(self, cell, v):
        kind, uid, name = cell
        if kind == "local":
            self.env_by_uid(uid).vars[name] = v
        elif kind == "attr":
            self.obj_by_uid(uid).__dict__[name] = v
        elif kind == "dict":
            self.dict_entry(uid, name)[1] = v
        else:
            raise EngineError(cell)

    def env_by_uid(self, uid):
        return self.run.envs[uid]

    def obj_by_uid(self, uid):
        for u, o in self.run.__dict__["objuids"].values():
            if u == uid:
                return o
        raise EngineError("object")

    def dict_entry(self, uid, name):
        d = self.containers[uid]
        for e in d.entries:
            if not isinstance(e, Piece) and keyid(e[0]) == name:
                return e
        raise EngineError("dict entry")

    def carried_value(self, cell, summ, i):
        old = self.cell_get(cell)
        if old is UNBOUND:
            raise Unsupported(f"variable {cell[2]} read in a loop before it is assigned")
        old = self.force(old)
        if self.lift is not None:
            lifted = self.lift(old)
            if lifted is not None:
                old = lifted
        idx = [f.idx for f in self.run.frames if f.idx is not None] + [i]
        nm = f"c_{summ.id}_{cell[2]}_{cell[1]}"
        def f(sort):
            return z3.Function(nm, *([x.sort() for x in idx] + [sort]))(*idx)
        if isinstance(old, (bool, SBool)):
            v = SBool(f(BoolS))
        elif isinstance(old, (int, SInt)):
            v = SInt(f(IntS))
        elif isinstance(old, (str, SStr)):
            v = SStr(f(StrS))
        elif isinstance(old, SObj):
            v = SObj(f(old.t.sort()), old.cls)
        elif isinstance(old, IList):
            raise Unsupported("list rebound in a loop")
        elif old is None:
            raise Unsupported(f"variable {cell[2]}, None at first, carried through a loop")
        else:
            raise Unsupported(f"variable {cell[2]} carried through a loop")
        summ.cells[cell] = (v, old)
        return v

    def loop_facts(self, seq, summ, upto):
        """what all (or the first) iterations have in common: none leaves the loop"""
        run = self.run
        if not summ.exits:
            return
        key = (len(summ.paths), len(summ.exits))
        if getattr(summ, "facts_key", None) != key:
            body = [z3.Or([p.guard for p in summ.paths])]
            for p in summ.paths:
                if p.facts:
                    body.append(z3.Implies(p.guard, z3.And(p.facts)))
            summ.facts_key, summ.facts_body = key, z3.And(body)
        run.logs.setdefault("all_of", []).append((seq, summ.idx, upto, summ.facts_body))
        run.assume(forall_idx(seq, summ.idx, upto, summ.facts_body))

    def loop_apply(self, seq, summ, upto):
        """state after all iterations (before iteration ``upto``)"""
        run = self.run
        i = summ.idx
        lists = {}
        for p in summ.paths:
            for u in p.appended:
                lists[u] = True
        for u in sorted(lists):
            lst = self.containers[u]
            pc = Piece(seq, i, [PiecePath(p.guard, p.facts, list(p.appended.get(u, []))) for p in summ.paths], upto)
            if isinstance(lst, IDict):
                for fr in run.frames:
                    if self.uid_of(lst) < fr.birth:
                        fr.appended.setdefault(u, []).append(pc)
                        fr.summary.lwrites.add(u)
                lst.entries.append(pc)
            else:
                self.list_append(lst, [pc])
        cells = {}
        for p in summ.paths:
            for c in p.cells:
                cells[c] = True
        for c in cells:
            if c in summ.carried:
                v = self.fold_value(c, seq, summ, upto)
            else:
                v = self.last_value(c, seq, summ, upto)
            uid = c[1]
            self.cell_write(c, uid, None)
            self.cell_set(c, v)

    def last_value(self, cell, seq, summ, upto):
        old = self.cell_get(cell)
        i = summ.idx

        def resolve(it):
            run = it.run
            ws = [p for p in summ.paths if cell in p.cells]
            guard = z3.Or([p.guard for p in ws])
            any_ = run.fresh("assigned", BoolS)
            if len(ws) == len(summ.paths) and not summ.exits and seq.n is not None and upto is None:
                run.assume(any_ == (seq.n > 0)) if seq.full else None
            if run.decide_free(any_):
                w = run.fresh("w", IntS)
                run.assume(seq.dom_upto(w, upto))
                run.assume(z3.substitute(guard, (i, w)))
                j = z3.Int("j")
                run.assume(z3.ForAll([j], z3.Implies(
                    z3.And(seq.dom_upto(j, upto), seq.before(w, j)),
                    z3.Not(z3.substitute(guard, (i, j))))))
                for p in ws[:-1]:
                    if run.decide(z3.substitute(p.guard, (i, w))):
                        break
                else:
                    p = ws[-1]
                    run.assume(z3.substitute(p.guard, (i, w)))
                for x in p.facts:
                    run.assume(z3.substitute(x, (i, w)))
                return it.force(subst(p.cells[cell], [(i, w)]))
            j = z3.Int("j")
            run.assume(forall_idx(seq, i, upto, z3.Not(guard)))
            if old is UNBOUND:
                raise PyRaise(UnboundLocalError(cell[2]))
            return it.force(old)

        return Lazy(resolve)

    def fold_value(self, cell, seq, summ, upto):
        from . import models

        run = self.run
        i = summ.idx
        cv, old = summ.cells[cell]
        c = cv.t
        steps = []
        for p in summ.paths:
            v = p.cells.get(cell)
            if v is None:
                v = cv
            if isinstance(v, LVal):
                return Poison(f"variable {cell[2]} carried through a loop")
            v = self.force(v)
            if self.lift is not None:
                lifted = self.lift(v)
                v = v if lifted is None else lifted
            if isinstance(cv, SInt):
                steps.append((p.guard, zi(v)))
            elif isinstance(cv, SStr):
                steps.append((p.guard, zs(v)))
            elif isinstance(cv, SBool):
                steps.append((p.guard, v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))))
            elif isinstance(cv, SObj) and isinstance(v, SObj):
                steps.append((p.guard, v.t))
            else:
                return Poison(f"variable {cell[2]} carried through a loop")
        if isinstance(cv, SInt):
            deltas = [(g, z3.simplify(t - c)) for g, t in steps]
            if all(not occurs(c, d) for _, d in deltas):
                ds = {str(d) for _, d in deltas}
                if len(ds) == 1 and z3.is_int_value(deltas[0][1]) and seq.plain:
                    n = upto if upto is not None else seq.n
                    step, fn, pre = deltas[0][1].as_long(), c.decl(), list(c.children())[:-1]
                    j = z3.Int("cj")
                    at = fn(*(pre + [j]))
                    run.assume(z3.ForAll([j], at == zi(old) + step * j, patterns=[at]))
                    if step in (1, -1):
                        # instances for numbers that are written
                        txt = models.int_text(self, j)
                        run.assume(z3.ForAll([j], fn(*(pre + [step * (j - zi(old))])) == j, patterns=[txt]))
                    return SInt(zi(old) + deltas[0][1] * n)
                return SInt(zi(old) + self.sum_term(seq, i, deltas, upto))
        # general fold: the value is known by its step only
        step = steps[-1][1]
        for g, t in reversed(steps[:-1]):
            step = z3.If(g, t, step)
        init = zi(old) if isinstance(cv, SInt) else zs(old) if isinstance(cv, SStr) else \
            (old.t if isinstance(old, (SBool, SObj)) else z3.BoolVal(old))
        fn = c.decl()
        c0 = z3.Const("c0", c.sort())
        st0 = z3.substitute(step, (c, c0))
        idx = list(c.children())[:-1]
        # the same fold was seen before?
        canon = None
        for rec in run.logs.setdefault("folds", []):
            if rec["sort"] == c.sort() and same_base(self, rec["seq"], seq) and rec["n"] == len(idx):
                if run.valid(z3.And(rec["init"] == init)) and run.valid(z3.Implies(seq.dom(i), z3.substitute(rec["step"], (rec["i"], i)) == st0)):
                    canon = rec
                    break
        if canon is None:
            run.logs["folds"].append(dict(sort=c.sort(), seq=seq, n=len(idx), init=init, step=st0, i=i, fn=fn, idx=idx))
        else:
            j = z3.Int("j")
            run.assume(z3.ForAll([j], fn(*(idx + [j])) == canon["fn"](*(canon["idx"] + [j])), patterns=[fn(*(idx + [j]))]))
        at = upto if upto is not None else (seq.n if seq.n is not None else None)
        if at is None:
            return Poison("fold of an endless loop")
        t = fn(*(idx + [at]))
        if seq.plain:
            run.assume(fn(*(idx + [z3.IntVal(0)])) == init)
            j = z3.Int("j")
            if upto is not None:
                # first step and last step are often enough
                pass
        elif upto is None:
            pass
        return type(cv)(t) if not isinstance(cv, SObj) else SObj(t, cv.cls)

    def sum_term(self, seq, i, deltas, upto):
        """Sum over the iterations; sums of equal terms are the same unknown"""
        run = self.run
        term = z3.IntVal(0)
        for g, d in deltas:
            term = term + z3.If(g, d, 0)
        up = None if upto is None else upto
        known = [z3.substitute(b, (k, i)) for q, k, u, b in run.logs.get("all_of", []) if same_base(self, q, seq) and same_upto(u, up)]
        for rec in run.logs.setdefault("sums", []):
            if same_base(self, rec["seq"], seq) and same_upto(rec["upto"], up):
                if run.valid(z3.Implies(z3.And(seq.dom(i), *known), z3.substitute(rec["term"], (rec["i"], i)) == term), quick=True):
                    return rec["s"]
        s = run.fresh("sum", IntS)
        run.logs["sums"].append(dict(seq=seq, i=i, term=term, s=s, upto=up))
        run.assume(z3.Implies(forall_idx(seq, i, up, term == 0), s == 0))
        if run.valid(z3.Implies(seq.dom(i), term >= 0)):
            run.assume(s >= 0)
            run.assume(z3.Implies(s == 0, forall_idx(seq, i, up, term == 0)))
        return s

    # ------------------------------------------------------------ expressions
    def eval(self, node, env):
        v = self.eval_raw(node, env)
        return self.force(v) if isinstance(v, Lazy) else v

    def eval_raw(self, node, env):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(type(node).__name__)
        return m(node, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.load_name(n.id, env)

    def e_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), self.mangle(n.attr, env))

    def mangle(self, name, env):
        if name.startswith("__") and not name.endswith("__"):
            f = getattr(env, "func", None)
            if f and "." in f.qual:
                return "_" + f.qual.split(".")[0].lstrip("_") + name
        return name

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.store_name(n.target.id, v, env)
        return v

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            raise Unsupported("super()")
        f = self.eval(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                from . import models

                args.extend(models.concrete_items(self, self.eval(a.value, env)))
            else:
                args.append(self.eval_raw(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if isinstance(d, IDict) and d.concrete():
                    for e in d.entries:
                        kw[e[0]] = e[1]
                elif isinstance(d, dict):
                    kw.update(d)
                else:
                    raise Unsupported("** of a symbolic mapping")
            else:
                kw[k.arg] = self.eval_raw(k.value, env)
        if f is eval and len(args) == 1 and not kw:
            return self.eval_text(self.force(args[0]), env)
        return self.call(f, args, kw)

    def eval_text(self, text, env):
        """eval() of a text which is known but for decimal numbers in it"""
        from . import models

        parts = models.str_parts(z3.simplify(models.zs(text)))
        src, names = "", {}
        for p in parts:
            if z3.is_string_value(p):
                src += models.zstr(p)
            elif z3.is_app(p) and p.decl().name() == "int_text":
                n = f"number_{len(names)}_"
                if src[-1:].isalnum() or src[-1:] == "_":
                    raise Unsupported("eval")
                names[n] = SInt(p.arg(0))
                src += n + " "
            else:
                raise Unsupported(f"eval of {text!r}")
        try:
            node = ast.parse(src, mode="eval").body
        except SyntaxError as exc:
            raise PyRaise(exc)
        e = Env(self, env.globs, env)
        for n, v in names.items():
            e.vars[n] = v
            e.localnames = e.localnames | {n}
        return self.eval(node, e)

    def e_BoolOp(self, n, env):
        v = None
        for x in n.values[:-1]:
            v = self.eval(x, env)
            b = self.truth(v)
            if isinstance(n.op, ast.And) and not b:
                return v if not isinstance(v, SBool) else False
            if isinstance(n.op, ast.Or) and b:
                return v if not isinstance(v, SBool) else True
        return self.eval(n.values[-1], env)

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else SBool(z3.Not(t))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, SInt):
                return SInt(-v.t)
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, n, env):
        from . import models

        return models.binop(self, n.op, self.eval(n.left, env), self.eval(n.right, env))

    def e_Compare(self, n, env):
        from . import models

        left = self.eval_raw(n.left, env)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.eval_raw(r, env)
            t = models.compare(self, op, left, right)
            if len(n.ops) == 1:
                return t if isinstance(t, (bool, SBool)) else t
            if not self.truth(t):
                return False
            left = right
        return res

    def e_IfExp(self, n, env):
        if self.truth(self.eval(n.test, env)):
            return self.eval_raw(n.body, env)
        return self.eval_raw(n.orelse, env)

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                from . import models

                out.extend(models.concrete_items(self, self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_List(self, n, env):
        return self.new_list(self.elts(n.elts, env))

    def e_Set(self, n, env):
        return self.new_list(self.elts(n.elts, env), set)

    def e_Dict(self, n, env):
        from . import models

        d = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                models.dict_update(self, d, self.eval(v, env))
            else:
                kk = self.eval(k, env)
                models.setitem(self, d, kk, self.eval(v, env))
        return d

    def e_Subscript(self, n, env):
        from . import models

        return models.getitem(self, self.eval(n.value, env), self.eval(n.slice, env))

    def e_Slice(self, n, env):
        return slice(*[None if x is None else self.eval(x, env) for x in (n.lower, n.upper, n.step)])

    def e_Lambda(self, n, env):
        return self.make_func(n, env)

    def e_JoinedStr(self, n, env):
        from . import models

        parts = [self.eval(x, env) for x in n.values]
        return models.concat(self, parts)

    def e_FormattedValue(self, n, env):
        from . import models

        v = self.eval_raw(n.value, env)
        if n.conversion == 114:
            v = models.to_repr(self, v)
        elif n.conversion == 115:
            v = models.to_str(self, v)
        spec = "" if n.format_spec is None else self.eval(n.format_spec, env)
        return models.format_value(self, v, spec)

    def comp(self, gens, env, emit):
        e2 = Env(self, env.globs, env)
        e2.func = getattr(env, "func", None)

        def level(g):
            if g == len(gens):
                emit(e2)
                return
            gen = gens[g]
            it = self.eval(gen.iter, e2 if g else env)

            def body(v):
                self.assign(gen.target, v, e2)
                for c in gen.ifs:
                    if not self.truth(self.eval(c, e2)):
                        return
                level(g + 1)

            self.iterate(it, body)

        level(0)

    def e_ListComp(self, n, env):
        out = self.new_list()
        self.comp(n.generators, env, lambda e: self.list_append(out, [self.eval(n.elt, e)]))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, env):
        out = self.e_ListComp(n, env)
        out.pytype = set
        return out

    def e_DictComp(self, n, env):
        from . import models

        out = self.new_dict()
        self.comp(n.generators, env, lambda e: models.setitem(self, out, self.eval(n.key, e), self.eval(n.value, e)))
        return out

    def e_Yield(self, n, env):
        e = env
        self.list_append(e.yields, [None if n.value is None else self.eval(n.value, env)])
        return None

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        t = self.truth_term(v)
        return self.run.decide(t)

    def truth_term(self, v):
        from . import models

        v = self.force(v)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SStr):
            return v.t != z3.StringVal("")
        if isinstance(v, (IList, IDict, SSeq, SMap)):
            n = models.length(self, v)
            return (n != 0) if isinstance(n, int) else n.t != 0
        if isinstance(v, SObj):
            if v.cls.truth is None:
                raise Unsupported(f"truth of {v!r}")
            return v.cls.truth(self, v)
        if isinstance(v, (IFunc, IMethod, Model)):
            return True
        if isinstance(v, Sym):
            raise Unsupported(f"truth of {v!r}")
        if id(v) in NEWOBJ:
            return True
        return bool(v)


def keyid(k):
    return k if isinstance(k, (str, int, float, bool, type(None))) else ("id", id(k))


def occurs(c, t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        todo.extend(x.children())
    return False


def forall_idx(seq, i, upto, body):
    j = z3.Int("j")
    b = z3.substitute(body, (i, j))
    return z3.ForAll([j], z3.Implies(seq.dom_upto(j, upto), b))


def same_base(interp, s1, s2):
    if s1 is s2:
        return True
    b1, b2 = s1.base, s2.base
    if len(b1) != len(b2):
        return False
    for x, y in zip(b1, b2):
        if z3.is_expr(x) and z3.is_expr(y):
            if x.sort() != y.sort():
                return False
            if not x.eq(y) and not interp.run.valid(x == y):
                return False
        elif z3.is_expr(x) or z3.is_expr(y):
            return False
        elif x != y:
            return False
    return True


def same_upto(a, b):
    if a is None or b is None:
        return a is None and b is None
    return a.eq(b)


def _locals_of(node):
    c = getattr(node, "_locals", None)
    if c is None:
        c = set()

        def walk(n):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                    c.add(ch.name)
                    continue
                if isinstance(ch, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)):
                    c.add(ch.id)
                if isinstance(ch, ast.alias):
                    c.add((ch.asname or ch.name).split(".")[0])
                if isinstance(ch, ast.ExceptHandler) and ch.name:
                    c.add(ch.name)
                walk(ch)

        for s in node.body:
            w = ast.Module(body=[s], type_ignores=[])
            walk(w)
        node._locals = c
    return set(c)


def _is_generator(node):
    g = getattr(node, "_isgen", None)
    if g is None:
        g = False
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                g = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        node._isgen = g
    return g


def _kind(o):
    if isinstance(o, (SStr, str)):
        return "str"
    if isinstance(o, IList):
        return "list" if o.pytype is list else "set"
    if isinstance(o, IDict):
        return "dict"
    if isinstance(o, SSeq):
        return "seq"
    if isinstance(o, SMap):
        return "map"
    if isinstance(o, SInt):
        return "int"
    if isinstance(o, SBool):
        return "bool"
    if isinstance(o, tuple):
        return "tuple"
    return None
