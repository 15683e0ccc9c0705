"""Symbolic values of the verifier.

A program variable of the interpreted punx code holds a native Python value or
one of these.  Terms are z3 terms; universally quantified inputs are z3
constants, values that depend on a loop iteration are applications of functions
to the index of that iteration.
"""
import importlib.machinery
import importlib.util
import os
import sys


def _load_z3():
    """z3 comes with the verification tools, not with the venv punx runs in."""
    try:
        import z3

        return z3
    except ImportError:
        pass
    for site in (
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
        "/opt/veriftools/pyvenv/lib64/python3.12/site-packages",
    ):
        d = os.path.join(site, "z3")
        if os.path.isdir(d):
            spec = importlib.util.spec_from_file_location(
                "z3", os.path.join(d, "__init__.py"), submodule_search_locations=[d]
            )
            mod = importlib.util.module_from_spec(spec)
            sys.modules["z3"] = mod
            spec.loader.exec_module(mod)
            return mod
    raise ImportError("z3")


z3 = _load_z3()


def _fast_connectives(z3):
    """And, Or and Not of Boolean terms without the coercions of the Python API"""
    main = z3.main_ctx()
    ref = main.ref()
    Ast, BoolRef = z3.Ast, z3.BoolRef
    slow_and, slow_or, slow_not = z3.And, z3.Or, z3.Not

    def make(slow, mk):
        def f(*args):
            if len(args) == 1 and isinstance(args[0], (list, tuple)):
                args = args[0]
            for a in args:
                if not isinstance(a, BoolRef):
                    return slow(*args) if args else slow([])
            n = len(args)
            return BoolRef(mk(ref, n, (Ast * n)(*[a.ast for a in args])), main)

        return f

    z3.And = make(slow_and, z3.Z3_mk_and)
    z3.Or = make(slow_or, z3.Z3_mk_or)

    def Not(a):
        if isinstance(a, BoolRef):
            return BoolRef(z3.Z3_mk_not(ref, a.ast), main)
        return slow_not(a)

    z3.Not = Not


_fast_connectives(z3)

Obj = z3.DeclareSort("Obj")
IntS, StrS, BoolS = z3.IntSort(), z3.StringSort(), z3.BoolSort()


class Unsupported(BaseException):
    """The interpreted code left the subset the engine understands."""


class EngineError(Exception):
    pass


class PyRaise(BaseException):
    """An exception of the interpreted program."""

    def __init__(self, exc):
        self.exc = exc


class Sym:
    __hash__ = None

    def __eq__(self, other):
        raise EngineError(f"native == on {type(self).__name__}")

    def __bool__(self):
        raise EngineError(f"native bool() of {type(self).__name__}")

    def __iter__(self):
        raise EngineError(f"native iteration of {type(self).__name__}")


class SBool(Sym):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


class SInt(Sym):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SInt({self.t})"


class SStr(Sym):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SStr({self.t})"


class SObj(Sym):
    """An object of the outside world; its class says what can be done with it."""

    def __init__(self, t, cls):
        self.t = t
        self.cls = cls

    def __repr__(self):
        return f"SObj({self.t}:{self.cls.name})"


class ObjClass:
    """attrs: name -> f(interp, obj) -> value;  methods: name -> f(interp, obj, args, kw)"""

    def __init__(self, name, attrs=None, methods=None, isinst=None, truth=None,
                 contains=None, getitem=None, iterate=None, length=None, eq=None, call=None):
        self.name = name
        self.attrs = attrs or {}
        self.methods = methods or {}
        self.isinst = isinst or (lambda interp, obj, cls: None)
        self.truth = truth
        self.contains = contains
        self.getitem = getitem
        self.iterate = iterate
        self.length = length
        self.eq = eq
        self.call = call


class SSeq(Sym):
    """Sequence of unknown length.

    Index set: 0 <= j < n (n None: all j >= 0) and ``domf(j)``;  ``at(j)`` is
    the element, ``before(j, k)`` the order of the indices.  ``base``
    identifies the collection whatever its order, ``tag`` the order.
    """

    def __init__(self, base, n, at, before=None, domf=None, tag=(), pytype=list, upto=None):
        self.base = base
        self.n = n
        self.at = at
        self._before = before
        self.plain = before is None
        self.domf = domf
        self.tag = tag
        self.pytype = pytype
        self.upto = upto

    @property
    def full(self):
        return self.domf is None and self.upto is None and self.n is not None

    def before(self, j, k):
        return j < k if self._before is None else self._before(j, k)

    def dom(self, j):
        return self.dom_upto(j, None)

    def dom_upto(self, j, upto):
        c = [j >= 0]
        if self.n is not None:
            c.append(j < self.n)
        if self.domf is not None:
            c.append(self.domf(j))
        if self.upto is not None:
            c.append(self.before(j, self.upto))
        if upto is not None:
            c.append(self.before(j, upto))
        return z3.And(c)

    def map(self, f):
        return SSeq(self.base, self.n, lambda j: f(self.at(j)), self._before, self.domf, self.tag, list, self.upto)

    def __repr__(self):
        return f"SSeq({self.base})"


class SMap(Sym):
    """Mapping of unknown content (keys are strings).  ``order`` = SSeq of the keys."""

    def __init__(self, base, contains, get, keys):
        self.base = base
        self.contains = contains  # f(z3 string) -> z3 Bool
        self.get = get  # f(z3 string) -> value
        self.keys = keys  # SSeq of SStr
        self.home = None  # the dict that has become this mapping

    def __repr__(self):
        return f"SMap({self.base})"


class PiecePath:
    """what one path through a loop body contributes"""

    def __init__(self, guard, facts, values):
        self.guard, self.facts, self.values = guard, facts, values

    def at(self, pairs):
        return PiecePath(z3.substitute(self.guard, *pairs), [z3.substitute(x, *pairs) for x in self.facts],
                         [subst(v, pairs) for v in self.values])


class Piece:
    """Items contributed by all iterations of a loop: for each index of ``seq``
    (before ``upto`` in its order, if any) the values of the path it takes."""

    def __init__(self, seq, idx, paths, upto=None):
        self.seq = seq
        self.idx = idx  # z3 constant which stands for the index in ``paths``
        self.paths = paths
        self.upto = upto

    def dom(self, j):
        return self.seq.dom_upto(j, self.upto)

    def paths_at(self, j):
        return [p.at([(self.idx, j)]) for p in self.paths]

    def __repr__(self):
        return f"Piece({self.seq.base},{self.idx},{[(p.guard, p.values) for p in self.paths]})"


class Rest:
    """Unknown items a list had before the code under verification ran."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Rest({self.name})"


class IList:
    """list created by interpreted code: items are values, Piece or Rest"""

    def __init__(self, items=None, pytype=list):
        self.items = list(items or [])
        self.pytype = pytype
        self.uid = None

    def concrete(self):
        return not any(isinstance(x, (Piece, Rest)) for x in self.items)

    def __repr__(self):
        return f"IList({self.items})"


class IDict:
    """dict created by interpreted code: entries are [key, value] or Piece of (key, value)"""

    def __init__(self, entries=None, rest=None):
        self.entries = [list(e) if not isinstance(e, Piece) else e for e in (entries or [])]
        self.rest = rest
        self.uid = None
        self.over = None  # the mapping it has become

    def concrete(self):
        return self.rest is None and not any(isinstance(e, Piece) for e in self.entries)

    def __repr__(self):
        return f"IDict({self.entries})"


class Poison(Sym):
    """Value of a variable after a loop the engine could not summarise."""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Poison({self.why})"


class Tok(Sym):
    """what a contract yields, taken as a whole (both sides use the same contract)"""

    def __init__(self, name, args):
        self.name, self.args = name, args

    def subst(self, pairs):
        return Tok(self.name, [subst(x, pairs) for x in self.args])

    def __repr__(self):
        return f"Tok({self.name}, {self.args})"


def is_sym(v):
    return isinstance(v, (Sym, IList, IDict))


def deep_sym(v, depth=4):
    """Does v contain symbolic parts (so native code must not see it)?"""
    if isinstance(v, Sym):
        return True
    if isinstance(v, IList):
        return True
    if isinstance(v, IDict):
        return True
    if depth and isinstance(v, (list, tuple, set, frozenset)):
        return any(deep_sym(x, depth - 1) for x in v)
    if depth and isinstance(v, dict):
        return any(deep_sym(x, depth - 1) for kv in v.items() for x in kv)
    return False


def nativize(v):
    """Native copy of fully concrete interpreted containers, else raise Unsupported."""
    if isinstance(v, IList):
        if not v.concrete():
            raise Unsupported("symbolic list passed to native code")
        return v.pytype([nativize(x) for x in v.items])
    if isinstance(v, IDict):
        if not v.concrete():
            raise Unsupported("symbolic dict passed to native code")
        return {nativize(k): nativize(x) for k, x in v.entries}
    if isinstance(v, Sym):
        raise Unsupported(f"symbolic value passed to native code: {v!r}")
    if isinstance(v, tuple):
        return tuple(nativize(x) for x in v)
    if isinstance(v, list):
        return [nativize(x) for x in v]
    return v


def is_true(t):
    return z3.is_true(z3.simplify(t)) if z3.is_expr(t) else bool(t)


def is_false(t):
    return z3.is_false(z3.simplify(t)) if z3.is_expr(t) else not t


def zs(v):
    """z3 string term of a str or SStr"""
    if isinstance(v, SStr):
        return v.t
    if isinstance(v, str):
        return z3.StringVal(_zesc(v))
    raise Unsupported(f"not a string: {v!r}")


def _zesc(s):
    out = []
    for c in s:
        o = ord(c)
        if o < 32 or o > 126 or c == "\\":
            out.append("\\u{%x}" % o)
        else:
            out.append(c)
    return "".join(out)


def zi(v):
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"not an integer: {v!r}")


def subst(v, pairs):
    """v with z3 terms substituted, through all symbolic structure"""
    if z3.is_expr(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, SBool):
        return SBool(z3.substitute(v.t, *pairs))
    if isinstance(v, SInt):
        return SInt(z3.substitute(v.t, *pairs))
    if isinstance(v, SStr):
        return SStr(z3.substitute(v.t, *pairs))
    if isinstance(v, SObj):
        return SObj(z3.substitute(v.t, *pairs), v.cls)
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, IList):
        r = IList([subst(x, pairs) for x in v.items], v.pytype)
        return r
    if isinstance(v, Piece):
        return Piece(subst(v.seq, pairs), v.idx, [p.at(pairs) for p in v.paths],
                     None if v.upto is None else z3.substitute(v.upto, *pairs))
    if isinstance(v, Rest):
        return v
    if isinstance(v, SSeq):
        s = lambda t: z3.substitute(t, *pairs)  # noqa
        return SSeq(tuple(s(x) if z3.is_expr(x) else x for x in v.base),
                    None if v.n is None else s(v.n),
                    None if v.at is None else (lambda j: subst(v.at(j), pairs)),
                    None if v.plain else (lambda j, k: s(v._before(j, k))),
                    None if v.domf is None else (lambda j: s(v.domf(j))),
                    tuple(s(x) if z3.is_expr(x) else x for x in v.tag), v.pytype,
                    None if v.upto is None else s(v.upto))
    if isinstance(v, IDict):
        return IDict([subst(e, pairs) if isinstance(e, Piece) else [subst(e[0], pairs), subst(e[1], pairs)] for e in v.entries], v.rest)
    if isinstance(v, Sym):
        f = getattr(v, "subst", None)
        if f:
            return f(pairs)
        raise Unsupported(f"substitution in {v!r}")
    if id(v) in NEWOBJ and NEWOBJ[id(v)][1] > 0:
        return _subst_obj(v, pairs, {})
    return v


# objects created by interpreted code: id -> (object, loop depth at creation)
NEWOBJ = {}


def _subst_obj(v, pairs, memo):
    if id(v) in memo:
        return memo[id(v)]
    new = object.__new__(type(v))
    memo[id(v)] = new
    NEWOBJ[id(new)] = (new, NEWOBJ[id(v)][1])
    for k, x in v.__dict__.items():
        if id(x) in NEWOBJ and NEWOBJ[id(x)][1] > 0:
            x2 = _subst_obj(x, pairs, memo)
        elif isinstance(x, (IList, IDict, Sym, tuple)):
            try:
                x2 = subst(x, pairs)
            except Unsupported:
                x2 = x
        else:
            x2 = x
        new.__dict__[k] = x2
    return new
