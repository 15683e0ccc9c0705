"""Meaning of Python operations, builtins and library calls on symbolic values."""
import ast
import builtins
import collections
import logging
import re

try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

from .values import *
from .explore import PathEnd, Restart
from .interp import (Model, IFunc, IMethod, Lazy, LVal, keyid, _kind, occurs, same_base, same_upto, forall_idx, UNBOUND)

METHODS = {}
BUILTINS = {}


def method(kind, name):
    def deco(f):
        for k in kind.split():
            METHODS[(k, name)] = f
        return f

    return deco


def builtin(obj, raw=False):
    def deco(f):
        BUILTINS[id(obj)] = Model(getattr(obj, "__name__", str(obj)), f, raw)
        KEEP.append(obj)
        return f

    return deco


KEEP = []


def uf(name, *sorts):
    return z3.Function(name, *sorts)


def is_text(v):
    return isinstance(v, (str, SStr))


# --------------------------------------------------------------------- strings
def concat(it, parts):
    terms = []
    for p in parts:
        p = it.force(p)
        if not is_text(p):
            raise Unsupported(f"concatenation of {p!r}")
        if isinstance(p, str):
            if p:
                if terms and isinstance(terms[-1], str):
                    terms[-1] += p
                else:
                    terms.append(p)
        else:
            terms.append(p)
    if not terms:
        return ""
    if len(terms) == 1:
        return terms[0]
    return SStr(z3.Concat([zs(x) for x in terms]))


def to_str(it, v):
    if isinstance(v, LVal):
        r = v.lstr(it)
        if r is not NotImplemented:
            return r
    v = it.force(v)
    if is_text(v):
        return v
    if isinstance(v, SInt):
        return SStr(int_text(it, v.t))
    if isinstance(v, SBool):
        return "True" if it.run.decide(v.t) else "False"
    if isinstance(v, SObj):
        a = v.cls.methods.get("__str__")
        if a is not None:
            return a(it, v, [], {})
        return SStr(uf("str_" + v.cls.name, v.t.sort(), StrS)(v.t))
    if isinstance(v, SSeq) and v.base[0] == "items" and v.full:
        return SStr(uf("v_str", v.base[1].sort(), StrS)(v.base[1]))
    if isinstance(v, (IList, IDict, SSeq, SMap)) or (isinstance(v, tuple) and it.opaque(v)):
        if isinstance(v, IList) and v.pytype is list and v.concrete() and not it.opaque(v):
            return str(nativize(v))
        return Opaque.text(it, "str", v)
    if isinstance(v, BaseException):
        a = getattr(v, "_args", None)
        if a is not None and any(it.opaque(x) for x in a):
            return it.run_text("exc")
        return str(v)
    if id(v) in NEWOBJ:
        m = None
        for k in type(v).__mro__:
            if "__str__" in k.__dict__:
                m = k.__dict__["__str__"]
                break
        import types

        if isinstance(m, types.FunctionType):
            return it.call(m, [v])
        return it.run_text("object")
    if isinstance(v, Sym):
        if hasattr(v, "sym_str"):
            return v.sym_str(it)
        raise Unsupported(f"str of {v!r}")
    return str(v)


def int_text(it, t):
    """decimal text of an integer (one text for one number)"""
    f = uf("int_text", IntS, StrS)
    g = uf("text_int", StrS, IntS)
    s = f(t)
    it.run.assume(g(s) == t)
    it.run.assume(z3.Length(s) > 0)
    it.run.assume(z3.InRe(s, z3.Concat(z3.Option(z3.Re("-")), z3.Plus(z3.Range("0", "9")))))
    return s


class Opaque:
    """text that the engine does not look into: equal only if made from equal parts"""

    @staticmethod
    def text(it, what, *parts):
        for rec in it.run.logs.setdefault("opaque", []):
            if rec[0] == what and len(rec[1]) == len(parts):
                if all(quick_same(it, x, y) or lists_same(it, x, y) for x, y in zip(rec[1], parts)):
                    return SStr(rec[2])
        s = it.run.fresh("text", StrS)
        if not it.run.frames:
            # lists may change later: what they hold now
            parts = [IList(list(x.items), x.pytype) if isinstance(x, IList) else x for x in parts]
            it.run.logs["opaque"].append((what, parts, s))
        return SStr(s)


def lists_same(it, a, b):
    """two lists hold equal items in the same order"""
    if not (isinstance(a, (IList, SSeq)) and isinstance(b, (IList, SSeq))):
        return False
    if getattr(a, "pytype", list) is not getattr(b, "pytype", list):
        return False
    from .goals import as_items, lists_match

    x, y = as_items(a), as_items(b)
    if any(isinstance(v, Rest) for v in x + y):
        return False
    return lists_match(it, x, y, True)[0] is True


def quick_same(it, a, b):
    if a is b and not isinstance(a, (IList, IDict)):
        return True
    if isinstance(a, Sym) and type(a) is type(b) and hasattr(a, "t"):
        return a.t.eq(b.t) or z3.simplify(a.t).eq(z3.simplify(b.t))
    if isinstance(a, (str, int, float, bool, type(None))) and type(a) is type(b):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(quick_same(it, x, y) for x, y in zip(a, b))
    if isinstance(a, IList) and isinstance(b, IList) and len(a.items) == len(b.items) and a.concrete() and b.concrete():
        return all(quick_same(it, x, y) for x, y in zip(a.items, b.items))
    return False


def to_repr(it, v):
    v = it.force(v)
    if isinstance(v, SStr):
        return SStr(uf("repr", StrS, StrS)(v.t))
    if isinstance(v, (SInt, SBool)):
        return to_str(it, v)
    if it.opaque(v) or isinstance(v, Sym):
        return Opaque.text(it, "repr", v)
    return repr(nativize(v))


def format_value(it, v, spec):
    v = it.force(v)
    if spec == "":
        return to_str(it, v)
    if not it.opaque(v) and not isinstance(v, Sym) and isinstance(spec, str):
        try:
            return format(v, spec)
        except Exception as exc:  # noqa
            from .values import PyRaise

            raise PyRaise(exc)
    return Opaque.text(it, "format", v, spec)


_PCT = re.compile(r"%(?:\((\w+)\))?([-+ 0#]*\d*(?:\.\d+)?)([diouxXeEfFgGcrsa%])")


def percent(it, fmt, arg):
    if isinstance(fmt, SStr):
        return Opaque.text(it, "%", fmt, arg)
    args = list(arg) if isinstance(arg, tuple) else [arg]
    parts, pos, n = [], 0, 0
    for m in _PCT.finditer(fmt):
        parts.append(fmt[pos : m.start()])
        pos = m.end()
        if m.group(3) == "%":
            parts.append("%")
            continue
        if m.group(1):
            raise Unsupported("% with names")
        if n >= len(args):
            raise PyRaise(TypeError("not enough arguments for format string"))
        a = it.force(args[n])
        n += 1
        c, flags = m.group(3), m.group(2)
        if c in "diouxXeEfFgGc":
            num = isinstance(a, (int, float, SInt, SBool))
            if not num:
                if isinstance(a, (str, SStr, type(None), IList, IDict)):
                    raise PyRaise(TypeError(f"%{c} format: a number is required"))
                raise Unsupported(f"%{c} of {a!r}")
            if isinstance(a, (int, float)):
                parts.append(m.group(0) % a)
            elif c == "d" and not flags:
                parts.append(to_str(it, SInt(zi(a))))
            else:
                parts.append(Opaque.text(it, m.group(0), a))
        elif c == "s":
            s = to_str(it, a)
            if flags:
                s = (m.group(0) % s) if isinstance(s, str) else Opaque.text(it, m.group(0), s)
            parts.append(s)
        else:
            parts.append(to_repr(it, a))
    parts.append(fmt[pos:])
    if n != len(args):
        raise PyRaise(TypeError("not all arguments converted during string formatting"))
    return concat(it, parts)


# ------------------------------------------------------------------------ regex
ANYCH = None


def _all():
    return z3.Full(z3.ReSort(StrS))


def _anych():
    return z3.AllChar(z3.ReSort(StrS))


def regex_z3(pattern, flags=0):
    """z3 regular expression of a Python pattern, anchors at the ends separately"""
    p = sre_parse.parse(pattern, flags)
    items = list(p)
    start = end = None
    while items and items[0][0] is sre_c.AT and items[0][1] in (sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING):
        start = True
        items.pop(0)
    while items and items[-1][0] is sre_c.AT and items[-1][1] in (sre_c.AT_END, sre_c.AT_END_STRING):
        e = "z" if items[-1][1] is sre_c.AT_END_STRING else "$"
        end = e if end in (None, "$") else end
        items.pop()
    if p.state.flags & (re.I | re.M | re.X | re.L):
        raise Unsupported("regular expression flags")
    return _seq(items, p.state.flags), start, end


def _ch(o):
    return z3.Re(z3.StringVal("\\u{%x}" % o))


def _cls(items, flags):
    out = []
    neg = False
    for op, av in items:
        if op is sre_c.NEGATE:
            neg = True
        elif op is sre_c.LITERAL:
            out.append(_ch(av))
        elif op is sre_c.RANGE:
            out.append(z3.Range(z3.StringVal("\\u{%x}" % av[0]), z3.StringVal("\\u{%x}" % av[1])))
        elif op is sre_c.CATEGORY:
            out.append(_cat(av, flags))
        else:
            raise Unsupported(f"regular expression {op}")
    r = out[0] if len(out) == 1 else z3.Union(*out)
    if neg:
        r = z3.Intersect(_anych(), z3.Complement(r))
    return r


def _cat(av, flags):
    if av is sre_c.CATEGORY_DIGIT and flags & re.A:
        return z3.Range("0", "9")
    raise Unsupported("regular expression category")


def _seq(items, flags):
    out = [_item(op, av, flags) for op, av in items]
    if not out:
        return z3.Re("")
    return out[0] if len(out) == 1 else z3.Concat(*out)


def _item(op, av, flags):
    if op is sre_c.LITERAL:
        return _ch(av)
    if op is sre_c.NOT_LITERAL:
        return z3.Intersect(_anych(), z3.Complement(_ch(av)))
    if op is sre_c.ANY:
        if flags & re.S:
            return _anych()
        return z3.Intersect(_anych(), z3.Complement(_ch(10)))
    if op is sre_c.IN:
        return _cls(av, flags)
    if op is sre_c.BRANCH:
        return z3.Union(*[_seq(list(x), flags) for x in av[1]])
    if op is sre_c.SUBPATTERN:
        if av[1] or av[2]:
            raise Unsupported("regular expression flags")
        return _seq(list(av[3]), flags)
    if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
        lo, hi, sub = av
        r = _seq(list(sub), flags)
        if hi is sre_c.MAXREPEAT:
            if lo == 0:
                return z3.Star(r)
            if lo == 1:
                return z3.Plus(r)
            return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        if (lo, hi) == (0, 1):
            return z3.Option(r)
        return z3.Loop(r, lo, hi)
    raise Unsupported(f"regular expression {op}")


def pattern_term(pattern, how, s):
    """z3 condition: pattern matches s"""
    if isinstance(pattern, re.Pattern):
        r, start, end = regex_z3(pattern.pattern, pattern.flags & ~re.U)
        tail = z3.Re("")
        if how == "fullmatch":
            return z3.InRe(s, r)
        if end is None:
            tail = _all()
        elif end == "$":
            tail = z3.Option(z3.Re("\\u{a}"))
        if how == "match" or start:
            return z3.InRe(s, z3.Concat(r, tail))
        return z3.InRe(s, z3.Concat(_all(), r, tail))
    return uf("re_" + how, StrS, StrS, BoolS)(zs(pattern), s)


def zstr(t):
    """Python text of a z3 string value"""
    s = t.as_string()
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


class SPattern(Sym):
    """compiled regular expression of unknown text"""

    def __init__(self, text):
        self.text = text

    def subst(self, pairs):
        return SPattern(subst(self.text, pairs))

    def sym_getattr(self, it, name):
        if name == "pattern":
            return self.text
        if name in ("fullmatch", "match", "search"):
            return Model(name, lambda i, a, k: do_match(i, self.text, name, a[0]))
        raise Unsupported("pattern." + name)


MATCH = ObjClass("Match")
MATCH.truth = lambda it, o: True


def do_match(it, pattern, how, s):
    s = it.force(s)
    if not is_text(s):
        if isinstance(s, (SObj, SInt, SBool, IList, IDict, int, float, list, dict, type(None))):
            if isinstance(s, SObj):
                raise Unsupported("matching of an object")
            raise PyRaise(TypeError("expected string or bytes-like object"))
        raise Unsupported("match")
    if isinstance(pattern, SStr):
        pt = z3.simplify(pattern.t)
        if z3.is_string_value(pt):
            pattern = zstr(pt)
    if isinstance(pattern, str):
        pattern = re.compile(pattern)
    if isinstance(s, str) and isinstance(pattern, re.Pattern):
        return getattr(pattern, how)(s)
    t = pattern_term(pattern, how, zs(s))
    if it.run.decide(t):
        return SObj(it.run.fresh("match", Obj), MATCH)
    return None


# ------------------------------------------------------------------- operators
def binop(it, op, a, b):
    a, b = it.force(a), it.force(b)
    if isinstance(op, ast.Add):
        if is_text(a) and is_text(b):
            return concat(it, [a, b])
        if is_text(a) or is_text(b):
            if isinstance(a, (str, SStr, int, float, SInt, type(None), IList, tuple)) and isinstance(b, (str, SStr, int, float, SInt, type(None), IList, tuple)):
                raise PyRaise(TypeError("can only concatenate str"))
            raise Unsupported(f"+ of {a!r} and {b!r}")
        if isinstance(a, IList) and isinstance(b, (IList, SSeq)):
            out = it.new_list()
            list_extend(it, out, a)
            list_extend(it, out, b)
            return out
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, EnclosingTuple):
            return a.add(b)
    if isinstance(op, ast.Mod) and is_text(a):
        return percent(it, a, b)
    if isinstance(op, ast.Mult):
        if is_text(a) and isinstance(b, int):
            return concat(it, [a] * b)
        if isinstance(a, IList) and isinstance(b, int) and a.concrete():
            return it.new_list(list(a.items) * b)
    num = (int, float, SInt, SBool)
    if isinstance(a, num) and isinstance(b, num):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return _native_binop(op, a, b)
        if isinstance(a, float) or isinstance(b, float) or isinstance(op, ast.Div):
            return sreal(it, op, a, b)
        x, y = zi(a), zi(b)
        if isinstance(op, ast.Add):
            return SInt(x + y)
        if isinstance(op, ast.Sub):
            return SInt(x - y)
        if isinstance(op, ast.Mult):
            return SInt(x * y)
        raise Unsupported("integer operator")
    if isinstance(a, SReal) or isinstance(b, SReal):
        return sreal(it, op, a, b)
    if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and any(isinstance(x, IList) for x in (a, b)) and all(isinstance(x, (set, frozenset)) or isinstance(x, IList) and x.pytype is set for x in (a, b)):
        return set_op(it, op, a, b)
    if isinstance(op, (ast.BitOr, ast.BitAnd)) and isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        f = z3.Or if isinstance(op, ast.BitOr) else z3.And
        return SBool(f(_b(a), _b(b)))
    if isinstance(a, SObj) and "__binop__" in a.cls.methods:
        return a.cls.methods["__binop__"](it, a, [op, b], {})
    if isinstance(op, ast.Div) and isinstance(a, SObj):
        m = a.cls.methods.get("__truediv__")
        if m:
            return m(it, a, [b], {})
    if it.opaque(a) or it.opaque(b):
        raise Unsupported(f"operator {type(op).__name__} on {a!r}, {b!r}")
    try:
        return _native_binop(op, nativize(a), nativize(b))
    except Exception as exc:  # noqa
        raise PyRaise(exc)


def set_op(it, op, a, b):
    out = it.new_list([], set)
    list_extend(it, out, a)
    if isinstance(op, ast.BitOr):
        list_extend(it, out, b)
        return out
    out = it.new_list([], set)

    def keep(v):
        if it.truth(contains(it, b, v)) == isinstance(op, ast.BitAnd):
            it.list_append(out, [v])

    it.iterate(a, keep)
    return out


class EnclosingTuple(Sym):
    """tuple of unknown content, extended at its end"""

    def __init__(self, name, added=()):
        self.name, self.added = name, tuple(added)

    def add(self, other):
        if not isinstance(other, tuple):
            raise Unsupported("tuple +")
        return type(self)(self.name, self.added + other)

    def member_facts(self, it, x):
        pass

    def parts(self, it):
        raise Unsupported(f"iteration of {self!r}")

    def subst(self, pairs):
        return type(self)(self.name, [subst(x, pairs) for x in self.added])


def _b(v):
    return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))


def _native_binop(op, a, b):
    import operator as o

    return {
        ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv,
        ast.Mod: o.mod, ast.Pow: o.pow, ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.BitXor: o.xor,
    }[type(op)](a, b)


class SReal(Sym):
    """number known by the operation that gave it (floating point is not modelled)"""

    def __init__(self, t):
        self.t = t

    def subst(self, pairs):
        return SReal(z3.substitute(self.t, *pairs))


def to_real(v):
    if isinstance(v, SReal):
        return v.t
    if isinstance(v, float):
        return z3.RealVal(repr(v))
    return z3.ToReal(zi(v))


def sreal(it, op, a, b):
    x, y = to_real(a), to_real(b)
    if isinstance(op, ast.Div):
        if it.run.decide(y == 0):
            raise PyRaise(ZeroDivisionError())
        return SReal(uf("fdiv", z3.RealSort(), z3.RealSort(), z3.RealSort())(x, y))
    raise Unsupported("floating point")


def eqterm(it, a, b):
    """a == b as bool or z3 condition"""
    a, b = it.force(a), it.force(b)
    if a is b:
        return True
    if isinstance(a, SObj) and isinstance(b, SObj):
        if a.cls.eq:
            return a.cls.eq(it, a, b)
        if b.cls.eq:
            return b.cls.eq(it, b, a)
        return (a.t == b.t) if a.t.sort() == b.t.sort() else False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SObj):
            if x.cls.eq:
                return x.cls.eq(it, x, y)
            if y is None:
                return False
            if isinstance(y, (str, SStr, int, SInt, bool, tuple, IList, IDict)) and not getattr(x.cls, "valuelike", False):
                return False
            raise Unsupported(f"comparison of {x!r} with {y!r}")
    if is_text(a) and is_text(b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SStr) and isinstance(y, str) and z3.is_app(x.t) and x.t.decl().name() == "int_text":
                # decimal text of a number
                return x.t.arg(0) == int(y) if re.fullmatch("0|-?[1-9][0-9]*", y, re.A) else False
        return zs(a) == zs(b) if isinstance(a, SStr) or isinstance(b, SStr) else a == b
    num = (int, bool, SInt, SBool)
    if isinstance(a, SBool) and isinstance(b, (bool, SBool)) or isinstance(b, SBool) and isinstance(a, (bool, SBool)):
        return _b(a) == _b(b)
    if isinstance(a, num) and isinstance(b, num):
        return zi(a) == zi(b) if isinstance(a, Sym) or isinstance(b, Sym) else a == b
    if isinstance(a, SReal) or isinstance(b, SReal):
        if isinstance(a, num + (float, SReal)) and isinstance(b, num + (float, SReal)):
            return to_real(a) == to_real(b)
        return False
    if isinstance(a, EnclosingTuple) and isinstance(b, EnclosingTuple) and a.name == b.name and len(a.added) == len(b.added):
        a, b = a.added, b.added
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return conj([eqterm(it, x, y) for x, y in zip(a, b)])
    if isinstance(a, (IList, list)) and isinstance(b, (IList, list)):
        x = a.items if isinstance(a, IList) else a
        y = b.items if isinstance(b, IList) else b
        if (isinstance(a, IList) and not a.concrete()) or (isinstance(b, IList) and not b.concrete()):
            # equal as sequences
            from .goals import seq_equal_term

            return seq_equal_term(it, a, b)
        if len(x) != len(y):
            return False
        return conj([eqterm(it, p, q) for p, q in zip(x, y)])
    simple = (str, SStr, int, float, bool, SInt, SBool, type(None), tuple, IList, IDict, bytes)
    if isinstance(a, simple) and isinstance(b, simple):
        if isinstance(a, IDict) and isinstance(b, IDict):
            raise Unsupported("dict comparison")
        if isinstance(a, Sym) or isinstance(b, Sym) or isinstance(a, (IList, IDict, tuple)) or isinstance(b, (IList, IDict, tuple)):
            return False  # of different types
        return a == b
    if isinstance(a, Sym) or isinstance(b, Sym):
        x, y = (a, b) if isinstance(a, Sym) else (b, a)
        f = getattr(x, "sym_eq", None)
        if f:
            return f(it, y)
        if y is None:
            return False
        if not isinstance(y, (Sym, IList, IDict)):
            return False  # native object against text/number
        raise Unsupported(f"comparison of {a!r} and {b!r}")
    if id(a) in NEWOBJ or id(b) in NEWOBJ:
        return a is b or same_template(a, b)
    if isinstance(a, (IList, IDict, IFunc, Model)) or isinstance(b, (IList, IDict, IFunc, Model)):
        return False
    try:
        return bool(a == b)
    except Exception as exc:  # noqa
        raise PyRaise(exc)


def same_template(a, b):
    return False


def conj(ts):
    out = []
    for t in ts:
        if isinstance(t, bool):
            if not t:
                return False
        else:
            out.append(t)
    if not out:
        return True
    return z3.And(out)


def disj(ts):
    out = []
    for t in ts:
        if isinstance(t, bool):
            if t:
                return True
        else:
            out.append(t)
    if not out:
        return False
    return z3.Or(out)


def neg(t):
    return (not t) if isinstance(t, bool) else z3.Not(t)


def wrap(t):
    return t if isinstance(t, bool) else SBool(t)


def lazy_compare(it, op, a, b):
    """comparison that decides nothing about the kind of a value"""
    neg_ = isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn))
    r = NotImplemented
    if isinstance(op, (ast.Is, ast.IsNot)):
        if b is None:
            r = a.lis_none(it)
    elif isinstance(op, (ast.Eq, ast.NotEq)):
        if not isinstance(b, LVal):
            r = a.leq(it, b)
    elif isinstance(op, (ast.In, ast.NotIn)):
        r = a.lin(it, it.force(b))
    if r is NotImplemented:
        return r
    return wrap(neg(r) if neg_ else r)


def compare(it, op, a, b):
    if isinstance(a, LVal):
        r = lazy_compare(it, op, a, b)
        if r is not NotImplemented:
            return r
    elif isinstance(b, LVal) and isinstance(op, (ast.Eq, ast.NotEq)):
        r = lazy_compare(it, op, b, a)
        if r is not NotImplemented:
            return r
    a, b = it.force(a), it.force(b)
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = identical(it, a, b)
        return wrap(neg(r) if isinstance(op, ast.IsNot) else r)
    if isinstance(op, ast.Eq):
        return wrap(eqterm(it, a, b))
    if isinstance(op, ast.NotEq):
        return wrap(neg(eqterm(it, a, b)))
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(it, b, a)
        return wrap(neg(r) if isinstance(op, ast.NotIn) else r)
    if isinstance(a, (SReal,)) or isinstance(b, (SReal,)):
        raise Unsupported("real comparison")
    num = (int, float, bool, SInt, SBool)
    if isinstance(a, num) and isinstance(b, num):
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, float) or isinstance(b, float):
                raise Unsupported("float comparison")
            x, y = zi(a), zi(b)
            return SBool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
    if isinstance(a, SObj) and "__lt__" in a.cls.methods:
        return a.cls.methods["__lt__"](it, a, [op, b], {})
    if is_text(a) and is_text(b) and (isinstance(a, SStr) or isinstance(b, SStr)):
        x, y = zs(a), zs(b)
        return SBool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: y < x, ast.GtE: y <= x}[type(op)])
    if it.opaque(a) or it.opaque(b):
        if isinstance(a, type(None)) or isinstance(b, type(None)):
            raise PyRaise(TypeError("not supported between instances"))
        if isinstance(a, tuple) and isinstance(b, tuple):
            raise Unsupported("order of tuples")
        raise Unsupported(f"order of {a!r} and {b!r}")
    import operator as o

    f = {ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge}[type(op)]
    try:
        return f(nativize(a), nativize(b))
    except Exception as exc:  # noqa
        raise PyRaise(exc)


def identical(it, a, b):
    for x, y in ((a, b), (b, a)):
        if y is None or y is True or y is False:
            if isinstance(x, SBool) and y is not None:
                return x.t if y else z3.Not(x.t)
            if isinstance(x, SObj):
                f = x.cls.attrs.get("is")
                if f:
                    return f(it, x)(y)
                return False
            if isinstance(x, Sym) or isinstance(x, (IList, IDict)):
                f = getattr(x, "sym_is", None)
                return f(it, y) if f else False
            return x is y
    if isinstance(a, SObj) and isinstance(b, SObj):
        return eqterm(it, a, b)
    if isinstance(a, SObj) or isinstance(b, SObj):
        x, y = (a, b) if isinstance(a, SObj) else (b, a)
        f = x.cls.attrs.get("is")
        if f:
            return f(it, x)(y)
        return eqterm(it, x, y)
    return a is b


def contains(it, c, x):
    c, x = it.force(c), it.force(x)
    if is_text(c):
        if not is_text(x):
            if x is None or isinstance(x, (int, float, SInt, SBool, IList, IDict, tuple)):
                raise PyRaise(TypeError("'in <string>' requires string as left operand"))
            raise Unsupported(f"{x!r} in text")
        return z3.Contains(zs(c), zs(x)) if isinstance(c, SStr) or isinstance(x, SStr) else x in c
    if isinstance(c, IList):
        it.list_read(c)
        return disj([item_contains(it, y, x) for y in c.items])
    if isinstance(c, tuple) or (isinstance(c, (list, set, frozenset))):
        return disj([eqterm(it, y, x) for y in c])
    if isinstance(c, IDict):
        it.list_read(c)
        if c.rest is not None:
            raise Unsupported("unknown dict")
        return disj([item_contains(it, e, x, True) if isinstance(e, Piece) else eqterm(it, e[0], x) for e in c.entries])
    if isinstance(c, (dict, type({}.keys()), collections.abc.Mapping)):
        return disj([eqterm(it, k, x) for k in c])
    if isinstance(c, SMap):
        if not is_text(x):
            if isinstance(x, SObj) and getattr(x.cls, "valuelike", False):
                raise Unsupported("object in mapping")
            return False
        return c.contains(zs(x))
    if isinstance(c, SSeq):
        return piece_exists(it, Piece(c, z3.Int("q"), [PiecePath(z3.BoolVal(True), [], [c.at(z3.Int("q"))])]), x)
    if isinstance(c, SObj):
        if c.cls.contains is None:
            raise Unsupported(f"in {c!r}")
        return c.cls.contains(it, c, x)
    if isinstance(c, EnclosingTuple):
        c.member_facts(it, x)
        t = x.cls.ident(x) if hasattr(x.cls, "ident") else x.t  # what == compares
        f = uf("in_" + c.name, t.sort(), BoolS)
        return disj([f(t)] + [eqterm(it, y, x) for y in c.added])
    if isinstance(c, Sym):
        f = getattr(c, "sym_contains", None)
        if f:
            return f(it, x)
        raise Unsupported(f"in {c!r}")
    if it.opaque(x):
        raise Unsupported(f"{x!r} in {c!r}")
    return x in c


def item_contains(it, y, x, isdict=False):
    if isinstance(y, Rest):
        raise Unsupported("search in an unknown list")
    if isinstance(y, Piece):
        return piece_exists(it, y, x, isdict)
    return eqterm(it, y, x)


def piece_exists(it, pc, x, isdict=False):
    """some item of the piece equals x"""
    j = z3.Int("jx")
    opts = []
    for p in pc.paths_at(j):
        for v in p.values:
            if isinstance(v, Piece):
                raise Unsupported("nested piece")
            t = eqterm(it, v[0] if isdict else v, x)
            opts.append(conj([p.guard, t]))
    b = disj(opts)
    if isinstance(b, bool):
        if not b:
            return False
        return z3.Exists([j], pc.dom(j))
    return z3.Exists([j], z3.And(pc.dom(j), b))


# ----------------------------------------------------------------- containers
def length(it, v):
    v = it.force(v)
    if isinstance(v, SStr):
        return SInt(z3.Length(v.t))
    if isinstance(v, IList):
        it.list_read(v)
        if v.concrete():
            if v.pytype is not list:
                raise_if_dups(it, v)
            return len(v.items)
        return count(it, v.items)
    if isinstance(v, IDict):
        if v.concrete():
            return len(v.entries)
        if v.rest is not None:
            raise Unsupported("len of unknown dict")
        if len([e for e in v.entries if isinstance(e, Piece)]) == len(v.entries):
            # zero or not is all that is known
            c = it.run.fresh("len", IntS)
            it.run.assume(c >= 0)
            for e in v.entries:
                j = z3.Int("jl")
                g = disj([p.guard for p in e.paths_at(j) if p.values])
                it.run.assume(z3.Implies(c == 0, z3.ForAll([j], z3.Implies(e.dom(j), neg(g) if not isinstance(g, bool) else z3.BoolVal(not g)))))
                it.run.assume(z3.Implies(c > 0, z3.Exists([j], z3.And(e.dom(j), g if not isinstance(g, bool) else z3.BoolVal(g)))) if len(v.entries) == 1 else True)
            return SInt(c)
        raise Unsupported("len of dict")
    if isinstance(v, SSeq):
        if v.full:
            it.run.assume(v.n >= 0)
            return SInt(v.n)
        i = z3.Int("q")
        return count(it, [Piece(v, i, [PiecePath(z3.BoolVal(True), [], [None])])])
    if isinstance(v, SMap):
        it.run.assume(v.keys.n >= 0)
        return SInt(v.keys.n)
    if isinstance(v, SObj):
        if v.cls.length is None:
            if getattr(v.cls, "nolen", False):
                raise PyRaise(TypeError("object has no len()"))
            raise Unsupported(f"len of {v!r}")
        return v.cls.length(it, v)
    if isinstance(v, (int, float, SInt, SBool, type(None))):
        raise PyRaise(TypeError("object has no len()"))
    if isinstance(v, Sym):
        raise Unsupported(f"len of {v!r}")
    try:
        return len(v)
    except TypeError as exc:
        raise PyRaise(exc)


def raise_if_dups(it, v):
    if len(v.items) > 1 and it.opaque(v):
        raise Unsupported("size of a symbolic set")


def count(it, items):
    """number of items of a list with pieces"""
    total = z3.IntVal(0)
    simple = 0
    pieces = []
    for x in items:
        if isinstance(x, Piece):
            pieces.append(x)
        elif isinstance(x, Rest):
            raise Unsupported("len of an unknown list")
        else:
            simple += 1
    total = z3.IntVal(simple)
    for pc in pieces:
        if any(isinstance(v, Piece) for p in pc.paths for v in p.values):
            raise Unsupported("len of nested pieces")
        if pc.seq.full and pc.upto is None and len({len(p.values) for p in pc.paths}) == 1:
            total = total + len(pc.paths[0].values) * pc.seq.n
            it.run.assume(pc.seq.n >= 0)
            continue
        deltas = [(p.guard, z3.IntVal(len(p.values))) for p in pc.paths]
        s = it.sum_term(pc.seq, pc.idx, deltas, pc.upto)
        # one item: there is a single iteration that gives it; two: there are two
        if all(len(p.values) <= 1 for p in pc.paths):
            g = lambda j: z3.And(pc.dom(j), z3.Or([z3.substitute(p.guard, (pc.idx, j)) for p in pc.paths if p.values] or [z3.BoolVal(False)]))  # noqa
            w, w2 = it.run.fresh("w", IntS), it.run.fresh("w", IntS)
            j = z3.Int("jc")
            it.run.assume(z3.Implies(s >= 1, g(w)))
            it.run.assume(z3.Implies(s == 1, z3.ForAll([j], z3.Implies(g(j), j == w))))
            it.run.assume(z3.Implies(s >= 2, z3.And(g(w2), w != w2)))
            it.run.logs.setdefault("witness", []).append((pc, s, w))
        total = total + s
    return SInt(z3.simplify(total))


def segments(it, v):
    """[("items", [..]) | ("seq", SSeq) | ("piece", Piece)] in order of iteration"""
    v = it.force(v)
    if isinstance(v, IList):
        it.list_read(v)
        if v.pytype is not list and v.pytype is not tuple and len(v.items) > 1:
            pass  # any order; items may repeat
        return _segs(v.items)
    if isinstance(v, IDict):
        it.list_read(v)
        if v.rest is not None:
            raise Unsupported("iteration of an unknown dict")
        return [(k, [e[0] for e in s] if k == "items" else dict_piece(it, s, 0)) for k, s in _segs(v.entries)]
    if isinstance(v, SSeq):
        return [("seq", v)]
    if isinstance(v, SMap):
        return [("seq", v.keys)]
    if isinstance(v, SObj):
        if v.cls.iterate is None:
            if getattr(v.cls, "noiter", False):
                raise PyRaise(TypeError("object is not iterable"))
            raise Unsupported(f"iteration of {v!r}")
        return segments(it, v.cls.iterate(it, v))
    if isinstance(v, SStr):
        raise Unsupported("iteration over characters")
    if isinstance(v, EnclosingTuple):
        return v.parts(it) + [("items", list(v.added))]
    if isinstance(v, Sym):
        raise Unsupported(f"iteration of {v!r}")
    if isinstance(v, (int, float, type(None))):
        raise PyRaise(TypeError("object is not iterable"))
    try:
        return [("items", list(v))]
    except TypeError as exc:
        raise PyRaise(exc)


def _segs(items):
    out = []
    for x in items:
        if isinstance(x, Piece):
            out.append(("piece", x))
        elif isinstance(x, Rest):
            raise Unsupported("iteration of an unknown list")
        else:
            if not out or out[-1][0] != "items":
                out.append(("items", []))
            out[-1][1].append(x)
    return out


def dict_piece(it, pc, which):
    """keys (0), values (1) or items (2) of a dict filled by a loop.  A key that
    is inserted twice appears twice here: allowed only if the value is a
    function of the key (then the loop sees the same item again)."""
    for p in pc.paths:
        if len(p.values) > 1:
            raise Unsupported("dict with several insertions per iteration")
    a, b = z3.Int("da"), z3.Int("db")
    ok = []
    unique = []
    for p in pc.paths_at(a):
        for q in pc.paths_at(b):
            if p.values and q.values:
                (k1, v1), (k2, v2) = p.values[0], q.values[0]
                same = conj([pc.dom(a), pc.dom(b), p.guard, q.guard, eqterm(it, k1, k2)])
                try:
                    ok.append(z3.Implies(same, _t(eqterm(it, v1, v2))))
                except Unsupported:
                    ok.append(z3.BoolVal(False))
                unique.append(z3.Implies(same, a == b))
    u = it.run.valid(z3.And(unique)) if unique else True
    if not u and not it.run.valid(z3.And(ok)):
        raise Unsupported("dict whose keys may repeat")
    sel = (lambda kv: kv[which]) if which < 2 else (lambda kv: (kv[0], kv[1]))
    out = Piece(pc.seq, pc.idx, [PiecePath(p.guard, p.facts, [sel(v) for v in p.values]) for p in pc.paths], pc.upto)
    out.repeats = not u
    return out


def _t(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def concrete_items(it, v):
    out = []
    for k, s in segments(it, v):
        if k != "items":
            raise Unsupported("items of a symbolic sequence")
        out.extend(s)
    return out


def unpack(it, v, n):
    v = it.force(v)
    if isinstance(v, tuple):
        if len(v) != n:
            raise PyRaise(ValueError("unpack"))
        return list(v)
    if isinstance(v, IList) and v.concrete():
        if len(v.items) != n:
            raise PyRaise(ValueError("unpack"))
        return list(v.items)
    if isinstance(v, (list, str)):
        if len(v) != n:
            raise PyRaise(ValueError("unpack"))
        return list(v)
    raise Unsupported(f"unpacking of {v!r}")


def list_extend(it, lst, v):
    v = it.force(v)
    vals = []
    if isinstance(v, IList):
        it.list_read(v)
        vals = list(v.items)
    elif isinstance(v, (SSeq, SMap, SObj)):
        for k, s in segments(it, v):
            if k == "items":
                vals.extend(s)
            elif k == "seq":
                i = z3.Int("q")
                vals.append(Piece(s, i, [PiecePath(z3.BoolVal(True), [], [s.at(i)])]))
            else:
                vals.append(s)
    elif isinstance(v, IDict):
        for k, s in segments(it, v):
            vals.extend(s if k == "items" else [s])
    elif isinstance(v, Sym):
        raise Unsupported(f"extend by {v!r}")
    elif isinstance(v, (int, float, type(None))):
        raise PyRaise(TypeError("object is not iterable"))
    else:
        vals = list(v)
    it.list_append(lst, vals)


def norm_index(it, k):
    k = it.force(k)
    return k


def fixed_end(o, k):
    """the first (the last, if negative) items of a list are known one by one"""
    if not isinstance(k, int) or abs(k) > len(o.items):
        return False
    return not any(isinstance(x, (Piece, Rest)) for x in (o.items[:k] if k >= 0 else o.items[k:]))


def getitem(it, o, k):
    o, k = it.force(o), it.force(k)
    if isinstance(o, IList):
        it.list_read(o)
        if isinstance(k, slice):
            if o.concrete() and not any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
                return it.new_list(o.items[k], o.pytype)
            if k.step is None and fixed_end(o, k.start or 0) and (k.stop is None or fixed_end(o, k.stop)):
                a, b = k.start or 0, k.stop
                return it.new_list(o.items[a:b], o.pytype)
            raise Unsupported("slice of a symbolic list")
        if isinstance(k, int):
            if o.concrete():
                try:
                    return it.force(o.items[k])
                except IndexError as exc:
                    raise PyRaise(exc)
            if k == 0 or k == -1:
                return end_item(it, o.items if k == 0 else o.items[::-1], k)
            if fixed_end(o, k + 1 if k >= 0 else k):
                return it.force(o.items[k])
        raise Unsupported("index into a symbolic list")
    if isinstance(o, IDict):
        for e in o.entries:
            if isinstance(e, Piece):
                continue
            if it.run.decide(eqterm(it, e[0], k)):
                if any(isinstance(x, Piece) for x in o.entries):
                    raise Unsupported("lookup in a dict filled by a loop")
                u = it.uid_of(o)
                it.cell_read(("dict", u, keyid(e[0])), u)
                e[1] = it.force(e[1])
                return e[1]
        ps = [e for e in o.entries if isinstance(e, Piece)]
        if ps and it.dict_item_hook is not None and not it.run.frames:
            return getitem(it, it.dict_item_hook(o), k)
        if ps:
            return dict_piece_lookup(it, o, ps, k)
        if o.rest is not None:
            raise Unsupported("unknown dict")
        raise PyRaise(KeyError(k if not it.opaque(k) else "?"))
    if isinstance(o, SMap):
        if not is_text(k):
            if isinstance(k, SObj):
                raise Unsupported("object as key")
            raise PyRaise(KeyError("?"))
        if it.run.decide(o.contains(zs(k))):
            return o.get(zs(k))
        raise PyRaise(KeyError("?"))
    if isinstance(o, SSeq):
        if isinstance(k, (int, SInt)) and o.full and o.plain:
            t = zi(k)
            if isinstance(k, int) and k < 0:
                t = o.n + k
            if it.run.decide(z3.And(t >= 0, t < o.n)):
                return o.at(t)
            raise PyRaise(IndexError("index out of range"))
        if isinstance(k, int) and k in (0, -1):
            i = z3.Int("q")
            return end_item(it, [Piece(o, i, [PiecePath(z3.BoolVal(True), [], [o.at(i)])])], k)
        raise Unsupported("index into a sequence")
    if is_text(o) and (isinstance(o, SStr) or isinstance(k, Sym) or (isinstance(k, slice) and any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)))):
        return str_item(it, o, k)
    if isinstance(o, SObj):
        if o.cls.getitem is None:
            raise Unsupported(f"index into {o!r}")
        return o.cls.getitem(it, o, k)
    if isinstance(o, Sym):
        f = getattr(o, "sym_getitem", None)
        if f:
            return f(it, k)
        raise Unsupported(f"index into {o!r}")
    if isinstance(k, Sym):
        if isinstance(o, dict):
            for kk, v in o.items():
                if it.run.decide(eqterm(it, kk, k)):
                    return v
            raise PyRaise(KeyError("?"))
        if isinstance(o, (tuple, list)) and isinstance(k, (SInt, SBool)):
            for n in range(len(o)):
                if it.run.decide(zi(k) == n):
                    return o[n]
            raise Unsupported("symbolic index")
        raise Unsupported("symbolic key")
    try:
        return it.force(o[k])
    except (Unsupported, PathEnd):
        raise
    except Exception as exc:  # noqa
        raise PyRaise(exc)


def dict_piece_lookup(it, o, ps, k):
    if len(ps) != 1 or len(o.entries) != 1:
        raise Unsupported("lookup in a dict filled by several loops")
    pc = dict_piece(it, ps[0], 2)
    found = contains(it, o, k)
    if not it.run.decide(found):
        raise PyRaise(KeyError("?"))
    w = it.run.fresh("w", IntS)
    it.run.assume(pc.dom(w))
    ps = [p for p in pc.paths_at(w) if p.values]
    it.run.assume(z3.Or([_t(conj([p.guard, eqterm(it, p.values[0][0], k)])) for p in ps]))
    for p in ps[:-1]:
        if it.run.decide(p.guard):
            break
    else:
        p = ps[-1]
        it.run.assume(p.guard)
    for x in p.facts:
        it.run.assume(x)
    return p.values[0][1]


def end_item(it, items, k):
    """first (k=0) or last (k=-1) item"""
    run = it.run
    for x in items:
        if isinstance(x, Rest):
            raise Unsupported("index into an unknown list")
        if not isinstance(x, Piece):
            return it.force(x)
        paths = [p for p in x.paths if p.values]
        if any(isinstance(v, Piece) for p in paths for v in p.values):
            raise Unsupported("nested piece")
        g = lambda j: z3.And(x.dom(j), z3.Or([z3.substitute(p.guard, (x.idx, j)) for p in paths] or [z3.BoolVal(False)]))  # noqa
        known = [(s, w) for pc, s, w in run.logs.get("witness", []) if pc is x]
        if known and run.valid(known[0][0] >= 1):
            some = True
        else:
            j = z3.Int("je")
            e = run.fresh("nonempty", BoolS)
            if x.seq.full and x.upto is None and len(paths) == len(x.paths):
                some = run.decide(x.seq.n > 0)
            else:
                some = run.decide_free(e)
            if not some:
                run.assume(z3.ForAll([j], z3.Not(g(j))))
        if some:
            if known and run.valid(known[0][0] == 1):
                w = known[0][1]
            else:
                w = run.fresh("w", IntS)
            run.assume(g(w))
            j = z3.Int("je")
            lt = (lambda a, b: x.seq.before(a, b)) if k == 0 else (lambda a, b: x.seq.before(b, a))
            run.assume(z3.ForAll([j], z3.Implies(z3.And(x.dom(j), lt(j, w)), z3.Not(g(j)))))
            el = x.seq.at(j) if x.seq.at is not None and not x.seq.plain else None
            if isinstance(el, (SStr, SObj)) and z3.is_app(el.t) and el.t.decl().kind() == z3.Z3_OP_UNINTERPRETED and occurs(j, el.t):
                # the order is total
                run.assume(z3.ForAll([j], z3.Implies(g(j), z3.Or(j == w, lt(w, j))), patterns=[el.t]))
            ps = [p.at([(x.idx, w)]) for p in paths]
            for p in ps[:-1]:
                if run.decide(p.guard):
                    break
            else:
                p = ps[-1]
                run.assume(p.guard)
            for f in p.facts:
                run.assume(f)
            return it.force(p.values[0 if k == 0 else -1])
    raise PyRaise(IndexError("list index out of range"))


def str_item(it, o, k):
    s = zs(o)
    if isinstance(k, slice):
        if k.step is not None:
            raise Unsupported("string step")
        lo = 0 if k.start is None else k.start
        n = z3.Length(s)
        def pos(x):
            if isinstance(x, int):
                return z3.IntVal(x) if x >= 0 else z3.If(n + x > 0, n + x, 0)
            if isinstance(x, SInt):
                return z3.If(x.t >= 0, x.t, z3.If(n + x.t > 0, n + x.t, 0))
            raise Unsupported("slice")
        a = pos(lo)
        b = n if k.stop is None else pos(k.stop)
        return SStr(z3.SubString(s, a, z3.If(b - a > 0, b - a, 0)))
    if isinstance(k, (int, SInt)):
        t = zi(k)
        n = z3.Length(s)
        i = z3.If(t >= 0, t, n + t)
        if it.run.decide(z3.And(i >= 0, i < n)):
            return SStr(z3.SubString(s, i, 1))
        raise PyRaise(IndexError("string index out of range"))
    raise Unsupported("string index")


def setitem(it, o, k, v):
    o, k = it.force(o), it.force(k)
    if isinstance(o, IDict):
        u = it.uid_of(o)
        for e in o.entries:
            if isinstance(e, Piece):
                continue
            t = eqterm(it, e[0], k)
            if it.run.decide(t):
                it.cell_write(("dict", u, keyid(e[0])), u, o)
                e[1] = v
                return
        old = any(u < f.birth for f in it.run.frames)
        if old:
            for f in it.run.frames:
                if u < f.birth:
                    f.appended.setdefault(u, []).append((k, v))
                    f.summary.lwrites.add(u)
                    if u in f.summary.lreads:
                        raise Unsupported("dict read and extended in the same loop")
        elif any(isinstance(e, Piece) for e in o.entries):
            # may be there already
            t = contains(it, o, k)
            if not it.run.valid(neg(t) if not isinstance(t, bool) else not t):
                raise Unsupported("insertion into a dict filled by a loop")
        o.entries.append([k, v])
        return
    if isinstance(o, IList):
        if isinstance(k, int) and o.concrete():
            it.list_mutate(o, "assignment")
            try:
                o.items[k] = v
            except IndexError as exc:
                raise PyRaise(exc)
            return
        if isinstance(k, int) and fixed_end(o, k + 1 if k >= 0 else k):
            it.list_mutate(o, "assignment")
            o.items[k] = v
            return
        raise Unsupported("list item assignment")
    if isinstance(o, SObj):
        f = o.cls.methods.get("__setitem__")
        if f is not None:
            return f(it, o, [k, v], {})
    if isinstance(o, Sym):
        f = getattr(o, "sym_setitem", None)
        if f:
            return f(it, k, v)
    h = it.models.get(("setitem", id(o)))
    if h is not None:
        return h(it, k, v)
    it.run.writes.append((o, k))
    raise Unsupported(f"item assignment to {type(o).__name__} outside of the function's frame")


def delitem(it, o, k):
    o, k = it.force(o), it.force(k)
    if isinstance(o, IDict) and not o.concrete() and it.dict_item_hook is not None and not it.run.frames:
        o = it.dict_item_hook(o)
    if isinstance(o, Sym) and hasattr(o, "sym_delitem"):
        return o.sym_delitem(it, k)
    if isinstance(o, IDict) and o.concrete():
        it.list_mutate_dict(o) if hasattr(it, "list_mutate_dict") else None
        if any(it.uid_of(o) < f.birth for f in it.run.frames):
            raise Unsupported("del in a loop")
        for n, e in enumerate(o.entries):
            if it.run.decide(eqterm(it, e[0], k)):
                del o.entries[n]
                return
        raise PyRaise(KeyError("?"))
    if isinstance(o, IList) and o.concrete() and isinstance(k, int):
        it.list_mutate(o, "del")
        try:
            del o.items[k]
        except IndexError as exc:
            raise PyRaise(exc)
        return
    if isinstance(o, SObj) and "__delitem__" in o.cls.methods:
        return o.cls.methods["__delitem__"](it, o, [k], {})
    raise Unsupported("del item")


def dict_update(it, d, other):
    other = it.force(other)
    if isinstance(other, SMap) and isinstance(d, (IDict, SMap)):
        home = d if isinstance(d, IDict) else d.home
        if home is None or any(it.uid_of(home) < f.birth for f in it.run.frames) or home.entries:
            raise Unsupported("update of a dict")
        home.over = SMap(other.base, other.contains, other.get, other.keys) if home.over is None else overlay(it, home.over, other)
        home.over.home = home
        return
    if isinstance(other, IDict):
        for e in other.entries:
            if isinstance(e, Piece):
                if any(it.uid_of(d) < f.birth for f in it.run.frames) or d.entries:
                    raise Unsupported("dict update")
                d.entries.append(e)
            else:
                setitem(it, d, e[0], e[1])
        return
    if isinstance(other, dict):
        for k, v in other.items():
            setitem(it, d, k, v)
        return
    if isinstance(other, IList):
        for x in concrete_items(it, other):
            k, v = unpack(it, x, 2)
            setitem(it, d, k, v)
        return
    raise Unsupported(f"dict update by {other!r}")


def distinct_keys(run, n, key, at=None, has=None):
    """the keys 0..n-1 of a mapping are distinct: ``at`` gives the place of a key; the keys are in the mapping (``has``)"""
    j = z3.Int("aj")
    k = key(j)
    if at is None:
        f = z3.Function(k.decl().name() + "_pos", *([x.sort() for x in k.children()[:-1]] + [StrS, IntS]))
        at = lambda s: f(*(k.children()[:-1] + [s]))  # noqa
    run.assume(n >= 0)
    facts = [at(k) == j] + ([has(k)] if has is not None else [])
    run.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(facts)), patterns=[k]))


def key_of(run, n, key, at, has):
    """is the text one of the keys (and then at a known place)"""

    def contains(s):
        run.assume(z3.Implies(has(s), z3.And(at(s) >= 0, at(s) < n, key(at(s)) == s)))
        return has(s)

    return contains


def overlay(it, a, b):
    """a.update(b) for two mappings"""
    run = it.run
    base = ("overlay",) + tuple(a.base) + tuple(b.base)
    nm = _stable(str(base))
    key, n = uf("okey_" + nm, IntS, StrS), uf("on_" + nm, IntS)()
    at = uf("oat_" + nm, StrS, IntS)
    has = lambda t: z3.Or(a.contains(t), b.contains(t))  # noqa
    distinct_keys(run, n, key, at, has)
    for m in (a, b):
        # every key of the two mappings is a key of the result
        q, i = m.keys, z3.Int("ai")
        t = zs(q.at(i))
        run.assume(z3.ForAll([i], z3.Implies(q.dom(i), z3.And(at(t) >= 0, at(t) < n, key(at(t)) == t)), patterns=[t]))

    def get(t):
        x, y = a.get(t), b.get(t)
        if isinstance(x, SObj) and isinstance(y, SObj) and x.cls is y.cls:
            return SObj(z3.If(b.contains(t), y.t, x.t), x.cls)
        raise Unsupported("mapping of different things")

    return SMap(base, has, get, SSeq(base, n, lambda j: SStr(key(j))))


# -------------------------------------------------------------- string methods
@method("str", "startswith")
def _startswith(it, s, a, kw):
    p = it.force(a[0])
    if len(a) > 1:
        raise Unsupported("startswith with range")
    if isinstance(p, tuple):
        return wrap(disj([_pre(it, s, x) for x in p]))
    return wrap(_pre(it, s, p))


def _pre(it, s, p):
    if not is_text(p):
        raise PyRaise(TypeError("startswith"))
    if isinstance(s, str) and isinstance(p, str):
        return s.startswith(p)
    return z3.PrefixOf(zs(p), zs(s))


@method("str", "endswith")
def _endswith(it, s, a, kw):
    p = it.force(a[0])
    if len(a) > 1:
        raise Unsupported("endswith with range")
    ps = p if isinstance(p, tuple) else (p,)
    out = []
    for x in ps:
        if not is_text(x):
            raise PyRaise(TypeError("endswith"))
        out.append(s.endswith(x) if isinstance(s, str) and isinstance(x, str) else suffix(zs(x), zs(s)))
    return wrap(disj(out))


def str_parts(t):
    """terms whose concatenation is t"""
    out, todo = [], [(t, False)]
    while todo:
        x, simple = todo.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            todo.extend((y, simple) for y in reversed(x.children()))
        elif not simple:  # part by part: the whole would be rewritten by cases of its parts
            todo.append((z3.simplify(x), True))
        elif out and z3.is_string_value(x) and z3.is_string_value(out[-1]):
            out[-1] = z3.simplify(z3.Concat(out[-1], x))
        else:
            out.append(x)
    return out


def suffix(x, s):
    """SuffixOf(x, s); for one character it is that of the last part which is not empty"""
    if z3.is_string_value(x) and len(x.as_string()) == 1:
        ps = str_parts(s)
        if len(ps) > 1:
            t = z3.SuffixOf(x, ps[0])
            for p in ps[1:]:
                t = z3.If(p == z3.StringVal(""), t, z3.SuffixOf(x, p))
            return z3.simplify(t)
    return z3.SuffixOf(x, s)


def _native_str(name):
    def f(it, s, a, kw):
        a = [it.force(x) for x in a]
        if isinstance(s, str) and not any(it.opaque(x) or isinstance(x, Sym) for x in a) and not kw:
            try:
                r = getattr(s, name)(*[nativize(x) for x in a])
            except Exception as exc:  # noqa
                raise PyRaise(exc)
            return it.new_list(r) if isinstance(r, list) else r
        return SYMSTR[name](it, s, a, kw)

    METHODS[("str", name)] = f


def _uf1(name):
    def f(it, s, a, kw):
        if kw:
            raise Unsupported(f"str.{name} with keywords")
        args = [zs(x) if is_text(x) else None for x in a]
        if any(x is None for x in args):
            if any(x is None for x in a) or any(isinstance(x, (int,)) for x in a):
                raise Unsupported(f"str.{name}")
            raise Unsupported(f"str.{name} of an object")
        return SStr(uf(f"str_{name}{len(args)}", *([StrS] * (len(args) + 2)))(zs(s), *args))

    return f


SYMSTR = {}
for _n in ("lstrip", "rstrip", "strip", "upper", "lower", "title", "capitalize", "casefold", "swapcase"):
    SYMSTR[_n] = _uf1(_n)


def _stripped(name, left, right):
    general = _uf1(name)

    def f(it, s, a, kw):
        out = general(it, s, a, kw)
        if len(a) == 1 and isinstance(a[0], str) and a[0]:  # a set of characters: what is left is defined
            t, r = zs(s), out.t
            sort = [StrS, StrS, StrS]
            p, q = [uf(f"cut_{name}_{x}", *sort)(t, z3.StringVal(a[0])) for x in ("left", "right")]
            chars = [z3.Re(x) for x in sorted(set(a[0]))]
            some = z3.Star(chars[0] if len(chars) == 1 else z3.Union(*chars))
            empty = z3.StringVal("")
            it.run.assume(t == z3.Concat(p, r, q))
            it.run.assume(z3.InRe(p, some) if left else p == empty)
            it.run.assume(z3.InRe(q, some) if right else q == empty)
            for x in sorted(set(a[0])):
                if left:
                    it.run.assume(z3.Not(z3.PrefixOf(z3.StringVal(x), r)))
                if right:
                    it.run.assume(z3.Not(z3.SuffixOf(z3.StringVal(x), r)))
            if right:
                it.run.assume(z3.Implies(r == empty, q == empty))
        return out

    return f


SYMSTR.update(lstrip=_stripped("lstrip", True, False), rstrip=_stripped("rstrip", False, True), strip=_stripped("strip", True, True))


def _split(it, s, a, kw):
    if not kw and not a:  # words
        n = uf("words_n", StrS, IntS)(zs(s))
        part = uf("words", StrS, IntS, StrS)
        it.run.assume(n >= 0)
        return SSeq(("words", zs(s)), n, lambda j: SStr(part(zs(s), j)))
    if kw or len(a) != 1 or not isinstance(a[0], str):
        raise Unsupported("split of symbolic text")
    return split_seq(it, zs(s), a[0])


def split_seq(it, s, sep):
    n = uf("split_n", StrS, StrS, IntS)(s, z3.StringVal(sep))
    part = uf("split_part", StrS, StrS, IntS, StrS)
    it.run.assume(n >= 1)
    tail = last_part(it, s, sep)
    if tail is not None:
        it.run.assume(n >= 2)
        return SSeq(("split", s, sep), n, lambda j: SStr(tail if z3.is_expr(j) and z3.simplify(j - n).eq(z3.IntVal(-1)) else part(s, z3.StringVal(sep), j)))
    it.run.assume((n == 1) == z3.Not(z3.Contains(s, z3.StringVal(sep))))
    last = part(s, z3.StringVal(sep), n - 1)
    it.run.assume(z3.SuffixOf(last, s))
    it.run.assume(z3.Not(z3.Contains(last, z3.StringVal(sep))))
    it.run.assume(z3.Or(last == s, z3.SuffixOf(z3.Concat(z3.StringVal(sep), last), s)))
    it.run.assume(z3.PrefixOf(part(s, z3.StringVal(sep), z3.IntVal(0)), s))

    def at(j):
        t = part(s, z3.StringVal(sep), j)
        return SStr(t)

    return SSeq(("split", s, sep), n, at)


def last_part(it, s, sep):
    """t if s is written as ... + sep + t and t has no sep in it"""
    parts = str_parts(s)
    if len(parts) < 2:
        return None
    t, before = parts[-1], parts[-2]
    ends = before.as_string().endswith(sep) if z3.is_string_value(before) else it.run.valid(z3.SuffixOf(z3.StringVal(sep), before))
    if ends and it.run.valid(z3.Not(z3.Contains(t, z3.StringVal(sep)))):
        return t
    return None


SYMSTR["split"] = _split


def _rsplit(it, s, a, kw):
    """split once, from the right"""
    if kw or len(a) != 2 or not isinstance(a[0], str) or not isinstance(a[1], int) or a[1] != 1 or not a[0]:
        raise Unsupported("rsplit of symbolic text")
    r = at_last(it, zs(s), a[0])
    return it.new_list([SStr(zs(s))] if r is None else [SStr(r[0]), SStr(r[1])])


def at_last(it, s, sep):
    """text before and after the last sep, None if there is no sep"""
    if last_part(it, s, sep) is None and not it.run.decide(z3.Contains(s, z3.StringVal(sep))):
        return None
    parts = split_seq(it, s, sep)
    tail = zs(parts.at(parts.n - 1))
    head = uf("before_last", StrS, StrS, StrS)(s, z3.StringVal(sep))
    it.run.assume(s == z3.Concat(head, z3.StringVal(sep), tail))
    return head, tail


def _rpartition(it, s, a, kw):
    if kw or len(a) != 1 or not isinstance(a[0], str) or not a[0]:
        raise Unsupported("rpartition of symbolic text")
    r = at_last(it, zs(s), a[0])
    return ("", "", SStr(zs(s))) if r is None else (SStr(r[0]), a[0], SStr(r[1]))


def _partition(it, s, a, kw):
    if kw or len(a) != 1 or not isinstance(a[0], str) or not a[0]:
        raise Unsupported("partition of symbolic text")
    s, sep = zs(s), z3.StringVal(a[0])
    if not it.run.decide(z3.Contains(s, sep)):
        return SStr(s), "", ""
    n = z3.IndexOf(s, sep, z3.IntVal(0))
    head = uf("split_part", StrS, StrS, IntS, StrS)(s, sep, z3.IntVal(0))
    tail = uf("after_first", StrS, StrS, StrS)(s, sep)
    it.run.assume(head == z3.SubString(s, z3.IntVal(0), n))
    it.run.assume(s == z3.Concat(head, sep, tail))
    return SStr(head), a[0], SStr(tail)


SYMSTR["rsplit"] = _rsplit
SYMSTR["partition"] = _partition
SYMSTR["rpartition"] = _rpartition
SYMSTR["splitlines"] = lambda it, s, a, kw: SSeq(("lines", zs(s)), uf("lines_n", StrS, IntS)(zs(s)),
                                                 lambda j: SStr(uf("line", StrS, IntS, StrS)(zs(s), j)))


def _replace(it, s, a, kw):
    if len(a) == 2 and all(isinstance(x, str) for x in a) and len(a[0]) == 1 and not kw:
        # character by character: part by part
        out = []
        for p in str_parts(zs(s)):
            out.append(zstr(p).replace(a[0], a[1]) if z3.is_string_value(p) else
                       SStr(uf("str_replace", StrS, StrS, StrS, StrS)(p, zs(a[0]), zs(a[1]))))
        return concat(it, out)
    return SStr(uf("str_replace", StrS, StrS, StrS, StrS)(zs(s), zs(a[0]), zs(a[1])))


SYMSTR["replace"] = _replace


def _find(it, s, a, kw):
    if len(a) == 1:
        return SInt(z3.IndexOf(zs(s), zs(a[0]), 0))
    raise Unsupported("find")


SYMSTR["find"] = _find


def _count(it, s, a, kw):
    raise Unsupported("count of symbolic text")


SYMSTR["count"] = _count
SYMSTR["encode"] = lambda it, s, a, kw: (_ for _ in ()).throw(Unsupported("encode"))
SYMSTR["isidentifier"] = _count
SYMSTR["isdigit"] = _count
SYMSTR["ljust"] = SYMSTR["rjust"] = SYMSTR["center"] = SYMSTR["zfill"] = _count
SYMSTR["removeprefix"] = lambda it, s, a, kw: SStr(z3.If(z3.PrefixOf(zs(a[0]), zs(s)),
                                                         z3.SubString(zs(s), z3.Length(zs(a[0])), z3.Length(zs(s))), zs(s)))
SYMSTR["index"] = _count
for _n in SYMSTR:
    _native_str(_n)


@method("str", "join")
def _join(it, s, a, kw):
    v = it.force(a[0])
    items = []
    for k, x in segments(it, v):
        if k == "items":
            items.extend(x)
        else:
            # unknown number of parts
            return Opaque.text(it, "join", s, v)
    out = []
    for n, x in enumerate(items):
        x = it.force(x)
        if not is_text(x):
            if isinstance(x, (SObj,)):
                raise Unsupported("join of objects")
            raise PyRaise(TypeError("sequence item: expected str instance"))
        if n:
            out.append(s)
        out.append(x)
    return concat(it, out)


@method("str", "format")
def _format(it, s, a, kw):
    if isinstance(s, str) and not any(it.opaque(x) for x in a) and not any(it.opaque(x) for x in kw.values()):
        return s.format(*[nativize(x) for x in a], **{k: nativize(x) for k, x in kw.items()})
    if isinstance(s, str):
        import string as _s

        parts, auto = [], 0
        for lit, field, spec, conv in _s.Formatter().parse(s):
            parts.append(lit)
            if field is None:
                continue
            if field == "":
                v = a[auto]
                auto += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                raise Unsupported("format field")
            parts.append(format_value(it, v, spec))
        return concat(it, parts)
    raise Unsupported("format")


# ---------------------------------------------------------------- list methods
@method("list", "append")
def _append(it, o, a, kw):
    it.list_append(o, [a[0]])


@method("list", "extend")
def _extend(it, o, a, kw):
    list_extend(it, o, a[0])


@method("list set", "copy")
def _lcopy(it, o, a, kw):
    it.list_read(o)
    return it.new_list(o.items, o.pytype)


@method("list", "insert")
def _insert(it, o, a, kw):
    if not isinstance(a[0], int) or not o.concrete():
        raise Unsupported("list.insert")
    it.list_mutate(o, "insert")
    o.items.insert(a[0], a[1])


@method("list", "pop")
def _pop(it, o, a, kw):
    if not o.concrete() or (a and not isinstance(a[0], int)):
        raise Unsupported("list.pop")
    it.list_mutate(o, "pop")
    try:
        return o.items.pop(*a)
    except IndexError as exc:
        raise PyRaise(exc)


@method("list", "index")
def _lindex(it, o, a, kw):
    if not o.concrete():
        raise Unsupported("list.index")
    for n, x in enumerate(o.items):
        if it.run.decide(eqterm(it, x, a[0])):
            return n
    raise PyRaise(ValueError("not in list"))


@method("list", "count")
def _lcount(it, o, a, kw):
    raise Unsupported("list.count")


@method("list", "sort")
def _lsort(it, o, a, kw):
    it.list_mutate(o, "sort")
    r = do_sorted(it, o, kw)
    o.items[:] = r.items if isinstance(r, IList) else [piece_of(r)]


@method("list", "reverse")
def _lrev(it, o, a, kw):
    if not o.concrete():
        raise Unsupported("reverse")
    it.list_mutate(o, "reverse")
    o.items.reverse()


@method("set", "add")
def _sadd(it, o, a, kw):
    it.list_append(o, [a[0]])


@method("set", "update")
def _supd(it, o, a, kw):
    list_extend(it, o, a[0])


def piece_of(seq):
    i = z3.Int("q")
    return Piece(seq, i, [PiecePath(z3.BoolVal(True), [], [seq.at(i)])])


# ---------------------------------------------------------------- dict methods
@method("dict map", "get")
def _dget(it, o, a, kw):
    k = it.force(a[0])
    d = a[1] if len(a) > 1 else kw.get("default")
    if isinstance(o, SMap):
        if not is_text(k):
            if k is None:
                return d
            raise Unsupported("mapping key")
        if it.run.decide(o.contains(zs(k))):
            return o.get(zs(k))
        return d
    if o.concrete():
        for e in o.entries:
            if it.run.decide(eqterm(it, e[0], k)):
                return getitem(it, o, e[0]) if not isinstance(e[0], Sym) else it.force(e[1])
        return d
    if it.run.decide(_t(contains(it, o, k))):
        return getitem(it, o, k)
    return d


@method("dict", "setdefault")
def _dsetdefault(it, o, a, kw):
    d = a[1] if len(a) > 1 else None
    if it.run.decide(_t(contains(it, o, a[0]))):
        return getitem(it, o, a[0])
    setitem(it, o, a[0], d)
    return d


@method("dict", "pop")
def _dpop(it, o, a, kw):
    if isinstance(o, IDict) and not o.concrete() and it.dict_item_hook is not None and not it.run.frames:
        return it.call(it.getattr(it.dict_item_hook(o), "pop"), list(a))
    if it.run.decide(_t(contains(it, o, a[0]))):
        v = getitem(it, o, a[0])
        delitem(it, o, a[0])
        return v
    if len(a) > 1:
        return a[1]
    raise PyRaise(KeyError("?"))


@method("dict map", "keys")
def _dkeys(it, o, a, kw):
    if isinstance(o, SMap):
        return o.keys
    out = it.new_list()
    for k, s in segments(it, o):
        it.list_append(out, s if k == "items" else [s])
    return out


@method("dict map", "values")
def _dvalues(it, o, a, kw):
    if it.dict_values_hook is not None and isinstance(o, IDict) and not o.concrete() and not it.run.frames:
        o = it.dict_values_hook(o)
        return it.call(it.getattr(o, "values"), [])
    if isinstance(o, SMap):
        return o.keys.map(lambda k: o.get(zs(k)))
    return _dview(it, o, 1)


@method("dict map", "items")
def _ditems(it, o, a, kw):
    if isinstance(o, SMap):
        return o.keys.map(lambda k: (k, o.get(zs(k))))
    return _dview(it, o, 2)


def _dview(it, o, which):
    it.list_read(o)
    if o.rest is not None:
        raise Unsupported("iteration of an unknown dict")
    u = it.uid_of(o)
    out = it.new_list()
    for k, s in _segs(o.entries):
        if k == "items":
            for e in s:
                it.cell_read(("dict", u, keyid(e[0])), u)
                e[1] = it.force(e[1])
            it.list_append(out, [e[1] if which == 1 else (e[0], e[1]) for e in s])
        else:
            it.list_append(out, [dict_piece(it, s, which)])
    return out


@method("dict map", "update")
def _dupdate(it, o, a, kw):
    for x in a:
        dict_update(it, o, x)
    for k, v in kw.items():
        setitem(it, o, k, v)


@method("dict", "copy")
def _dcopy(it, o, a, kw):
    return it.new_dict([e if isinstance(e, Piece) else list(e) for e in o.entries])


# -------------------------------------------------------------------- builtins
@builtin(len)
def _len(it, a, kw):
    return length(it, a[0])


@builtin(isinstance, raw=True)
def _isinstance(it, a, kw):
    return wrap(isinst(it, a[0], it.force(a[1])))


def isinst(it, v, cls):
    if isinstance(cls, IList):
        cls = tuple(cls.items)
    if isinstance(cls, tuple):
        return disj([isinst(it, v, c) for c in cls])
    if isinstance(v, LVal):
        r = v.lisinst(it, cls)
        if r is not NotImplemented:
            return r
    v = it.force(v)
    if isinstance(v, SStr):
        return issubclass(str, cls)
    if isinstance(v, SInt):
        return issubclass(int, cls)
    if isinstance(v, SBool):
        return issubclass(bool, cls)
    if isinstance(v, SReal):
        return issubclass(float, cls)
    if isinstance(v, SObj):
        py = getattr(v.cls, "pycls", None)
        r = v.cls.isinst(it, v, cls)
        if r is not None:
            return r
        if py is not None:
            return issubclass(py, cls)
        raise Unsupported(f"isinstance({v!r}, {cls})")
    if isinstance(v, (IList, SSeq)):
        return issubclass(v.pytype, cls)
    if isinstance(v, (IDict, SMap)):
        return issubclass(collections.OrderedDict if cls is collections.OrderedDict else dict, cls)
    if isinstance(v, EnclosingTuple):
        return issubclass(tuple, cls)
    if isinstance(v, (IFunc, Model, IMethod)):
        return cls is object
    if isinstance(v, Sym):
        f = getattr(v, "sym_isinstance", None)
        if f:
            return f(it, cls)
        raise Unsupported(f"isinstance of {v!r}")
    try:
        return isinstance(v, cls)
    except TypeError as exc:
        raise PyRaise(exc)


@builtin(issubclass)
def _issubclass(it, a, kw):
    return issubclass(*a)


@builtin(str, raw=True)
def _str(it, a, kw):
    return to_str(it, a[0]) if a else ""


@builtin(repr)
def _repr(it, a, kw):
    return to_repr(it, a[0])


@builtin(int)
def _int(it, a, kw):
    v = it.force(a[0]) if a else 0
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(zi(v))
    if isinstance(v, SStr):
        ok = uf("is_int_text", StrS, BoolS)(v.t)
        if it.run.decide(ok):
            return SInt(uf("text_to_int", StrS, IntS)(v.t))
        raise PyRaise(ValueError("invalid literal for int()"))
    if isinstance(v, SReal) or isinstance(v, Sym):
        raise Unsupported("int()")
    try:
        return int(v)
    except Exception as exc:  # noqa
        raise PyRaise(exc)


@builtin(float)
def _float(it, a, kw):
    v = it.force(a[0])
    if isinstance(v, (SInt, SBool)):
        return SReal(to_real(v))
    if isinstance(v, SReal):
        return v
    if isinstance(v, Sym):
        raise Unsupported("float()")
    try:
        return float(v)
    except Exception as exc:  # noqa
        raise PyRaise(exc)


@builtin(bool)
def _bool(it, a, kw):
    return wrap(it.truth_term(a[0])) if a else False


@builtin(list)
def _list(it, a, kw):
    out = it.new_list()
    if a:
        v = it.force(a[0])
        if isinstance(v, SSeq):
            return SSeq(v.base, v.n, v.at, v._before, v.domf, v.tag, list, v.upto)
        list_extend(it, out, v)
    return out


@builtin(tuple)
def _tuple(it, a, kw):
    if not a:
        return ()
    v = it.force(a[0])
    if isinstance(v, SSeq):
        return SSeq(v.base, v.n, v.at, v._before, v.domf, v.tag, tuple, v.upto)
    if isinstance(v, IList) and not v.concrete():
        return it.new_list(v.items, tuple)
    return tuple(concrete_items(it, v))


@builtin(set)
def _set(it, a, kw):
    out = it.new_list([], set)
    if a:
        list_extend(it, out, a[0])
    return out


BUILTINS[id(frozenset)] = Model("frozenset", _set)


@builtin(dict)
def _dict(it, a, kw):
    d = it.new_dict()
    for x in a:
        dict_update(it, d, x)
    for k, v in kw.items():
        setitem(it, d, k, v)
    return d


BUILTINS[id(collections.OrderedDict)] = Model("OrderedDict", _dict)


@builtin(sorted)
def _sorted(it, a, kw):
    return do_sorted(it, a[0], kw)


def do_sorted(it, v, kw):
    v = it.force(v)
    key = kw.get("key")
    rev = kw.get("reverse", False)
    segs = segments(it, v)
    if all(k == "items" for k, _ in segs):
        items = [x for _, s in segs for x in s]
        if not any(it.opaque(x) for x in items) and key is None:
            return it.new_list(sorted([nativize(x) for x in items], reverse=bool(rev)))
        if len(items) <= 1:
            return it.new_list(items)
        if key is not None:
            ks = [it.call(key, [x]) for x in items]
            if not any(it.opaque(k) or isinstance(k, Sym) for k in ks):
                order = sorted(range(len(items)), key=lambda n: nativize(ks[n]), reverse=bool(rev))
                return it.new_list([items[n] for n in order])
        raise Unsupported("sorting of symbolic items")
    if len(segs) == 1 and segs[0][0] == "seq":
        return sort_seq(it, segs[0][1], key, rev)
    if len(segs) == 1 and segs[0][0] == "piece":
        pc = segs[0][1]
        q = pc.seq
        paths = [p for p in pc.paths if p.values]
        if len(paths) == 1 and len(paths[0].values) == 1 and not isinstance(paths[0].values[0], Piece) and pc.upto is None:
            p = paths[0]
            base_dom = q.domf
            g = p.guard

            def domf(j):
                t = z3.substitute(g, (pc.idx, j))
                return t if base_dom is None else z3.And(base_dom(j), t)

            trivial = z3.is_true(z3.simplify(g))
            s2 = SSeq(q.base, q.n, lambda j: subst(p.values[0], [(pc.idx, j)]), q._before,
                      base_dom if trivial else domf, q.tag, list, q.upto)
            return sort_seq(it, s2, key, rev)
    raise Unsupported("sorting of several parts")


def sort_seq(it, s, key, rev):
    """a sorted sequence keeps the indices of the unsorted one, in another order"""
    i = z3.Int("so")
    x = s.at(i)
    depth = len(it.run.trail)
    cases = it.run.ex.__dict__.setdefault("key_cases", set())
    point = it.run.key()
    if key is not None and point in cases:
        kt = key_by_cases(it, s, key, i)
    else:
        kt = it.force(it.call(key, [x]) if key is not None else x)
        if len(it.run.trail) != depth:
            cases.add(point)
            it.run.restart_at = depth
            raise Restart()
    if is_text(kt):
        term = zs(kt)
    elif isinstance(kt, (SInt, int)):
        term = zi(kt)
    elif isinstance(kt, tuple) and kt and is_text(kt[0]):
        term = zs(kt[0])  # first component decides if keys differ there
    elif isinstance(kt, SObj):
        if kt.cls.methods.get("__lt__") is None and not getattr(kt.cls, "orderable", False):
            raise PyRaise(TypeError("'<' not supported"))
        term = kt.t
    elif kt is None:
        raise PyRaise(TypeError("'<' not supported"))
    else:
        raise Unsupported(f"sort key {kt!r}")
    # index-free name of the order
    tag = ("sorted", z3.simplify(term), bool(rev)) + tuple(s.tag)
    name = _stable(str(tag) + str(s.base))
    free = sorted({str(c): c for c in free_consts(term) if not c.eq(i)}.items())
    fr = [c for _, c in free]
    # the place of each item in the sorted sequence: different items have different places
    place = uf("place_" + name, *([c.sort() for c in fr] + [IntS, IntS]))
    item = uf("placed_" + name, *([c.sort() for c in fr] + [IntS, IntS]))
    a, b = z3.Ints("oa ob")
    run = it.run
    pa, pb = place(*(fr + [a])), place(*(fr + [b]))
    inside = lambda j: z3.And(j >= 0, j < s.n) if s.n is not None else j >= 0  # noqa
    lt = lambda j, k: place(*(fr + [j])) < place(*(fr + [k]))  # noqa
    run.assume(z3.ForAll([a], z3.Implies(inside(a), item(*(fr + [pa])) == a), patterns=[pa]))
    if term.sort() in (StrS, IntS) and not free:
        ka, kb = z3.substitute(term, (i, a)), z3.substitute(term, (i, b))
        if rev:
            ka, kb = kb, ka
        run.assume(z3.ForAll([a, b], z3.Implies(z3.And(inside(a), inside(b), pa < pb), ka <= kb), patterns=[z3.MultiPattern(pa, pb)]))
    return SSeq(s.base, s.n, s.at, lt, s.domf, tag, list, s.upto)


def key_by_cases(it, s, key, i):
    """sort key as one term, from the paths of the key function"""
    lst = it.new_list()
    it.iterate(s, lambda v: it.list_append(lst, [it.force(it.call(key, [v]))]))
    if len(lst.items) != 1 or not isinstance(lst.items[0], Piece):
        raise Unsupported("sort key with cases")
    pc = lst.items[0]
    t = None
    for p in pc.paths_at(i):
        if len(p.values) != 1 or not is_text(p.values[0]):
            raise Unsupported(f"sort key with cases {p.values!r}")
        v = zs(p.values[0])
        t = v if t is None else z3.If(p.guard, v, t)
        if p.facts:
            it.run.assume(forall_idx(s, i, None, z3.Implies(p.guard, z3.And(p.facts))))
    return SStr(z3.simplify(t))


def _stable(s):
    import hashlib

    return hashlib.md5(s.encode("utf8", "replace")).hexdigest()[:12]


def free_consts(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


@builtin(reversed)
def _reversed(it, a, kw):
    return it.new_list(concrete_items(it, a[0])[::-1])


@builtin(enumerate)
def _enumerate(it, a, kw):
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    segs = segments(it, a[0])
    if all(k == "items" for k, _ in segs):
        items = [x for _, s in segs for x in s]
        return it.new_list([(start + n, x) for n, x in enumerate(items)])
    if len(segs) == 1 and segs[0][0] == "seq" and segs[0][1].plain and segs[0][1].full:
        s = segs[0][1]
        return SSeq(s.base, s.n, lambda j: (SInt(zi(start) + j), s.at(j)))
    if it.run.frames:
        raise Unsupported("enumerate")
    out = it.new_list()  # the numbers are not known, apart from the first
    n = 0
    for k, s in segs:
        if k == "items":
            for x in s:
                out.items.append((start + n if isinstance(n, int) else SInt(it.run.fresh("count", IntS)), x))
                n = n + 1 if isinstance(n, int) else n
            continue
        pc = s if k == "piece" else piece_of(s)
        no = uf("number_in_" + _stable(f"{it.run.uid()}"), IntS, IntS)
        if isinstance(start, int):
            it.run.assume(z3.ForAll([pc.idx], no(pc.idx) >= start, patterns=[no(pc.idx)]))
        out.items.append(Piece(pc.seq, pc.idx, [PiecePath(p.guard, p.facts, [(SInt(no(pc.idx)), x) for x in p.values]) for p in pc.paths], pc.upto))
        n = None
    return out


@builtin(zip)
def _zip(it, a, kw):
    segs = [segments(it, x) for x in a]
    if all(all(k == "items" for k, _ in s) for s in segs):
        return it.new_list(list(zip(*[[x for _, y in s for x in y] for s in segs])))
    raise Unsupported("zip")


@builtin(range)
def _range(it, a, kw):
    a = [it.force(x) for x in a]
    if not any(isinstance(x, Sym) for x in a):
        try:
            return range(*a)
        except Exception as exc:  # noqa
            raise PyRaise(exc)
    if len(a) == 1:
        lo, hi = z3.IntVal(0), zi(a[0])
    elif len(a) == 2:
        lo, hi = zi(a[0]), zi(a[1])
    else:
        raise Unsupported("range with step")
    n = it.run.fresh("count", IntS)
    it.run.assume(n == z3.If(hi - lo > 0, hi - lo, 0))
    return SSeq(("range", z3.simplify(lo), z3.simplify(hi)), n, lambda j: SInt(z3.simplify(lo + j)))


def _fold_bool(it, v, any_):
    items = []
    for k, s in segments(it, v):
        if k == "items":
            items += [it.truth_term(x) for x in s]
        else:
            pc = s if k == "piece" else piece_of(s)
            j = z3.Int("jb")
            opts = []
            for p in pc.paths_at(j):
                for x in p.values:
                    if isinstance(x, Piece):
                        raise Unsupported("nested piece")
                    t = it.truth_term(x)
                    opts.append(conj([p.guard, t if any_ else neg(t)]))
            b = _t(disj(opts))
            e = z3.Exists([j], z3.And(pc.dom(j), b))
            items.append(e if any_ else z3.Not(e))
    return wrap(disj(items) if any_ else conj(items))


@builtin(any)
def _any(it, a, kw):
    return _fold_bool(it, a[0], True)


@builtin(all)
def _all_(it, a, kw):
    return _fold_bool(it, a[0], False)


@builtin(sum)
def _sum(it, a, kw):
    total = a[1] if len(a) > 1 else 0
    for k, s in segments(it, a[0]):
        if k == "items":
            for x in s:
                total = binop(it, ast.Add(), total, x)
        else:
            pc = s if k == "piece" else piece_of(s)
            deltas = []
            for p in pc.paths:
                d = z3.IntVal(0)
                for x in p.values:
                    d = d + zi(x)
                deltas.append((p.guard, d))
            total = SInt(zi(total) + it.sum_term(pc.seq, pc.idx, deltas, pc.upto))
    return total


@builtin(min)
def _min(it, a, kw):
    return _minmax(it, a, kw, min)


@builtin(max)
def _max(it, a, kw):
    return _minmax(it, a, kw, max)


def _minmax(it, a, kw, f):
    if len(a) > 1 and not kw:
        items = [it.force(x) for x in a]
    elif len(a) == 1 and not kw:
        items = concrete_items(it, a[0])
    elif len(a) == 1 and set(kw) == {"key"}:  # the first of those with the extreme key, as sorted() has it
        r = do_sorted(it, a[0], {"key": kw["key"], "reverse": f is max})
        if not it.truth(r):
            raise PyRaise(ValueError("empty"))
        return getitem(it, r, 0)
    else:
        raise Unsupported("min/max")
    if not any(isinstance(x, Sym) for x in items):
        return f(items)
    if all(isinstance(x, (int, SInt)) for x in items):
        r = zi(items[0])
        for x in items[1:]:
            y = zi(x)
            r = z3.If(y < r, y, r) if f is min else z3.If(y > r, y, r)
        return SInt(r)
    raise Unsupported("min/max")


@builtin(abs)
def _abs(it, a, kw):
    v = it.force(a[0])
    if isinstance(v, SInt):
        return SInt(z3.If(v.t < 0, -v.t, v.t))
    return abs(v)


@builtin(hasattr)
def _hasattr(it, a, kw):
    o = it.force(a[0])
    if isinstance(o, SObj):
        h = o.cls.attrs.get("hasattr")
        if h:
            return wrap(h(it, o)(a[1]))
    try:
        it.getattr(o, a[1])
        return True
    except PyRaise as pr:
        if isinstance(pr.exc, AttributeError):
            return False
        raise


@builtin(getattr)
def _getattr(it, a, kw):
    name = it.force(a[1])
    if not isinstance(name, str):
        raise Unsupported("getattr with symbolic name")
    o = it.force(a[0])
    if len(a) > 2:
        if isinstance(o, SObj):
            h = o.cls.attrs.get("hasattr")
            if h:
                if it.run.decide(h(it, o)(name)):
                    return it.getattr(o, name)
                return a[2]
        try:
            return it.getattr(o, name)
        except PyRaise as pr:
            if isinstance(pr.exc, AttributeError):
                return a[2]
            raise
    return it.getattr(o, name)


@builtin(setattr)
def _setattr(it, a, kw):
    if not isinstance(a[1], str):
        raise Unsupported("setattr with symbolic name")
    it.setattr(a[0], a[1], a[2])


@builtin(type)
def _type(it, a, kw):
    v = it.force(a[0])
    if isinstance(v, SObj):
        f = v.cls.attrs.get("type")
        if f:
            return f(it, v)
        raise Unsupported(f"type of {v!r}")
    if isinstance(v, SStr):
        return str
    if isinstance(v, IList):
        return v.pytype
    if isinstance(v, IDict):
        return dict
    if isinstance(v, Sym):
        raise Unsupported(f"type of {v!r}")
    return type(v)


@builtin(id)
def _id(it, a, kw):
    raise Unsupported("id()")


@builtin(print)
def _print(it, a, kw):
    log = it.run.logs.get("print")
    if log is not None:
        it.list_append(log, [tuple(to_str(it, x) for x in a)])


@builtin(map)
def _map(it, a, kw):
    out = it.new_list()
    it.iterate(a[1], lambda x: it.list_append(out, [it.call(a[0], [x])]))
    out.once = True  # can be read one time only
    return out


@builtin(filter)
def _filter(it, a, kw):
    out = it.new_list()

    def f(x):
        if it.truth(it.call(a[0], [x]) if a[0] is not None else x):
            it.list_append(out, [x])

    it.iterate(a[1], f)
    return out


@builtin(next)
def _next(it, a, kw):
    v = it.force(a[0])
    if isinstance(v, IList):
        if len(a) > 1:
            try:
                return getitem(it, v, 0)
            except PyRaise as pr:
                if isinstance(pr.exc, IndexError):
                    return a[1]
                raise
        try:
            return getitem(it, v, 0)
        except PyRaise as pr:
            if isinstance(pr.exc, IndexError):
                raise PyRaise(StopIteration())
            raise
    raise Unsupported("next")


@builtin(iter)
def _iter(it, a, kw):
    v = it.force(a[0])
    out = it.new_list()
    list_extend(it, out, v)
    return out


@builtin(callable)
def _callable(it, a, kw):
    return isinstance(a[0], (IFunc, IMethod, Model)) or callable(a[0])


@builtin(re.compile)
def _recompile(it, a, kw):
    p = it.force(a[0])
    if isinstance(p, SStr):
        if len(a) > 1 or kw:
            raise Unsupported("regular expression flags")
        return SPattern(p)
    if isinstance(p, SPattern):
        return p
    try:
        return re.compile(p, *a[1:], **kw)
    except Exception as exc:  # noqa
        raise PyRaise(exc)


for _how in ("match", "fullmatch", "search"):
    def _f(it, a, kw, how=_how):
        p = _recompile(it, [a[0]] + list(a[2:]), kw)
        return do_match(it, p.text if isinstance(p, SPattern) else p, how, a[1])

    builtin(getattr(re, _how))(_f)


def native_pattern_getattr(it, o, name):
    if name in ("match", "fullmatch", "search"):
        return Model(name, lambda i, a, k: do_match(i, o, name, a[0]))
    return UNBOUND


def noop(it, a, kw):
    return None


def make_models(extra=None):
    m = dict(BUILTINS)
    for n in ("debug", "info", "warning", "error", "critical", "log", "exception"):
        for o in (getattr(logging.Logger, n), getattr(logging, n, None)):
            if o is not None:
                m[id(o)] = Model(n, noop)
    m.update(extra or {})
    return m
