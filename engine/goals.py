"""Proof goals: run the real function and its specification on the same
symbolic input, then prove that they agree on every path."""
import importlib
import os
import sys
import time
import traceback
import types

from .values import *
from . import values as V
from .explore import Exploration, PathEnd, Restart, STATS, Obligation, check, has_quantifier
from .interp import Interp, Sources, Model, IFunc, keyid, same_base
from . import interp as I
from . import models as M
from . import world as W

REPO = os.environ.get("PUNX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SOURCES = Sources([os.path.join(REPO, "punx"), os.path.join(VERIF, "spec")])


class Goal:
    def __init__(self, name, prop, body, target, also=(), budget=60, kind="contract"):
        self.name, self.prop, self.body, self.target = name, prop, body, target
        self.also = also  # further properties this goal belongs to
        self.budget = budget
        self.kind = kind


GOALS = {}


def goal(prop, name, target, also=(), budget=60, kind="contract"):
    def deco(f):
        GOALS[name] = Goal(name, prop, f, target, also, budget, kind)
        return f

    return deco


# --------------------------------------------------------------------- context
class Ctx:
    """what a goal can use"""

    def __init__(self, run, stubs, extra_models=None):
        self.run = run
        self.it = Interp(run, SOURCES, M.make_models(extra_models), stubs)
        self.it.frame_violation = self.frame_violation

    def frame_violation(self, what):
        self.run.prove("frame: " + what, False)
        raise PathEnd()

    # inputs
    def const(self, name, sort):
        return z3.Const(name, sort)

    def obj(self, name, cls):
        return SObj(z3.Const(name, Obj), cls)

    def text(self, name):
        return SStr(z3.Const(name, StrS))

    def item(self, name):
        return W.item(self.it, z3.Const(name, Obj))

    def assume(self, t):
        self.run.assume(t)

    def call(self, f, *args, **kw):
        """outcome of a call: ("ret", value) or ("exc", exception)"""
        try:
            return ("ret", self.it.force(self.it.call(f, list(args), kw)))
        except PyRaise as pr:
            return ("exc", pr.exc)

    def real(self, f, *args, **kw):
        """the real function itself, not its contract"""
        self.it.stubs.pop((f.__module__, f.__qualname__), None)
        return self.call(f, *args, **kw)

    def recursive(self, f, *args, **kw):
        """the real function; the calls that it makes of itself are by its contract"""
        self.it.bypass = (f.__module__, f.__qualname__)
        return self.call(f, *args, **kw)

    def local_function(self, filename, qual, globs, module, own=None):
        """a function defined in a function, which reads nothing of its surroundings (own: contract for its calls of itself)"""
        for node, q in SOURCES.index(os.path.join(REPO, filename)).values():
            if q == qual.replace(".<locals>", ""):
                SOURCES.used[(os.path.relpath(filename, "punx"), q)] = node.lineno
                return I.IFunc(node, globs if own is None else dict(globs, **{node.name: own}), None, (), {}, node.name, module, qual)
        raise Unsupported(f"{filename} has no {qual}")

    def prove(self, name, t, detail=""):
        return self.run.prove(name, t, detail)

    # results
    def no_exception(self, name, out):
        if out[0] == "exc":
            e = out[1]
            self.run.prove(name, False, f"raises {type(e).__name__}: {str(e)[:120]}")
            raise PathEnd()
        self.run.prove(name, True)
        return out[1]

    def same_outcome(self, got, exp):
        if got[0] != exp[0]:
            what = "raises " + repr(got[1])[:80] if got[0] == "exc" else "raises nothing, specification raises " + repr(exp[1])[:80]
            self.run.prove("outcome", False, what)
            raise PathEnd()
        if got[0] == "exc":
            self.run.prove("exception", type(got[1]) is type(exp[1]), f"{type(got[1]).__name__} / {type(exp[1]).__name__}")
            raise PathEnd()

    def same_value(self, name, got, exp):
        self.run.prove(name, same_term(self.it, got, exp), f"{got!r} / {exp!r}"[:300])

    def same_items(self, name, got, exp, ordered=False):
        compare_lists(self, name, got, exp, ordered)


def same_term(it, a, b):
    a, b = it.force(a), it.force(b)
    if a is None or b is None:
        if isinstance(a, (SObj,)) or isinstance(b, (SObj,)):
            return M.identical(it, a, b)
        return a is b
    if isinstance(a, (IList, IDict, SSeq)) and isinstance(b, (IList, IDict, SSeq)):
        return SeqEq(a, b).term(it)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and M.conj([same_term(it, x, y) for x, y in zip(a, b)])
    if isinstance(a, Tok) or isinstance(b, Tok):
        if not (isinstance(a, Tok) and isinstance(b, Tok)) or a.name != b.name or len(a.args) != len(b.args):
            return False
        return M.conj([same_term(it, x, y) for x, y in zip(a.args, b.args)])
    if id(a) in NEWOBJ and id(b) in NEWOBJ and type(a) is type(b) and getattr(type(a), "__eq__") is object.__eq__:
        if a is b:
            return True
        if set(a.__dict__) != set(b.__dict__):
            return False

        return M.conj([same_term(it, x, b.__dict__[k]) for k, x in a.__dict__.items()])
    ta = M._b(a) if isinstance(a, (bool, SBool)) else None
    tb = M._b(b) if isinstance(b, (bool, SBool)) else None
    if (ta is None) != (tb is None):
        return False
    return M.eqterm(it, a, b)


class SeqEq:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def term(self, it):
        return seq_equal_term(it, self.a, self.b)


def as_items(v):
    if isinstance(v, SSeq):
        return [M.piece_of(v)]
    if isinstance(v, IDict):
        return [e if isinstance(e, Piece) else (e[0], e[1]) for e in v.entries]
    if isinstance(v, IList):
        return list(v.items)
    return list(v)


def seq_equal_term(it, a, b):
    x, y = norm_pieces(it, as_items(a)), norm_pieces(it, as_items(b))
    if len(x) != len(y):
        return False
    out = []
    for p, q in zip(x, y):
        if isinstance(p, Piece) and isinstance(q, Piece):
            out.append(piece_pair(it, p, q, True))
        elif isinstance(p, (Piece, Rest)) or isinstance(q, (Piece, Rest)):
            if isinstance(p, Rest) and isinstance(q, Rest) and p.name == q.name:
                continue
            return False
        else:
            out.append(same_term(it, p, q))
    return M.conj(out)


def norm_pieces(it, items):
    """nested pieces with one path and one value are left alone; drop empty pieces"""
    out = []
    for x in items:
        if isinstance(x, Piece) and not any(p.values for p in x.paths):
            continue
        out.append(x)
    return out


def order_same(it, s1, s2):
    if s1.plain and s2.plain:
        return True
    if s1.plain != s2.plain:
        return False
    if len(s1.tag) != len(s2.tag):
        return False
    for x, y in zip(s1.tag, s2.tag):
        if z3.is_expr(x) and z3.is_expr(y):
            if not x.eq(y):
                return False
        elif x is not y and not (isinstance(x, (str, bool)) and x == y):
            return False
    return True


def piece_pair(it, p, q, ordered):
    """condition (validity is decided here) that two pieces give the same items"""
    return pieces_same(it, [p], [q], ordered)[0]


_SK = [0]


def pieces_same(it, ps, qs, ordered, extra=()):
    """(ok, detail): at every index the pieces of both sides give the same items.
    All pieces range over the same collection."""
    run = it.run
    seqs = [x.seq for x in ps + qs]
    for s in seqs[1:]:
        if not same_base(it, seqs[0], s):
            return False, f"collections differ: {seqs[0].base} / {s.base}"
    if ordered:
        for s in seqs[1:]:
            if not order_same(it, seqs[0], s):
                return False, "order differs"
    _SK[0] += 1
    j = z3.Int(f"sk{_SK[0]}")

    def combos(pieces):
        alts = [([], [], [])]  # guards, facts, values
        for pc in pieces:
            dom = z3.simplify(pc.dom(j))
            nxt = []
            for g, f, v in alts:
                for p in pc.paths_at(j):
                    nxt.append((g + [dom, p.guard], f + p.facts, v + list(p.values)))
                nxt.append((g + [z3.Not(dom)], f, v))
            # if all pieces share one domain the mixed alternatives are contradictory
            alts = [a for a in nxt if not z3.is_false(z3.simplify(z3.And(a[0])))]
        return alts

    a_alts, b_alts = combos(ps), combos(qs)
    # compare
    bad = None
    worst = True
    for g1, f1, v1 in a_alts:
        for g2, f2, v2 in b_alts:
            if not v1 and not v2:
                continue
            cond = g1 + f1 + g2 + f2 + list(extra)
            t = z3.And(cond)
            if z3.is_false(z3.simplify(t)):
                continue
            mark = len(run.pc)
            known = dict(run.known)
            run.pc.append(("f", t))
            run.frames.append(_NoFrame(j))
            try:
                if check([x for x in run.pcs() if not has_quantifier(x)], 400)[0] == z3.unsat:
                    continue
                ok, detail = lists_match(it, v1, v2, ordered)
                if not ok and _unsat(run):
                    continue
                if not ok:
                    if ok is None:
                        worst = None if worst is True else worst
                    else:
                        worst = False
                    bad = detail + f" when {str(z3.simplify(z3.And(g1 + g2)))[:300]}"
            finally:
                run.frames.pop()
                del run.pc[mark:]
                run.known = known
    return worst, bad


class _NoFrame:
    """index of a comparison: fresh unknowns depend on it"""

    def __init__(self, idx):
        self.idx = idx
        self.birth = -10**9
        self.mode = "cmp"
        self.summary = types.SimpleNamespace(reads=set(), lreads=set(), lwrites=set())
        self.written = {}
        self.appended = {}
        self.lists = {}


def _unsat(run):
    r, _ = check(run.pcs(), 2000)
    return r == z3.unsat


def lists_match(it, xs, ys, ordered):
    """xs and ys (values and pieces) hold the same items -> (True|False|None, detail)"""
    run = it.run
    xs, ys = norm_pieces(it, xs), norm_pieces(it, ys)
    xs = [x for x in xs if not isinstance(x, Rest)]
    ys = [y for y in ys if not isinstance(y, Rest)]
    if ordered:
        # adjacent pieces over the same collection are not merged: order matters
        if len(xs) != len(ys):
            xs, ys = without_empty(it, xs), without_empty(it, ys)
        if len(xs) != len(ys):
            return _count_diff(it, xs, ys)
        for x, y in zip(xs, ys):
            if isinstance(x, Piece) != isinstance(y, Piece):
                return False, f"{x!r:.150} / {y!r:.150}"
            if isinstance(x, Piece):
                r = pieces_same(it, [x], [y], True)
                if r[0] is not True:
                    return r
            else:
                r = value_same(it, x, y)
                if r[0] is not True:
                    return r
        return True, ""
    px, py = [x for x in xs if isinstance(x, Piece)], [y for y in ys if isinstance(y, Piece)]
    vx, vy = [x for x in xs if not isinstance(x, Piece)], [y for y in ys if not isinstance(y, Piece)]
    # values: match up
    left = list(vy)
    rest = []
    for x in vx:
        for n, y in enumerate(left):
            if value_quick(it, x, y) and value_same(it, x, y)[0] is True:
                del left[n]
                break
        else:
            rest.append(x)
    if rest or left:
        if len(rest) != len(left):
            # impossible only if the path is
            return _count_diff(it, rest, left)
        # permutations decided by the solver: counts of every value agree
        ts = []
        for a in rest + left:
            ca = z3.Sum([z3.If(M._t(same_term(it, a, x)), 1, 0) for x in rest])
            cb = z3.Sum([z3.If(M._t(same_term(it, a, y)), 1, 0) for y in left])
            ts.append(ca == cb)
        r = run._prove(z3.And(ts))
        if r.status != "discharged":
            return (False if r.status == "refuted" else None), f"items {rest!r:.250} / {left!r:.250}"
    groups = []
    for side, pcs in ((0, px), (1, py)):
        for pc in pcs:
            for g in groups:
                if same_base(it, g[2], pc.seq):
                    g[side].append(pc)
                    break
            else:
                g = [[], [], pc.seq]
                g[side].append(pc)
                groups.append(g)
    res = True, ""
    for a, b, seq in groups:
        r = pieces_same(it, a, b, False)
        if r[0] is not True:
            if r[0] is False:
                return r
            res = r
    return res


def without_empty(it, xs):
    """leave out pieces that have no items on this path"""
    out = []
    for x in xs:
        if isinstance(x, Piece):
            _SK[0] += 1
            j = z3.Int(f"em{_SK[0]}")
            some = z3.And(x.dom(j), z3.Or([p.guard for p in x.paths_at(j) if p.values]))
            if check([y for y in it.run.pcs() if not has_quantifier(y)] + [some], 1000)[0] == z3.unsat:
                continue
        out.append(x)
    return out


def value_quick(it, x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(value_quick(it, a, b) for a, b in zip(x, y))
    if not is_sym(x) and not is_sym(y):
        try:
            return bool(x == y) or id(x) in NEWOBJ or id(y) in NEWOBJ
        except Exception:  # noqa
            return False
    return True


def value_same(it, x, y):
    t = same_term(it, x, y)
    if isinstance(t, bool):
        return (True, "") if t else (False, f"{x!r:.200} / {y!r:.200}") if not _unsat(it.run) else (True, "")
    r = it.run._prove(t)
    if r.status == "discharged":
        return True, ""
    return (False if r.status == "refuted" else None), f"{x!r:.200} / {y!r:.200}"


def _count_diff(it, xs, ys):
    if _unsat(it.run):
        return True, ""
    r, _ = check(it.run.pcs(), 5000)
    return (False if r == z3.sat else None), f"{len(xs)} items {xs!r:.300} / {len(ys)} items {ys!r:.300}"


def compare_lists(ctx, name, got, exp, ordered=False):
    it = ctx.it
    g = strip_rest(as_items(got))
    e = strip_rest(as_items(exp))
    ok, detail = lists_match(it, g, e, ordered)
    ob = Obligation(ctx.run.ex.goal, name, "discharged" if ok else "unknown" if ok is None else "refuted", "z3", None, ctx.run.describe(), detail)
    ctx.run.ex.obligations.append(ob)
    return ok


def strip_rest(items):
    return [x for x in items if not isinstance(x, Rest)]


# ---------------------------------------------------------------- exploration
def run_goal(g):
    t0 = time.time()
    ex = Exploration(g.name, budget_s=g.budget)
    err = None
    used0 = dict(SOURCES.used)
    SOURCES.used.clear()
    try:
        ex.explore(g.body)
    except EngineError as exc:
        err = "engine: " + str(exc) + " " + traceback.format_exc()[-600:]
    except z3.Z3Exception as exc:
        err = "z3: " + str(exc)[:200] + traceback.format_exc()[-400:]
    except Exception as exc:  # noqa
        err = "engine: " + repr(exc)[:200] + traceback.format_exc()[-800:]
    res = types.SimpleNamespace()
    res.goal = g
    res.obligations = ex.obligations
    res.runs, res.paths = ex.runs, ex.paths
    res.unsupported = list(ex.unsupported) + ([err] if err else [])
    res.seconds = time.time() - t0
    res.used = sorted(f"{a}:{b}" for (a, b) in SOURCES.used)
    n = len(ex.obligations)
    bad = [o for o in ex.obligations if o.status != "discharged"]
    if any(o.status == "refuted" for o in bad):
        res.status = "refuted"
    elif bad or res.unsupported or n == 0 or ex.paths == 0:
        res.status = "undecided"
    else:
        res.status = "proved"
    return res
