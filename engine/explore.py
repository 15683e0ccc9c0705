"""Exploration of all paths of an interpreted function, and the solver.

A *run* executes the function once from its start.  Every choice made (outcome
of a symbolic condition, mode of a symbolic loop) is recorded; depth first
search over these choices by re-execution visits every path.
"""
import os
import subprocess
import time

from .values import *
from . import values as V

FEAS_MS = int(os.environ.get("FEAS", "100"))
PROVE_MS = 6000
DUMP, DUMPED = os.environ.get("ENGINE_DUMP"), []  # undecided queries, for inspection
CVC5_S = 12


class PathEnd(BaseException):
    """The current run has nothing more to show."""


class Restart(BaseException):
    """Run the same prefix again (something was learned about a loop)."""


class Stats:
    def __init__(self):
        self.z3_s = 0.0
        self.cvc5_s = 0.0
        self.queries = 0
        self.by = {"z3": 0, "cvc5": 0, "simplifier": 0}


STATS = Stats()


_CACHE = {}


def check(terms, ms, want_solver=False):
    key = None
    if not want_solver:
        key = (frozenset(t.get_id() for t in terms), ms)
        hit = _CACHE.get(key)
        if hit is not None:
            return hit[0], None
    r, s = _check(terms, ms)
    if key is not None:
        _CACHE[key] = (r, list(terms))
    return r, s


def _check(terms, ms):
    STATS.queries += 1
    s = z3.Solver()
    s.set("timeout", ms)
    t0 = time.time()
    for t in terms:
        s.add(t)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    dt = time.time() - t0
    STATS.z3_s += dt
    if SLOW and dt > SLOW:
        import traceback

        print(f"slow {dt:.1f}s {r}", [f.name for f in traceback.extract_stack()[-7:-1]])
        if os.environ.get("ENGINE_DUMP"):
            open(os.environ["ENGINE_DUMP"], "w").write(s.to_smt2())
    return r, s


_HASQ = {}


def has_quantifier(t):
    k = t.get_id()
    if k not in _HASQ:
        if z3.is_quantifier(t):
            r = True
        else:
            r = any(has_quantifier(c) for c in t.children())
        _HASQ[k] = (r, t)
    return _HASQ[k][0]


_ATOMS = {}


def atoms(t):
    """largest uninterpreted parts of a term that are no objects"""
    k = t.get_id()
    if k not in _ATOMS:
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = frozenset([k]) if t.sort() != Obj else frozenset()
        else:
            r = frozenset().union(*[atoms(c) for c in t.children()]) if z3.is_app(t) else frozenset()
        _ATOMS[k] = (r, t)
    return _ATOMS[k][0]


def slice_of(terms, goal):
    """assumptions about the parts of the goal"""
    rel = atoms(goal)
    first = [x for x in terms if atoms(x) & rel]
    wide = rel.union(*[atoms(x) for x in first]) if first else rel
    return [x for x in terms if atoms(x) & rel or atoms(x) <= wide]


_HASS = {}


def has_strings(t):
    k = t.get_id()
    if k not in _HASS:
        if z3.is_quantifier(t):
            r = True
        else:
            r = z3.is_string(t) or (z3.is_app(t) and t.decl().kind() in STRINGY) or any(has_strings(c) for c in t.children())
        _HASS[k] = (r, t)
    return _HASS[k][0]


STRINGY = {z3.Z3_OP_SEQ_IN_RE}
SLOW = float(os.environ.get("ENGINE_SLOW", "0"))
_CVC5 = None


def cvc5_check(solver, seconds):
    """Second opinion: the same query, as SMT-LIB text, for cvc5."""
    global _CVC5
    if _CVC5 is None:
        from shutil import which

        _CVC5 = which("cvc5") or ""
    if not _CVC5:
        return "unknown"
    text = "(set-logic ALL)\n" + solver.to_smt2()
    t0 = time.time()
    try:
        p = subprocess.run(
            [_CVC5, "--lang=smt2", "--strings-exp", f"--tlimit={int(seconds*1000)}", "-"],
            input=text, capture_output=True, text=True, timeout=seconds + 5,
        )
        out = p.stdout.strip().splitlines()
        r = out[0].strip() if out else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        r = "unknown"
    STATS.cvc5_s += time.time() - t0
    return r


def feasible(base, t):
    """can the condition hold?  (unknown counts as yes)"""
    part = slice_of(base, t)
    if len(part) < len(base):
        r, _ = check(part + [t], FEAS_MS)
        if r == z3.unsat:
            return r
        return check(base + [t], FEAS_MS if r == z3.sat else FEAS_MS // 3)[0]
    return check(base + [t], FEAS_MS)[0]


class Obligation:
    def __init__(self, goal, name, status, backend="", model=None, path=None, detail=""):
        self.goal, self.name, self.status = goal, name, status
        self.backend, self.model, self.path, self.detail = backend, model, path, detail


class LoopSummary:
    def __init__(self):
        self.carried = {}  # cell -> type tag
        self.paths = []  # normal paths
        self.exits = []  # guards of paths which leave the loop early
        self.complete = False
        self.conflicts = set()


class LoopFrame:
    def __init__(self, key, idx, birth, mark, mode):
        self.key, self.idx, self.birth, self.mark, self.mode = key, idx, birth, mark, mode
        self.written = {}  # cell -> True   (in order)
        self.appended = {}  # uid of list -> [values]
        self.lists = {}
        self.read_lists = set()


class Run:
    """One path (state of the exploration that a run can see)."""

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.trail = []  # (choice, n)
        self.pc = []  # (tag, term)
        self.known = {}
        self.counter = {}
        self.uids = 0
        self.envs = {}
        self.neg = 0
        self.frames = []
        self.logs = {}
        self.sums = ex.sums
        self.writes = []  # heap writes outside of the frame of created objects
        self.taint = []

    # ---- names
    def fresh_name(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return f"{name}!{n}"

    def fresh(self, name, sort):
        """a new unknown; inside of loops it depends on the iteration"""
        idx = [f.idx for f in self.frames if f.idx is not None]
        nm = self.fresh_name(name + "".join("'" + f.mode for f in self.frames if f.idx is not None))
        if not idx:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *([x.sort() for x in idx] + [sort]))
        return f(*idx)

    def uid(self):
        self.uids += 1
        return self.uids

    # ---- assumptions
    def assume(self, t, tag="f"):
        if isinstance(t, bool):
            if not t:
                raise PathEnd()
            return
        t = z3.simplify(t) if not z3.is_quantifier(t) else t
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathEnd()
        if tag == "f" and z3.is_and(t):
            for c in t.children():
                self.pc.append((tag, c))
        else:
            self.pc.append((tag, t))
        self._learn(t)

    def _learn(self, t):
        if z3.is_and(t):
            for c in t.children():
                self._learn(c)
            return
        if z3.is_not(t):
            self.known[t.arg(0).get_id()] = (False, t.arg(0))
        self.known[t.get_id()] = (True, t)

    def pcs(self):
        return [t for _, t in self.pc] + self.ex.axioms

    # ---- choices
    def choose(self, n, what=""):
        pos = len(self.trail)
        c = self.prefix[pos] if pos < len(self.prefix) else 0
        self.trail.append((c, n))
        return c

    def decide(self, t):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k = self.known.get(t.get_id())
        if k is not None:
            return k[0]
        if z3.is_not(t):
            k = self.known.get(t.arg(0).get_id())
            if k is not None:
                return not k[0]
        pos = len(self.trail)
        if pos < len(self.prefix):
            c = self.prefix[pos]
            n = self.ex.width[tuple(x for x, _ in self.trail)]
            self.trail.append((c, n))
            val = (c == 0) if n == 2 else (n == -1)
        else:
            here = tuple(x for x, _ in self.trail)
            base = self.pcs()
            base = [x for x in base if not has_quantifier(x)]
            r1 = feasible(base, t)
            if r1 == z3.unsat:
                n, val = -2, False  # forced
                r2 = feasible(base, z3.Not(t))
                if r2 == z3.unsat:
                    raise PathEnd()
            else:
                r2 = feasible(base, z3.Not(t))
                if r2 == z3.unsat:
                    n, val = -1, True
                else:
                    n, val = 2, True
            self.ex.width[here] = n
            self.trail.append((0, n))
        tt = t if val else z3.Not(t)
        self.pc.append(("d", tt))
        self._learn(tt)
        return val

    def decide_free(self, t):
        """choice that nothing decides (yet)"""
        c = self.choose(2)
        tt = t if c == 0 else z3.Not(t)
        self.pc.append(("d", tt))
        self._learn(tt)
        return c == 0

    def prune(self, ms=300):
        """end the path if its condition is contradictory"""
        if len(self.trail) >= len(self.prefix):
            r, _ = check([x for x in self.pcs() if not has_quantifier(x)], ms)
            if r == z3.unsat:
                raise PathEnd()

    def key(self):
        return tuple(x for x, _ in self.trail)

    # ---- obligations
    def prove(self, name, t, detail="", quiet=False):
        ex = self.ex
        ob = self._prove(t)
        ob.goal, ob.name, ob.detail = ex.goal, name, detail
        ob.path = [] if ob.status == "discharged" else self.describe()
        if not quiet:
            ex.obligations.append(ob)
        return ob.status == "discharged"

    def _prove(self, t):
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        t = z3.simplify(t)
        if z3.is_true(t):
            STATS.by["simplifier"] += 1
            return Obligation("", "", "discharged", "simplifier")
        pcs = self.pcs()
        qf = [x for x in pcs if not has_quantifier(x)]
        near = slice_of(qf, t)
        if len(near) < len(qf):
            r, s = check(near + [z3.Not(t)], 700)
            if r == z3.unsat:
                STATS.by["z3"] += 1
                return Obligation("", "", "discharged", "z3")
        if len(qf) != len(pcs):
            r, s = check(qf + [z3.Not(t)], 2000)
            if r == z3.unsat:
                STATS.by["z3"] += 1
                return Obligation("", "", "discharged", "z3")
        r, s = check(pcs + [z3.Not(t)], self.ex.prove_ms, True)
        if r == z3.unsat:
            STATS.by["z3"] += 1
            return Obligation("", "", "discharged", "z3")
        if r == z3.unknown:
            if DUMP:
                open(DUMP + str(len(DUMPED)) + ".smt2", "w").write("(set-logic ALL)\n" + s.to_smt2())
                DUMPED.append(1)
            r2 = cvc5_check(s, CVC5_S)
            if r2 == "unsat":
                STATS.by["cvc5"] += 1
                return Obligation("", "", "discharged", "cvc5")
            if r2 == "sat":
                return Obligation("", "", "refuted", "cvc5", model=None)
            return Obligation("", "", "unknown", "z3+cvc5")
        m = None
        try:
            m = s.model()
        except z3.Z3Exception:
            pass
        return Obligation("", "", "refuted", "z3", model=m)

    def valid(self, t, ms=1500, quick=False):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k = self.known.get(t.get_id())
        if k is not None and k[0]:
            return True
        pcs = self.pcs()
        qf = [x for x in pcs if not has_quantifier(x)]
        if not has_strings(t):
            r, _ = check([x for x in qf if not has_strings(x)] + [z3.Not(t)], 300)
            if r == z3.unsat or quick:
                return r == z3.unsat
        r, _ = check(qf + [z3.Not(t)], ms)
        if r == z3.unsat:
            return True
        if len(qf) == len(pcs) or quick:
            return False
        r, _ = check(pcs + [z3.Not(t)], ms)
        return r == z3.unsat

    def describe(self):
        return [str(z3.simplify(t))[:300].replace("\n", " ") for tag, t in self.pc if tag == "d"][:40]


class Exploration:
    def __init__(self, goal, prove_ms=PROVE_MS, max_runs=4000, budget_s=120):
        self.goal = goal
        self.prove_ms = prove_ms
        self.max_runs = max_runs
        self.budget_s = budget_s
        self.obligations = []
        self.width = {}
        self.loops = {}
        self.sums = []
        self.axioms = []
        self.memo_sites = {}
        self.runs = 0
        self.paths = 0
        self.unsupported = []
        self.run = None

    def explore(self, body):
        """body(run): performs one path, calls run.prove at its end"""
        prefix = []
        t0 = time.time()
        while True:
            self.runs += 1
            if self.runs > self.max_runs or time.time() - t0 > self.budget_s:
                self.unsupported.append(f"path limit ({self.runs} runs, {time.time()-t0:.0f} s)")
                return self
            run = Run(self, prefix)
            self.run = run
            try:
                body(run)
                self.paths += 1
            except PathEnd:
                pass
            except Restart:
                # decisions below the loop are made anew
                prefix = [c for c, _ in run.trail][: run.restart_at]
                continue
            except Unsupported as exc:
                if str(exc) not in self.unsupported:
                    self.unsupported.append(str(exc))
            except RecursionError:
                self.unsupported.append("recursion")
            # backtrack
            trail = run.trail
            while trail:
                c, n = trail[-1]
                if n > 0 and c + 1 < n:
                    break
                trail.pop()
            if not trail:
                return self
            prefix = [c for c, _ in trail[:-1]] + [trail[-1][0] + 1]
