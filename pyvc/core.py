"""pyvc core: symbolic values, path exploration, obligations, back ends.

Semantics (stated once, see DESIGN.md "What the verifier assumes"):
 * Python ints are mathematical integers (exact), floats are mathematical reals with an
   explicit not-a-number flag (no rounding, no infinities);
 * every path of a function is executed symbolically; a path condition is a list of
   z3 Booleans; an obligation is `path condition => goal`, valid iff its negation is unsat.
"""
import itertools
import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3
from . import nonlin

z3.set_param("auto_config", True)


class Unsupported(Exception):
    """A construct outside the verifier's subset: the obligation is undecided."""


class Undischarged(Exception):
    """An obligation needed to go on (e.g. a loop invariant) could not be established."""


class Infeasible(Exception):
    """The current path is impossible."""


class PathEnd(Exception):
    """The current path is complete (cut point)."""


class TooManyPaths(Exception):
    pass


U = z3.DeclareSort("Obj")  # opaque objects (payloads, keys, file names)
SORTS = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort(),
         "str": z3.StringSort(), "obj": U}


class Sv:
    """A symbolic scalar: z3 term `e`, kind, and (for reals) a not-a-number condition."""
    __slots__ = ("e", "kind", "nan", "np", "tag")

    def __init__(self, e, kind=None, nan=None, np=False, tag=None):
        self.e = e
        self.kind = kind or kind_of_sort(e.sort())
        self.nan = nan
        self.np = np
        self.tag = tag

    def __repr__(self):
        return f"Sv({self.e}{'' if self.nan is None else f' nan={self.nan}'})"

    def __bool__(self):
        raise TypeError("symbolic value used as a Python bool inside the engine")

    __hash__ = object.__hash__


def kind_of_sort(s):
    for k, v in SORTS.items():
        if s == v:
            return k
    raise Unsupported(f"sort {s}")


NAN = Sv(z3.RealVal(0), "real", z3.BoolVal(True))


def is_num(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)


def is_scalar(v):
    return isinstance(v, (Sv, bool, int, float, Fraction, str))


def kind(v):
    if isinstance(v, Sv):
        return v.kind
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, (float, Fraction)):
        return "real"
    if isinstance(v, str):
        return "str"
    return None


def ze(v, want=None):
    """z3 term of a scalar (converted to the wanted kind)."""
    if isinstance(v, Sv):
        e, k = v.e, v.kind
    elif isinstance(v, bool):
        e, k = z3.BoolVal(v), "bool"
    elif isinstance(v, int):
        e, k = z3.IntVal(v), "int"
    elif isinstance(v, (float, Fraction)):
        f = Fraction(v)
        e, k = z3.RealVal(f"{f.numerator}/{f.denominator}"), "real"
    elif isinstance(v, str):
        e, k = z3.StringVal(v), "str"
    else:
        raise Unsupported(f"not a scalar: {v!r}")
    if want is None or want == k:
        return e
    if k == "bool" and want in ("int", "real"):
        e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
        k = "int"
        if want == "int":
            return e
    if k == "int" and want == "real":
        return z3.ToReal(e)
    raise Unsupported(f"conversion {k} -> {want} of {v!r}")


def nanof(v):
    if isinstance(v, Sv) and v.nan is not None:
        return v.nan
    return z3.BoolVal(False)


def has_nan(v):
    return isinstance(v, Sv) and v.nan is not None and not z3.is_false(v.nan)


def mk(e, kind=None, nan=None, np=False):
    """Wrap a z3 term, folding literals back to Python values."""
    if nan is not None and z3.is_false(nan):
        nan = None
    if nan is None and not np:
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if z3.is_string_value(e):
            return e.as_string()
    return Sv(e, kind, nan, np)


def zb(v):
    """z3 Bool from Python bool / z3 Bool / Sv bool."""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, Sv):
        return ze(v) if v.kind == "bool" else truth_term(v)
    return v


def truth_term(v):
    if v.kind == "bool":
        return v.e
    if v.kind in ("int",):
        return v.e != 0
    if v.kind == "real":
        return z3.Or(nanof(v), v.e != 0)
    if v.kind == "str":
        return z3.Length(v.e) > 0
    raise Unsupported(f"truth value of {v!r}")


def And(*a):
    a = [zb(x) for x in a]
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return z3.BoolVal(False)
    return z3.And(*a) if len(a) > 1 else (a[0] if a else z3.BoolVal(True))


def Or(*a):
    a = [zb(x) for x in a]
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return z3.BoolVal(True)
    return z3.Or(*a) if len(a) > 1 else (a[0] if a else z3.BoolVal(False))


def Not(a):
    a = zb(a)
    if z3.is_true(a):
        return z3.BoolVal(False)
    if z3.is_false(a):
        return z3.BoolVal(True)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def free_consts(e):
    """ids of the uninterpreted constants and functions of a term"""
    out, seen, todo = set(), set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            todo.extend(t.children())
    return out


_QUANT = {}


def has_quant(f):
    """does the formula contain a quantifier"""
    k = f.get_id()
    r = _QUANT.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    seen, todo, out = set(), [f], False
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            out = True
            break
        todo.extend(t.children())
    if len(_QUANT) > 20000:
        _QUANT.clear()
    _QUANT[k] = (f, out)
    return out


_SUMS = {}


def no_sums(f):
    """the finite sums of a formula replaced by constants (a weaker formula)"""
    from .sums import collect1
    if not collect1(f):
        return f
    seen, todo, pairs = set(), [f], []
    while todo:
        t = todo.pop()
        k = t.get_id()
        if k in seen or not z3.is_app(t):
            continue
        seen.add(k)
        if t.decl().name() in ("SUM_real", "SUM_int"):
            r = _SUMS.get(k)
            if r is None or not r[0].eq(t):
                r = _SUMS[k] = (t, z3.Const(f"sum#{len(_SUMS)}", t.sort()))
            pairs.append(r)
            continue
        todo.extend(t.children())
    return z3.substitute(f, *pairs) if pairs else f


class PathSolver:
    """Path condition: first the quantifier-free part alone, then everything (only `unsat` answers are used)."""
    linear = False      # products and quotients of unknowns are opaque
    def __init__(self, *fs):
        self.ground = z3.Solver()
        self.ground.set("timeout", 2000)
        self.full = None
        self.fs = []
        self.lems = {}
        self.keep = []
        self.add(*fs)

    def add(self, *fs):
        for f in fs:
            f = no_sums(f)
            if self.linear:
                self.keep.append(f)
                f = abstract_nonlinear([f])[0][0]
                self.keep.append(f)
            self.fs.append(f)
            if not self.linear:
                self.lem(f)
            if has_quant(f):
                if self.full is None:
                    self.full = z3.Solver()
                    self.full.set("timeout", 1500)
                    self.full.set("smt.mbqi", False)
                    self.full.add(*self.fs)
                    continue
            else:
                self.ground.add(f)
            if self.full is not None:
                self.full.add(f)

    def lem(self, f):
        for l in nonlin.lemmas(f):
            l = no_sums(l)
            if l.get_id() not in self.lems:
                self.lems[l.get_id()] = l
                if has_quant(l):
                    self.fs.append(l)
                    if self.full is not None:
                        self.full.add(l)
                    continue
                self.ground.add(l)
                self.fs.append(l)
                if self.full is not None:
                    self.full.add(l)

    def check(self, f):
        f = no_sums(f)
        if self.linear:
            self.keep.append(f)
            f = abstract_nonlinear([f])[0][0]
        q = has_quant(f)
        self.lem(f)
        if not q or self.full is None:
            r = self.ground.check(f)
            if r == z3.unsat or self.full is None:
                return r
        self.full.set("timeout", PathSolver.patience)
        r = self.full.check(f)
        if r == z3.unsat:
            PathSolver.patience = 1500
        elif r == z3.unknown:
            PathSolver.patience = max(150, PathSolver.patience * 2 // 3)
        return r

    patience = 1500


# ---------------------------------------------------------------- engine

class Obligation:
    def __init__(self, name, status, backend, t, detail=""):
        self.name, self.status, self.backend, self.t, self.detail = name, status, backend, t, detail


class Engine:
    def __init__(self, timeout_ms=8000, budget_s=600, verbose=False):
        self.timeout_ms = timeout_ms
        self.verbose = verbose
        self.obligations = []      # Obligation
        self.failures = []         # dict(name, kind, model, detail, pc)
        self.covers = []           # (name, bool)
        self.solver_time = 0.0
        self.nqueries = 0
        self.memo = {}
        self.assumed = []          # assumed contracts / models used
        self.functions = {}        # qualname -> sha of extracted source
        self.dropped = set()
        self.deadline = time.time() + budget_s
        self.max_paths = 4000
        self.backends = {}
        self.fn_name = "?"
        self.npaths = 0
        self.reset_path([])

    # -- paths ------------------------------------------------------------
    def reset_path(self, decisions):
        self.decisions = list(decisions)
        self.idx = 0
        self.pc = []
        self.field_facts = []       # terms which are not zero: used for the obligations, and for the divisors
        self.solver = PathSolver()
        self.pending = []
        self.counter = itertools.count()
        self.names = {}
        self.loop_stack = []
        self.quiet = 0
        self.depth = 0
        self.probe = None

    def fresh(self, kind_, name="v"):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        nm = f"{name}!{n}" if n else name
        return Sv(z3.Const(nm, SORTS[kind_]), kind_)

    def fresh_fun(self, name, *sorts):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        nm = f"{name}!{n}" if n else name
        return z3.Function(nm, *[SORTS[s] if isinstance(s, str) else s for s in sorts])

    def fresh_name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return f"{name}!{n}" if n else name

    def assume(self, f):
        f = zb(f)
        if z3.is_true(f):
            return
        self.pc.append(f)
        self.solver.add(f)

    def check_time(self):
        if time.time() > self.deadline:
            raise Undischarged("time budget of the check exhausted")

    def feasible(self, f):
        self.check_time()
        return self.query(f) != z3.unsat

    def query(self, f):
        """satisfiability with the path condition; the paths of a contract share prefixes, whose queries are memoised"""
        if self.field_facts and z3.is_eq(f) and f.arg(0).sort() == z3.RealSort():
            from . import field
            if field.nonzero(self.pc + self.field_facts, f.arg(0), f.arg(1)):
                return z3.unsat
        key = (tuple(h.get_id() for h in self.pc), f.get_id())
        hit = self.memo.get(key)
        if hit is None:
            t = time.time()
            self.nqueries += 1
            hit = self.memo[key] = (self.solver.check(f), list(self.pc), f)    # the terms are kept alive: their ids stay unique
            self.solver_time += time.time() - t
        return hit[0]

    def valid(self, f, timeout=None):
        """quick validity test under the path condition (no obligation recorded)"""
        f = zb(f)
        if z3.is_true(f):
            return True
        self.check_time()
        return self.query(z3.Not(f)) == z3.unsat

    def branch(self, c, hint=None):
        c = zb(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.idx < len(self.decisions):
            d = self.decisions[self.idx]
            self.idx += 1
            self.assume(c if d else z3.Not(c))
            return d
        t = self.feasible(c)
        f = self.feasible(z3.Not(c))
        if t and f:
            self.pending.append(self.decisions[: self.idx] + [False])
            d = True
        elif t:
            d = True
        elif f:
            d = False
        else:
            raise Infeasible()
        self.decisions.append(d)
        self.idx += 1
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, n, what=""):
        """non deterministic choice between n alternatives (all explored)"""
        if self.idx < len(self.decisions):
            d = self.decisions[self.idx]
            self.idx += 1
            return d
        for j in range(n - 1, 0, -1):
            self.pending.append(self.decisions[: self.idx] + [j])
        self.decisions.append(0)
        self.idx += 1
        return 0

    def truth(self, v):
        if isinstance(v, Sv):
            return self.branch(truth_term(v))
        if z3.is_expr(v):
            return self.branch(v)
        return bool(v)

    def explore(self, body, label=""):
        """run `body()` along all its paths"""
        todo = [[]]
        n = 0
        saved_max = self.max_paths
        while todo:
            n += 1
            if n > saved_max:
                raise TooManyPaths(f"{label}: more than {saved_max} paths")
            self.reset_path(todo.pop())
            try:
                body()
            except (Infeasible, PathEnd):
                pass
            todo.extend(self.pending)
            self.npaths += 1
        return n

    # -- nested exploration (loop bodies, comprehensions) ------------------
    def sub_explore(self, run, extra=()):
        """Explore `run()` along all its paths from the current path condition.

        `run` must work on cloned state. Returns [(conds, outcome)], where conds are the
        z3 conditions added by the path, after `extra`."""
        saved = (self.decisions, self.idx, self.pc, self.solver, self.pending, dict(self.names))
        results = []
        todo = [[]]
        self.sub_depth = getattr(self, "sub_depth", 0) + 1
        base_pc = list(self.pc) + [zb(x) for x in extra]
        n = 0
        try:
            while todo:
                n += 1
                if n > 400:
                    raise TooManyPaths("loop body: more than 400 paths")
                self.decisions = todo.pop()
                self.idx = 0
                self.pc = list(base_pc)
                self.solver = PathSolver(*base_pc)
                self.pending = []
                self.names = dict(saved[5])
                try:
                    out = run()
                    results.append((list(self.pc[len(base_pc):]), out))
                except Infeasible:
                    pass
                except PathEnd:
                    pass
                todo.extend(self.pending)
        finally:
            self.sub_depth -= 1
            (self.decisions, self.idx, self.pc, self.solver, self.pending, names) = saved
            # names used inside must not be reused outside with another meaning
            for k_, v_ in self.names.items():
                names[k_] = max(names.get(k_, 0), v_)
            self.names = names
        return results

    # -- obligations -------------------------------------------------------
    def prove(self, name, goal, hints=(), detail=""):
        """an obligation of the property: path condition => goal"""
        goal = zb(goal)
        full = f"{self.fn_name}: {name}"
        if self.quiet:
            return True
        st, model, backend, t, reason = self.solve(list(self.pc) + self.field_facts + [zb(h) for h in hints], goal)
        self.obligations.append(Obligation(full, st, backend, t))
        self.backends[backend] = self.backends.get(backend, 0) + 1
        if st != "valid":
            self.failures.append(dict(name=full, kind=st, model=model, detail=detail or reason,
                                      goal=str(goal)[:2000]))
            if self.verbose:
                print("  FAIL", full, st, reason, str(goal)[:300], model)
            return False
        if self.verbose:
            print("  ok  ", full, backend, f"{t:.2f}s")
        return True

    def fail(self, name, detail):
        full = f"{self.fn_name}: {name}"
        self.obligations.append(Obligation(full, "undecided", "-", 0.0))
        self.failures.append(dict(name=full, kind="undecided", model=None, detail=detail, goal=""))
        if self.verbose:
            print("  FAIL", full, detail)

    def solve(self, hyps, goal):
        self.check_time()
        t0 = time.time()
        g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if z3.is_true(g):
            return "valid", None, "simplifier", 0.0, ""
        from . import sums, textfs
        if not z3.is_quantifier(goal) and sums.collect([goal]) and has_ite(goal):
            hyps, goal = prune(hyps, goal, t0 + 30)
        hyps = list(hyps) + textfs.int_axioms(list(hyps) + [goal])
        _, lem = sums.lemmas(self, hyps, goal)
        if lem or sums.collect(list(hyps)):
            fs = sums.abstract(list(hyps) + lem + [goal])
            hyps, goal = fs[:-1], fs[-1]
        from . import field
        if field.has_division(goal) and has_ite(goal) and not has_quant(goal) and not sums.collect([goal]):
            hyps, goal = prune(hyps, goal, t0 + 20, linear=True)
        if field.prove(list(hyps), goal):
            dt = time.time() - t0
            self.solver_time += dt
            return "valid", None, "field (sympy)", dt, ""
        hyps = hyps + nonlin.lemmas_of(list(hyps) + [goal])
        s = z3.Solver()
        first = min(3000, self.timeout_ms)
        s.set("timeout", first)
        s.add(*hyps)
        s.add(z3.Not(goal))
        self.nqueries += 1
        r = s.check()
        if r == z3.unknown:
            ab, changed = abstract_nonlinear(list(hyps) + [z3.Not(goal)])
            if changed:
                sa = z3.Solver()
                sa.set("timeout", min(6000, self.timeout_ms))
                sa.add(*ab)
                if sa.check() == z3.unsat:
                    dt = time.time() - t0
                    self.solver_time += dt
                    return "valid", None, "z3 (products abstracted)", dt, ""
        if r == z3.unknown and has_ite(goal) and not has_quant(goal):
            ok = split_ites(list(hyps), goal, time.time() + min(20, 3 * self.timeout_ms / 1000))
            if ok:
                dt = time.time() - t0
                self.solver_time += dt
                return "valid", None, "z3 (case analysis)", dt, ""
        dt = time.time() - t0
        self.solver_time += dt
        if r == z3.unsat:
            return "valid", None, "z3", dt, ""
        model = None
        if r == z3.sat:
            m = s.model()
            model = model_dict(m)
            if not any(z3.is_quantifier(x) for x in hyps):
                return "refuted", model, "z3", dt, "counter-model found"
        # second back end
        r2, dt2 = cvc5_check(s, self.timeout_ms)
        self.solver_time += dt2
        if r2 == "unsat":
            return "valid", None, "cvc5", dt + dt2, ""
        if r == z3.sat:
            return "refuted", model, "z3", dt + dt2, "counter-model found (quantified hypotheses)"
        # a last try with other z3 tactics
        s2 = z3.SolverFor("AUFLIA") if False else z3.Solver()
        s2.set("timeout", self.timeout_ms)
        s2.set("smt.arith.solver", 2) if False else None
        s2.set("random_seed", 7)
        s2.add(*hyps)
        s2.add(z3.Not(goal))
        r3 = s2.check()
        dt3 = time.time() - t0
        if r3 == z3.unsat:
            return "valid", None, "z3(seed 7)", dt3, ""
        return "unknown", model, "z3+cvc5", dt3, f"z3: {s.reason_unknown() if r == z3.unknown else r}, cvc5: {r2}"

    def cover(self, name, f=True):
        """reachability: path condition and f must be satisfiable on at least one path"""
        if self.quiet or (f"{self.fn_name}: {name}", True) in self.covers:
            return
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*self.pc, *self.field_facts)
        s.add(zb(f))
        r = s.check()
        self.covers.append((f"{self.fn_name}: {name}", r != z3.unsat))

    def note_assumed(self, s):
        if s not in self.assumed:
            self.assumed.append(s)


def model_dict(m):
    out = {}
    for d in m.decls():
        try:
            out[d.name()] = str(m[d])[:200]
        except Exception:
            pass
    return out


def has_ite(f):
    return first_ite(f) is not None


def first_ite(f):
    """condition of an innermost-condition if-then-else of a quantifier-free term"""
    seen, todo = set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c = t.arg(0)
            r = first_ite(c)
            return c if r is None else r
        todo.extend(reversed(t.children()))
    return None


def prune(hyps, goal, t_end, linear=False):
    """(hypotheses, goal): the hypotheses of an implication are moved, and the conditionals of the goal which are
    settled by the hypotheses are simplified"""
    extra = []
    if z3.is_or(goal):
        pre = [c for c in goal.children() if z3.is_not(c)]
        rest = [c for c in goal.children() if not z3.is_not(c)]
        if pre and rest:
            extra = [c.arg(0) for c in pre]
            goal = z3.Or(*rest) if len(rest) > 1 else rest[0]
    s = PathSolver()
    s.linear = linear
    s.add(*[h for h in hyps if not has_quant(no_sums(h))], *extra)
    memo, known = {}, {}
    from .sums import _K

    def decide(c):
        k = c.get_id()
        if k not in known:
            s.keep.append(c)
            if time.time() > t_end or has_quant(no_sums(c)):
                known[k] = None
            else:
                known[k] = True if s.check(z3.Not(c)) == z3.unsat else False if s.check(c) == z3.unsat else None
        return known[k]

    def rec(t, depth):
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(t):
            r = t
            if t.is_lambda() and t.num_vars() == 1 and t.var_sort(0) == z3.IntSort():
                k0 = z3.Int(f"k!prune{depth}")
                body = z3.substitute_vars(t.body(), k0)
                new = rec(body, depth + 1)
                if not new.eq(body):
                    r = z3.Lambda([_K], z3.substitute(new, (k0, _K)))
        elif z3.is_app_of(t, z3.Z3_OP_ITE):
            v = decide(t.arg(0))
            if v is None:
                r = z3.If(rec(t.arg(0), depth), rec(t.arg(1), depth), rec(t.arg(2), depth))
            else:
                r = rec(t.arg(1 if v else 2), depth)
        elif z3.is_app(t) and t.num_args():
            ch = [rec(c, depth) for c in t.children()]
            r = t if all(x.eq(y) for x, y in zip(ch, t.children())) else rebuild(t, ch)
        else:
            r = t
        memo[k] = (t, r)
        return r
    goal = z3.simplify(rec(goal, 0))
    return list(hyps) + extra, goal


def split_ites(hyps, goal, t_end, depth=0):
    """case analysis on the conditions of the goal; products are abstracted (with instances of the lemmas)"""
    hs = [h for h in hyps if not has_quant(h)]
    # the hypotheses of the goal itself
    while z3.is_or(goal) and depth == 0:
        ch = goal.children()
        pre = [c for c in ch if z3.is_not(c)]
        rest = [c for c in ch if not z3.is_not(c)]
        if not pre or not rest:
            break
        hs += [c.arg(0) for c in pre]
        goal = z3.Or(*rest) if len(rest) > 1 else rest[0]
    if z3.is_and(goal) and depth == 0:
        return all(split_ites(hs, g, t_end, 1) for g in goal.children())
    return split_rec(hs, goal, t_end, 0)


def split_rec(hs, goal, t_end, depth):
    while True:
        if time.time() > t_end or depth > 7:
            return False
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        c = first_ite(goal)
        if c is None:
            return unsat_abstract(hs + [z3.Not(goal)]) or not depth and False
        if unsat_abstract(hs + [z3.Not(c)]):
            goal = z3.substitute(goal, (c, z3.BoolVal(True)))
        elif unsat_abstract(hs + [c]):
            goal = z3.substitute(goal, (c, z3.BoolVal(False)))
        else:
            return split_rec(hs + [c], z3.substitute(goal, (c, z3.BoolVal(True))), t_end, depth + 1) and \
                split_rec(hs + [z3.Not(c)], z3.substitute(goal, (c, z3.BoolVal(False))), t_end, depth + 1)


def unsat_abstract(fs):
    fs = fs + nonlin.lemmas_of(fs)
    ab, _ = abstract_nonlinear(fs)
    s = z3.Solver()
    s.set("timeout", 1500)
    s.add(*ab)
    return s.check() == z3.unsat


def abstract_nonlinear(fs):
    """products and quotients of two non-constant terms as uninterpreted functions (a weaker theory:
    what is unsatisfiable there is unsatisfiable)"""
    R, N = z3.RealSort(), z3.IntSort()
    F = {}
    def fun(name, srt):
        return F.setdefault((name, srt.name()), z3.Function(f"nl_{name}_{srt.name()}", srt, srt, srt))
    memo, changed = {}, [False]
    isnum = lambda t: z3.is_rational_value(t) or z3.is_int_value(t)

    def rec(t):
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(t) or z3.is_var(t) or not t.children():
            r = t
        else:
            ch = [rec(c) for c in t.children()]
            kd = t.decl().kind()
            if kd == z3.Z3_OP_MUL and sum(1 for c in ch if not isnum(c)) >= 2:
                changed[0] = True
                nums = [c for c in ch if isnum(c)]
                rest = sorted([c for c in ch if not isnum(c)], key=lambda c: c.get_id())
                f = fun("mul", t.sort())
                r = rest[0]
                for c in rest[1:]:
                    r = f(r, c)
                for c in nums:
                    r = c * r
            elif kd in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not isnum(ch[1]):
                changed[0] = True
                r = fun({z3.Z3_OP_DIV: "div", z3.Z3_OP_IDIV: "idiv", z3.Z3_OP_MOD: "mod"}[kd], t.sort())(*ch)
            else:
                r = rebuild(t, ch)
        memo[k] = (t, r)
        return r
    out = []
    for f in fs:
        if not z3.is_quantifier(f):
            f = z3.simplify(f, som=True)
        out.append(rec(f))
    return out, changed[0]


def rebuild(t, ch):
    if all(a.eq(b) for a, b in zip(ch, t.children())):
        return t
    d = t.decl()
    kd = d.kind()
    if kd == z3.Z3_OP_AND:
        return z3.And(*ch)
    if kd == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if kd == z3.Z3_OP_ADD:
        return z3.Sum(*ch)
    if kd == z3.Z3_OP_MUL:
        return z3.Product(*ch)
    if kd == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    if kd == z3.Z3_OP_SEQ_CONCAT:
        return z3.Concat(*ch)
    return d(*ch)


def cvc5_check(solver, timeout_ms):
    t = time.time()
    try:
        smt = solver.to_smt2()
    except Exception as e:  # pragma: no cover
        return f"export failed: {e}", 0.0
    smt = "(set-logic ALL)\n" + smt
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(smt)
        name = f.name
    try:
        p = subprocess.run(["cvc5", f"--tlimit={timeout_ms}", "--strings-exp", name],
                           capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        out = p.stdout.strip().splitlines()
        res = out[0] if out else (p.stderr.strip().splitlines() or ["?"])[0][:80]
    except subprocess.TimeoutExpired:
        res = "timeout"
    except FileNotFoundError:
        res = "absent"
    finally:
        os.unlink(name)
    return res, time.time() - t
