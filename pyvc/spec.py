"""Contracts: registration, inputs, obligations."""
import ast
import time
import traceback

import z3

from . import models, npmodel, odict, ops, sums, textfs  # noqa: F401
from . import values as V
from .core import (Engine, Sv, Unsupported, Undischarged, Infeasible, PathEnd, TooManyPaths, mk, ze, zb,
                   And, Or, Not, Implies, kind, SORTS, U, nanof)
from .interp import Interp, BoundV
from .ops import PyRaise, BExc
from .source import FuncV, ClassV, Loader
from .values import Arr, ExtRef, Obj, VDict, VList, VMap, new_arr

REGISTRY = {}     # property -> [Contract]


class Contract:
    def __init__(self, prop, name, fn, doc, opts):
        self.prop, self.name, self.fn, self.doc, self.opts = prop, name, fn, doc, opts


def contract(prop, name=None, **opts):
    def deco(f):
        REGISTRY.setdefault(prop, []).append(Contract(prop, name or f.__name__, f, (f.__doc__ or "").strip(), opts))
        return f
    return deco


class Spec:
    """What a contract can use: symbolic inputs, calls of the real functions, obligations."""
    def __init__(self, E):
        self.E = E
        self.loader = Loader()
        self.fresh_path()
        self.setup = None

    def fresh_path(self):
        self.I = Interp(self.E, dict(models.MODELS), self.loader)
        self.E.inverses = {}
        for m in self.loader.modules.values():
            m.values = {}

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        v = self.E.fresh("int", name)
        if lo is not None:
            self.req(v >= lo)
        if hi is not None:
            self.req(v <= hi)
        return v

    def real(self, name, nan=False, np=False):
        v = self.E.fresh("real", name)
        v.np = np
        if nan:
            v.nan = z3.Const(self.E.fresh_name(name + "_nan"), z3.BoolSort())
        return v

    def bool(self, name):
        return self.E.fresh("bool", name)

    def str(self, name):
        return self.E.fresh("str", name)

    def obj(self, name):
        return self.E.fresh("obj", name)

    def arr(self, name, shape, kd="real", nan=False):
        shape = tuple(shape)
        f = self.E.fresh_fun(name, *["int"] * len(shape), kd)
        g = self.E.fresh_fun(name + "_isnan", *["int"] * len(shape), "bool") if nan else None
        def get(idx, f=f, g=g):
            z = [ze(i) for i in idx]
            return Sv(f(*z) if z else f(), kd, g(*z) if g is not None else None, True)
        return new_arr(shape, get, kd)

    def list(self, name, n, kd="obj", get=None):
        if get is None:
            f = self.E.fresh_fun(name, "int", kd)
            get = lambda i: Sv(f(ze(i)), kd)
        return VList(n=n, get=get)

    def distinct(self, name, n):
        """(list of n distinct opaque items, position of an item)"""
        f = self.E.fresh_fun(name, "int", "obj")
        p = self.E.fresh_fun("pos_" + name, "obj", "int")
        def inv(t):
            if z3.is_app(t) and t.decl().eq(f):
                return t.arg(0)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                return z3.If(t.arg(0), inv(t.arg(1)), inv(t.arg(2)))
            return p(t)
        return VList(n=n, get=lambda i: Sv(f(ze(i)), "obj")), lambda x: mk(inv(ze(x)))

    def path(self, name):
        """a path with an arbitrary text"""
        s = self.E.fresh("str", name)
        return textfs.mkpath(s)

    def map(self, name, keyk="str", valk="obj", empty=True):
        """dictionary with unknown keys (empty by default)"""
        if empty:
            return VMap(keyk, lambda q: z3.BoolVal(False), lambda q: None)
        h = self.E.fresh_fun(name + "_has", keyk, "bool")
        g = self.E.fresh_fun(name, keyk, valk)
        return VMap(keyk, lambda q: h(ze(q, keyk)), lambda q: Sv(g(ze(q, keyk)), valk))

    def fs(self):
        return textfs.fs(self.I)

    # ---- the code
    def ref(self, path):
        """module:name or module:Class.member"""
        mod, name = path.split(":")
        if not mod.startswith("fluidimage"):
            mod = "fluidimage." + mod
        m = self.loader.module(mod)
        if m is None:
            raise Unsupported(f"module {mod} not found")
        parts = name.split(".")
        if parts[0] not in m.defs:
            raise Unsupported(f"{path} not found")
        v = self.I.module_name(m, parts[0])
        for p in parts[1:]:
            r = self.I.find_member(v, p)
            if r is None:
                raise Unsupported(f"{path} not found")
            v = r[1]
        return v

    def new(self, path, **attrs):
        """instance of a class of the repository, without running its constructor"""
        return Obj(self.ref(path), attrs)

    def ns(self, cls="namespace", **attrs):
        return Obj(cls, attrs)

    def call(self, path, *args, **kw):
        f = self.ref(path) if isinstance(path, str) else path
        return self.I.call(f, args, kw)

    def meth(self, obj, name, *args, **kw):
        return self.I.call(self.I.getattr(obj, name), args, kw)

    def attempt(self, thunk):
        """(value, None) or (None, exception value)"""
        nf, dp = len(self.I.frames), self.I.depth
        try:
            return thunk(), None
        except PyRaise as e:
            del self.I.frames[nf:]
            self.I.depth = dp
            return None, e.exc

    def exc_is(self, exc, cls):
        return isinstance(exc, BExc) and issubclass(exc.cls, cls)

    def stub(self, path, f):
        mod, name = path.split(":")
        if not mod.startswith("fluidimage"):
            mod = "fluidimage." + mod
        self.I.stubs[f"{mod}:{name}"] = f

    def model(self, name, f):
        """assumed contract of a function of a library (dotted name)"""
        self.I.models[name] = f
        self.E.note_assumed(f"contract of {name} as stated in the contract {self.E.fn_name}")

    def get(self, o, i):
        return self.I.getitem(o, i)

    def attr(self, o, name):
        return self.I.getattr(o, name)

    # ---- logic
    def req(self, c):
        self.E.assume(c)

    def nonzero(self, t):
        """a precondition: a real number is not zero (used for the obligations and for the divisors only)"""
        self.E.field_facts.append(t != 0)

    def ens(self, name, c, **k):
        return self.E.prove(name, c if not isinstance(c, V.Poison) else False, **k)

    def cover(self, name, c=True):
        self.E.cover(name, c)

    def idx(self, name, n):
        """an arbitrary index in range(n)"""
        v = self.E.fresh("int", name)
        self.req(And(v >= 0, v < n))
        return v

    def instances(self, *ts):
        """instances, at the given integers, of the universally quantified hypotheses of the path"""
        ts = [ze(t) for t in ts]
        for h in list(self.E.pc):
            if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == len(ts) and all(
                    h.var_sort(i) == z3.IntSort() for i in range(len(ts))):
                self.E.assume(z3.substitute_vars(h.body(), *reversed(ts)))

    def eq(self, a, b):
        """formula: equal values (nan equal to nan)"""
        return eq_values(self, a, b)

    def sum(self, n, f, real=False):
        """sum of f(k) for k in range(n)"""
        def g(k):
            rs = self.E.sub_explore(lambda: f(k), [k >= 0, k < n])
            if not rs:
                return 0
            v = rs[-1][1]
            for c, x in reversed(rs[:-1]):
                v = V.vite(And(*c), x, v, fork=False)
            return v
        return sums.sum_val(self.E, n, g, real)

    def len(self, v):
        return self.I.models_builtin()["len"](self.I, v)

    def call_builtin(self, name, *a, **k):
        return self.I.models_builtin()[name](self.I, *a, **k)

    def fmt(self, v, spec=""):
        return models.fmt_value(self.I, v, spec)

    def raise_(self, cls, *a, **k):
        """raise an exception of a class of the repository (path) or a built-in class"""
        if isinstance(cls, type):
            ops.raise_py(cls, *a)
        raise PyRaise(self.call(cls, *a, **k))

    def contains(self, o, x):
        """formula: x in o"""
        return zb(models.contains(self.I, x, o))

    def choose(self, n, what=""):
        """all of n alternatives, one path each"""
        return self.E.choose(n, what)

    def when(self, c):
        """split the path on a condition"""
        return self.E.branch(c)


def ite(c, a, b):
    return V.vite(zb(c), a, b)


def vmin(a, b):
    return ite(ops.compare("<", a, b), a, b)


def vmax(a, b):
    return ite(ops.compare("<", a, b), b, a)


def eq_values(S, a, b):
    if a is b:
        return z3.BoolVal(True)
    if V.is_scalar(a) and V.is_scalar(b):
        ka, kb = kind(a), kind(b)
        num = ("int", "real", "bool")
        if ka != kb and not (ka in num and kb in num):
            return z3.BoolVal(False)
        k = ka if ka == kb else "real" if "real" in (ka, kb) else "int"
        if k == "str":
            pa, pb = textfs.flatten(a), textfs.flatten(b)
            if len(pa) == len(pb) and len(pa) > 1 and all(
                    x == y if isinstance(x, str) and isinstance(y, str) else
                    not isinstance(x, str) and not isinstance(y, str) for x, y in zip(pa, pb)):
                cs = []
                for x, y in zip(pa, pb):
                    if isinstance(x, str):
                        continue
                    if z3.is_app(x) and z3.is_app(y) and x.decl().eq(y.decl()) and x.num_args() == 1 and \
                            textfs.is_int_atom(x):
                        cs.append(x.arg(0) == y.arg(0))
                    else:
                        cs.append(x == y)
                return And(*cs)
        e = ze(a, k) == ze(b, k)
        na, nb = nanof(a), nanof(b)
        if z3.is_false(na) and z3.is_false(nb):
            return e
        return And(na == nb, Or(na, e))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return And(*[eq_values(S, x, y) for x, y in zip(a, b)])
    if isinstance(a, VList) and isinstance(b, VList) and a.concrete and b.concrete:
        if len(a.items) != len(b.items):
            return z3.BoolVal(False)
        return And(*[eq_values(S, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim != b.ndim:
            return z3.BoolVal(False)
        ii = [S.E.fresh("int", "ix") for _ in a.shape]
        rng = And(*[And(i >= 0, i < s) for i, s in zip(ii, a.shape)])
        sh = And(*[eq_values(S, x, y) for x, y in zip(a.shape, b.shape)])
        return And(sh, z3.ForAll([i.e for i in ii], Implies(rng, eq_values(S, a.at(ii), b.at(ii))))
                   if ii else eq_values(S, a.at(()), b.at(())))
    if isinstance(a, VList) and isinstance(b, VList):
        i = S.E.fresh("int", "ix")
        return And(eq_values(S, a.length(), b.length()),
                   z3.ForAll([i.e], Implies(And(i >= 0, i < a.length()), eq_values(S, a.get(i), b.get(i)))))
    if isinstance(a, V.SliceV) and isinstance(b, V.SliceV):
        return And(eq_values(S, a.start, b.start), eq_values(S, a.stop, b.stop), eq_values(S, a.step, b.step))
    if isinstance(a, VDict) and isinstance(b, VDict):
        if list(a.d) != list(b.d):
            return z3.BoolVal(False)
        return And(*[eq_values(S, a.d[k], b.d[k]) for k in a.d])
    if a is None or b is None:
        return z3.BoolVal(a is None and b is None)
    return z3.BoolVal(a is b or V.same(a, b))


def run_contract(c, timeout_ms=8000, budget_s=200, verbose=False):
    """verify one contract; returns a plain dictionary"""
    E = Engine(timeout_ms=timeout_ms, budget_s=budget_s, verbose=verbose)
    E.fn_name = c.name
    S = Spec(E)
    t0 = time.time()
    npaths = [0]

    def body():
        S.fresh_path()
        npaths[0] += 1
        try:
            c.fn(S)
        except PyRaise as e:
            # an exception where the contract promises a result
            what = repr(e.exc)
            if isinstance(e.exc, Obj):
                what = f"{e.exc.cls.name}{e.exc.attrs.get('args', '')}"
            E.prove(f"no exception ({what[:150]})", False)
        except (Unsupported, Undischarged) as e:
            if E.feasible(z3.BoolVal(True)):
                E.fail("within the verifier's reach", f"{type(e).__name__}: {e}" + where(S.I))
        except RecursionError as e:
            E.fail("within the verifier's reach", f"recursion limit{where(S.I)}")
        except (Infeasible, PathEnd, TooManyPaths):
            raise
        except Exception as e:          # engine crash: the obligation is undecided
            E.fail("within the verifier's reach", f"engine: {type(e).__name__}: {e}" +
                   (traceback.format_exc()[-1500:]))
    try:
        E.explore(body)
    except (Undischarged, TooManyPaths, Unsupported) as e:
        E.fail("within the verifier's reach", f"{type(e).__name__}: {e}")
    except Exception as e:
        E.fail("within the verifier's reach", f"engine: {type(e).__name__}: {e}")
    covers = {}
    for n, ok in E.covers:
        covers[n] = covers.get(n, False) or ok
    obl = E.obligations
    return dict(
        contract=c.name, doc=c.doc, paths=npaths[0],
        obligations=[dict(name=o.name, status=o.status, backend=o.backend, t=round(o.t, 3)) for o in obl],
        failures=E.failures, covers=[[k, v] for k, v in covers.items()],
        functions=E.functions, assumed=E.assumed, dropped=sorted(E.dropped),
        solver_s=round(E.solver_time, 2), queries=E.nqueries, backends=E.backends,
        wall_s=round(time.time() - t0, 2), bounded=c.opts.get("bounded"))


def where(I):
    out = []
    for f in I.frames[-4:]:
        if f.fn is not None:
            out.append(f.fn.qual)
    return (" in " + " > ".join(out)) if out else ""
