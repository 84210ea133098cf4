"""Loops, comprehensions and merged conditionals.

A loop over a sequence of symbolic length is replaced by its summary: a closed form S(k) of the
state at the start of iteration k, inferred from a symbolic execution of the body and then proved
inductive (the body run from S(k) ends in S(k+1), for an arbitrary k). Early exits (break, return,
exceptions) are the alternative "the loop leaves at iteration e"."""
import ast

import z3

from . import ops, sums
from . import values as V
from .core import (Sv, Unsupported, Undischarged, PathEnd, Infeasible, mk, ze, zb, And, Or, Not, Implies,
                   kind, is_scalar, nanof, has_nan, free_consts)
from .ops import PyRaise, raise_py
from .values import (Arr, Frame, NoMerge, Obj, Poison, Store, VDict, VList, VMap, VSet, clone,
                     clone_back, same, subst, vite)

MISSING = object()


class Cell:
    def __init__(self, typ, obj, name=None):
        self.typ, self.obj, self.name = typ, obj, name

    @property
    def key(self):
        return (self.typ, id(self.obj), self.name)

    def read(self, o=None):
        o = self.obj if o is None else o
        if self.typ == "var":
            return o.vars.get(self.name, MISSING)
        if self.typ == "attr":
            return o.attrs.get(self.name, MISSING)
        if self.typ == "item":
            return o.d.get(self.name, MISSING)
        raise KeyError

    def write(self, v, o=None):
        o = self.obj if o is None else o
        d = o.vars if self.typ == "var" else o.attrs if self.typ == "attr" else o.d
        if v is MISSING:
            d.pop(self.name, None)
        else:
            d[self.name] = v

    def __repr__(self):
        return f"{self.typ}:{self.name or type(self.obj).__name__}"


class Outcome:
    def __init__(self, kind_, value=None):
        self.kind, self.value = kind_, value


class Changes:
    def __init__(self):
        self.scalars = {}     # key -> (Cell, value)
        self.logs = {}        # key -> (Cell, log)


def run_body(I, body, forms, k, extra_assume=()):
    """one execution of the body from the state described by `forms` (cell -> value at k);
    returns (Outcome, Changes)"""
    from .interp import BreakX, ContinueX, ReturnX
    E = I.E
    memo = {}
    frames0, ghosts0 = I.frames, I.ghosts
    frames = [clone(f, memo) for f in frames0]
    ghosts = clone(ghosts0, memo)
    for cell, form in forms.values():
        form.install(cell, memo, k)
    rev = {id(c): o for c, o in memo.values()}
    snap = {}
    for oid, (c, o) in list(memo.items()):
        if isinstance(c, Frame):
            snap[oid] = dict(c.vars)
        elif isinstance(c, Obj):
            snap[oid] = dict(c.attrs)
        elif isinstance(c, VDict):
            snap[oid] = dict(c.d)
            c.log = []
        elif isinstance(c, (VList, Store, VMap)):
            c.log = []
        elif isinstance(c, VSet):
            snap[oid] = None if c.items is None else list(c.items)
    handling0 = list(getattr(I, "handling", []))
    depth0 = I.depth
    I.frames, I.ghosts = frames, ghosts
    try:
        try:
            body()
            out = Outcome("normal")
        except ContinueX:
            out = Outcome("normal")
        except BreakX:
            out = Outcome("break")
        except ReturnX as r:
            out = Outcome("return", r.value)
        except PyRaise as r:
            out = Outcome("raise", r.exc)
    finally:
        I.frames, I.ghosts = frames0, ghosts0
        I.handling = handling0
        I.depth = depth0
    ch = Changes()
    seen = {}
    for oid, (c, o) in list(memo.items()):
        if isinstance(o, (Frame, Obj)):
            d = c.vars if isinstance(c, Frame) else c.attrs
            typ = "var" if isinstance(c, Frame) else "attr"
            before = snap.get(oid)
            if before is None:
                continue
            for name in list(d) + [n for n in before if n not in d]:
                new = d.get(name, MISSING)
                old = before.get(name, MISSING)
                if new is old or (new is not MISSING and old is not MISSING and same(new, old)):
                    continue
                new = clone_back(new, rev, seen) if new is not MISSING else new
                cell = Cell(typ, o, name)
                ch.scalars[cell.key] = (cell, new)
        elif isinstance(c, VDict) and c.__class__ is VDict:
            before = snap[oid]
            for name in list(c.d) + [n for n in before if n not in c.d]:
                new, old = c.d.get(name, MISSING), before.get(name, MISSING)
                if new is old or (new is not MISSING and old is not MISSING and same(new, old)):
                    continue
                new = clone_back(new, rev, seen) if new is not MISSING else new
                cell = Cell("item", o, name)
                ch.scalars[cell.key] = (cell, new)
        elif isinstance(c, (VList, Store, VMap)):
            if c.log:
                cell = Cell("cont", o)
                if isinstance(o, VDict):
                    # a concrete dictionary became symbolic in the body
                    cell = Cell("cont", o)
                    cell.becomes = c.keyk
                log = [tuple(clone_back(x, rev, seen) if not callable(x) else x for x in entry)
                       for entry in c.log]
                ch.logs[cell.key] = (cell, log)
        elif isinstance(c, VSet):
            b = snap[oid]
            if (b is None) != (c.items is None) or (b is not None and not (
                    len(b) == len(c.items) and all(same(x, y) for x, y in zip(b, c.items)))):
                cell = Cell("cont", o)
                ch.logs[cell.key] = (cell, [("other",)])
    if out.value is not None:
        out.value = clone_back(out.value, rev, seen)
    return out, ch


# ------------------------------------------------------------------ forms

class Form:
    def install(self, cell, memo, k):
        """set the value at the start of iteration k in the cloned state"""
        v = self.at(k)
        target = memo[id(cell.obj)][0] if id(cell.obj) in memo else None
        if target is None:
            return
        cell.write(clone(v, memo) if v is not MISSING else v, target)


class Havoc(Form):
    """unresolved scalar: a fresh symbol"""
    def __init__(self, sym, v0):
        self.sym, self.v0 = sym, v0

    def at(self, k):
        return self.sym


class Undef(Form):
    """not readable at the start of an iteration (no closed form)"""
    def __init__(self, why, v0, last=None):
        self.why, self.v0, self.last = why, v0, last

    def at(self, k):
        return Poison(self.why)


class PathForm(Form):
    """a path: the form of its text (`parent` is the same in all iterations, or unknown)"""
    def __init__(self, inner, parent):
        self.inner, self.parent = inner, parent

    def at(self, k):
        from .textfs import mkpath
        return mkpath(self.inner.at(k), self.parent)


def is_path(v):
    return isinstance(v, Obj) and v.cls == "Path"


def unwrap(f):
    return f.inner if isinstance(f, PathForm) else f


def update_path(I, key, cell, form, forms, cases, kc, unresolved):
    vals = [v for _, v, w in cases if w]
    if not all(is_path(v) for v in vals):
        forms[key] = (cell, Undef(f"{cell.name} is carried by a loop", cell.read()))
        return True
    parents = {id(v.attrs["parent_"]): v.attrs["parent_"] for v in vals}
    parents.setdefault(id(form.parent), form.parent)
    parent = form.parent if len(parents) == 1 else None
    inner = {key: (cell, form.inner)}
    r = update_scalar(I, key, cell, form.inner, inner, [(c, v.attrs["s"] if w else None, w) for c, v, w in cases], kc, unresolved)
    f = inner[key][1]
    if isinstance(f, Undef):
        forms[key] = (cell, Undef(f.why, cell.read()))
        return True
    if r or parent is not form.parent:
        forms[key] = (cell, PathForm(f, parent))
        return True
    return False


class Accum(Form):
    """v0 + sum_{j<k} t(j)"""
    def __init__(self, E, v0, t, kc, real):
        self.E, self.v0, self.t, self.kc, self.real = E, v0, t, kc, real

    def term(self, j):
        return z3.substitute(self.t, (self.kc, j))

    def at(self, k):
        s = mk(sums.sum_z3(self.E, ze(k), self.term, self.real))
        return ops.add(self.v0, s)


class Last(Form):
    """value computed by the previous iteration, v0 before the first one"""
    def __init__(self, v0, u, kc):
        self.v0, self.u, self.kc = v0, u, kc

    def at(self, k):
        return vite(ze(k) == 0, self.v0, subst(self.u, [(self.kc, z3.simplify(ze(k) - 1))]), fork=False)


class CondLast(Form):
    """written by every iteration when c (which does not depend on the iteration), else never"""
    def __init__(self, v0, c, u, kc):
        self.v0, self.c, self.u, self.kc = v0, c, u, kc

    def at(self, k):
        return vite(And(ze(k) > 0, self.c), subst(self.u, [(self.kc, z3.simplify(ze(k) - 1))]), self.v0, fork=False)


class ListForm(Form):
    """appended items (m per iteration), or conditional append, and element updates"""
    def __init__(self, lst, n0, get0, items, kc):
        self.n0, self.get0, self.items, self.kc = n0, get0, items, kc

    def state(self, k):
        m = len(self.items)
        n0, g0, items, kc = self.n0, self.get0, self.items, self.kc
        n = ops.add(n0, ops.mul(k, m))
        def get(i):
            off = ops.sub(i, n0)
            if m == 1:
                new = lambda: subst_open_k(items[0], kc, ze(off))
            else:
                j = mk(z3.simplify(ze(off) / m))
                r = mk(z3.simplify(ze(off) % m))
                def new():
                    v = subst_open_k(items[-1], kc, ze(j))
                    for q in range(m - 2, -1, -1):
                        v = vite(ze(r) == q, subst_open_k(items[q], kc, ze(j)), v)
                    return v
            if isinstance(n0, int) and n0 == 0:
                return new()
            c = z3.simplify(ze(i) < ze(n0))
            if z3.is_true(c):
                return g0(i)
            if z3.is_false(c):
                return new()
            return vite(c, g0(i), new())
        return n, get

    def install(self, cell, memo, k):
        c = memo[id(cell.obj)][0]
        n, get = self.state(k)
        c.replace(n, get)

    def apply(self, lst, n):
        ln, get = self.state(n)
        if lst.log is not None:
            lst.log.append(("other",) if True else None)
        lst.replace(ln, get)
        lst.facts = None


class FilterForm(Form):
    """conditional append: the items of the iterations where cond holds"""
    def __init__(self, I, lst, n0, get0, cond, item, kc):
        self.I, self.n0, self.get0, self.cond, self.item, self.kc = I, n0, get0, cond, item, kc

    def install(self, cell, memo, k):
        # inside the loop the list must not be read
        c = memo[id(cell.obj)][0]
        def bad(*a):
            raise Undischarged("a list filled conditionally is read inside the loop")
        c.replace(Sv(z3.Int(self.I.E.fresh_name("filter_len")), "int"), bad)

    def apply(self, lst, n):
        from .npmodel import filter_facts
        kc, cond, item = self.kc, self.cond, self.item
        keep = lambda j: z3.substitute(cond, (kc, ze(j)))
        m, sel, rank, member = filter_facts(self.I, n, keep, "flt")
        n0, g0 = self.n0, self.get0
        def get(i):
            off = ops.sub(i, n0)
            new = lambda: subst_open_k(item, kc, sel(ze(off)))
            if isinstance(n0, int) and n0 == 0:
                return new()
            return vite(ze(i) < ze(n0), g0(i), new())
        if lst.log is not None:
            lst.log.append(("other",))
        lst.replace(ops.add(n0, m), get)
        lst.facts = dict(n0=n0, sel=sel, rank=rank, keep=keep, n=n, m=m,
                         item=lambda j: subst_open_k(item, kc, ze(j)))


def subst_open_k(v, kc, t):
    if kc.eq(t):
        return v
    return subst(v, [(kc, t)])


class LayerForm(Form):
    """array / dictionary / list elements written by the iterations

    layers: (conds_k, present, val_k, K): written at keys with cond(key) for k = K(key)"""
    def __init__(self, I, base, layers, kc):
        self.I, self.base, self.layers, self.kc = I, base, layers, kc

    def layer_at(self, L, n):
        kc = self.kc
        if L.W is not None:
            L = Layer(L.cond, L.present, L.val, lambda idx, W=L.W: (W(*[ze(x) for x in idx], ze(n)), z3.BoolVal(True)),
                      L.sig)
        def cond(idx):
            K, extra = L.K(idx)
            c = z3.substitute(zb(L.cond(idx)), (kc, K))
            return And(K >= 0, K < ze(n), extra, c)
        def val(idx):
            K, extra = L.K(idx)
            return V.subst_open(lambda *i: L.val(i), tuple(idx), [(kc, K)])
        return cond, L.present, val

    def write(self, cont, n, log):
        saved = cont.log
        if not log:
            cont.log = None
        for L in self.layers:
            cond, present, val = self.layer_at(L, n)
            if isinstance(cont, Store):
                cont.layer(cond, val)
            elif isinstance(cont, VMap):
                cont.layer(lambda q, c=cond: c((q,)), present, lambda q, v=val: v((q,)))
            else:
                list_layer(cont, lambda i, c=cond: c((i,)), lambda i, v=val: v((i,)))
        if not log:
            cont.log = saved

    def install(self, cell, memo, k):
        c = memo[id(cell.obj)][0]
        if getattr(cell, "becomes", None) and c.__class__ is VDict:
            from .models import become_map
            become_map(self.I, c, cell.becomes)
            c.log = None
        self.write(c, k, False)

    def apply(self, cont, n):
        self.write(cont, n, True)


def list_layer(l, cond, val):
    if l.log is not None:
        l.log.append(("layer", cond, val))
    l.make_symbolic()
    g0 = l._get
    def get(i):
        c = z3.simplify(zb(cond(i)))
        if z3.is_true(c):
            return val(i)
        if z3.is_false(c):
            return g0(i)
        return vite(c, val(i), g0(i))
    l._get = get
    l.facts = None


def last_writer(E, full, sorts, kc):
    """W(idx, n): the last of the iterations 0..n-1 which writes at idx (when there is one)"""
    W = z3.Function(E.fresh_name("last_writer"), *sorts, z3.IntSort(), z3.IntSort())
    E.note_defined = getattr(E, "note_defined", 0) + 1
    ph = [z3.Const(E.fresh_name("q!w"), s_) for s_ in sorts]
    nn, j = z3.Int(E.fresh_name("n!w")), z3.Int(E.fresh_name("j!w"))
    c = z3.simplify(zb(full(tuple(Sv(p, None) for p in ph))))
    cj = z3.substitute(c, (kc, j))
    w = W(*ph, nn)
    body = Implies(And(j >= 0, j < nn, cj), And(w >= j, w < nn, z3.substitute(c, (kc, w))))
    vs, pats = list(ph), [w]
    for p in ph:                    # q == f(j): one-point rule
        for x in conjuncts(cj):
            if z3.is_eq(x):
                a, b = x.arg(0), x.arg(1)
                if b.eq(p):
                    a, b = b, a
                if a.eq(p) and not any(sums.has_const(b, q) for q in ph):
                    body = z3.substitute(body, (p, b))
                    pats = [z3.substitute(t, (p, b)) for t in pats]
                    vs = [v for v in vs if not v.eq(p)]
                    break
    try:
        ax = z3.ForAll(vs + [nn, j], body, patterns=pats)
    except z3.Z3Exception:
        ax = z3.ForAll(vs + [nn, j], body)
    E.assume(ax)
    return W


class Layer:
    W = None

    def __init__(self, cond, present, val, K, sig):
        self.cond, self.present, self.val, self.K, self.sig = cond, present, val, K, sig


# --------------------------------------------------------------- inversion of indices

def conjuncts(e):
    out, todo = [], [e]
    while todo:
        t = todo.pop()
        if z3.is_and(t):
            todo.extend(t.children())
        else:
            out.append(t)
    return out


def solve_for(E, eq, kc):
    """(K, extra condition) such that the equation implies kc == K"""
    if not z3.is_eq(eq):
        return None
    a, b = eq.arg(0), eq.arg(1)
    inverses = getattr(E, "inverses", {})
    for x, y in ((a, b), (b, a)):
        if z3.is_app(x) and x.decl().name() in inverses and x.num_args() == 1 and not sums.has_const(y, kc):
            rank, member = inverses[x.decl().name()]
            inner = x.arg(0)
            inv = rank(y)
            mem = zb(member(Sv(y, None)))
            if inner.eq(kc):
                return inv, mem
            if inner.sort() == z3.IntSort():
                r = solve_for(E, inner == inv, kc)
                if r is not None:
                    return r[0], And(mem, r[1])
    if a.sort() == z3.StringSort():
        return solve_str(E, a, b, kc)
    if a.sort() != z3.IntSort():
        return None
    e = z3.simplify(a - b, som=True)
    c0 = z3.simplify(z3.substitute(e, (kc, z3.IntVal(0))))
    c1 = z3.simplify(z3.substitute(e, (kc, z3.IntVal(1))))
    co = z3.simplify(c1 - c0, som=True)
    if not z3.is_int_value(co) or co.as_long() == 0:
        return None
    c = co.as_long()
    if not z3.is_true(z3.simplify(e == c0 + c * kc, som=True)):
        d = z3.simplify(e - (c0 + c * kc), som=True)
        if not (z3.is_int_value(d) and d.as_long() == 0):
            return None
    if abs(c) == 1:
        return z3.simplify(-c0 if c == 1 else c0), z3.BoolVal(True)
    num = z3.simplify(-c0 if c > 0 else c0)
    return z3.simplify(num / abs(c)), num % abs(c) == 0


def solve_str(E, a, b, kc):
    """names made of a constant prefix, an injective rendering of the index, and a suffix"""
    for x, y in ((a, b), (b, a)):
        if not sums.has_const(x, kc) or sums.has_const(y, kc):
            continue
        # x = f(kc): a skolem inverse, valid because f is injective (checked)
        j = z3.Int(E.fresh_name("j!inj"))
        fj = z3.substitute(x, (kc, j))
        ok = getattr(E, "injective_formats", None)
        if ok is None or not ok(x, kc):
            continue
        inv = z3.Function(E.fresh_name("index_of_name"), z3.StringSort(), z3.IntSort())
        E.assume(z3.ForAll([j], inv(fj) == j, patterns=[fj]))
        return inv(y), z3.substitute(x, (kc, inv(y))) == y
    return None


def make_inverse(E, cond_fn, nidx, sorts, kc):
    """K(idx) from the condition of a write"""
    ph = [z3.Const(f"idx!{d}", s) for d, s in enumerate(sorts)]
    args = tuple(Sv(p, None) for p in ph)
    c = z3.simplify(zb(cond_fn(args)))
    for cj in conjuncts(c):
        r = solve_for(E, cj, kc)
        if r is not None and not sums.has_const(r[0], kc):
            K, extra = r
            def inv(idx, K=K, extra=extra):
                pairs = [(p, ze(x)) for p, x in zip(ph, idx)]
                return z3.simplify(z3.substitute(K, *pairs)), z3.simplify(z3.substitute(zb(extra), *pairs))
            return inv, c, ph
    return None, c, ph


# --------------------------------------------------------------- loop summary

def prenex(f):
    """[(variables, formula)]: conjuncts of f with the positive universal quantifiers pulled out"""
    if z3.is_and(f):
        return [x for c in f.children() for x in prenex(c)]
    if z3.is_not(f):
        a = f.arg(0)
        if z3.is_not(a):
            return prenex(a.arg(0))
        if z3.is_or(a):
            return [x for c in a.children() for x in prenex(z3.Not(c))]
        if z3.is_and(a):
            return prenex(z3.Or(*[z3.Not(c) for c in a.children()]))
        if z3.is_quantifier(a) and a.is_exists():
            vs = [z3.FreshConst(a.var_sort(i), "p") for i in range(a.num_vars())]
            return [(vs + v, b) for v, b in prenex(z3.Not(z3.substitute_vars(a.body(), *reversed(vs))))]
        return [([], f)]
    if z3.is_implies(f):
        return prenex(z3.Or(z3.Not(f.arg(0)), f.arg(1)))
    if z3.is_quantifier(f) and f.is_forall():
        vs = [z3.FreshConst(f.var_sort(i), "p") for i in range(f.num_vars())]
        return [(vs + v, b) for v, b in prenex(z3.substitute_vars(f.body(), *reversed(vs)))]
    if z3.is_or(f):
        out = [([], [])]
        for c in f.children():
            ps = prenex(c)
            if len(out) * len(ps) > 8:
                return [([], f)]
            out = [(v + w, b + [x]) for v, b in out for w, x in ps]
        return [(v, z3.Or(*b) if len(b) > 1 else b[0]) for v, b in out]
    return [([], f)]


def assume_all(E, js, f):
    """assume f for all js"""
    for v, b in (prenex(f) if has_inner_quant(f) else [([], f)]):
        b = z3.simplify(b)
        if not z3.is_true(b):
            vs, b = plain_args(js + v, b)
            E.assume(z3.ForAll(vs, b))


def plain_args(vs, b):
    """the variables are changed so that functions are applied to them and not to c - j or j + c"""
    for j in vs:
        args, seen, todo = [], set(), [b]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                todo.append(t.body())
            elif z3.is_app(t):
                if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    args += [a for a in t.children() if a.sort() == z3.IntSort() and sums.has_const(a, j)]
                todo.extend(t.children())
        if not args or any(a.eq(j) for a in args):
            continue
        for a in args:
            c0 = z3.simplify(z3.substitute(a, (j, z3.IntVal(0))))
            if has_var(c0):
                continue
            for sg in (1, -1):
                if z3.is_true(z3.simplify(a == c0 + sg * j)):
                    b = z3.simplify(z3.substitute(b, (j, j - c0 if sg == 1 else c0 - j)))
                    break
            else:
                continue
            break
    return vs, b


def has_var(t):
    return z3.is_var(t) or any(has_var(c) for c in t.children())


def has_inner_quant(f):
    from .core import has_quant
    return has_quant(f)


class Plan:
    pass


def merge_vals(cases):
    """cases: [(cond, value)], conditions exclusive and exhaustive"""
    v = cases[-1][1]
    for c, x in reversed(cases[:-1]):
        v = vite(c, x, v, fork=False)
    return v


def summarize(I, body_at, n, label, while_cond=None):
    """body_at(k): executes one iteration (including the assignment of the loop variable).

    Returns (forms, results, kc)."""
    E = I.E
    kc = z3.Int(E.fresh_name("k!" + label))
    k = Sv(kc, "int")
    rng = [kc >= 0] + ([kc < ze(n)] if n is not None else [])
    forms = {}
    names_before = dict(E.names)

    def run():
        return run_body(I, lambda: body_at(k), forms, k)

    for rnd in range(12):
        E.check_time()
        results = E.sub_explore(run, rng)
        normal = [(And(*c), out, ch) for c, (out, ch) in results if out.kind == "normal"]
        progress = False
        keys = {}
        for c, out, ch in normal:
            for key, (cell, v) in ch.scalars.items():
                keys.setdefault(key, cell)
            for key, (cell, v) in ch.logs.items():
                keys.setdefault(key, cell)
        # cells changed in exiting paths only need no form
        for key, cell in keys.items():
            if key in forms:
                continue
            progress = True
            if cell.typ == "cont":
                forms[key] = (cell, LayerForm(I, None, [], kc))
            else:
                v0 = cell.read()
                if is_scalar(v0) and kind(v0) in ("int", "real", "bool", "str", "obj"):
                    sym = E.fresh(kind(v0), "loop_" + str(cell.name))
                    # a variable may change kind (int -> real)
                    forms[key] = (cell, Havoc(sym, v0))
                elif is_path(v0):
                    sym = E.fresh("str", "loop_" + str(cell.name))
                    forms[key] = (cell, PathForm(Havoc(sym, v0.attrs["s"]), v0.attrs["parent_"]))
                else:
                    forms[key] = (cell, Undef(f"{cell.name} is carried by a loop", v0))
        if progress:
            continue
        unresolved = {unwrap(f).sym.e.decl().name() for _, f in forms.values() if isinstance(unwrap(f), Havoc)}
        for key, (cell, form) in list(forms.items()):
            if cell.typ == "cont":
                if update_container(I, key, cell, form, forms, normal, kc, n):
                    progress = True
                continue
            cases = []
            for c, out, ch in normal:
                if key in ch.scalars:
                    cases.append((c, ch.scalars[key][1], True))
                else:
                    cases.append((c, None, False))
            if update_scalar(I, key, cell, form, forms, cases, kc, unresolved):
                progress = True
        if not progress:
            break
    else:
        raise Undischarged(f"no inductive closed form found for the loop at {label}")
    # fresh symbols created in the body and present in the forms
    left = [(c, f) for c, f in forms.values() if isinstance(f, Havoc)]
    if any(isinstance(f, PathForm) and isinstance(f.inner, Havoc) for _, f in forms.values()):
        raise Undischarged("loop: a path without closed form")
    if left:
        recursion_forms(I, left, forms, normal, kc, n, label)
        results = E.sub_explore(run, rng)
    return forms, results, kc


def update_scalar(I, key, cell, form, forms, cases, kc, unresolved):
    """returns True when the form was changed"""
    E = I.E
    if isinstance(form, PathForm):
        return update_path(I, key, cell, form, forms, cases, kc, unresolved)
    cur = form.at(Sv(kc, "int"))
    vals = [(c, (cur if not w else v)) for c, v, w in cases]
    if isinstance(form, Undef):
        # keep a lazily usable last value
        try:
            if all(w for _, _, w in cases):
                form.last = merge_vals([(c, v) for c, v in vals])
                # a variable always written before being read: its value is that of the last iteration
        except NoMerge:
            form.last = None
        if not all(w for _, _, w in cases) and form.v0 is not MISSING:
            form.last = None
        if form.last is not None and is_scalar(form.last) and not isinstance(form, LastOnly):
            pass
        return False
    try:
        out = merge_vals(vals)
    except NoMerge:
        forms[key] = (cell, Undef(f"{cell.name} is carried by a loop", form.v0))
        return True
    if out is MISSING or not is_scalar(out) or isinstance(out, Poison):
        forms[key] = (cell, Undef(f"{cell.name} is carried by a loop", form.v0))
        return True
    if isinstance(form, Havoc):
        h = form.sym
        if kind(out) != h.kind:
            if kind(out) == "real" and h.kind == "int":
                v0 = mk(ze(form.v0, "real"), "real")
                forms[key] = (cell, Havoc(E.fresh("real", "loop_" + str(cell.name)), v0))
                return True
            if not (h.kind == "real" and kind(out) == "int"):
                forms[key] = (cell, Undef(f"{cell.name} changes its type in a loop", form.v0))
                return True
        o = ze(out, h.kind)
        hn = h.e.decl().name()
        if has_nan(out) or has_nan(form.v0):
            if hn not in free_consts(o) and hn not in free_consts(nanof(out)) and \
                    not (free_consts(o) | free_consts(nanof(out))) & unresolved:
                return set_last(I, key, cell, form, out, forms, kc)
            return False
        for neg in (False, True):
            if z3.is_app(o) and o.decl().kind() == z3.Z3_OP_ITE:
                c, u, w = o.children()
                if neg:
                    c, u, w = z3.Not(c), w, u
                fcu = free_consts(u)
                if w.eq(h.e) and hn not in fcu and not (free_consts(c) | fcu) & unresolved and \
                        not sums.has_const(c, kc) and hn not in free_consts(c):
                    forms[key] = (cell, CondLast(form.v0, c, Sv(u, h.kind), kc))
                    return True
        if h.kind in ("int", "real"):
            t = z3.simplify(o - h.e, som=False)
            fc = free_consts(t)
            if hn in fc:
                t = z3.simplify(push_sub(o, h.e))
                fc = free_consts(t)
            if hn not in fc:
                if not fc & unresolved:
                    forms[key] = (cell, Accum(E, form.v0, t, kc, h.kind == "real"))
                    return True
                return False
        if hn not in free_consts(o):
            if not free_consts(o) & unresolved:
                return set_last(I, key, cell, form, out, forms, kc)
            return False
        return False
    if isinstance(form, Accum):
        d = z3.simplify(ze(out, "real" if form.real else "int") - ze(cur, "real" if form.real else "int"))
        if not same_under(I, d, form.t, kc):
            if getattr(form, "retried", 0) > 3:
                raise Undischarged(f"loop variable {cell.name}")
            sym = E.fresh("real" if form.real else "int", "loop_" + str(cell.name))
            h = Havoc(sym, form.v0)
            forms[key] = (cell, h)
            return True
        return False
    if isinstance(form, Last):
        if not value_same(I, out, form.u, kc):
            forms[key] = (cell, Last(form.v0, out, kc))
            form_n = forms[key][1]
            form_n.tries = getattr(form, "tries", 0) + 1
            if form_n.tries > 4:
                forms[key] = (cell, Undef(f"{cell.name} is carried by a loop", form.v0))
            return True
        return False
    return False


class LastOnly(Undef):
    pass


def push_sub(o, h):
    """o - h, the subtraction being pushed inside conditionals"""
    if z3.is_app(o) and o.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(o.arg(0), push_sub(o.arg(1), h), push_sub(o.arg(2), h))
    return z3.simplify(o - h, som=True)


def set_last(I, key, cell, form, out, forms, kc):
    if kind(out) != kind(form.v0) and not (ops.num(out) and ops.num(form.v0)
                                           and "bool" not in (kind(out), kind(form.v0))):
        forms[key] = (cell, Undef(f"{cell.name} changes its type in a loop", form.v0))
    else:
        forms[key] = (cell, Last(form.v0, out, kc))
    return True


def same_under(I, a, b, kc):
    if a.eq(b):
        return True
    sums_ok = sums.quick(I.E, list(I.E.pc) + [kc >= 0], a == b, 0)
    return sums_ok


def value_same(I, a, b, kc):
    if same(a, b):
        return True
    if is_scalar(a) and is_scalar(b):
        if kind(a) != kind(b):
            return False
        g = And(ze(a) == ze(b), nanof(a) == nanof(b))
        return sums.quick(I.E, list(I.E.pc) + [kc >= 0], g, 0)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        r = [value_same(I, x, y, kc) for x, y in zip(a, b)]
        return False if False in r else None if None in r else True
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
        return True if a is b else None
    return None


def idx_sorts(o):
    if isinstance(o, Store):
        return [z3.IntSort()] * o.ndim
    if isinstance(o, VMap):
        from .core import SORTS
        return [SORTS[o.keyk]]
    return [z3.IntSort()]


def update_container(I, key, cell, form, forms, normal, kc, n):
    E = I.E
    o = cell.obj
    logs = [(c, ch.logs[key][1] if key in ch.logs else []) for c, out, ch in normal]
    for c, out, ch in normal:
        if key in ch.logs and hasattr(ch.logs[key][0], "becomes"):
            cell.becomes = ch.logs[key][0].becomes
    kinds = {e[0] if isinstance(e[0], str) else "layer" for _, l in logs for e in l}
    if "other" in kinds:
        raise Undischarged(f"loop: unsupported mutation of a {type(o).__name__}")
    if isinstance(o, VList) and "append" in kinds:
        if kinds != {"append"}:
            raise Undischarged("loop: a list is both extended and updated")
        counts = {len(l) for _, l in logs}
        g0 = o.get if not o.concrete else VList(list(o.items)).get
        n0 = o.length()
        if len(counts) == 1:
            m = counts.pop()
            try:
                items = [merge_items([(c, l[q][1]) for c, l in logs]) for q in range(m)]
            except NoMerge as e:
                raise Undischarged(f"loop: items of different types are appended ({e})")
            if isinstance(form, ListForm) and len(form.items) == m and all(
                    value_same(I, a, b, kc) is not False for a, b in zip(items, form.items)):
                if all(value_same(I, a, b, kc) is None for a, b in zip(items, form.items)) and \
                        getattr(form, "rounds", 0) < 1:
                    f = ListForm(o, n0, g0, items, kc)
                    f.rounds = getattr(form, "rounds", 0) + 1
                    forms[key] = (cell, f)
                return False
            f = ListForm(o, n0, g0, items, kc)
            f.rounds = getattr(form, "rounds", 0) + 1
            if f.rounds > 6:
                raise Undischarged("loop: appended items have no closed form")
            forms[key] = (cell, f)
            return True
        if counts == {0, 1}:
            cond = Or(*[c for c, l in logs if l])
            try:
                item = merge_items([(c, l[0][1]) for c, l in logs if l])
            except NoMerge as e:
                raise Undischarged(f"loop: items of different types are appended ({e})")
            if isinstance(form, FilterForm) and same_under(I, cond, form.cond, kc) and \
                    value_same(I, item, form.item, kc) is not False:
                return False
            f = FilterForm(I, o, n0, g0, cond, item, kc)
            f.rounds = getattr(form, "rounds", 0) + 1
            if f.rounds > 6:
                raise Undischarged("loop: appended items have no closed form")
            forms[key] = (cell, f)
            return True
        raise Undischarged("loop: a varying number of items is appended")
    # element writes
    becomes = getattr(cell, "becomes", None)
    from .core import SORTS
    sorts = [SORTS[becomes]] if becomes else idx_sorts(o)
    layers = []
    for c, log in logs:
        for e in log:
            if isinstance(o, Store):
                cond, val = e
                present = True
            elif isinstance(o, VMap) or becomes:
                cond0, present, val0 = e
                cond = lambda idx, f=cond0: f(idx[0])
                val = None if val0 is None else (lambda idx, f=val0: f(idx[0]))
            else:
                present = True
                if e[0] == "set":
                    _, i, v = e
                    cond = lambda idx, i=i: ze(idx[0]) == ze(i)
                    val = lambda idx, v=v: v
                else:
                    _, cond0, val0 = e
                    cond = lambda idx, f=cond0: f(idx[0])
                    val = lambda idx, f=val0: f(idx[0])
            full = lambda idx, c=c, cond=cond: And(c, cond(idx))
            K, cz, ph = make_inverse(E, lambda idx, cond=cond: cond(idx), len(sorts), sorts, kc)
            if K is None:
                K, cz2, ph = make_inverse(E, full, len(sorts), sorts, kc)
            W = None
            if K is None:
                W = last_writer(E, full, sorts, kc)
                K = lambda idx, W=W: (W(*[ze(x) for x in idx], kc), z3.BoolVal(True))
            args = tuple(Sv(p, None) for p in ph)
            sigc = z3.simplify(zb(full(args)))
            sigv = val(args) if (val is not None and present) else None
            layers.append(Layer(full, present, val if val is not None else (lambda idx: None), K,
                                (sigc, sigv, ph)))
            layers[-1].W = W
    if any(L.W is not None for L in layers) and len(layers) > 1:
        raise Undischarged("loop: several writes at indices which cannot be inverted " + str([L.sig[0] for L in layers])[:600])
    # the layers of different iterations must not be reordered by the summary
    for a in range(len(layers)):
        for b in range(a + 1, len(layers)):
            La, Lb = layers[a], layers[b]
            ph = La.sig[2]
            args = tuple(Sv(p, None) for p in ph)
            Ka, ea = La.K(args)
            Kb, eb = Lb.K(args)
            if Ka.eq(Kb):
                continue
            ca = z3.substitute(La.sig[0], (kc, Ka))
            cb = z3.substitute(Lb.sig[0], (kc, Kb))
            hyp = [Ka >= 0, Kb >= 0, ea, eb, ca, cb]
            if n is not None:
                hyp += [Ka < ze(n), Kb < ze(n)]
            if not sums.quick(E, list(E.pc) + hyp, Ka <= Kb, 0):
                # try the other order when the values are independent
                raise Undischarged("loop: overlapping writes of different iterations")
    if isinstance(form, LayerForm) and len(form.layers) == len(layers):
        ok = True
        for La, Lb in zip(form.layers, layers):
            pairs = list(zip(La.sig[2], Lb.sig[2]))
            ca = La.sig[0]
            cb = Lb.sig[0]
            if not (ca.eq(cb) or sums.quick(E, list(E.pc) + [kc >= 0], ca == cb, 0)):
                ok = False
                break
            if La.sig[1] is None and Lb.sig[1] is None:
                continue
            r = layer_val_same(I, ca, La.sig[1], Lb.sig[1], kc)
            if r is False:
                ok = False
                break
            if r is None and getattr(form, "rounds", 0) < 3:
                ok = False
                break
        if ok:
            return False
    f = LayerForm(I, None, layers, kc)
    f.rounds = getattr(form, "rounds", 0) + 1
    if f.rounds > 6:
        raise Undischarged("loop: the written elements have no closed form")
    forms[key] = (cell, f)
    return True


def layer_val_same(I, cond, a, b, kc):
    if is_scalar(a) and is_scalar(b):
        if same(a, b):
            return True
        if kind(a) != kind(b):
            return False
        g = And(nanof(a) == nanof(b), Or(nanof(a), ze(a) == ze(b)))
        return sums.quick(I.E, list(I.E.pc) + [kc >= 0, cond], g, 0)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        rs = [layer_val_same(I, cond, x, y, kc) for x, y in zip(a, b)]
        return False if False in rs else None if None in rs else True
    return value_same(I, a, b, kc)


def merge_items(cases):
    v = cases[-1][1]
    for c, x in reversed(cases[:-1]):
        v = vite(c, x, v, fork=False)
    return v


def recursion_forms(I, left, forms, normal, kc, n, label):
    """variables without closed form: use the invariants supplied with the contract"""
    inv = None
    for q in reversed([f.fn.qual if f.fn is not None else "" for f in I.frames]):
        for cand in I.invariants.get(q, []):
            if cand(I, left, forms, normal, kc, n):
                return
    define_by_recursion(I, forms, normal, kc, n)


def define_by_recursion(I, forms, normal, kc, n):
    """H(0) = v0, H(k + 1) = body(H(k)): always sound, proofs by induction need an invariant"""
    E = I.E
    keys = [key for key, (c, f) in forms.items() if isinstance(f, Havoc)]
    outs, Hs = {}, {}
    for key in keys:
        cell, f = forms[key]
        try:
            out = merge_vals([(c, ch.scalars[key][1] if key in ch.scalars else f.sym) for c, _, ch in normal])
        except NoMerge:
            out = None
        if out is None or not is_scalar(out) or (kind(out) != f.sym.kind and not
                                                 (kind(out) == "int" and f.sym.kind == "real")):
            forms[key] = (cell, Undef(f"{cell.name} is carried by a loop", f.v0))
            continue
        knd = f.sym.kind
        withnan = has_nan(out) or has_nan(f.v0)
        outs[key] = out
        H = z3.Function(E.fresh_name("H_" + str(cell.name)), z3.IntSort(), f.sym.e.sort())
        N = z3.Function(E.fresh_name("Hnan_" + str(cell.name)), z3.IntSort(), z3.BoolSort()) if withnan else None
        Hs[key] = RecForm(f.v0, H, knd, N)
        Hs[key].tests = [(f.sym, f.v0)]
    pairs = [(forms[key][1].sym.e, Hs[key].H(kc)) for key in Hs]
    undef = {f"loop_{c.name}" for c, f in forms.values() if isinstance(f, Undef)}
    for key, R in Hs.items():
        cell, f = forms[key]
        o = z3.substitute(ze(outs[key], R.knd), *pairs)
        E.assume(R.H(z3.IntVal(0)) == ze(f.v0, R.knd))
        kr = z3.And(kc >= 0, kc < ze(n)) if n is not None else kc >= 0
        axs = [R.H(kc + 1) == o]
        if R.nanH is not None:
            E.assume(R.nanH(z3.IntVal(0)) == nanof(f.v0))
            axs.append(R.nanH(kc + 1) == z3.substitute(nanof(outs[key]), *pairs))
        for ax in axs:
            j = z3.Int(E.fresh_name("j!rec"))
            E.assume(z3.ForAll([j], z3.substitute(Implies(kr, ax), (kc, j)), patterns=[R.H(j)]))
        R.step = z3.And(*axs)
        forms[key] = (cell, R)


class RecForm(Form):
    """value at iteration k = H(k), an uninterpreted function constrained by proved invariants"""
    def __init__(self, v0, H, knd, nanH=None):
        self.v0, self.H, self.knd, self.nanH = v0, H, knd, nanH

    def at(self, k):
        return Sv(self.H(ze(k)), self.knd, None if self.nanH is None else self.nanH(ze(k)))


def apply_state(I, forms, k, kc):
    """set the real state to S(k)"""
    for key, (cell, form) in forms.items():
        if isinstance(form, (ListForm, FilterForm, LayerForm)):
            o = cell.obj
            if getattr(cell, "becomes", None) and o.__class__ is VDict:
                from .models import become_map
                become_map(I, o, cell.becomes)
            if isinstance(form, LayerForm) and not form.layers:
                continue
            form.apply(o, k)
        elif isinstance(form, Undef):
            last, v0 = form.last, form.v0
            p = Poison(form.why)
            if last is not None:
                kz = ze(k)
                def force(last=last, v0=v0, kz=kz, name=cell.name, why=form.why):
                    prev = z3.simplify(kz - 1)
                    if I.E.valid(kz > 0) or I.E.branch(kz > 0):
                        return subst(last, [(kc, prev)])
                    if v0 is MISSING:
                        raise_py(UnboundLocalError, f"local variable '{name}'")
                    return v0
                p.force = force
                if is_scalar(last) and is_scalar(v0) and kind(last) == kind(v0):
                    p = vite(kz == 0, v0, subst(last, [(kc, z3.simplify(kz - 1))]), fork=False)
            cell.write(p)
        else:
            cell.write(form.at(k))


def noexit(E, results, kc, names_before):
    """formula in kc: the iteration kc ends normally"""
    return Or(*[And(*c) for c, (out, ch) in results if out.kind == "normal"])


def finish_loop(I, forms, results, kc, n, body_at, orelse, label):
    """continue after a loop with n iterations"""
    from .interp import BreakX, ContinueX
    E = I.E
    exits = [r for r in results if r[1][0].kind != "normal"]
    normal = [r for r in results if r[1][0].kind == "normal"]
    if not exits:
        apply_state(I, forms, n, kc)
        carry_facts(I, results, kc, n)
        I.exec_block(orelse)
        return
    alt = E.choose(2, label) if normal else 1
    if alt == 0:
        j = z3.Int(E.fresh_name("j!loop"))
        f = z3.substitute(noexit(E, results, kc, None), (kc, j))
        if not z3.is_true(z3.simplify(f)):
            assume_all(E, [j], Implies(And(j >= 0, j < ze(n)), f))
        if not E.feasible(z3.BoolVal(True)):
            raise Infeasible()
        apply_state(I, forms, n, kc)
        I.exec_block(orelse)
        return
    e = E.fresh("int", "exit")
    E.assume(And(e.e >= 0, e.e < ze(n)))
    if normal:
        j = z3.Int(E.fresh_name("j!loop"))
        f = z3.substitute(noexit(E, results, kc, None), (kc, j))
        assume_all(E, [j], Implies(And(j >= 0, j < e.e), f))
    else:
        E.assume(e.e == 0)
    ex = Or(*[And(*c) for c, (out, ch) in results if out.kind != "normal"])
    E.assume(z3.substitute(ex, (kc, e.e)))
    if not E.feasible(z3.BoolVal(True)):
        raise Infeasible()
    apply_state(I, forms, e, kc)
    try:
        body_at(e)
    except BreakX:
        return
    except ContinueX:
        raise PathEnd()
    raise PathEnd()


def carry_facts(I, results, kc, n):
    """assumptions made inside the body about symbols created there hold in every iteration"""
    # (symbols created in the body are functions of library calls; no fact is carried unless the
    #  body mentions them, see `skolem` below)
    return


def loop_source(st):
    return f"L{st.lineno}"


def exec_for(I, st):
    from . import models
    from .interp import BreakX, ContinueX
    if try_extremum(I, st):
        return
    it = I.ev(st.iter)
    if isinstance(it, NdEnumerate):
        return exec_ndenumerate(I, st, it)
    seq = models.as_seq(I, it)
    n = seq.length()
    if isinstance(n, int) and n <= 400:
        broke = False
        for j in range(n):
            x = seq.get(j)
            I.assign(st.target, x)
            try:
                I.exec_block(st.body)
            except BreakX:
                broke = True
                break
            except ContinueX:
                continue
        if not broke:
            I.exec_block(st.orelse)
        return
    E = I.E
    get = seq.get if not seq.concrete else VList(list(seq.items)).get
    for rule in getattr(I, "loop_rules", ()):
        if not isinstance(n, int) and ze(rule.n).eq(ze(n)):
            return exec_for_rule(I, st, get, n, rule)
    for rule in getattr(I, "loop_rules", ()):
        if not isinstance(n, int) and getattr(rule, "semantic", False) and E.valid(ze(rule.n) == ze(n)):
            return exec_for_rule(I, st, get, n, rule)
    if not E.feasible(ze(n) > 0):
        I.exec_block(st.orelse)
        return
    if not E.valid(ze(n) >= 0):
        raise Undischarged("loop over a sequence of possibly negative length")

    def body_at(k):
        I.assign(st.target, get(k))
        I.exec_block(st.body)

    ns = n
    with Skolem(I) as sk:
        forms, results, kc = summarize(I, body_at, n, loop_source(st))
        sk.check(I, forms, results, kc, n)
    finish_loop(I, forms, results, kc, ns, body_at, st.orelse, loop_source(st))
    name_contents(I, forms)


def exec_for_rule(I, st, get, n, rule):
    """loop over a sequence of `rule.n` items with an explicit invariant, stated by the contract.

    rule.establish() proves inv(0); rule.havoc(k) replaces the state changed by the loop by an arbitrary
    one such that inv(k); rule.preserve(k) proves inv(k + 1) after an arbitrary iteration."""
    from .interp import BreakX, ContinueX, ReturnX
    E = I.E
    rule.establish()
    names = assigned_names([st])

    # lists filled in the body: unknown content
    filled = {x.func.value.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Call) and isinstance(
        x.func, ast.Attribute) and x.func.attr in ("append", "extend") and isinstance(x.func.value, ast.Name)}
    filled = [I.frame.vars[v] for v in filled if isinstance(I.frame.vars.get(v), VList)]

    def forget():
        for name in names:
            if name in I.frame.vars:
                I.frame.vars[name] = Poison(f"{name} is carried by a loop")

        def unknown(i):
            raise Undischarged("item of a list filled in a loop with an invariant")
        for l in filled:
            m = E.fresh("int", "len_filled")
            E.assume(ze(m) >= 0)
            l.replace(m, unknown)

    if E.choose(2) == 1:
        E.assume(ze(n) >= 0)
        rule.havoc(Sv(ze(n), "int"))
        forget()
        getattr(rule, "fill", int)()
        return I.exec_block(st.orelse)
    k = E.fresh("int", "iteration")
    E.assume(And(ze(k) >= 0, ze(k) < ze(n)))
    rule.havoc(k)
    forget()
    getattr(rule, "fill", int)()
    memo = {}
    for f in I.frames:
        clone(f, memo)
    clone(I.ghosts, memo)
    allowed = {id(o) for o in rule.objects}
    reach = [o for _, o in memo.values()]
    snap = [(o, dict(o.vars if isinstance(o, Frame) else o.attrs if isinstance(o, Obj) else o.d if isinstance(
        o, VDict) else {})) for o in reach if id(o) not in allowed]
    logs = [(o, getattr(o, "log", None)) for o in reach if isinstance(o, (VList, Store, VMap)) or o.__class__ is VDict]
    for o, _ in logs:
        o.log = []
    own = I.frame
    I.assign(st.target, get(k))
    rule.start(k)
    try:
        I.exec_block(st.body)
    except ContinueX:
        pass
    except (BreakX, ReturnX):
        raise Undischarged("loop with an invariant left before its end")
    for o, _ in logs:
        if o.log and not any(o is l for l in filled) and id(o) not in allowed:
            raise Undischarged("loop with an invariant: a container is modified")
    for o, l in logs:
        o.log = l
    for o, before in snap:
        d = o.vars if isinstance(o, Frame) else o.attrs if isinstance(o, Obj) else o.d if isinstance(o, VDict) else {}
        for name in set(d) | set(before):
            if o is own and name in names:
                continue
            a, b = d.get(name, MISSING), before.get(name, MISSING)
            if not (a is b or (a is not MISSING and b is not MISSING and same(a, b))):
                raise Undischarged(f"loop with an invariant: {name} is modified")
    rule.preserve(k)
    raise PathEnd()


def nonlinear(t, seen=None):
    """a product of two terms which are not constants"""
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and sum(
            not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in t.children()) >= 2:
        return True
    return any(nonlinear(c, seen) for c in t.children())


def name_contents(I, forms):
    """arrays filled by a loop with nonlinear terms: the content is given a name, with its definition"""
    E = I.E
    if getattr(E, "sub_depth", 0):
        return
    from .core import SORTS
    for cell, form in forms.values():
        o = cell.obj
        if not isinstance(form, LayerForm):
            continue
        if isinstance(o, VMap):
            name_map(I, o)
            continue
        if isinstance(o, Store) and o.kind == "real":
            if any(isinstance(c.obj, VMap) for c, f in forms.values()):
                name_store(I, o)
            continue
        if not isinstance(o, Store) or o.kind != "bool":
            continue
        xs = [z3.Int(E.fresh_name("i!cell")) for _ in range(o.ndim)]
        v = o.get(tuple(Sv(x, "int") for x in xs))
        if not is_scalar(v) or has_nan(v) or kind(v) != o.kind or not isinstance(v, Sv) or not nonlinear(v.e):
            continue
        M = z3.Function(E.fresh_name("content"), *[z3.IntSort()] * o.ndim, SORTS[o.kind])
        E.assume(z3.ForAll(xs, M(*xs) == v.e, patterns=[M(*xs)]))
        def get(idx, M=M, kd=o.kind):
            return Sv(M(*[ze(i) for i in idx]), kd)
        o.layer(lambda idx: z3.BoolVal(True), get)


def size_of(t, limit):
    seen, todo = set(), [t]
    while todo and len(seen) < limit:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo += x.children()
    return len(seen)


def name_value(I, v, xs, rng, kd, limit):
    """function of the index with the definition of the value, or None when the value is small or not a scalar"""
    E = I.E
    from .core import SORTS
    if isinstance(v, str):
        return None
    if not is_scalar(v) or not isinstance(v, Sv) or kind(v) != kd:
        return None
    nan = nanof(v) if has_nan(v) else None
    if size_of(v.e, limit) + (size_of(zb(nan), limit) if nan is not None else 0) < limit:
        return None
    fs = []
    for t, srt in ((v.e, SORTS[kd]), (nan, z3.BoolSort())):
        if t is None:
            fs.append(None)
            continue
        M = z3.Function(E.fresh_name("content"), *rng, srt)
        E.assume(z3.ForAll(xs, M(*xs) == zb(t) if srt == z3.BoolSort() else M(*xs) == t, patterns=[M(*xs)]))
        fs.append(M)
    def get(idx):
        a = [ze(i) for i in idx]
        if fs[1] is None:
            return Sv(fs[0](*a), kd)
        return Sv(fs[0](*a), kd, fs[1](*a))
    return get


BIG = 60


def name_store(I, o):
    xs = [z3.Int(I.E.fresh_name("i!cell")) for _ in range(o.ndim)]
    v = o.get(tuple(Sv(x, "int") for x in xs))
    get = name_value(I, v, xs, [z3.IntSort()] * o.ndim, o.kind, BIG)
    if get is not None:
        o.layer(lambda idx: z3.BoolVal(True), get)


def name_map(I, o):
    E = I.E
    from .core import SORTS
    srt = SORTS[o.keyk]
    x = z3.Const(E.fresh_name("i!cell"), srt)
    q = Sv(x, o.keyk)
    has = zb(o.has(q))
    if size_of(has, BIG) < BIG:
        return
    H = z3.Function(E.fresh_name("present"), srt, z3.BoolSort())
    E.assume(z3.ForAll([x], H(x) == has, patterns=[H(x)]))
    v = o.get(q)
    get = name_value(I, v, [x], [srt], kind(v), BIG) if is_scalar(v) and isinstance(v, Sv) else None
    o.has_ = lambda q: H(ze(q, o.keyk))
    if get is not None:
        o.get_ = lambda q: get((q,))


class Skolem:
    """symbols created inside an iteration depend on the iteration: they are turned into functions
    of the iteration number when they reach the summary"""
    def __init__(self, I):
        self.I = I

    def __enter__(self):
        self.before = dict(self.I.E.names)
        return self

    def __exit__(self, *a):
        return False

    def is_new(self, name):
        base, _, num = name.partition("!")
        # names are base or base!n, unique through E.names
        b, nn = (name.rsplit("!", 1) + [""])[:2] if "!" in name else (name, "")
        key, idx = (b, int(nn)) if nn.isdigit() else (name, 0)
        now = self.I.E.names.get(key, 0)
        old = self.before.get(key, 0)
        return old <= idx < now

    def check(self, I, forms, results, kc, n):
        E = I.E
        kn = kc.decl().name()
        new = set()
        terms = []
        for cell, f in forms.values():
            f = unwrap(f)
            if isinstance(f, Accum):
                terms.append(f.t)
            elif isinstance(f, (Last, CondLast)):
                collect_terms(f.u, terms)
            elif isinstance(f, RecForm) and getattr(f, "step", None) is not None:
                if any(self.is_new(nm) and nm != kn and not nm.startswith(("idx!", "ph!", "k!", "loop_", "H_", "Hnan_"))
                       for nm in free_consts(f.step)):
                    raise Undischarged("loop: a carried variable depends on a symbol created in each iteration")
            elif isinstance(f, ListForm):
                for x in f.items:
                    collect_terms(x, terms)
            elif isinstance(f, FilterForm):
                terms.append(f.cond)
                collect_terms(f.item, terms)
            elif isinstance(f, LayerForm):
                for L in f.layers:
                    terms.append(L.sig[0])
                    collect_terms(L.sig[1], terms)
            elif isinstance(f, Undef) and f.last is not None:
                collect_terms(f.last, terms)
        for t in terms:
            for nm in free_consts(t):
                if nm != kn and self.is_new(nm) and not nm.startswith(("idx!", "ph!", "k!sum", "loop_")):
                    new.add(nm)
        if not new:
            return
        decls = {}
        for t in terms + [x for c, _ in results for x in c]:
            for d in uninterpreted(t):
                if d.name() in new or (self.is_new(d.name()) and d.name() != kn
                                       and not d.name().startswith(("idx!", "ph!", "k!", "loop_"))):
                    decls[d.name()] = d
        pairs = []
        fpairs = []
        inv = getattr(E, "inverses", {})
        for nm, d in decls.items():
            dom = [d.domain(i) for i in range(d.arity())]
            if d.arity() == 0:
                f = z3.Function(E.fresh_name("sk_" + nm), z3.IntSort(), d.range())
                pairs.append((d(), f(kc)))
            else:
                if nm in inv:
                    raise Undischarged("loop: an enumeration is created in every iteration")
                f = z3.Function(E.fresh_name("sk_" + nm), z3.IntSort(), *dom, d.range())
                fpairs.append((d, f))
        def sub(t):
            if pairs:
                t = z3.substitute(t, *pairs)
            for d, f in fpairs:
                vs = [z3.Var(i, d.domain(i)) for i in range(d.arity())]
                t = z3.substitute_funs(t, (d, f(kc, *vs)))
            return t
        # facts: in each iteration that ends normally, one of the path conditions holds
        facts = Or(*[And(*[sub(x) for x in c]) for c, (out, ch) in results if out.kind == "normal"])
        apply_sub(forms, sub)
        for i, (c, (out, ch)) in enumerate(results):
            results[i] = ([sub(x) for x in c], (out, ch))
        self.facts = facts
        if any(out.kind != "normal" for _, (out, _) in results):
            return          # assumed by finish_loop through `noexit`
        j = z3.Int(E.fresh_name("j!sk"))
        E.assume(z3.ForAll([j], Implies(And(j >= 0, j < ze(n)), z3.substitute(facts, (kc, j)))))


def map_value(v, sub):
    """apply a function on z3 terms to every term of a value (lazily in containers)"""
    if isinstance(v, Sv):
        return mk(sub(v.e), v.kind, None if v.nan is None else sub(v.nan), v.np)
    if isinstance(v, tuple):
        return tuple(map_value(x, sub) for x in v)
    if isinstance(v, V.VBytes):
        return V.VBytes(map_value(v.text, sub))
    if isinstance(v, V.SliceV):
        return V.SliceV(map_value(v.start, sub), map_value(v.stop, sub), map_value(v.step, sub))
    if isinstance(v, Arr):
        g = v.getter()
        return V.new_arr(tuple(map_value(s, sub) for s in v.shape), lambda i: map_value(g(i), sub), v.kind, v.dtype)
    if isinstance(v, VList):
        if v.concrete:
            return VList([map_value(x, sub) for x in v.items])
        g = v._get
        return VList(n=map_value(v.n, sub), get=lambda i: map_value(g(i), sub))
    if isinstance(v, VDict):
        return VDict({k: map_value(x, sub) for k, x in v.d.items()})
    if isinstance(v, Obj):
        return Obj(v.cls, {k: map_value(x, sub) for k, x in v.attrs.items()})
    return v


def apply_sub(forms, sub):
    for cell, f in forms.values():
        f = unwrap(f)
        if isinstance(f, Accum):
            f.t = sub(f.t)
        elif isinstance(f, Last):
            f.u = map_value(f.u, sub)
        elif isinstance(f, ListForm):
            f.items = [map_value(x, sub) for x in f.items]
        elif isinstance(f, FilterForm):
            f.cond = sub(f.cond)
            f.item = map_value(f.item, sub)
        elif isinstance(f, LayerForm):
            for L in f.layers:
                c0, v0 = L.cond, L.val
                L.cond = lambda idx, c0=c0: sub(zb(c0(idx)))
                L.val = lambda idx, v0=v0: map_value(v0(idx), sub)
        elif isinstance(f, Undef) and f.last is not None:
            f.last = map_value(f.last, sub)


def uninterpreted(t):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x.decl())
            todo.extend(x.children())
    return out


def collect_terms(v, out, depth=0):
    if isinstance(v, Sv):
        out.append(v.e)
        if v.nan is not None:
            out.append(v.nan)
    elif isinstance(v, tuple):
        for x in v:
            collect_terms(x, out, depth)
    elif isinstance(v, V.SliceV):
        collect_terms((v.start, v.stop, v.step), out)
    elif isinstance(v, VList) and depth < 4:
        if v.concrete:
            for x in v.items:
                collect_terms(x, out, depth + 1)
        else:
            collect_terms(v.n, out)
            try:
                collect_terms(v.get(Sv(z3.Int("idx!c"), "int")), out, depth + 1)
            except Exception:
                pass
    elif isinstance(v, Arr):
        for s in v.shape:
            collect_terms(s, out)
        collect_terms(v.at(tuple(Sv(z3.Int(f"idx!c{d}"), "int") for d in range(v.ndim))), out)
    elif isinstance(v, VDict) and depth < 4:
        for x in v.d.values():
            collect_terms(x, out, depth + 1)
    elif isinstance(v, Obj) and depth < 4:
        for x in v.attrs.values():
            collect_terms(x, out, depth + 1)


def exec_while_rule(I, st, rule):
    """while loop with an explicit invariant, stated by the contract.

    rule.establish() proves inv; rule.havoc() replaces the state changed by the loop by an arbitrary one such
    that inv; rule.preserve() proves inv after an arbitrary iteration, and that the variant (rule.variant(), an
    integer bounded below by 0) has decreased. The paths which leave the loop (false test, break, return,
    exception) go on from the arbitrary state."""
    from .interp import BreakX, ContinueX
    E = I.E
    rule.establish()
    rule.havoc()
    for name in assigned_names([st]):
        if name in I.frame.vars:
            I.frame.vars[name] = Poison(f"{name} is carried by a loop")
    names = assigned_names([st])
    v0 = rule.variant()
    if not I.truth(I.ev(st.test)):
        return I.exec_block(st.orelse)
    memo = {}
    for f in I.frames:
        clone(f, memo)
    clone(I.ghosts, memo)
    allowed = {id(o) for o in rule.objects}
    reach = [o for _, o in memo.values()]
    content = lambda o: o.vars if isinstance(o, Frame) else o.attrs if isinstance(o, Obj) else o.d if isinstance(o, VDict) else {}
    snap = [(o, dict(content(o))) for o in reach if id(o) not in allowed]
    logs = [(o, getattr(o, "log", None)) for o in reach if isinstance(o, (VList, Store, VMap)) or o.__class__ is VDict]
    for o, _ in logs:
        o.log = []
    own = I.frame
    try:
        I.exec_block(st.body)
    except ContinueX:
        pass
    except BreakX:
        for o, l in logs:
            o.log = l
        return
    for o, _ in logs:
        if o.log and id(o) not in allowed:
            raise Undischarged("loop with an invariant: a container is modified")
    for o, l in logs:
        o.log = l
    for o, before in snap:
        d = content(o)
        for name in set(d) | set(before):
            if o is own and name in names:
                continue
            a, b = d.get(name, MISSING), before.get(name, MISSING)
            if not (a is b or (a is not MISSING and b is not MISSING and same(a, b))):
                raise Undischarged(f"loop with an invariant: {name} is modified")
    rule.preserve()
    E.prove("the loop ends: its variant decreases", And(ze(v0) >= 0, ze(rule.variant()) < ze(v0)))
    raise PathEnd()


def exec_while(I, st):
    """while loop: concrete when the condition is decided, else summarised with a ghost count"""
    for rule in getattr(I, "while_rules", ()):
        if rule.applies(I, st):
            return exec_while_rule(I, st, rule)

    from .interp import BreakX, ContinueX
    E = I.E
    for it in range(60):
        c = I.ev(st.test)
        if isinstance(c, Sv):
            t = ops.truth_term(c)
            if E.valid(t):
                val = True
            elif E.valid(z3.Not(t)):
                val = False
            else:
                val = None
        else:
            val = I.truth(c)
        if val is None:
            break
        if not val:
            I.exec_block(st.orelse)
            return
        try:
            I.exec_block(st.body)
        except BreakX:
            return
        except ContinueX:
            pass
        if it > 40:
            break
    else:
        raise Undischarged("while loop")

    def body_at(k):
        # the test is evaluated at the start of the iteration; a false test is a "break"
        if not I.truth(I.ev(st.test)):
            raise BreakX()
        I.exec_block(st.body)

    with Skolem(I) as sk:
        forms, results, kc = summarize(I, body_at, None, loop_source(st))
        e = E.fresh("int", "exit")
        sk.check(I, forms, results, kc, e)
    # it leaves at some iteration e (termination is not proved)
    E.note_assumed("termination of while loops is not proved (partial correctness)")
    E.assume(e.e >= 0)
    j = z3.Int(E.fresh_name("j!loop"))
    f = z3.substitute(noexit(E, results, kc, None), (kc, j))
    E.assume(z3.ForAll([j], Implies(And(j >= 0, j < e.e), f)))
    ex = Or(*[And(*c) for c, (out, ch) in results if out.kind != "normal"])
    E.assume(z3.substitute(ex, (kc, e.e)))
    if not E.feasible(z3.BoolVal(True)):
        raise Infeasible()
    apply_state(I, forms, e, kc)
    t = I.ev(st.test)
    if not I.truth(t):
        I.exec_block(st.orelse)
        return
    try:
        I.exec_block(st.body)
    except BreakX:
        return
    except ContinueX:
        raise PathEnd()
    raise PathEnd()


# --------------------------------------------------------------- comprehensions

def comprehension(I, e, how):
    gens = e.generators
    fr = Frame(I.frame.fn, I.frame.module, I.frame)
    # the first iterable is evaluated outside
    from . import models
    if how == "dict":
        elt = lambda: (I.ev(e.key), I.ev(e.value))
    else:
        elt = lambda: I.ev(e.elt)

    def rec(gi):
        """list of the values produced (concrete) or a VList"""
        if gi == len(gens):
            return [elt()]
        g = gens[gi]
        seq = models.as_seq(I, I.ev(g.iter))
        n = seq.length()
        if isinstance(n, int):
            out = []
            for j in range(n):
                I.assign(g.target, seq.get(j))
                if all(I.truth(I.ev(c)) for c in g.ifs):
                    r = rec(gi + 1)
                    if isinstance(r, VList):
                        raise Unsupported("nested symbolic comprehension")
                    out.extend(r)
            return out
        if gi != len(gens) - 1:
            raise Unsupported("nested symbolic comprehension")
        def one(x):
            I.assign(g.target, x)
            for c in g.ifs:
                if not I.truth(I.ev(c)):
                    return SKIP
            return elt()
        return map_seq(I, seq, one, filt=bool(g.ifs))

    I.frames.append(fr)
    nf = len(I.frames)
    try:
        r = rec(0)
    finally:
        del I.frames[nf - 1:]
    if how == "dict":
        if isinstance(r, VList):
            hook = getattr(I, "dictcomp_hook", None)
            if hook:
                return hook(I, r)
            raise Unsupported("dictionary comprehension over a symbolic sequence")
        d = VDict()
        for k, v in r:
            models.setitem(I, d, k, v)
        return d
    return r if isinstance(r, VList) else VList(r)


SKIP = object()


def map_seq(I, seq, f, filt=False):
    """[f(x) for x in seq] for a sequence of symbolic length"""
    from .interp import ReturnX
    from .npmodel import filter_facts
    E = I.E
    n = seq.length()
    get = seq.get
    kc = z3.Int(E.fresh_name("k!comp"))
    k = Sv(kc, "int")
    before = dict(E.names)

    def run():
        box = []
        def body():
            box.append(f(get(k)))
            raise ReturnX(box[0] if box[0] is not SKIP else None)
        nf = len(I.frames)
        out, ch = run_body(I, body, {}, k)
        out.skip = bool(box) and box[0] is SKIP
        return out, ch

    with Skolem(I) as sk:
        results = E.sub_explore(run, [kc >= 0, kc < ze(n)])
        frame = I.frames[-1]
        for c, (out, ch) in results:
            for key, (cell, v) in ch.scalars.items():
                if not (cell.typ == "var"):
                    raise Unsupported("comprehension with side effects")
            if ch.logs:
                raise Unsupported("comprehension with side effects")
        ok = [(And(*c), out) for c, (out, ch) in results if out.kind == "return"]
        bad = [(c, out) for c, (out, ch) in results if out.kind == "raise"]
        # fresh symbols
        terms = []
        for c, out in ok:
            terms.append(c)
            collect_terms(out.value, terms)
        fresh = {nm for t in terms for nm in free_consts(t)
                 if sk.is_new(nm) and nm != kc.decl().name() and not nm.startswith(("idx!", "ph!", "k!", "probe!"))}
    if fresh:
        decls = {}
        for t in terms:
            for d in uninterpreted(t):
                if d.name() in fresh:
                    decls[d.name()] = d
        pairs, fpairs = [], []
        for nm, d in decls.items():
            if nm in getattr(E, "inverses", {}):
                raise Unsupported("enumeration created in a comprehension")
            if d.arity() == 0:
                fn = z3.Function(E.fresh_name("sk_" + nm), z3.IntSort(), d.range())
                pairs.append((d(), fn(kc)))
            else:
                fn = z3.Function(E.fresh_name("sk_" + nm), z3.IntSort(), *[d.domain(i) for i in range(d.arity())], d.range())
                fpairs.append((d, fn))
        def sub(t):
            if pairs:
                t = z3.substitute(t, *pairs)
            for d, fn in fpairs:
                t = z3.substitute_funs(t, (d, fn(kc, *[z3.Var(i, d.domain(i)) for i in range(d.arity())])))
            return t
        new_ok = []
        for c, out in ok:
            o2 = Outcome(out.kind, map_value(out.value, sub))
            o2.skip = out.skip
            new_ok.append((sub(c), o2))
        ok = new_ok
        bad = [([sub(x) for x in c], out) for c, out in bad]
    allok = Or(*[c for c, _ in ok])
    if bad:
        alt = E.choose(2, "comprehension") if ok else 1
        if alt == 1:
            e = E.fresh("int", "exit")
            E.assume(And(e.e >= 0, e.e < ze(n)))
            j = z3.Int(E.fresh_name("j!comp"))
            if ok:
                E.assume(z3.ForAll([j], Implies(And(j >= 0, j < e.e), z3.substitute(allok, (kc, j)))))
            E.assume(z3.substitute(Or(*[And(*c) for c, _ in bad]), (kc, e.e)))
            if not E.feasible(z3.BoolVal(True)):
                raise Infeasible()
            f(get(e))
            raise PathEnd()
    if bad or fresh:
        j = z3.Int(E.fresh_name("j!comp"))
        E.assume(z3.ForAll([j], Implies(And(j >= 0, j < ze(n)), z3.substitute(allok, (kc, j)))))
        if not E.feasible(z3.BoolVal(True)):
            raise Infeasible()
    keep = [(c, out.value) for c, out in ok if not out.skip]
    skip = [c for c, out in ok if out.skip]
    if not keep:
        return VList([])
    try:
        val = merge_items(keep)
    except NoMerge:
        raise Unsupported(f"comprehension with values of different types: {[(c, x) for c, x in keep][:3]!r:.600}")
    if not skip:
        return VList(n=n, get=lambda i: subst_open_k(val, kc, ze(i)))
    cond = Or(*[c for c, _ in keep])
    kp = lambda j: z3.substitute(cond, (kc, ze(j)))
    m, sel, rank, member = filter_facts(I, n, kp, "flt")
    r = VList(n=m, get=lambda i: subst_open_k(val, kc, sel(ze(i))))
    r.facts = dict(n0=0, sel=sel, rank=rank, keep=kp, n=n, m=m, item=lambda j: subst_open_k(val, kc, ze(j)))
    return r


# --------------------------------------------------------------- merged conditionals

def mergeable_if(st):
    if not getattr(st, "_pyvc_mergeable", None):
        st._pyvc_mergeable = "yes" if all(mergeable_stmt(x) for x in st.body + st.orelse) else "no"
    return st._pyvc_mergeable == "yes"


def mergeable_stmt(s):
    if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Pass)):
        return True
    if isinstance(s, ast.If):
        return all(mergeable_stmt(x) for x in s.body + s.orelse)
    if isinstance(s, ast.Expr):
        return isinstance(s.value, ast.Constant) or (
            isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("print",))
    return False


def merge_if(I, st, c):
    """execute both branches and merge the states; False when it is not possible"""
    E = I.E
    t = ops.truth_term(c)
    if E.idx < len(E.decisions):
        pass
    if not E.feasible(t) or not E.feasible(z3.Not(t)):
        return False
    try:
        res = []
        with Skolem(I) as sk:
            for cond, block in ((t, st.body), (z3.Not(t), st.orelse)):
                rs = E.sub_explore(lambda: run_body(I, lambda: I.exec_block(block), {}, None), [cond])
                for conds, (out, ch) in rs:
                    if out.kind != "normal":
                        return False
                    res.append((And(cond, *conds), ch))
    except (Undischarged, Unsupported):
        return False
    keys = {}
    for _, ch in res:
        for key, (cell, _) in list(ch.scalars.items()) + list(ch.logs.items()):
            keys.setdefault(key, cell)
    plan = []
    try:
        for key, cell in keys.items():
            if cell.typ == "cont":
                o = cell.obj
                if hasattr(cell, "becomes"):
                    return False
                for cond, ch in res:
                    if key in ch.logs:
                        for e in ch.logs[key][1]:
                            if isinstance(e[0], str) and e[0] in ("append", "other"):
                                return False
                            plan.append(("layer", cell, cond, e))
            else:
                cur = cell.read()
                cases = []
                for cond, ch in res:
                    v = ch.scalars[key][1] if key in ch.scalars else cur
                    if v is MISSING or isinstance(v, Poison):
                        return False
                    cases.append((cond, v))
                plan.append(("set", cell, merge_vals(cases), None))
    except NoMerge:
        return False
    # symbols created in a branch: facts about them hold under the branch condition
    if len(res) > 1:
        E.assume(Or(*[cnd for cnd, _ in res]))
    for what, cell, a, b in plan:
        if what == "set":
            cell.write(a)
        else:
            o = cell.obj
            if isinstance(o, Store):
                cond, val = b
                o.layer(lambda idx, c=a, f=cond: And(c, f(idx)), val)
            elif isinstance(o, VMap):
                cond, present, val = b
                o.layer(lambda q, c=a, f=cond: And(c, f(q)), present, val)
            else:
                if b[0] == "set":
                    _, i, v = b
                    list_layer(o, lambda q, c=a, i=i: And(c, ze(q) == ze(i)), lambda q, v=v: v)
                else:
                    _, cond, val = b
                    list_layer(o, lambda q, c=a, f=cond: And(c, f(q)), val)
    return True


# ------------------------------------------------------------------ running extremum of (nested) loops

def assigned_names(nodes):
    out = set()
    for st in nodes:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
    return out


def leaves(c, v):
    """[(conditions, term)] of the conditionals at the top of a scalar"""
    e = v if z3.is_expr(v) else ze(v)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        a = e.arg(0)
        return leaves(c + split_and(a), e.arg(1)) + leaves(c + [z3.simplify(z3.Not(a))], e.arg(2))
    return [(c, e)]


def split_and(a):
    a = z3.simplify(a)
    return [y for x in a.children() for y in split_and(x)] if z3.is_and(a) else [a]


def try_extremum(I, st):
    """for ... (for ...): if guard and value >= m: m, a, b = value, ...   (any of >=, >, <=, <).

    The state after the loops: m is the extremum of the guarded values and of its initial value, the other
    variables were set with it (the last or the first extremum for a large or strict comparison)."""
    chain = [st]
    while len(chain[-1].body) == 1 and isinstance(chain[-1].body[0], ast.For):
        chain.append(chain[-1].body[0])
    body = chain[-1].body
    if any(c.orelse for c in chain):
        return False
    nodes = [x for b in body for x in ast.walk(b)]
    if any(isinstance(x, (ast.Break, ast.Return, ast.Yield, ast.For, ast.While, ast.Try)) for x in nodes):
        return False
    stored = {}
    for x in nodes:
        if isinstance(x, ast.If) and any(isinstance(y, ast.Compare) and isinstance(y.ops[0], (
                ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for y in ast.walk(x.test)):
            used = {y.id for y in ast.walk(x.test) if isinstance(y, ast.Name)}
            for y in x.body:
                if isinstance(y, ast.Assign):
                    for t in y.targets:
                        for z in ast.walk(t):
                            if isinstance(z, ast.Name) and z.id in used:
                                stored[z.id] = True
    if not stored:
        return False
    assigned = assigned_names([st])
    for c in chain[1:]:
        if not (isinstance(c.iter, ast.Call) and isinstance(c.iter.func, ast.Name) and c.iter.func.id == "range"):
            return False
        if any(isinstance(y, ast.Name) and y.id in assigned for y in ast.walk(c.iter)):
            return False
    from . import models
    E = I.E
    seqs = [models.as_seq(I, I.ev(c.iter)) for c in chain]
    if all(isinstance(s.length(), int) and s.length() <= 40 for s in seqs):
        return False
    gets, ns = [], []
    for s in seqs:
        n = s.length()
        if not E.valid(ze(n) >= 0):
            return False
        gets.append(s.get if not s.concrete else VList(list(s.items)).get)
        ns.append(n)
    kcs = [z3.Int(E.fresh_name("k!ext")) for _ in chain]
    rng = [x for k, n in zip(kcs, ns) for x in (k >= 0, k < ze(n))]
    forms = {}

    def body_at():
        for c, g, k in zip(chain, gets, kcs):
            I.assign(c.target, g(Sv(k, "int")))
        I.exec_block(body)

    before = dict(E.names)
    for rnd in range(6):
        results = E.sub_explore(lambda: run_body(I, body_at, forms, Sv(kcs[0], "int")), rng)
        if any(out.kind != "normal" for _, (out, ch) in results) or not results:
            return False
        progress = False
        for c, (out, ch) in results:
            if any(cell.typ == "cont" for cell, _ in ch.logs.values()):
                return False
            for key, (cell, v) in ch.scalars.items():
                if cell.typ != "var":
                    return False
                v0 = cell.read()
                if key not in forms:
                    progress = True
                    if v0 is not MISSING and is_scalar(v0) and kind(v0) in ("int", "real") and (
                            cell.name in stored or any(key not in ch2.scalars for _, (_, ch2) in results)
                            or (is_scalar(v) and kind(v) in ("int", "real") and z3.is_app(ze(v)) and
                                ze(v).decl().kind() == z3.Z3_OP_ITE)):
                        real = kind(v0) == "real" or (is_scalar(v) and kind(v) == "real")
                        forms[key] = (cell, Havoc(E.fresh("real" if real else "int", "ext_" + cell.name), v0))
                    else:
                        forms[key] = (cell, Undef(f"{cell.name} is carried by a loop", v0))
                elif isinstance(forms[key][1], Havoc) and is_scalar(v) and kind(v) == "real" and \
                        forms[key][1].sym.kind == "int":
                    progress = True
                    forms[key] = (cell, Havoc(E.fresh("real", "ext_" + cell.name), v0))
        if not progress:
            break
    else:
        return False
    pcs = list(E.pc) + rng
    new = {}
    hav = {key: f for key, (c, f) in forms.items() if isinstance(f, Havoc)}
    syms = {f.sym.e.decl().name() for f in hav.values()}
    free = lambda t: not (free_consts(t) & syms)
    cases = {}
    for key, f in hav.items():
        cell = forms[key][0]
        ls = []
        for c, (out, ch) in results:
            v = ch.scalars[key][1] if key in ch.scalars else f.sym
            if not is_scalar(v) or kind(v) not in ("int", "real"):
                return False
            if has_nan(v) and not sums.quick(E, pcs + list(c), Not(nanof(v)), 0):
                # the value may be invalid
                return False
            kd = f.sym.kind
            ls += leaves([x for y in c for x in split_and(y)], ze(v, kd))
        cases[key] = ls
    main = None
    for key, f in hav.items():
        if not E.valid(Not(nanof(f.v0))):
            continue
        upd = [(c, t) for c, t in cases[key] if not t.eq(f.sym.e)]
        if not upd or not all(free(t) for c, t in upd):
            continue
        v = upd[-1][1]
        for c, t in reversed(upd[:-1]):
            v = t if t.eq(v) else z3.If(And(*c), t, v)
        if not free(v):
            continue
        U = Or(*[And(*c) for c, _ in upd])
        G = Or(*[And(*[x for x in c if free(x)]) for c, _ in upd])
        for op in (">=", ">", "<=", "<"):
            cmp_ = {">=": v >= f.sym.e, ">": v > f.sym.e, "<=": v <= f.sym.e, "<": v < f.sym.e}[op]
            if sums.quick(E, pcs, U == And(G, cmp_), 0):
                main = (key, f, v, U, G, op)
                break
        if main:
            break
    if main is None:
        return False
    key, f, v, U, G, op = main
    others = {}
    for k2, f2 in hav.items():
        if k2 == key:
            continue
        upd = [(c, t) for c, t in cases[k2] if not t.eq(f2.sym.e)]
        if not upd:
            return False
        u = upd[-1][1]
        for c, t in reversed(upd[:-1]):
            u = t if t.eq(u) else z3.If(And(*c), t, u)
        U2 = Or(*[And(*c) for c, _ in upd])
        if free(u) and sums.quick(E, pcs, U2 == U, 0):
            others[k2] = (f2, u)
        elif all(free(t) for c, t in cases[k2]):
            others[k2] = None
        else:
            return False
    # symbols created by the body in each iteration would need an enumeration of their values
    for t in [v, G] + [u for x in others.values() if x for u in (x[1],)]:
        for nm in free_consts(t):
            b, _, num = nm.rpartition("!")
            if num.isdigit() and b != "k!ext" and before.get(b, 0) <= int(num) < E.names.get(b, 0):
                return False
    # variables in the facts: the values of the loop variables when they are index + constant
    js = [z3.Int(E.fresh_name("j!ext")) for _ in chain]
    sub, inr = [], []
    for k, g, n, j in zip(kcs, gets, ns, js):
        x = g(Sv(k, "int"))
        off = z3.IntVal(0)
        if is_scalar(x) and kind(x) == "int":
            o = z3.simplify(ze(x) - k)
            if k.decl().name() not in free_consts(o):
                off = o
        sub.append((k, j - off))
        inr += [j >= off, j < off + ze(n)]
    at = lambda t: z3.simplify(z3.substitute(t, *sub))
    ws = [z3.Int(E.fresh_name("w!ext")) for _ in chain]
    wsub = list(zip(js, ws))
    atw = lambda t: z3.simplify(z3.substitute(at(t), *wsub))
    up = z3.Bool(E.fresh_name("updated"))
    cmpf = {">=": lambda a, b: a >= b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, "<": lambda a, b: a < b}
    opp = {">=": "<", ">": "<=", "<=": ">", "<": ">="}
    weak = {">=": "<=", ">": "<=", "<=": ">=", "<": ">="}
    strict = {">=": "<", ">": "<", "<=": ">", "<": ">"}
    v0 = ze(f.v0, f.sym.kind)
    vj, Gj, vw, Gw = at(v), at(G), atw(v), atw(G)
    inr = And(*inr)
    # lexicographic order of the iterations
    lt = z3.BoolVal(False)
    for a, b in reversed(list(zip(js, ws))):
        lt = Or(a < b, And(a == b, lt))
    eqw = And(*[a == b for a, b in zip(js, ws)])
    side = Not(Or(lt, eqw)) if op in (">=", "<=") else lt
    E.assume(z3.ForAll(js, Implies(And(Not(up), inr, Gj), cmpf[opp[op]](vj, v0))))
    E.assume(Implies(up, And(z3.substitute(inr, *wsub), Gw, cmpf[op](vw, v0))))
    E.assume(z3.ForAll(js, Implies(And(up, inr, Gj), cmpf[weak[op]](vj, vw))))
    E.assume(z3.ForAll(js, Implies(And(up, inr, Gj, side), cmpf[strict[op]](vj, vw))))
    for k2, (cell, fm) in forms.items():
        if k2 == key:
            cell.write(mk(z3.simplify(z3.If(up, vw, v0)), fm.sym.kind))
        elif isinstance(fm, Havoc) and others.get(k2):
            f2, u = others[k2]
            kd = f2.sym.kind
            cell.write(mk(z3.simplify(z3.If(up, atw(u), ze(f2.v0, kd))), kd, nan_after(up, f2.v0)))
        else:
            cell.write(Poison(f"{cell.name} is carried by a loop"))
    return True


def nan_after(up, v0):
    n = nanof(v0)
    return None if z3.is_false(z3.simplify(zb(n))) else z3.simplify(And(Not(up), n))


class NdEnumerate:
    def __init__(self, arr):
        self.arr = arr


def exec_ndenumerate(I, st, it):
    """for indices, value in np.ndenumerate(a): one loop per axis"""
    if any(isinstance(x, (ast.Break,)) for b in st.body for x in ast.walk(b)) or st.orelse:
        raise Unsupported("break in a loop over ndenumerate")
    fr = I.frames[-1]
    a = it.arr
    tag = f"_nd{st.lineno}"
    fr.vars[tag] = a
    names = [f"{tag}_{d}" for d in range(a.ndim)]
    for d in range(a.ndim):
        fr.vars[f"{tag}_n{d}"] = a.shape[d]
    tup = lambda: ast.Tuple([ast.Name(nm, ast.Load()) for nm in names], ast.Load())
    val = ast.Subscript(ast.Name(tag, ast.Load()), tup(), ast.Load())
    body = [ast.Assign([st.target], ast.Tuple([tup(), val], ast.Load()))] + list(st.body)
    for d in reversed(range(a.ndim)):
        body = [ast.For(ast.Name(names[d], ast.Store()), ast.Call(ast.Name("range", ast.Load()), [
            ast.Name(f"{tag}_n{d}", ast.Load())], []), body, [])]
    node = body[0]
    for x in ast.walk(node):
        if not hasattr(x, "lineno"):
            x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = st.lineno, 0, st.lineno, 0
    I.exec_block([node])
