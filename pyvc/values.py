"""Containers, objects and the cloning / substitution / merging of values."""
import weakref

import z3
from .core import (Sv, Unsupported, mk, ze, zb, And, Or, Not, kind, is_scalar, nanof, has_nan,
                   SORTS, U, Fraction)


class NoMerge(Exception):
    pass


class Poison:
    """A variable whose value is not defined at this point (e.g. loop-carried before the
    first iteration); reading it is an error of the proof, never silently accepted."""
    def __init__(self, why):
        self.why = why


class ExtRef:
    """A name of a library outside of the repository (numpy, os, ...)."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"ExtRef({self.name})"

    def __eq__(self, o):
        return isinstance(o, ExtRef) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class SliceV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class RangeV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class Frame:
    def __init__(self, fn, module, parent=None):
        self.vars = {}
        self.fn = fn
        self.module = module
        self.parent = parent
        self.nonlocals = set()
        self.globals = set()
        self.yields = None


class Obj:
    """Instance of a repository class (cls: ClassV) or an abstract namespace (cls: str)."""
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.frozen = False

    def __repr__(self):
        return f"Obj({getattr(self.cls, 'name', self.cls)})"


class VList:
    """A list. Concrete (`items`) or symbolic (`n`, `get`)."""
    def __init__(self, items=None, n=None, get=None, elem=None):
        self.items = items
        self.n = n
        self._get = get
        self.log = None
        self.elem = elem
        self.facts = None      # extra knowledge, e.g. {"sel":..., "rank":...}

    @property
    def concrete(self):
        return self.items is not None

    def length(self):
        return len(self.items) if self.concrete else self.n

    def get(self, i):
        """value at a valid non-negative index"""
        if self.concrete:
            if isinstance(i, int):
                return self.items[i]
            r = self.items[-1]
            for j in range(len(self.items) - 2, -1, -1):
                r = vite(ze(i) == j, self.items[j], r)
            return r
        return self._get(i)

    def make_symbolic(self):
        if self.concrete:
            items = list(self.items)
            def get(i, items=items):
                if isinstance(i, int) and 0 <= i < len(items):
                    return items[i]
                if not items:
                    raise Unsupported("element of an empty list")
                r = items[-1]
                for j in range(len(items) - 2, -1, -1):
                    r = vite(ze(i) == j, items[j], r)
                return r
            self.n = len(items)
            self._get = get
            self.items = None

    def replace(self, n, get):
        self.items = None
        self.n = n
        self._get = get

    def append(self, v):
        if self.log is not None:
            self.log.append(("append", v))
        if self.concrete:
            self.items.append(v)
            return
        n0, g0 = self.n, self._get
        self.n = mk(z3.simplify(ze(n0) + 1))
        def get(i, n0=n0, g0=g0, v=v):
            c = z3.simplify(ze(i) == ze(n0))
            if z3.is_true(c):
                return v
            if z3.is_false(c):
                return g0(i)
            if isinstance(n0, int) and n0 == 0:
                return v
            return vite(c, v, g0(i))
        self._get = get
        self.facts = None

    def set(self, i, v):
        if self.log is not None:
            self.log.append(("set", i, v))
        if self.concrete and isinstance(i, int):
            self.items[i] = v
            return
        self.make_symbolic()
        g0 = self._get
        def get(j, i=i, g0=g0, v=v):
            c = z3.simplify(ze(j) == ze(i))
            if z3.is_true(c):
                return v
            if z3.is_false(c):
                return g0(j)
            return vite(c, v, g0(j))
        self._get = get
        self.facts = None


class VDict:
    """A dictionary with concrete keys, in insertion order."""
    def __init__(self, d=None):
        self.d = dict(d or {})


class VBytes:
    """encoded text"""
    def __init__(self, text):
        self.text = text


class VSet:
    def __init__(self, items=None, has=None):
        self.items = items     # concrete list of hashable values
        self.has = has         # or membership function


class VMap:
    """A dictionary with symbolic keys: membership and value functions of the key.

    keyk: kind of the keys. `n`,`key`: iteration order (optional), key(i) being the i-th key."""
    def __init__(self, keyk, has, get, order=None):
        self.keyk = keyk
        self.has_ = has
        self.get_ = get
        self.order = order
        self.log = None

    def has(self, k):
        return self.has_(k)

    def get(self, k):
        return self.get_(k)

    def set(self, k, v):
        if self.log is not None:
            self.log.append((lambda q, k=k: ze(q, self.keyk) == ze(k, self.keyk), True,
                             lambda q, v=v: v))
        self.layer(lambda q, k=k: ze(q, self.keyk) == ze(k, self.keyk), True, lambda q, v=v: v,
                   log=False)

    def delete(self, k):
        self.layer(lambda q, k=k: ze(q, self.keyk) == ze(k, self.keyk), False, None)

    def layer(self, cond, present, val, log=True):
        if log and self.log is not None:
            self.log.append((cond, present, val))
        h0, g0 = self.has_, self.get_
        def has(q):
            c = z3.simplify(zb(cond(q)))
            if z3.is_true(c):
                return z3.BoolVal(present)
            if z3.is_false(c):
                return h0(q)
            return z3.If(c, z3.BoolVal(present), zb(h0(q)))
        self.has_ = has
        if present:
            def get(q):
                c = z3.simplify(zb(cond(q)))
                if z3.is_true(c):
                    return val(q)
                if z3.is_false(c):
                    return g0(q)
                return vite_lazy(c, lambda: val(q), lambda: g0(q), has_else=zb(h0(q)))
            self.get_ = get
        self.order = None


class Store:
    """Content of an array: a function of the index tuple, updated functionally."""
    def __init__(self, ndim, get, kind):
        self.ndim, self.get, self.kind = ndim, get, kind
        self.log = None
        self.views = weakref.WeakSet()      # the arrays on this content

    def layer(self, cond, val):
        """content becomes `val(idx)` where `cond(idx)`"""
        if self.log is not None:
            self.log.append((cond, val))
        g0 = self.get
        def get(idx):
            c = z3.simplify(zb(cond(idx)))
            if z3.is_true(c):
                return val(idx)
            if z3.is_false(c):
                return g0(idx)
            return vite(c, val(idx), g0(idx))
        self.get = get


class Arr:
    """A numpy array: shape, store, and the map from its indices to those of the store."""
    def __init__(self, shape, store, imap=None, inv=None, dtype=None):
        self.shape = tuple(shape)
        self.store = store
        self.imap = imap        # idx tuple -> store idx tuple (None: identity)
        self.inv = inv          # store idx tuple -> (cond, idx tuple)   (None: identity)
        self.dtype = dtype or store.kind
        store.views.add(self)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def kind(self):
        return self.store.kind

    def getter(self):
        """snapshot of the present content"""
        g, imap = self.store.get, self.imap
        if imap is None:
            return g
        return lambda idx: g(imap(idx))

    def at(self, idx):
        return self.getter()(tuple(idx))

    def __repr__(self):
        return f"Arr{self.shape}"


def new_arr(shape, get, kind, dtype=None):
    a = Arr(shape, Store(len(shape), get, kind))
    a.dtype = dtype or kind
    return a


# ------------------------------------------------------------------ merging

def vite_lazy(c, a, b, has_else=None):
    if has_else is not None and z3.is_false(z3.simplify(has_else)):
        return a()
    return vite(c, a(), b())


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Sv) and isinstance(b, Sv):
        return a.kind == b.kind and a.e.eq(b.e) and nanof(a).eq(nanof(b))
    if is_scalar(a) and is_scalar(b) and not isinstance(a, Sv) and not isinstance(b, Sv):
        return type(a) is type(b) and a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        return same((a.start, a.stop, a.step), (b.start, b.stop, b.step))
    if isinstance(a, ExtRef) and isinstance(b, ExtRef):
        return a.name == b.name
    if isinstance(a, VBytes) and isinstance(b, VBytes):
        return same(a.text, b.text)
    if isinstance(a, VList) and isinstance(b, VList) and a.concrete and b.concrete:
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    return False


KRANK = {"bool": 0, "int": 1, "real": 2}
FORK = [None]      # set by the interpreter: function(cond) -> bool, used when values cannot be merged


def vite(c, a, b, fork=True):
    """value `a if c else b` (merged when possible, else the path is split)"""
    c = zb(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if same(a, b):
        return a
    if is_scalar(a) and is_scalar(b):
        ka, kb = kind(a), kind(b)
        if ka == kb or (ka in KRANK and kb in KRANK and "bool" not in (ka, kb)):
            k = ka if ka == kb else max(ka, kb, key=KRANK.get)
            n = None
            if has_nan(a) or has_nan(b):
                n = z3.simplify(z3.If(c, nanof(a), nanof(b)))
            npf = (isinstance(a, Sv) and a.np) or (isinstance(b, Sv) and b.np)
            return mk(z3.If(c, ze(a, k), ze(b, k)), k, n, npf)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y, fork) for x, y in zip(a, b))
    if isinstance(a, SliceV) and isinstance(b, SliceV) and None not in (a.start, a.stop, b.start, b.stop):
        return SliceV(vite(c, a.start, b.start, fork), vite(c, a.stop, b.stop, fork),
                      vite(c, a.step, b.step, fork))
    if isinstance(a, VBytes) and isinstance(b, VBytes):
        return VBytes(vite(c, a.text, b.text, fork))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and a.kind == b.kind:
        ga, gb = a.getter(), b.getter()
        sh = tuple(vite(c, x, y, fork) for x, y in zip(a.shape, b.shape))
        return new_arr(sh, lambda idx: vite(c, ga(idx), gb(idx)), a.kind)
    if fork and FORK[0] is not None:
        return a if FORK[0](c) else b
    raise NoMerge(f"{a!r} / {b!r}")


# ------------------------------------------------------------- substitution

def subst(v, pairs):
    """replace z3 constants in a value (lazily inside containers)"""
    if not pairs:
        return v
    if isinstance(v, Sv):
        return mk(z3.substitute(v.e, *pairs), v.kind,
                  None if v.nan is None else z3.simplify(z3.substitute(v.nan, *pairs)), v.np)
    if z3.is_expr(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, VBytes):
        return VBytes(subst(v.text, pairs))
    if isinstance(v, SliceV):
        return SliceV(subst(v.start, pairs), subst(v.stop, pairs), subst(v.step, pairs))
    if isinstance(v, RangeV):
        return RangeV(subst(v.start, pairs), subst(v.stop, pairs), subst(v.step, pairs))
    memo = {}
    return deep_subst(v, pairs, memo)


def deep_subst(v, pairs, memo):
    if v is None or isinstance(v, (bool, int, str, Fraction, float, ExtRef)):
        return v
    if isinstance(v, (Sv, SliceV, RangeV, VBytes)) or z3.is_expr(v):
        return subst(v, pairs)
    if isinstance(v, tuple):
        return tuple(deep_subst(x, pairs, memo) for x in v)
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, VList):
        r = VList()
        memo[id(v)] = (r, v)
        if v.concrete:
            r.items = [deep_subst(x, pairs, memo) for x in v.items]
        else:
            g = v._get
            r.n = subst(v.n, pairs)
            r._get = lambda i: subst_open(g, (i,), pairs)
        return r
    if isinstance(v, VDict):
        r = VDict()
        memo[id(v)] = (r, v)
        r.d = {k: deep_subst(x, pairs, memo) for k, x in v.d.items()}
        return r
    if isinstance(v, VMap):
        h, g = v.has_, v.get_
        r = VMap(v.keyk, lambda q: subst_open(h, (q,), pairs), lambda q: subst_open(g, (q,), pairs))
        memo[id(v)] = (r, v)
        return r
    if isinstance(v, Arr):
        g = v.getter()
        r = new_arr(tuple(subst(s, pairs) for s in v.shape),
                    lambda idx: subst_open(lambda *i: g(i), tuple(idx), pairs), v.kind, v.dtype)
        memo[id(v)] = (r, v)
        return r
    if isinstance(v, Obj):
        r = Obj(v.cls)
        memo[id(v)] = (r, v)
        r.attrs = {k: deep_subst(x, pairs, memo) for k, x in v.attrs.items()}
        return r
    if isinstance(v, VSet) and v.items is not None:
        return VSet([deep_subst(x, pairs, memo) for x in v.items])
    return v


_ctr = [0]


def subst_open(f, args, pairs):
    """f(*args) with the pairs substituted in what f itself contains, not in the arguments"""
    if any(isinstance(a, Sv) and mentions(a, pairs) for a in args):
        ph, back = [], []
        for a in args:
            if isinstance(a, Sv):
                _ctr[0] += 1
                c = z3.Const(f"ph!{_ctr[0]}", a.e.sort())
                ph.append(Sv(c, a.kind))
                back.append((c, a.e))
            else:
                ph.append(a)
        return subst(subst(f(*ph), pairs), back)
    return subst(f(*args), pairs)


def mentions(a, pairs):
    return not z3.substitute(a.e, *pairs).eq(a.e)


# ------------------------------------------------------------------ cloning

def clone(v, memo):
    """deep copy of the mutable structure, keeping sharing; memo: id -> (clone, original)"""
    if v is None or isinstance(v, (bool, int, str, Fraction, float, Sv, ExtRef, Poison, VBytes)):
        return v
    if isinstance(v, tuple):
        return tuple(clone(x, memo) for x in v)
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, Frame):
        r = Frame(v.fn, v.module)
        memo[id(v)] = (r, v)
        r.parent = clone(v.parent, memo)
        r.nonlocals, r.globals = v.nonlocals, v.globals
        r.yields = clone(v.yields, memo)
        r.vars = {k: clone(x, memo) for k, x in v.vars.items()}
        return r
    if isinstance(v, Obj):
        r = Obj(v.cls)
        memo[id(v)] = (r, v)
        r.attrs = {k: clone(x, memo) for k, x in v.attrs.items()}
        r.frozen = v.frozen
        return r
    if isinstance(v, VList):
        r = VList(n=v.n, get=v._get, elem=v.elem)
        memo[id(v)] = (r, v)
        r.facts = v.facts
        if v.concrete:
            r.items = [clone(x, memo) for x in v.items]
        return r
    if isinstance(v, VDict):
        r = VDict()
        memo[id(v)] = (r, v)
        r.d = {k: clone(x, memo) for k, x in v.d.items()}
        return r
    if isinstance(v, VMap):
        r = VMap(v.keyk, v.has_, v.get_, v.order)
        memo[id(v)] = (r, v)
        return r
    if isinstance(v, VSet):
        r = VSet(None if v.items is None else list(v.items), v.has)
        memo[id(v)] = (r, v)
        return r
    if isinstance(v, Store):
        r = Store(v.ndim, v.get, v.kind)
        memo[id(v)] = (r, v)
        return r
    if isinstance(v, Arr):
        r = Arr(v.shape, clone(v.store, memo), v.imap, v.inv, v.dtype)
        memo[id(v)] = (r, v)
        return r
    if isinstance(v, SliceV):
        return v
    if hasattr(v, "pyvc_clone"):
        return v.pyvc_clone(memo)
    return v


def clone_back(v, rev, seen=None):
    """replace in a value the clones of existing containers by their originals"""
    if seen is None:
        seen = {}
    if isinstance(v, tuple):
        return tuple(clone_back(x, rev, seen) for x in v)
    if id(v) in rev:
        return rev[id(v)]
    if id(v) in seen:
        return v
    seen[id(v)] = v
    if isinstance(v, VList) and v.concrete:
        v.items = [clone_back(x, rev, seen) for x in v.items]
    elif isinstance(v, VDict):
        v.d = {k: clone_back(x, rev, seen) for k, x in v.d.items()}
    elif isinstance(v, Obj):
        v.attrs = {k: clone_back(x, rev, seen) for k, x in v.attrs.items()}
    elif isinstance(v, Arr):
        v.store = clone_back(v.store, rev, seen)
    elif hasattr(v, "pyvc_back"):
        v.pyvc_back(rev, seen)
    return v
