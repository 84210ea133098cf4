"""collections.OrderedDict with symbolic content (objects of classes which derive from it).

The content is an immutable state: number of items, key of rank i, rank of a key, value of a key.
The attribute "__od__" of the object holds its state."""
import z3

from . import ops
from .core import And, Implies, Not, Or, Sv, Unsupported, mk, ze, zb, kind
from .models import model, as_seq, compare
from .ops import PyRaise, BExc, raise_py
from .values import Obj, VDict, VList, VMap, vite

C = "collections.OrderedDict"


class OD:
    def __init__(self, n, key, rank, has, get):
        self.n, self.key, self.rank, self.has, self.get = n, key, rank, has, get

    def __repr__(self):
        return f"OD({self.n})"


def empty():
    def none(i):
        raise Unsupported("item of an empty dictionary")
    return OD(0, none, lambda q: 0, lambda q: z3.BoolVal(False), lambda q: None)


def fresh(S, name, n=None, key=None, get=None, keyk="str"):
    """an arbitrary dictionary"""
    E = S.E
    n = S.int(name + "_n", 0) if n is None else n
    f = E.fresh_fun(name + "_key", "int", keyk)
    r = E.fresh_fun(name + "_rank", keyk, "int")
    g = E.fresh_fun(name + "_value", keyk, "obj")
    def keyf(i):
        k = f(ze(i))
        # distinct keys: the rank is the inverse of the enumeration
        E.assume(Implies(And(ze(i) >= 0, ze(i) < ze(n)), r(k) == ze(i)))
        return Sv(k, keyk)
    def rank(q):
        return Sv(r(ze(q, keyk)), "int")
    def has(q):
        q = ze(q, keyk)
        return And(r(q) >= 0, r(q) < ze(n), f(r(q)) == q)
    get = get or (lambda q: Sv(g(ze(q, keyk)), "obj"))
    return OD(n, keyf, rank, has, get)


def state(I, o):
    s = o.attrs.get("__od__")
    if s is None:
        raise Unsupported("content of a dictionary which was not initialised")
    return s


def eqk(I, a, b):
    c = compare(I, "Eq", a, b)
    return z3.simplify(zb(c))


def pick(c, a, b):
    """value: a() if c else b()"""
    if z3.is_true(c):
        return a()
    if z3.is_false(c):
        return b()
    return vite(c, a(), b())


def with_item(I, s, k, v):
    """state after s[k] = v"""
    def get(q, s=s):
        return pick(eqk(I, q, k), lambda: v, lambda: s.get(q))
    if I.E.branch(zb(s.has(k))):
        return OD(s.n, s.key, s.rank, s.has, get)
    n = s.n
    def key(i):
        return pick(z3.simplify(ze(i) == ze(n)), lambda: k, lambda: s.key(i))
    def rank(q):
        return pick(eqk(I, q, k), lambda: n, lambda: s.rank(q))
    def has(q):
        return Or(eqk(I, q, k), zb(s.has(q)))
    return OD(ops.add(n, 1), key, rank, has, get)


def without(I, s, k):
    """state after del s[k] (k is a key)"""
    r = s.rank(k)
    def key(i):
        return pick(z3.simplify(ze(i) < ze(r)), lambda: s.key(i), lambda: s.key(ops.add(i, 1)))
    def rank(q):
        x = s.rank(q)
        return pick(z3.simplify(ze(x) < ze(r)), lambda: x, lambda: ops.sub(x, 1))
    def has(q):
        return And(Not(eqk(I, q, k)), zb(s.has(q)))
    return OD(ops.sub(s.n, 1), key, rank, has, s.get)


def put(I, o, s):
    I.setattr(o, "__od__", s)


@model(C + ".__init__")
def m_init(I, o, *a, **k):
    if a or k:
        raise Unsupported("OrderedDict(...)")
    put(I, o, empty())


@model(C + ".__len__")
def m_len(I, o):
    return state(I, o).n


@model(C + ".__contains__")
def m_contains(I, o, k):
    return mk(z3.simplify(zb(state(I, o).has(k))), "bool")


@model(C + ".__setitem__")
def m_setitem(I, o, k, v):
    put(I, o, with_item(I, state(I, o), k, v))


@model(C + ".__getitem__")
def m_getitem(I, o, k):
    s = state(I, o)
    if not I.E.branch(zb(s.has(k))):
        raise PyRaise(BExc(KeyError, (k,)))
    return s.get(k)


@model(C + ".get")
def m_get(I, o, k, default=None):
    s = state(I, o)
    return s.get(k) if I.E.branch(zb(s.has(k))) else default


@model(C + ".setdefault")
def m_setdefault(I, o, k, default=None):
    s = state(I, o)
    if I.E.branch(zb(s.has(k))):
        return s.get(k)
    put(I, o, with_item(I, s, k, default))
    return default


@model(C + ".__delitem__")
def m_delitem(I, o, k):
    s = state(I, o)
    if not I.E.branch(zb(s.has(k))):
        raise PyRaise(BExc(KeyError, (k,)))
    put(I, o, without(I, s, k))


MISSING = object()


@model(C + ".pop")
def m_pop(I, o, k, default=MISSING):
    s = state(I, o)
    if not I.E.branch(zb(s.has(k))):
        if default is not MISSING:
            return default
        raise PyRaise(BExc(KeyError, (k,)))
    v = s.get(k)
    put(I, o, without(I, s, k))
    return v


@model(C + ".popitem")
def m_popitem(I, o, last=True):
    s = state(I, o)
    if not I.E.branch(ze(s.n) > 0):
        raise PyRaise(BExc(KeyError, ("dictionary is empty",)))
    if I.truth(last):
        r = ops.sub(s.n, 1)
        k = s.key(r)
        new = OD(r, s.key, s.rank, lambda q: And(Not(eqk(I, q, k)), zb(s.has(q))), s.get)
    else:
        k = s.key(0)
        new = OD(ops.sub(s.n, 1), lambda i: s.key(ops.add(i, 1)), lambda q: ops.sub(s.rank(q), 1),
                 lambda q: And(Not(eqk(I, q, k)), zb(s.has(q))), s.get)
    v = s.get(k)
    put(I, o, new)
    return k, v


@model(C + ".clear")
def m_clear(I, o):
    put(I, o, empty())


@model(C + ".__iter__", C + ".keys")
def m_keys(I, o):
    s = state(I, o)
    l = VList(n=s.n, get=s.key)
    l.facts = {"member": s.has}
    return l


@model(C + ".values")
def m_values(I, o):
    s = state(I, o)
    return VList(n=s.n, get=lambda i: s.get(s.key(i)))


@model(C + ".items")
def m_items(I, o):
    s = state(I, o)
    def get(i):
        k = s.key(i)
        return (k, s.get(k))
    return VList(n=s.n, get=get)


@model(C + ".__repr__")
def m_repr(I, o):
    return I.E.fresh("str", "repr")


@model(C + ".update")
def m_update(I, o, d=None, **k):
    s = state(I, o)
    if isinstance(d, VDict):
        for q, v in d.d.items():
            s = with_item(I, s, q, v)
    elif isinstance(d, Obj) and "__od__" in d.attrs:
        raise Unsupported("OrderedDict.update")
    elif d is not None:
        seq = as_seq(I, d)
        if not seq.concrete:
            raise Unsupported("OrderedDict.update")
        for t in seq.items:
            s = with_item(I, s, *t)
    for q, v in k.items():
        s = with_item(I, s, q, v)
    put(I, o, s)


# colours of the terminal: texts which are only written in the logs
from .models import MODELS  # noqa: E402

for _n in ("HEADER", "OKBLUE", "OKGREEN", "WARNING", "FAIL", "ENDC"):
    MODELS["=fluiddyn.util.terminal_colors." + _n] = "[" + _n + "]"
