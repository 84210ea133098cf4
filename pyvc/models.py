"""Meaning of operators, builtins and library functions (the trusted models)."""
import math
from fractions import Fraction

import z3

from . import ops, sums
from . import values as V
from .core import (Sv, Unsupported, Undischarged, PathEnd, mk, ze, zb, And, Or, Not, Implies, kind,
                   is_scalar, nanof, has_nan, NAN, U)
from .ops import PyRaise, BExc, raise_py, ufun, isnp
from .values import (Arr, ExtRef, Obj, RangeV, SliceV, Store, VDict, VList, VMap, VSet, new_arr,
                     vite, same, NoMerge, subst)

MODELS = {}


def special(o, name):
    """special method of an object described by a model: f(I, o, *args)"""
    a = o.attrs.get(name)
    if a is not None:
        return lambda I, o, *args: I.call(a, args)
    return MODELS.get(f"{o.cls}.{name}")

BUILTINS = {}
MODELS["__builtins__"] = BUILTINS


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def builtin(name):
    def deco(f):
        BUILTINS[name] = f
        return f
    return deco


# ------------------------------------------------------------------ helpers

def decide(I, c):
    """True / False when the condition is settled by the path condition, else None"""
    if isinstance(c, bool):
        return c
    c = z3.simplify(zb(c))
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    if I.E.valid(c):
        return True
    if I.E.valid(z3.Not(c)):
        return False
    return None


def ite(I, c, a, b):
    d = decide(I, c)
    if d is True:
        return a
    if d is False:
        return b
    return vite(zb(c), a, b)


def npf(v):
    """numpy scalar"""
    if isinstance(v, Sv) and not v.np:
        return Sv(v.e, v.kind, v.nan, True)
    return v


def range_len(I, r):
    start, stop, step = r.start, r.stop, r.step
    if isinstance(step, int) and not isinstance(step, bool):
        if step == 0:
            raise_py(ValueError, "range() arg 3 must not be zero")
        pos = step > 0
    else:
        pos = decide(I, ops.compare(">", step, 0))
        if pos is None:
            if I.E.branch(ze(step) == 0):
                raise_py(ValueError, "range() arg 3 must not be zero")
            pos = I.E.branch(ze(step) > 0)
        elif not pos:
            if I.E.branch(ze(step) == 0):
                raise_py(ValueError, "range() arg 3 must not be zero")
    if not any(isinstance(x, Sv) for x in (start, stop, step)):
        return len(range(start, stop, step))
    if pos:
        n = ops.floordiv(ops.sub(ops.add(ops.sub(stop, start), step), 1), step)
        if isinstance(step, int) and step == 1 and decide(I, ops.compare(">=", stop, start)) is True:
            return n
        return ite(I, ops.compare(">", stop, start), n, 0)
    n = ops.floordiv(ops.sub(ops.sub(ops.sub(start, stop), step), 1), ops.neg(step))
    return ite(I, ops.compare("<", stop, start), n, 0)


def as_seq(I, v):
    """the items an iteration over v yields, as a list-like value"""
    if isinstance(v, VList):
        return v
    if isinstance(v, tuple):
        return VList(list(v))
    if isinstance(v, str):
        return VList(list(v))
    if isinstance(v, RangeV):
        n = range_len(I, v)
        s, st = v.start, v.step
        if isinstance(n, int) and n <= 4096 and isinstance(s, int):
            return VList(list(range(v.start, v.stop, v.step)))
        r = VList(n=n, get=lambda i: ops.add(s, ops.mul(i, st)))
        return r
    if isinstance(v, VDict):
        return VList(list(v.d.keys()))
    if isinstance(v, VMap):
        if v.order is None:
            raise Unsupported("iteration over a symbolic dictionary of unknown order")
        n, key = v.order
        return VList(n=n, get=key)
    if isinstance(v, VSet) and v.items is not None:
        return VList(list(v.items))
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise_py(TypeError, "iteration over a 0-d array")
        n = v.shape[0]
        snap = v
        r = VList(n=n, get=lambda i: npf(snap.at((i,))) if snap.ndim == 1 else arr_getitem(I, snap, (i,), check=False))
        if isinstance(n, int) and n <= 64:
            return VList([arr_getitem(I, snap, (i,), check=False) for i in range(n)])
        return r
    if isinstance(v, Obj):
        if isinstance(v.cls, str):
            m = special(v, "__iter__")
            if m:
                return as_seq(I, m(I, v))
        m = I.hasattr(v, "__iter__")
        if m:
            return as_seq(I, I.call(I.getattr(v, "__iter__"), []))
    if hasattr(v, "pyvc_iter"):
        return v.pyvc_iter(I)
    if v is None or is_scalar(v):
        raise_py(TypeError, "object is not iterable")
    raise Unsupported(f"iteration over {v!r}")


def list_extend(I, l, v):
    s = as_seq(I, v)
    n = s.length()
    if isinstance(n, int):
        for i in range(n):
            l.append(s.get(i))
        return
    if l.log is not None:
        l.log.append(("other",))
    n0, g0 = l.length(), (l.get if not l.concrete else VList(list(l.items)).get)
    if isinstance(n0, int) and n0 == 0:
        l.replace(n, s.get)
        l.facts = s.facts
        return
    def get(i, n0=n0, g0=g0, s=s):
        c = z3.simplify(ze(i) < ze(n0))
        if z3.is_true(c):
            return g0(i)
        if z3.is_false(c):
            return s.get(ops.sub(i, n0))
        d = decide(I, c)
        if d is not None:
            return g0(i) if d else s.get(ops.sub(i, n0))
        return vite(c, g0(i), s.get(ops.sub(i, n0)))
    l.replace(ops.add(n0, n), get)


def slice_bounds(I, s, n):
    """(start, count, step) of a slice on a sequence of length n; step a concrete int"""
    step = 1 if s.step is None else s.step
    if isinstance(step, Sv):
        raise Unsupported("slice with a symbolic step")
    if step == 0:
        raise_py(ValueError, "slice step cannot be zero")
    def clip(x, lo, hi):
        if kind(x) not in ("int", "bool"):
            raise_py(TypeError, "slice indices must be integers")
        x = ite(I, ops.compare("<", x, 0), ops.add(x, n), x)
        x = ite(I, ops.compare("<", x, lo), lo, x)
        return ite(I, ops.compare(">", x, hi), hi, x)
    if step > 0:
        a = 0 if s.start is None else clip(s.start, 0, n)
        b = n if s.stop is None else clip(s.stop, 0, n)
        d = ops.sub(b, a)
        if step == 1:
            cnt = ite(I, ops.compare(">", d, 0), d, 0)
        else:
            cnt = ite(I, ops.compare(">", d, 0), ops.floordiv(ops.add(d, step - 1), step), 0)
    else:
        m1 = ops.sub(n, 1)
        a = m1 if s.start is None else clip(s.start, -1, m1)
        b = -1 if s.stop is None else clip(s.stop, -1, m1)
        d = ops.sub(a, b)
        cnt = ite(I, ops.compare(">", d, 0), ops.floordiv(ops.add(d, -step - 1), -step), 0)
    return a, cnt, step


def norm_index(I, i, n, what="index out of range", check=True):
    """index with Python wrap-around; forks on IndexError"""
    if kind(i) == "bool":
        i = mk(ze(i, "int")) if isinstance(i, Sv) else int(i)
    if kind(i) != "int":
        raise_py(TypeError, "indices must be integers or slices")
    if isinstance(i, int) and isinstance(n, int):
        if i < 0:
            i += n
        if check and not 0 <= i < n:
            raise_py(IndexError, what)
        return i
    if check:
        ok = And(ze(i) >= -ze(n), ze(i) < ze(n))
        if not I.E.branch(ok):
            raise_py(IndexError, what)
    return ite(I, ops.compare("<", i, 0), ops.add(i, n), i)


# ------------------------------------------------------------------ items

def hashable(k):
    if isinstance(k, (int, str, bool, Fraction)) or k is None:
        return True
    if isinstance(k, tuple):
        return all(hashable(x) for x in k)
    return isinstance(k, (ExtRef, type)) or k.__class__.__name__ in ("ClassV", "FuncV")


def getitem(I, o, i):
    if isinstance(o, VList):
        if isinstance(i, SliceV):
            n = o.length()
            a, cnt, step = slice_bounds(I, i, n)
            if o.concrete and isinstance(a, int) and isinstance(cnt, int):
                return VList([o.items[a + j * step] for j in range(cnt)])
            base = o._get if not o.concrete else VList(list(o.items)).get
            return VList(n=cnt, get=lambda j: base(ops.add(a, ops.mul(j, step))))
        i = norm_index(I, i, o.length(), "list index out of range")
        return o.get(i)
    if isinstance(o, tuple):
        if isinstance(i, SliceV):
            if any(isinstance(x, Sv) for x in (i.start, i.stop, i.step)):
                raise Unsupported("symbolic slice of a tuple")
            return o[slice(i.start, i.stop, i.step)]
        i = norm_index(I, i, len(o), "tuple index out of range")
        if isinstance(i, int):
            return o[i]
        return VList(list(o)).get(i)
    if isinstance(o, VDict):
        if hashable(i):
            if i in o.d:
                return o.d[i]
            raise PyRaise(BExc(KeyError, (i,)))
        for k in o.d:
            if same_kind(k, i) and I.truth(compare(I, "Eq", k, i)):
                return o.d[k]
        raise PyRaise(BExc(KeyError, (i,)))
    if isinstance(o, VMap):
        if not I.E.branch(zb(o.has(i))):
            raise PyRaise(BExc(KeyError, (i,)))
        return o.get(i)
    if isinstance(o, Arr):
        return arr_getitem(I, o, i if isinstance(i, tuple) else (i,))
    if kind(o) == "str":
        return str_getitem(I, o, i)
    if isinstance(o, RangeV):
        return getitem(I, as_seq(I, o), i)
    if isinstance(o, Obj):
        if isinstance(o.cls, str):
            m = special(o, "__getitem__")
            if m:
                return m(I, o, i)
            raise_py(TypeError, f"'{o.cls}' object is not subscriptable")
        return I.call(I.getattr(o, "__getitem__"), [i])
    if hasattr(o, "pyvc_getitem"):
        return o.pyvc_getitem(I, i)
    if o is None or is_scalar(o):
        raise_py(TypeError, f"'{o}' object is not subscriptable")
    if o in (list, tuple, dict, set) or isinstance(o, ExtRef):
        return o       # generic alias
    if o.__class__.__name__ in ("BoundV", "FuncV", "Model"):
        raise_py(TypeError, "'method' object is not subscriptable")
    raise Unsupported(f"subscript of {o!r}")


def same_kind(a, b):
    ka, kb = kind(a), kind(b)
    if ka is None or kb is None:
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)
    return ka == kb or (ka in ("int", "real", "bool") and kb in ("int", "real", "bool"))


def to_map(I, d, keyk):
    """symbolic view of a dictionary with concrete keys (order forgotten)"""
    items = list(d.d.items())
    def has(q):
        return Or(*[ze(q, keyk) == ze(k, keyk) for k, _ in items])
    def get(q):
        if not items:
            return NAN
        r = items[-1][1]
        for k, v in reversed(items[:-1]):
            r = vite(ze(q, keyk) == ze(k, keyk), v, r)
        return r
    return VMap(keyk, has, get)


def become_map(I, d, keyk):
    """turn a VDict object into a VMap in place (identity kept)"""
    m = to_map(I, d, keyk)
    log = getattr(d, "log", None)
    d.__class__ = VMap
    d.__dict__.clear()
    d.__dict__.update(m.__dict__)
    d.log = log


def setitem(I, o, i, v):
    if isinstance(o, VList):
        if isinstance(i, SliceV):
            raise Unsupported("list slice assignment")
        i = norm_index(I, i, o.length(), "list assignment index out of range")
        o.set(i, v)
        return
    if isinstance(o, VDict):
        if hashable(i):
            o.d[i] = v
            return
        if isinstance(i, tuple):
            raise Unsupported("dictionary with symbolic tuple keys")
        become_map(I, o, kind(i))
        o.set(i, v)
        return
    if isinstance(o, VMap):
        o.set(i, v)
        return
    if isinstance(o, Arr):
        arr_setitem(I, o, i if isinstance(i, tuple) else (i,), v)
        return
    if isinstance(o, Obj):
        if isinstance(o.cls, str):
            m = MODELS.get(f"{o.cls}.__setitem__")
            if m:
                m(I, o, i, v)
                return
            if "__setitem__" not in o.attrs:
                raise_py(TypeError, f"'{o.cls}' object does not support item assignment")
        I.call(I.getattr(o, "__setitem__"), [i, v])
        return
    if hasattr(o, "pyvc_setitem"):
        o.pyvc_setitem(I, i, v)
        return
    if isinstance(o, tuple) or is_scalar(o):
        raise_py(TypeError, "object does not support item assignment")
    raise Unsupported(f"item assignment on {o!r}")


def delitem(I, o, i):
    if isinstance(o, VDict) and hashable(i):
        if i not in o.d:
            raise PyRaise(BExc(KeyError, (i,)))
        del o.d[i]
        return
    if isinstance(o, VDict):
        become_map(I, o, kind(i))
    if isinstance(o, VMap):
        if not I.E.branch(zb(o.has(i))):
            raise PyRaise(BExc(KeyError, (i,)))
        o.delete(i)
        return
    if isinstance(o, Obj):
        if isinstance(o.cls, str):
            m = MODELS.get(f"{o.cls}.__delitem__")
            if m:
                m(I, o, i)
                return
        else:
            I.call(I.getattr(o, "__delitem__"), [i])
            return
    if hasattr(o, "pyvc_delitem"):
        o.pyvc_delitem(I, i)
        return
    if isinstance(o, VList) and o.concrete and isinstance(i, int):
        if o.log is not None:
            o.log.append(("other",))
        try:
            del o.items[i]
        except IndexError:
            raise_py(IndexError, "list index out of range")
        return
    raise Unsupported(f"del item of {o!r}")


def contains(I, x, o):
    """x in o"""
    if isinstance(o, VDict):
        if hashable(x):
            return x in o.d
        return mk(Or(*[compare(I, "Eq", k, x) for k in o.d if same_kind(k, x)]), "bool")
    if isinstance(o, VMap):
        if kind(x) != o.keyk:
            return False
        return mk(z3.simplify(zb(o.has(x))), "bool")
    if isinstance(o, (tuple, VList, VSet)):
        if isinstance(o, VSet) and o.items is None:
            return mk(zb(o.has(x)), "bool")
        items = o if isinstance(o, tuple) else o.items
        if items is None:
            n, g = o.length(), o.get
            f = getattr(o, "facts", None)
            if f and "member" in f:
                return mk(zb(f["member"](x)), "bool")
            j = z3.Int(I.E.fresh_name("j!in"))
            body = And(j >= 0, j < ze(n), compare(I, "Eq", g(Sv(j, "int")), x))
            return mk(z3.Exists([j], body), "bool")
        rs = []
        for y in items:
            r = compare(I, "Eq", y, x)
            if r is True:
                return True
            if r is not False:
                rs.append(r)
        return mk(Or(*rs), "bool")
    if kind(o) == "str" and kind(x) == "str":
        if isinstance(o, str) and isinstance(x, str):
            return x in o
        return mk(z3.Contains(ze(o), ze(x)), "bool")
    if isinstance(o, RangeV):
        if o.step == 1 and kind(x) == "int":
            return mk(And(ze(x) >= ze(o.start), ze(x) < ze(o.stop)), "bool")
        raise Unsupported("in range")
    if isinstance(o, Obj):
        if isinstance(o.cls, str):
            m = special(o, "__contains__")
            if m:
                return m(I, o, x)
            m = special(o, "__iter__")
            if m:
                return contains(I, x, m(I, o))
        else:
            if I.hasattr(o, "__contains__"):
                return I.call(I.getattr(o, "__contains__"), [x])
            return contains(I, x, as_seq(I, o))
    if hasattr(o, "pyvc_contains"):
        return o.pyvc_contains(I, x)
    if o is None or ops.num(o):
        raise_py(TypeError, "argument of type is not iterable")
    raise Unsupported(f"in {o!r}")


# ------------------------------------------------------------------ operators

OPS = {"Add": ops.add, "Sub": ops.sub, "Mult": ops.mul, "Div": ops.truediv, "FloorDiv": ops.floordiv,
       "Mod": ops.mod, "Pow": ops.power}


def scalar_op(op):
    def f(a, b):
        if not (ops.num(a) and ops.num(b)):
            raise_py(TypeError, f"unsupported operand types for {op}")
        return OPS[op](a, b)
    return f


def dunder(I, op, a, b):
    names = {"Add": ("__add__", "__radd__"), "Sub": ("__sub__", "__rsub__"),
             "Mult": ("__mul__", "__rmul__"), "Div": ("__truediv__", "__rtruediv__"),
             "FloorDiv": ("__floordiv__", "__rfloordiv__"), "Mod": ("__mod__", "__rmod__"),
             "Pow": ("__pow__", "__rpow__")}.get(op)
    if names is None:
        return None
    for o, n, other in ((a, names[0], b), (b, names[1], a)):
        if isinstance(o, Obj):
            if isinstance(o.cls, str):
                m = MODELS.get(f"{o.cls}.{n}")
                if m:
                    return (m(I, o, other),)
                if n in o.attrs:
                    return (I.call(o.attrs[n], [other]),)
            elif I.find_member(o.cls, n):
                r = I.call(I.getattr(o, n), [other])
                if r is not NotImplemented:
                    return (r,)
    return None


def binop(I, op, a, b):
    if op == "Add":
        if hasattr(a, "pyvc_add"):
            return a.pyvc_add(I, b, False)
        if hasattr(b, "pyvc_add"):
            return b.pyvc_add(I, a, True)
    if isinstance(a, Obj) or isinstance(b, Obj):
        r = dunder(I, op, a, b)
        if r is not None:
            return r[0]
        if op == "Div" and isinstance(a, str):
            pass
        raise_py(TypeError, f"unsupported operand types for {op}")
    if isinstance(a, Arr) or isinstance(b, Arr):
        if op in ("BitAnd", "BitOr"):
            f = And if op == "BitAnd" else Or
            return elementwise(I, lambda x, y: mk(z3.simplify(f(x, y)), "bool"), a, b, "bool")
        if op == "MatMult":
            return MODELS["numpy.dot"](I, a, b)
        if op not in OPS:
            raise Unsupported(f"array {op}")
        return elementwise(I, np_scalar_op(op), a, b)
    if op == "Add":
        if isinstance(a, VList) and isinstance(b, VList):
            if a.concrete and b.concrete:
                return VList(a.items + b.items)
            r = VList(n=a.length(), get=a.get) if not a.concrete else VList(list(a.items))
            list_extend(I, r, b)
            return r
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if kind(a) == "str" and kind(b) == "str":
            return str_concat([a, b])
        if (isinstance(a, (VList, tuple)) or kind(a) == "str") != (isinstance(b, (VList, tuple)) or kind(b) == "str") \
                or isinstance(a, (VList, tuple)) or kind(a) == "str":
            raise_py(TypeError, "can only concatenate sequences of the same kind")
    if op == "Mult":
        for x, n in ((a, b), (b, a)):
            if isinstance(x, VList) and kind(n) in ("int", "bool"):
                if isinstance(n, int) and x.concrete:
                    return VList(x.items * n)
                if x.concrete and len(x.items) == 1:
                    v = x.items[0]
                    return VList(n=ite(I, ops.compare(">", n, 0), n, 0), get=lambda i: v)
                raise Unsupported("list repetition")
            if isinstance(x, tuple) and isinstance(n, int):
                return x * n
            if isinstance(x, str) and isinstance(n, int):
                return x * n
    if op == "Mod" and kind(a) == "str":
        raise Unsupported("% formatting")
    if op in OPS:
        return scalar_op(op)(a, b)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if kind(a) == kind(b) == "bool":
            if op == "BitXor":
                return mk(z3.simplify(zb(a) != zb(b)), "bool")
            return mk(z3.simplify((And if op == "BitAnd" else Or)(a, b)), "bool")
        if isinstance(a, VSet) and isinstance(b, VSet) and a.items is not None and b.items is not None:
            if op == "BitOr":
                return make_set(I, a.items + b.items)
        if isinstance(a, int) and isinstance(b, int):
            return a & b if op == "BitAnd" else a | b if op == "BitOr" else a ^ b
        if isinstance(a, VDict) and isinstance(b, VDict) and op == "BitOr":
            return VDict({**a.d, **b.d})
    if op == "Sub" and isinstance(a, VSet) and isinstance(b, VSet):
        pass
    raise Unsupported(f"operator {op} on {a!r}, {b!r}")


def np_scalar_op(op):
    f = OPS[op]
    if op == "Div":
        def g(a, b):
            if isinstance(b, Sv) or b == 0:
                b = npf(b) if isinstance(b, Sv) else b
            if not isinstance(b, Sv) and b == 0:
                raise Unsupported("array division by zero")
            # division by zero inside arrays: left uninterpreted (never compared in contracts)
            if isinstance(b, Sv):
                return mk(z3.simplify(ze(a, "real") / ze(b, "real")), "real", ops.nan2(a, b), True)
            return f(a, b)
        return g
    if op in ("FloorDiv", "Mod"):
        return f
    return f


CMP = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}


def compare(I, op, a, b):
    if op == "Is" or op == "IsNot":
        r = is_(a, b)
        if isinstance(r, bool):
            return r if op == "Is" else not r
        return r if op == "Is" else mk(Not(r), "bool")
    if op in ("In", "NotIn"):
        r = contains(I, a, b)
        if isinstance(r, bool):
            return r if op == "In" else not r
        return r if op == "In" else mk(z3.simplify(Not(r)), "bool")
    o = CMP[op]
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None:
            return op == "NotEq"
        return elementwise(I, lambda x, y: ops.compare(o, x, y), a, b, "bool")
    if is_scalar(a) and is_scalar(b):
        if isinstance(a, float) or isinstance(b, float):
            return cmp_inf(o, a, b)
        return ops.compare(o, a, b)
    if o in ("==", "!="):
        r = equal(I, a, b)
        if o == "==":
            return r
        return (not r) if isinstance(r, bool) else mk(z3.simplify(Not(r)), "bool")
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if not I.truth(equal(I, x, y)):
                return compare(I, op, x, y)
        return ops.compare(o, len(a), len(b))
    raise_py(TypeError, f"'{o}' not supported between {a!r} and {b!r}")


def cmp_inf(o, a, b):
    """comparison with a concrete float (inf)"""
    fa = a if isinstance(a, float) else None
    fb = b if isinstance(b, float) else None
    if not isinstance(a, Sv) and not isinstance(b, Sv):
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
    inf = fa if fa is not None else fb
    if not math.isinf(inf):
        return ops.compare(o, Fraction(a) if fa is not None else a, Fraction(b) if fb is not None else b)
    s = a if isinstance(a, Sv) else b
    # finite (or nan) against infinity
    less = (inf > 0) if fb is not None else (inf < 0)       # a < b
    r = {"==": False, "!=": True, "<": less, "<=": less, ">": not less, ">=": not less}[o]
    if has_nan(s):
        return mk(z3.simplify(Or(nanof(s)) if o == "!=" else And(Not(nanof(s)), r)), "bool")
    return r


def is_(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, Sv) and isinstance(b, Sv) and a.kind == b.kind == "obj":
        return mk(a.e == b.e, "bool")
    if isinstance(a, Sv) and isinstance(b, bool) or isinstance(b, Sv) and isinstance(a, bool):
        if kind(a) == kind(b) == "bool":
            return ops.compare("==", a, b)
        return False
    if isinstance(a, ExtRef) and isinstance(b, ExtRef):
        return a.name == b.name
    if a.__class__.__name__ == "ClassV" and b.__class__.__name__ == "ClassV":
        return a.node is b.node
    if isinstance(a, (str, int)) and isinstance(b, (str, int)):
        return a == b
    return a is b


def equal(I, a, b):
    if a is b and not isinstance(a, Sv):
        return True
    if a is None or b is None:
        return False
    if is_scalar(a) and is_scalar(b):
        return ops.compare("==", a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return conj(I, [equal(I, x, y) for x, y in zip(a, b)])
    if isinstance(a, VList) and isinstance(b, VList):
        na, nb = a.length(), b.length()
        if isinstance(na, int) and isinstance(nb, int):
            if na != nb:
                return False
            return conj(I, [equal(I, a.get(i), b.get(i)) for i in range(na)])
        j = z3.Int(I.E.fresh_name("j!eq"))
        e = equal(I, a.get(Sv(j, "int")), b.get(Sv(j, "int")))
        return mk(And(ze(na) == ze(nb), z3.ForAll([j], Implies(And(j >= 0, j < ze(na)), e))), "bool")
    if isinstance(a, VDict) and isinstance(b, VDict):
        if set(a.d) != set(b.d):
            return False
        return conj(I, [equal(I, a.d[k], b.d[k]) for k in a.d])
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Obj):
            if isinstance(x.cls, str):
                m = MODELS.get(f"{x.cls}.__eq__")
                if m:
                    return m(I, x, y)
            elif I.find_member(x.cls, "__eq__"):
                return I.call(I.getattr(x, "__eq__"), [y])
    if isinstance(a, ExtRef) and isinstance(b, ExtRef):
        return a.name == b.name
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        return equal(I, (a.start, a.stop, a.step), (b.start, b.stop, b.step))
    if hasattr(a, "pyvc_eq"):
        return a.pyvc_eq(I, b)
    return False


def conj(I, rs):
    if any(r is False for r in rs):
        return False
    rs = [r for r in rs if r is not True]
    if not rs:
        return True
    return mk(z3.simplify(And(*rs)), "bool")


# ------------------------------------------------------------------ strings

def str_concat(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "" if isinstance(p, str) else True:
            out.append(p)
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    return mk(z3.Concat(*[ze(p) for p in out]), "str")


def int_to_str(e):
    return z3.If(e >= 0, z3.IntToStr(e), z3.Concat(z3.StringVal("-"), z3.IntToStr(-e)))


def fmt_value(I, v, spec):
    if isinstance(v, str):
        return repr(v) if spec == "!r" else format(v, spec)
    if isinstance(v, bool) or isinstance(v, int):
        return repr(v) if spec == "!r" else format(v, spec)
    if v is None:
        return "None"
    if isinstance(v, Fraction):
        return format(float(v), "" if spec == "!r" else spec)
    if isinstance(v, Sv):
        if v.kind == "str":
            if spec == "":
                return v
            if spec == "!r":
                return str_concat(["'", v, "'"])
        if v.kind == "int":
            from . import textfs
            if spec == "!r" or textfs.INTSPEC.match(spec):
                return mk(textfs.int_text(v.e, spec), "str")
        f = ufun(f"format[{spec}]:{v.kind}", v.e.sort(), z3.StringSort())
        I.E.note_assumed(f"format(x, {spec!r}) of a {v.kind} is an uninterpreted function")
        return Sv(f(v.e), "str", None, False, ("fmt", spec, v))
    if isinstance(v, (tuple, VList)):
        seq = list(v) if isinstance(v, tuple) else (v.items if v.concrete else None)
        if seq is not None:
            inner = []
            for i, x in enumerate(seq):
                if i:
                    inner.append(", ")
                inner.append(fmt_value(I, x, "!r"))
            op, cl = ("(", ",)" if len(seq) == 1 else ")") if isinstance(v, tuple) else ("[", "]")
            return str_concat([op] + inner + [cl])
    if isinstance(v, Obj):
        if isinstance(v.cls, str):
            m = MODELS.get(f"{v.cls}.__str__")
            if m:
                return m(I, v)
        else:
            r = I.find_member(v.cls, "__str__")
            if r:
                return I.call(r[1], [v])
    return I.E.fresh("str", "text")


@builtin("str")
def b_str(I, v=""):
    if isinstance(v, BExc):
        return v.args[0] if len(v.args) == 1 and kind(v.args[0]) == "str" else I.E.fresh("str", "text")
    return fmt_value(I, v, "")


@builtin("repr")
def b_repr(I, v):
    return fmt_value(I, v, "!r")


@builtin("format")
def b_format(I, v, spec=""):
    return fmt_value(I, v, spec)


def str_getitem(I, s, i):
    if isinstance(s, str) and not isinstance(i, Sv) and not (
            isinstance(i, SliceV) and any(isinstance(x, Sv) for x in (i.start, i.stop, i.step))):
        if isinstance(i, SliceV):
            return s[slice(i.start, i.stop, i.step)]
        try:
            return s[i]
        except IndexError:
            raise_py(IndexError, "string index out of range")
    if isinstance(i, SliceV):
        from .textfs import text_slice
        r = text_slice(s, i)
        if r is not None:
            return r
    n = mk(z3.simplify(z3.Length(ze(s))))
    if isinstance(i, SliceV):
        a, cnt, step = slice_bounds(I, i, n)
        if step != 1:
            raise Unsupported("string slice with a step")
        return mk(z3.simplify(z3.SubString(ze(s), ze(a), ze(cnt))), "str")
    i = norm_index(I, i, n, "string index out of range")
    return mk(z3.SubString(ze(s), ze(i), z3.IntVal(1)), "str")


def bytes_getattr(self, I, name):
    from .interp import Model
    if not hasattr(bytes, name):
        raise_py(AttributeError, name)
    if name == "decode":
        return Model(lambda I, *a: self.text, "bytes.decode")
    if name in ("startswith", "endswith", "strip"):
        g = str_method(I, self.text, name)
        return Model(lambda I, *a: wrap_bytes(I.call(g, [x.text if isinstance(x, VBytes) else x for x in a], {})), "bytes." + name)
    raise Unsupported(f"bytes.{name}")


V.VBytes.pyvc_getattr = bytes_getattr
VBytes = V.VBytes


def wrap_bytes(v):
    return VBytes(v) if kind(v) == "str" else v


def str_method(I, s, name):
    if not hasattr(str, name):
        raise_py(AttributeError, name)

    def f(I, *args, **kw):
        if name == "encode" and all(str(a).lower().replace("_", "-") in ("utf-8", "utf8") for a in args):
            return VBytes(s)
        if isinstance(s, str) and all(isinstance(a, (str, int)) or a is None for a in args) and not kw:
            r = getattr(s, name)(*args)
            return VList(r) if isinstance(r, list) else r
        if name == "format" and isinstance(s, str):
            import string
            parts, auto = [], 0
            for text, field, spec, conv in string.Formatter().parse(s):
                parts.append(text)
                if field is None:
                    continue
                if field == "":
                    v, auto = args[auto], auto + 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    raise Unsupported(f"str.format: field {field}")
                parts.append(fmt_value(I, v, "!r" if conv == "r" else spec or ""))
            return str_concat([x for x in parts if not (isinstance(x, str) and x == "")] or [""])
        if name == "join":
            seq = as_seq(I, args[0])
            n = seq.length()
            if isinstance(n, int):
                parts = []
                for i in range(n):
                    if i:
                        parts.append(s)
                    x = seq.get(i)
                    if kind(x) != "str":
                        raise_py(TypeError, "sequence item: expected str instance")
                    parts.append(x)
                return str_concat(parts)
            if isinstance(s, str) and s == "\n":
                from .textfs import Lines
                return Lines(seq, False)
            return SymText("join", s, seq)
        if name == "startswith":
            a = args[0]
            if isinstance(a, tuple):
                return mk(Or(*[z3.PrefixOf(ze(x), ze(s)) for x in a]), "bool")
            return mk(z3.simplify(z3.PrefixOf(ze(a), ze(s))), "bool")
        if name == "endswith":
            a = args[0]
            if isinstance(a, tuple):
                return mk(Or(*[z3.SuffixOf(ze(x), ze(s)) for x in a]), "bool")
            return mk(z3.simplify(z3.SuffixOf(ze(a), ze(s))), "bool")
        if name == "split" and args and isinstance(args[0], str) and len(args) == 1:
            from .textfs import text_split
            r = text_split(s, args[0])
            if r is not None:
                return r
        if name in ("strip", "lstrip", "rstrip"):
            from .textfs import text_strip
            r = text_strip(s, args[0] if args else None, name != "rstrip", name != "lstrip")
            if r is not None:
                return r
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize"):
            g = ufun(f"str.{name}" + ("" if not args else f"[{args}]"), z3.StringSort(), z3.StringSort())
            return mk(g(ze(s)), "str")
        if name in ("ljust", "rjust", "center", "zfill") and args and isinstance(args[0], int):
            g = ufun(f"str.{name}[{args}]", z3.StringSort(), z3.StringSort())
            return mk(g(ze(s)), "str")
        if name == "replace":
            r = ufun("str.replace_all", *[z3.StringSort()] * 4)
            return mk(r(ze(s), ze(args[0]), ze(args[1])), "str")
        if name in ("isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isnumeric", "isdecimal"):
            return mk(ufun("str." + name, z3.StringSort(), z3.BoolSort())(ze(s)), "bool")
        if name == "split":
            hook = getattr(I, "split_hook", None)
            if hook is not None:
                r = hook(I, s, *args)
                if r is not None:
                    return r
        raise Unsupported(f"str.{name} on a symbolic text")
    from .interp import Model
    return Model(f, f"str.{name}")


class SymText:
    """text of symbolic length made of an unknown number of pieces"""
    def __init__(self, how, sep, seq):
        self.how, self.sep, self.seq = how, sep, seq


# ------------------------------------------------------------------ attributes of values

def value_attr(I, o, name):
    from .interp import Model, BoundV
    if kind(o) == "str":
        return str_method(I, o, name)
    if isinstance(o, VList):
        ab = getattr(o, "methods", None)
        if ab is not None:
            # a list known by a contract of its operations only
            if name not in ab:
                raise Unsupported(f"method {name} of an abstract list")
            f = ab[name]
            return Model(lambda I, *a, **k: f(*a, **k), f"list.{name}")
        m = LISTM.get(name)
        if m:
            return Model(lambda I, *a, **k: m(I, o, *a, **k), f"list.{name}")
    if isinstance(o, (VDict, VMap)):
        m = DICTM.get(name)
        if m:
            return Model(lambda I, *a, **k: m(I, o, *a, **k), f"dict.{name}")
    if isinstance(o, VSet):
        m = SETM.get(name)
        if m:
            return Model(lambda I, *a, **k: m(I, o, *a, **k), f"set.{name}")
    if isinstance(o, Arr):
        if name in ARRP:
            return ARRP[name](I, o)
        m = ARRM.get(name)
        if m:
            return Model(lambda I, *a, **k: m(I, o, *a, **k), f"ndarray.{name}")
        raise Unsupported(f"ndarray.{name}")
    if ops.num(o):
        if name == "real":
            return o
        if name in ("item",):
            return Model(lambda I: o, name)
        if name == "astype":
            return Model(lambda I, d: arr_astype_scalar(I, o, d), name)
        if name in ("is_integer",):
            if kind(o) == "int":
                return Model(lambda I: True, name)
            return Model(lambda I: mk(z3.IsInt(ze(o, "real")), "bool"), name)
        if name in ("ndim",):
            return 0
        if name == "shape":
            return ()
    if isinstance(o, tuple):
        if name == "index":
            return Model(lambda I, x: LISTM["index"](I, VList(list(o)), x), name)
        if name == "count":
            return Model(lambda I, x: LISTM["count"](I, VList(list(o)), x), name)
    if isinstance(o, SliceV) and name in ("start", "stop", "step"):
        return getattr(o, name)
    if isinstance(o, RangeV) and name in ("start", "stop", "step"):
        return getattr(o, name)
    if o is None or is_scalar(o) or isinstance(o, (tuple, VList, VDict, VMap, VSet, SliceV, Model, BoundV)):
        pyt = {"str": str, "int": int, "real": float, "bool": bool}.get(kind(o)) or (
            type(None) if o is None else tuple if isinstance(o, tuple) else list if isinstance(o, VList)
            else dict if isinstance(o, (VDict, VMap)) else set if isinstance(o, VSet) else slice
            if isinstance(o, SliceV) else None)
        if pyt is not None and hasattr(pyt, name):
            raise Unsupported(f"{pyt.__name__}.{name}")
        raise_py(AttributeError, f"no attribute {name}")
    raise Unsupported(f"attribute {name} of {o!r}")


LISTM, DICTM, SETM, ARRM, ARRP = {}, {}, {}, {}, {}


def lm(d, name):
    def deco(f):
        d[name] = f
        return f
    return deco


@lm(LISTM, "append")
def l_append(I, l, v):
    l.append(v)


@lm(LISTM, "extend")
def l_extend(I, l, v):
    list_extend(I, l, v)


@lm(LISTM, "copy")
def l_copy(I, l):
    return VList(list(l.items)) if l.concrete else VList(n=l.n, get=l._get)


@lm(LISTM, "insert")
def l_insert(I, l, i, v):
    if not l.concrete or isinstance(i, Sv):
        raise Unsupported("list.insert")
    if l.log is not None:
        l.log.append(("other",))
    l.items.insert(i, v)


@lm(LISTM, "pop")
def l_pop(I, l, i=-1):
    if l.log is not None:
        l.log.append(("other",))
    if l.concrete and isinstance(i, int):
        try:
            return l.items.pop(i)
        except IndexError:
            raise_py(IndexError, "pop from empty list")
    n, g = l.length(), l._get
    if not I.E.branch(ze(n) > 0):
        raise_py(IndexError, "pop from empty list")
    if i == -1:
        v = g(ops.sub(n, 1))
        l.replace(ops.sub(n, 1), g)
        return v
    if i == 0:
        v = g(0)
        l.replace(ops.sub(n, 1), lambda j: g(ops.add(j, 1)))
        return v
    raise Unsupported("list.pop(i)")


@lm(LISTM, "index")
def l_index(I, l, x):
    if l.concrete:
        for j, y in enumerate(l.items):
            if I.truth(compare(I, "Eq", y, x)):
                return j
        raise_py(ValueError, "not in list")
    raise Unsupported("list.index")


@lm(LISTM, "count")
def l_count(I, l, x):
    if l.concrete:
        r = 0
        for y in l.items:
            r = ops.add(r, mk(z3.If(zb(compare(I, "Eq", y, x)), z3.IntVal(1), z3.IntVal(0))))
        return r
    raise Unsupported("list.count")


@lm(LISTM, "remove")
def l_remove(I, l, x):
    if l.concrete:
        if l.log is not None:
            l.log.append(("other",))
        for j, y in enumerate(l.items):
            if I.truth(compare(I, "Eq", y, x)):
                del l.items[j]
                return
        raise_py(ValueError, "list.remove(x): x not in list")
    if l.log is not None:
        l.log.append(("other",))
    E = I.E
    n, g = l.n, l._get
    i = z3.Int(E.fresh_name("i!remove"))
    same = lambda q: zb(compare(I, "Eq", g(Sv(q, "int")), x))
    none = z3.ForAll([i], z3.Implies(And(i >= 0, i < ze(n)), Not(same(i))))
    p = E.fresh("int", "removed")
    if E.choose(2) == 1:
        E.assume(none)
        raise_py(ValueError, "list.remove(x): x not in list")
    E.assume(And(ze(p) >= 0, ze(p) < ze(n), same(ze(p))))
    E.assume(z3.ForAll([i], z3.Implies(And(i >= 0, i < ze(p)), Not(same(i)))))
    l.replace(ops.sub(n, 1), lambda q: g(mk(z3.If(ze(q) < ze(p), ze(q), ze(q) + 1), "int")))
    l.facts = {"removed": p}


@lm(LISTM, "reverse")
def l_reverse(I, l):
    if l.log is not None:
        l.log.append(("other",))
    if l.concrete:
        l.items.reverse()
        return
    n, g = l.n, l._get
    l._get = lambda i: g(ops.sub(ops.sub(n, 1), i))


@lm(LISTM, "clear")
def l_clear(I, l):
    if l.log is not None:
        l.log.append(("other",))
    l.items = []


@lm(LISTM, "sort")
def l_sort(I, l, key=None, reverse=False):
    if l.log is not None:
        l.log.append(("other",))
    if l.concrete:
        l.items = BUILTINS["sorted"](I, l, key=key, reverse=reverse).items
        return
    raise Unsupported("list.sort")


@lm(DICTM, "keys")
def d_keys(I, d):
    if isinstance(d, VMap) and d.order is None:
        return d
    return as_seq(I, d)


@lm(DICTM, "values")
def d_values(I, d):
    if isinstance(d, VDict):
        return VList(list(d.d.values()))
    s = as_seq(I, d)
    return VList(n=s.n, get=lambda i: d.get(s.get(i)))


@lm(DICTM, "items")
def d_items(I, d):
    if isinstance(d, VDict):
        return VList([(k, v) for k, v in d.d.items()])
    s = as_seq(I, d)
    return VList(n=s.n, get=lambda i: (s.get(i), d.get(s.get(i))))


@lm(DICTM, "get")
def d_get(I, d, k, default=None):
    if I.truth(contains(I, k, d)):
        return getitem(I, d, k)
    return default


@lm(DICTM, "pop")
def d_pop(I, d, k, *default):
    if I.truth(contains(I, k, d)):
        v = getitem(I, d, k)
        delitem(I, d, k)
        return v
    if default:
        return default[0]
    raise PyRaise(BExc(KeyError, (k,)))


@lm(DICTM, "setdefault")
def d_setdefault(I, d, k, default=None):
    if not I.truth(contains(I, k, d)):
        setitem(I, d, k, default)
    return getitem(I, d, k)


@lm(DICTM, "update")
def d_update(I, d, other=None, **kw):
    if other is not None:
        if not isinstance(other, VDict):
            raise Unsupported("dict.update with a symbolic dictionary")
        for k, v in other.d.items():
            setitem(I, d, k, v)
    for k, v in kw.items():
        setitem(I, d, k, v)


@lm(DICTM, "copy")
def d_copy(I, d):
    return VDict(d.d) if isinstance(d, VDict) else VMap(d.keyk, d.has_, d.get_, d.order)


@lm(DICTM, "clear")
def d_clear(I, d):
    if isinstance(d, VDict):
        d.d.clear()
        return
    raise Unsupported("dict.clear")


@lm(DICTM, "popitem")
def d_popitem(I, d, last=True):
    if isinstance(d, VDict):
        if not d.d:
            raise_py(KeyError, "popitem(): dictionary is empty")
        k = list(d.d)[-1 if last else 0]
        return (k, d.d.pop(k))
    raise Unsupported("popitem of a symbolic dictionary")


def make_set(I, items):
    out = []
    for x in items:
        if not hashable(x):
            dup = Or(*[zb(compare(I, "Eq", x, y)) for y in out])
            if I.E.branch(dup):
                continue
        else:
            skip = False
            for y in out:
                c = compare(I, "Eq", x, y)
                if I.truth(c):
                    skip = True
                    break
            if skip:
                continue
        out.append(x)
    return VSet(out)


@builtin("set")
def b_set(I, v=()):
    s = as_seq(I, v)
    if isinstance(s.length(), int):
        return make_set(I, [s.get(i) for i in range(s.length())])
    return VSet(None, lambda x: zb(contains(I, x, s)))


BUILTINS["frozenset"] = b_set


@lm(SETM, "add")
def s_add(I, s, x):
    if s.items is None:
        h = s.has
        s.has = lambda q: Or(zb(compare(I, "Eq", q, x)), h(q))
        return
    if not I.truth(contains(I, x, s)):
        s.items.append(x)


@lm(SETM, "update")
def s_update(I, s, other):
    for x in I.concrete_items(other):
        s_add(I, s, x)


@lm(SETM, "intersection")
def s_inter(I, s, other):
    return VSet([x for x in s.items if I.truth(contains(I, x, other))])


@lm(SETM, "issubset")
def s_issub(I, s, other):
    return conj(I, [contains(I, x, other) for x in s.items])


@lm(SETM, "discard")
def s_discard(I, s, x):
    s.items = [y for y in s.items if not I.truth(compare(I, "Eq", x, y))]


# ------------------------------------------------------------------ builtins

@builtin("len")
def b_len(I, v):
    if isinstance(v, VList):
        return v.length()
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, VDict):
        return len(v.d)
    if isinstance(v, VSet) and v.items is not None:
        return len(v.items)
    if isinstance(v, RangeV):
        return range_len(I, v)
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise_py(TypeError, "len() of unsized object")
        return v.shape[0]
    if isinstance(v, VMap) and v.order is not None:
        return v.order[0]
    if kind(v) == "str":
        return mk(z3.Length(ze(v)), "int")
    if isinstance(v, Obj):
        if isinstance(v.cls, str):
            m = special(v, "__len__")
            if m:
                return m(I, v)
            raise_py(TypeError, f"object of type '{v.cls}' has no len()")
        return I.call(I.getattr(v, "__len__"), [])
    if hasattr(v, "pyvc_len"):
        return v.pyvc_len(I)
    if v is None or is_scalar(v):
        raise_py(TypeError, "object has no len()")
    raise Unsupported(f"len of {v!r}")


@builtin("range")
def b_range(I, *a):
    for x in a:
        if kind(x) not in ("int", "bool"):
            raise_py(TypeError, "range() arguments must be integers")
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    if len(a) == 2:
        return RangeV(a[0], a[1], 1)
    return RangeV(*a)


@builtin("enumerate")
def b_enumerate(I, v, start=0):
    s = as_seq(I, v)
    if isinstance(s.length(), int):
        return VList([(ops.add(start, i), s.get(i)) for i in range(s.length())])
    return VList(n=s.length(), get=lambda i, g=s.get: (ops.add(start, i), g(i)))


@builtin("zip")
def b_zip(I, *vs, strict=False):
    ss = [as_seq(I, v) for v in vs]
    ns = [s.length() for s in ss]
    if all(isinstance(n, int) for n in ns):
        return VList([tuple(s.get(i) for s in ss) for i in range(min(ns))])
    n = ns[0]
    for m in ns[1:]:
        n = ite(I, ops.compare("<=", n, m), n, m)
    gs = [s.get for s in ss]
    return VList(n=n, get=lambda i: tuple(g(i) for g in gs))


@builtin("reversed")
def b_reversed(I, v):
    s = as_seq(I, v)
    n = s.length()
    if isinstance(n, int):
        return VList([s.get(i) for i in reversed(range(n))])
    return VList(n=n, get=lambda i, g=s.get: g(ops.sub(ops.sub(n, 1), i)))


@builtin("list")
def b_list(I, v=()):
    s = as_seq(I, v)
    if s.concrete:
        return VList(list(s.items))
    r = VList(n=s.n, get=s._get)
    r.facts = s.facts
    return r


@builtin("tuple")
def b_tuple(I, v=()):
    s = as_seq(I, v)
    n = s.length()
    if isinstance(n, int):
        return tuple(s.get(i) for i in range(n))
    return VList(n=n, get=s.get)


def dict_of_pairs(I, seq):
    """dictionary of a sequence of pairs of symbolic length: membership only"""
    n = seq.length()
    j = z3.Int(I.E.fresh_name("j!dict"))
    k, _ = I.unpack(seq.get(Sv(j, "int")), 2)
    kd = kind(k)
    if kd is None:
        raise Unsupported("dictionary with keys which are not scalars")
    def has(q):
        return mk(z3.Exists([j], And(j >= 0, j < ze(n), ze(k) == ze(q, kd))), "bool")
    def get(q):
        raise Unsupported("item of a dictionary made of a symbolic number of pairs")
    m = VMap(kd, has, get)
    m.pairs = seq
    return m


@builtin("dict")
def b_dict(I, v=None, **kw):
    d = VDict()
    if v is not None:
        if isinstance(v, VMap):
            d = VMap(v.keyk, v.has_, v.get_, v.order)
        elif isinstance(v, VDict):
            d.d.update(v.d)
        else:
            seq = as_seq(I, v)
            if not seq.concrete and not isinstance(seq.length(), int) and not kw:
                return dict_of_pairs(I, seq)
            for it in I.concrete_items(v):
                k, x = I.unpack(it, 2)
                setitem(I, d, k, x)
    for k, x in kw.items():
        setitem(I, d, k, x)
    return d


@builtin("iter")
def b_iter(I, v):
    return as_seq(I, v)


@builtin("next")
def b_next(I, v, *default):
    if isinstance(v, VList):
        n = v.length()
        if I.truth(ops.compare(">", n, 0)):
            return LISTM["pop"](I, v, 0)
        if default:
            return default[0]
        raise_py(StopIteration)
    raise Unsupported("next")


@builtin("isinstance")
def b_isinstance(I, v, c):
    return I.isinstance(v, c)


@builtin("issubclass")
def b_issubclass(I, c, d):
    return any(x is d or x == d for x in I.mro(c))


@builtin("hasattr")
def b_hasattr(I, o, name):
    return I.hasattr(o, name)


@builtin("getattr")
def b_getattr(I, o, name, *default):
    if not isinstance(name, str):
        raise Unsupported("getattr with a symbolic name")
    if default:
        try:
            return I.getattr(o, name)
        except PyRaise as e:
            if isinstance(e.exc, BExc) and issubclass(e.exc.cls, AttributeError):
                return default[0]
            raise
    return I.getattr(o, name)


@builtin("setattr")
def b_setattr(I, o, name, v):
    I.setattr(o, name, v)


@builtin("callable")
def b_callable(I, v):
    from .interp import Model, BoundV
    from .source import FuncV, ClassV
    return isinstance(v, (Model, BoundV, FuncV, ClassV, ExtRef, type))


@builtin("id")
def b_id(I, v):
    return id(v)


@builtin("type")
def b_type(I, v):
    return I.type_of(v)


@builtin("abs")
def b_abs(I, v):
    if isinstance(v, Arr):
        if v.kind == "obj":
            g = v.getter()
            return new_arr(v.shape, lambda i: b_abs(I, g(i)), "real")
        return elementwise1(I, ops.absv, v)
    if isinstance(v, Sv) and v.kind == "obj":     # a complex number: its modulus
        return Sv(z3.Function("modulus", v.e.sort(), z3.RealSort())(v.e), "real", None, True)
    if not ops.num(v):
        raise_py(TypeError, "bad operand type for abs()")
    return ops.absv(v)


@builtin("int")
def b_int(I, v=0, *a):
    if not (ops.num(v) or kind(v) == "str"):
        if isinstance(v, Arr) and v.ndim == 0:
            return ops.trunc(v.at(()))
        raise_py(TypeError, "int() argument must be a string or a number")
    if isinstance(v, Sv) and v.np:
        v = Sv(v.e, v.kind, v.nan)
    return ops.trunc(v)


@builtin("float")
def b_float(I, v=0):
    if kind(v) == "str":
        if isinstance(v, str):
            if v in ("inf", "-inf"):
                return float(v)
            if v == "nan":
                return NAN
            try:
                return Fraction(v.strip())
            except ValueError:
                raise_py(ValueError, "could not convert string to float")
        if not I.E.branch(ops.ISFLOAT(v.e)):
            raise_py(ValueError, "could not convert string to float")
        return mk(ops.PARSEFLOAT(v.e), "real")
    if isinstance(v, float):
        return v
    if not ops.num(v):
        raise_py(TypeError, "float() argument")
    if not isinstance(v, Sv):
        return Fraction(v)
    return mk(ze(v, "real"), "real", v.nan)


@builtin("bool")
def b_bool(I, v=False):
    if isinstance(v, Sv):
        return mk(ops.truth_term(v), "bool")
    return I.truth(v)


@builtin("divmod")
def b_divmod(I, a, b):
    q = ops.floordiv(a, b)
    return (q, ops.mod(a, b))


@builtin("round")
def b_round(I, v, nd=None):
    if nd is not None:
        raise Unsupported("round to decimals")
    return np_round_scalar(v, to_int=True)


def np_round_scalar(v, to_int=False):
    """round half to even"""
    if not isinstance(v, Sv):
        r = round(Fraction(v))
        return r if to_int else Fraction(r)
    if v.kind == "int":
        return v
    e = v.e
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    half = z3.Q(1, 2)
    r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    if to_int:
        return mk(r, "int")
    return mk(z3.ToReal(r), "real", v.nan, v.np)


@builtin("min")
def b_min(I, *a, key=None, default=None):
    return extremum(I, a, True, key, default)


@builtin("max")
def b_max(I, *a, key=None, default=None):
    return extremum(I, a, False, key, default)


def extremum(I, a, want_min, key, default):
    if len(a) == 1:
        s = as_seq(I, a[0])
        n = s.length()
        if not isinstance(n, int):
            return seq_extremum(I, s, want_min)
        a = [s.get(i) for i in range(n)]
        if not a:
            if default is not None:
                return default
            raise_py(ValueError, "min()/max() of an empty sequence")
    r = a[0]
    for x in a[1:]:
        if key is None and ops.num(x) and ops.num(r) and not isinstance(x, float) and not isinstance(r, float):
            r = ops.minmax(r, x, want_min)
        else:
            kx, kr = (x, r) if key is None else (I.call(key, [x]), I.call(key, [r]))
            c = compare(I, "Lt" if want_min else "Gt", kx, kr)
            r = x if I.truth(c) else r
    return r


def seq_extremum(I, s, want_min):
    E = I.E
    n = s.length()
    if not E.branch(ze(n) > 0):
        raise_py(ValueError, "min()/max() of an empty sequence")
    j = z3.Int(E.fresh_name("j!ext"))
    v = s.get(Sv(j, "int"))
    if not ops.num(v):
        raise Unsupported("extremum of non numbers")
    m = E.fresh(kind(v), "extremum")
    w = E.fresh("int", "witness")
    E.assume(z3.ForAll([j], Implies(And(j >= 0, j < ze(n)),
                                    And(Not(nanof(v)), (m.e <= ze(v, m.kind)) if want_min else (m.e >= ze(v, m.kind))))))
    E.assume(And(w.e >= 0, w.e < ze(n), ze(s.get(w), m.kind) == m.e))
    return m


@builtin("sum")
def b_sum(I, v, start=0):
    s = as_seq(I, v)
    n = s.length()
    if isinstance(n, int):
        r = start
        for i in range(n):
            r = binop(I, "Add", r, s.get(i))
        return r
    j = Sv(z3.Int(I.E.fresh_name("j!sum")), "int")
    x = s.get(j)
    if not ops.num(x):
        raise Unsupported("sum of non numbers")
    if has_nan(x):
        raise Unsupported("sum with nan")
    r = sums.sum_val(I.E, n, s.get, kind(x) == "real")
    return ops.add(start, r)


def quant(I, v, forall):
    s = as_seq(I, v)
    n = s.length()
    if isinstance(n, int):
        rs = []
        for i in range(n):
            x = s.get(i)
            if isinstance(x, Sv):
                rs.append(ops.truth_term(x))
            else:
                t = I.truth(x)
                if t != forall:
                    return not forall
        return mk(z3.simplify((And if forall else Or)(*rs)), "bool")
    j = z3.Int(I.E.fresh_name("j!all"))
    x = s.get(Sv(j, "int"))
    t = ops.truth_term(x) if isinstance(x, Sv) else z3.BoolVal(I.truth(x))
    rng = And(j >= 0, j < ze(n))
    if forall:
        return mk(z3.ForAll([j], Implies(rng, t)), "bool")
    return mk(z3.Exists([j], And(rng, t)), "bool")


@builtin("all")
def b_all(I, v):
    return quant(I, v, True)


@builtin("any")
def b_any(I, v):
    return quant(I, v, False)


@builtin("map")
def b_map(I, f, *vs):
    if len(vs) != 1:
        ss = [as_seq(I, v) for v in vs]
        n = min(s.length() for s in ss)
        return VList([I.call(f, [s.get(i) for s in ss]) for i in range(n)])
    s = as_seq(I, vs[0])
    n = s.length()
    if isinstance(n, int):
        return VList([I.call(f, [s.get(i)]) for i in range(n)])
    from . import loops
    return loops.map_seq(I, s, lambda x: I.call(f, [x]))


@builtin("filter")
def b_filter(I, f, v):
    items = I.concrete_items(v)
    return VList([x for x in items if I.truth(I.call(f, [x]) if f is not None else x)])


@builtin("sorted")
def b_sorted(I, v, key=None, reverse=False):
    if getattr(v, "any_order", False):
        # the items are in an arbitrary order: this one, whatever it is
        return VList(n=v.length(), get=v.get)
    s = as_seq(I, v)
    n = s.length()
    if not isinstance(n, int):
        hook = getattr(I, "sorted_hook", None)
        if hook:
            return hook(I, s, key, reverse)
        raise Unsupported("sorted of a symbolic sequence")
    out = []
    for i in range(n):
        x = s.get(i)
        kx = x if key is None else I.call(key, [x])
        p = len(out)
        # stable insertion
        while p > 0:
            c = compare(I, "Gt" if reverse else "Lt", kx, out[p - 1][0])
            if not I.truth(c):
                break
            p -= 1
        out.insert(p, (kx, x))
    return VList([x for _, x in out])


@builtin("open")
def b_open(I, *a, **k):
    m = MODELS.get("builtins.open")
    if m is None:
        raise Unsupported("open")
    return m(I, *a, **k)


@builtin("print")
def b_print(I, *a, **k):
    return None


@builtin("slice")
def b_slice(I, *a):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    if len(a) == 2:
        return SliceV(a[0], a[1], None)
    return SliceV(*a)


@builtin("input")
def b_input(I, *a):
    m = MODELS.get("builtins.input")
    if m is None:
        raise Unsupported("input")
    return m(I, *a)


@builtin("object")
def b_object(I):
    return Obj("object")


@builtin("chr")
def b_chr(I, v):
    return chr(v)


@builtin("ord")
def b_ord(I, v):
    return ord(v)


@model("copy.deepcopy", "copy.copy")
def m_deepcopy(I, v, memo=None):
    from .values import clone
    return clone(v, {})


@model("copy.copy")
def m_copy(I, v):
    if isinstance(v, Obj):
        return Obj(v.cls, v.attrs)
    if isinstance(v, Arr):
        return ARRM["copy"](I, v)
    if isinstance(v, VList):
        return LISTM["copy"](I, v)
    if isinstance(v, (VDict, VMap)):
        return DICTM["copy"](I, v)
    return v


@model("math.sqrt")
def m_sqrt(I, v):
    if isinstance(v, Sv) and v.np:
        v = Sv(v.e, v.kind, v.nan)
    return ops.sqrt(v)


@model("math.floor")
def m_floor(I, v):
    if not isinstance(v, Sv):
        return math.floor(Fraction(v))
    return v if v.kind == "int" else mk(z3.ToInt(v.e), "int")


@model("math.ceil")
def m_ceil(I, v):
    if not isinstance(v, Sv):
        return math.ceil(Fraction(v))
    return v if v.kind == "int" else mk(-z3.ToInt(-v.e), "int")


def realfun(name):
    def f(I, v):
        if isinstance(v, Arr):
            return elementwise1(I, lambda x: f(I, x), v, "real")
        if not isinstance(v, Sv):
            v = Sv(ze(Fraction(v)), "real")
        g = ufun(name + "_", z3.RealSort(), z3.RealSort())
        return mk(g(ze(v, "real")), "real", v.nan, v.np)
    return f


for _n in ("log", "exp", "cos", "sin", "tan", "arctan", "arccos", "arcsin", "log10"):
    MODELS["numpy." + _n] = realfun(_n)
    MODELS["math." + _n] = realfun(_n)
MODELS["=math.pi"] = lambda: Sv(z3.Real("pi"), "real")
MODELS["=numpy.pi"] = lambda: Sv(z3.Real("pi"), "real")
MODELS["=numpy.nan"] = NAN
MODELS["=math.nan"] = NAN
MODELS["=numpy.inf"] = float("inf")
MODELS["=math.inf"] = float("inf")
MODELS["=numpy.newaxis"] = None


@model("functools.partial")
def m_partial(I, f, *a, **k):
    from .interp import Model
    return Model(lambda I, *b, **kk: I.call(f, list(a) + list(b), {**k, **kk}), "partial")


@model("numpy.errstate", "contextlib.suppress", "contextlib.nullcontext", "warnings.catch_warnings")
def m_null_cm(I, *a, **k):
    return "nullcontext"


@model("warnings.simplefilter", "warnings.filterwarnings", "warnings.warn", "numpy.seterr")
def m_nop(I, *a, **k):
    return None


@model("time.time", "time.perf_counter")
def m_time(I):
    return I.E.fresh("real", "clock")


# ------------------------------------------------------------------ arrays
from .npmodel import (elementwise, elementwise1, arr_getitem, arr_setitem, arr_unary,  # noqa: E402
                      arr_astype_scalar)


for _n in ("debug", "info", "warning", "error", "critical"):
    @model("logging." + _n)
    def logging_any(I, *a, **k):
        return None


@model("logging.getLogger")
def logging_getLogger(I, *a):
    I.E.note_assumed("messages of loggers have no effect; debug logging is disabled")
    return Obj("Logger", {})


@model("Logger.info", "Logger.debug", "Logger.warning", "Logger.error", "Logger.exception", "Logger.setLevel",
       "Logger.addHandler", "Logger.removeHandler", "Logger.critical")
def logger_any(I, *a, **k):
    return None


@model("Logger.isEnabledFor")
def logger_enabled(I, lg, level):
    return False


@model("sys.exit", "builtins.exit", "builtins.quit")
def m_exit(I, *a):
    raise_py(SystemExit, *a)
