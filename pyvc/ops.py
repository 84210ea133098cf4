"""Scalar operations with Python semantics, over concrete and symbolic values."""
import z3
from . import nonlin
from fractions import Fraction
from .core import (Sv, Unsupported, mk, ze, zb, And, Or, Not, kind, is_scalar, nanof, has_nan,
                   truth_term, is_num)


class PyRaise(Exception):
    """A Python exception raised by the interpreted code; `exc` is the exception value."""
    def __init__(self, exc):
        self.exc = exc


E = [None]          # current engine


class BExc:
    """instance of a builtin exception class"""
    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = tuple(args)
        self.attrs = {}

    def __repr__(self):
        return f"{self.cls.__name__}{self.args}"


def raise_py(cls, *args):
    raise PyRaise(BExc(cls, args))


def isnp(*vs):
    return any(isinstance(v, Sv) and v.np for v in vs)


def nan2(a, b):
    if has_nan(a) or has_nan(b):
        return z3.simplify(Or(nanof(a), nanof(b)))
    return None


def common(a, b):
    ka, kb = kind(a), kind(b)
    if "real" in (ka, kb):
        return "real"
    return "int"


def num(v):
    return kind(v) in ("int", "real", "bool")


def sfold(e):
    return z3.simplify(e)


def neg(a):
    if isinstance(a, Sv):
        k = "int" if a.kind == "bool" else a.kind
        return mk(sfold(-ze(a, k)), k, a.nan, a.np)
    return -a


def as_frac(v):
    if isinstance(v, float):
        return Fraction(v)
    return v


def arith(op, a, b):
    """+ - * on numbers"""
    if not isinstance(a, Sv) and not isinstance(b, Sv):
        a, b = as_frac(a), as_frac(b)
        r = a + b if op == "+" else a - b if op == "-" else a * b
        return r
    k = common(a, b)
    x, y = ze(a, k), ze(b, k)
    e = x + y if op == "+" else x - y if op == "-" else x * y
    return mk(sfold(e), k, nan2(a, b), isnp(a, b))


def add(a, b):
    if kind(a) == "str" and kind(b) == "str":
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if b == "" if isinstance(b, str) else False:
            return a
        if a == "" if isinstance(a, str) else False:
            return b
        return mk(z3.Concat(ze(a), ze(b)), "str")
    return arith("+", a, b)


def sub(a, b):
    return arith("-", a, b)


def mul(a, b):
    return arith("*", a, b)


def nonzero_divisor(b, what):
    """fork on a zero divisor; numpy scalars do not raise (value outside of the model)"""
    if not isinstance(b, Sv):
        if b == 0:
            raise_py(ZeroDivisionError, what)
        return
    z = ze(b) == 0
    if has_nan(b):
        z = And(Not(nanof(b)), z)
    if E[0].branch(z):
        if b.np:
            from .core import PathEnd
            E[0].note_assumed("numpy division by zero (inf or nan) is outside of the model: such "
                              "paths are not covered by the proof")
            raise PathEnd()
        raise_py(ZeroDivisionError, what)


def truediv(a, b):
    nonzero_divisor(b, "division by zero")
    if not isinstance(a, Sv) and not isinstance(b, Sv):
        return Fraction(a) / Fraction(b)
    return mk(sfold(ze(a, "real") / ze(b, "real")), "real", nan2(a, b), isnp(a, b))


def floordiv(a, b):
    nonzero_divisor(b, "integer division or modulo by zero")
    if not isinstance(a, Sv) and not isinstance(b, Sv):
        a, b = as_frac(a), as_frac(b)
        r = a // b
        return r if kind(a) != "real" and kind(b) != "real" else Fraction(r)
    if common(a, b) == "real":
        q = ze(a, "real") / ze(b, "real")
        return mk(z3.ToReal(z3.ToInt(q)), "real", nan2(a, b), isnp(a, b))
    x, y = ze(a, "int"), ze(b, "int")
    if not isinstance(b, Sv):
        if b > 0:
            q, r = nonlin.split_const(x, b)
            return mk(sfold(q + r / y), "int", None, isnp(a, b))
        return mk(sfold((-x) / (-y)), "int", None, isnp(a, b))
    if E[0].valid(y > 0):
        return mk(sfold(x / y), "int", None, isnp(a, b))
    if E[0].valid(y < 0):
        return mk(sfold((-x) / (-y)), "int", None, isnp(a, b))
    return mk(sfold(z3.If(y > 0, x / y, (-x) / (-y))), "int", None, isnp(a, b))


def mod(a, b):
    if isinstance(a, str):
        raise Unsupported("% formatting")
    if not isinstance(a, Sv) and not isinstance(b, Sv):
        nonzero_divisor(b, "integer division or modulo by zero")
        return as_frac(a) % as_frac(b)
    q = floordiv(a, b)
    if common(a, b) == "real":
        return sub(a, mul(q, b))
    x, y = ze(a, "int"), ze(b, "int")
    if not isinstance(b, Sv) and b > 0:
        return mk(sfold(nonlin.split_const(x, b)[1] % y), "int", None, isnp(a, b))
    if isinstance(b, Sv) and E[0].valid(y > 0):
        return mk(sfold(x % y), "int", None, isnp(a, b))
    return sub(a, mul(q, b))


def power(a, b):
    if not isinstance(a, Sv) and not isinstance(b, Sv):
        r = as_frac(a) ** as_frac(b)
        if isinstance(r, float):
            raise Unsupported("irrational power")
        return r
    if isinstance(b, (int, Fraction)) and b == int(b) and 0 <= b <= 8:
        r = None
        for _ in range(int(b)):
            r = a if r is None else mul(r, a)
        if r is None:
            return 1 if kind(a) != "real" else Fraction(1)
        if isinstance(b, Fraction) and kind(r) != "real":
            return mk(ze(r, "real"), "real", None, isnp(r))
        return r
    if isinstance(b, (int, Fraction)) and b == int(b) and b < 0:
        return truediv(1, power(a, -b))
    raise Unsupported(f"power {a!r} ** {b!r}")


def absv(a):
    if not isinstance(a, Sv):
        return abs(a)
    k = "int" if a.kind == "bool" else a.kind
    e = ze(a, k)
    return mk(sfold(z3.If(e >= 0, e, -e)), k, a.nan, a.np)


def minmax(a, b, want_min):
    """two-argument min/max of numbers (Python semantics: the first one is kept on ties)"""
    if not isinstance(a, Sv) and not isinstance(b, Sv):
        return min(a, b) if want_min else max(a, b)
    k = common(a, b)
    x, y = ze(a, k), ze(b, k)
    c = (y < x) if want_min else (y > x)
    if has_nan(a) or has_nan(b):
        # comparison with nan is false: the first argument is kept
        c = And(Not(nanof(a)), Not(nanof(b)), c)
        return mk(sfold(z3.If(c, y, x)), k, sfold(z3.If(c, nanof(b), nanof(a))), isnp(a, b))
    return mk(sfold(z3.If(c, y, x)), k, None, isnp(a, b))


def trunc(a):
    """int(x)"""
    if not isinstance(a, Sv):
        if isinstance(a, str):
            try:
                return int(a)
            except ValueError as e:
                raise_py(ValueError, str(e))
        return int(a)
    if a.kind in ("int", "bool"):
        return mk(ze(a, "int"), "int")
    if a.kind == "real":
        if has_nan(a) and E[0].branch(nanof(a)):
            raise_py(ValueError, "cannot convert float NaN to integer")
        e = a.e
        return mk(sfold(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))), "int")
    if a.kind == "str":
        from .textfs import is_int_atom, text_strip
        st = text_strip(a, None)
        if st is not None:
            a = st
            if not isinstance(a, Sv):
                return trunc(a)
        if is_int_atom(a.e) and (a.e.decl().name() == "str_of_int" or E[0].valid(a.e.arg(0) >= 0)):
            return mk(a.e.arg(0), "int")
        ok = ISINT(a.e)
        if not E[0].branch(ok):
            raise_py(ValueError, "invalid literal for int()")
        return mk(PARSEINT(a.e), "int")
    raise Unsupported(f"int({a!r})")


ISINT = z3.Function("is_int_literal", z3.StringSort(), z3.BoolSort())
PARSEINT = z3.Function("parse_int", z3.StringSort(), z3.IntSort())
ISFLOAT = z3.Function("is_float_literal", z3.StringSort(), z3.BoolSort())
PARSEFLOAT = z3.Function("parse_float", z3.StringSort(), z3.RealSort())


def compare(op, a, b):
    """op in == != < <= > >= on scalars; returns bool or Sv bool"""
    if not isinstance(a, Sv) and not isinstance(b, Sv):
        a, b = as_frac(a), as_frac(b)
        if op == "==":
            return a == b
        if op == "!=":
            return a != b
        try:
            return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
                    ">=": lambda: a >= b}[op]()
        except TypeError as e:
            raise_py(TypeError, str(e))
    ka, kb = kind(a), kind(b)
    if num(a) and num(b):
        if ka == kb == "bool":
            k = "bool" if op in ("==", "!=") else "int"
        else:
            k = common(a, b)
        x, y = ze(a, k), ze(b, k)
        e = compare_root(op, x, y)
        if e is None:
            e = {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y,
                 ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        n = nan2(a, b)
        if n is not None:
            e = Or(n, e) if op == "!=" else And(Not(n), e)
        return mk(sfold(e), "bool", None, False)
    if ka == kb and op in ("==", "!="):
        e = ze(a) == ze(b)
        return mk(sfold(e if op == "==" else Not(e)), "bool")
    if ka == kb == "str":
        x, y = ze(a), ze(b)
        e = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: y < x, ">=": lambda: y <= x}[op]()
        return mk(sfold(e), "bool")
    if op == "==":
        return False
    if op == "!=":
        return True
    raise_py(TypeError, f"comparison of {ka} and {kb}")


def compare_root(op, x, y):
    """sqrt(t) op y without the root (the root of a negative number is nan or an error)"""
    def root(t):
        return z3.is_app(t) and t.num_args() == 1 and t.decl().eq(SQRT)
    if root(x) and root(y):
        x, y = x.arg(0), y.arg(0)
        return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
    if root(y):
        x, y, op = y, x, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
    if not root(x):
        return None
    t, q = x.arg(0), z3.simplify(y * y)
    return {"==": z3.And(y >= 0, t == q), "!=": z3.Or(y < 0, t != q), "<": z3.And(y > 0, t < q),
            "<=": z3.And(y >= 0, t <= q), ">": z3.Or(y < 0, t > q), ">=": z3.Or(y <= 0, t >= q)}[op]


def isnan(a):
    if has_nan(a):
        return mk(z3.simplify(nanof(a)), "bool")
    return False


_UF = {}


def ufun(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _UF:
        _UF[key] = z3.Function(name, *sorts)
    return _UF[key]


R, I, B, S = z3.RealSort(), z3.IntSort(), z3.BoolSort(), z3.StringSort()
SQRT = ufun("sqrt_", R, R)


def sqrt(a, npf=False):
    """square root of a non-negative real (s*s == a, s >= 0), nan for negative numpy numbers"""
    if not isinstance(a, Sv):
        f = Fraction(a)
        if f < 0:
            if npf:
                from .core import NAN
                return NAN
            raise_py(ValueError, "math domain error")
        import math
        rn, rd = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if rn * rn == f.numerator and rd * rd == f.denominator:
            return Fraction(rn, rd)
        a = Sv(ze(f), "real")
    x = ze(a, "real")
    s = SQRT(x)
    nn = nanof(a)
    if npf or a.np:
        n = z3.simplify(Or(nn, x < 0))
        return mk(s, "real", n, True)
    from . import sums
    if sums.quick(E[0], list(E[0].pc) + sums.nonneg_facts(x) + square_facts(x), Or(nn, x >= 0), 0):
        return mk(s, "real", a.nan, False)
    if E[0].branch(And(Not(nn), x < 0)):
        raise_py(ValueError, "math domain error")
    return mk(s, "real", a.nan, False)


def square_facts(x):
    """facts of arithmetic about the sign of a product, of a sum and of their squares"""
    out = []
    def walk(t):
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_TO_REAL:
            walk(t.arg(0))
        if k == z3.Z3_OP_ADD:
            for c in t.children():
                walk(c)
            out.append(z3.Implies(z3.And(*[c >= 0 for c in t.children()]), t >= 0))
        elif k == z3.Z3_OP_MUL and t.num_args() == 2 and t.arg(0).eq(t.arg(1)):
            out.append(t >= 0)
        elif k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction() == 2:
            out.append(t >= 0)
        elif k == z3.Z3_OP_MUL:
            for c in t.children():
                walk(c)
            out.append(z3.Implies(z3.And(*[c >= 0 for c in t.children()]), t >= 0))
    walk(x)
    return out


# operators on symbolic scalars, so that contracts can be written naturally
def _op(f):
    return lambda a, b: f(a, b)


def _rop(f):
    return lambda a, b: f(b, a)


Sv.__add__, Sv.__radd__ = _op(add), _rop(add)
Sv.__sub__, Sv.__rsub__ = _op(sub), _rop(sub)
Sv.__mul__, Sv.__rmul__ = _op(mul), _rop(mul)
Sv.__neg__ = neg


def _q(op):
    return lambda a, b: compare(op, a, b)


Sv.__lt__, Sv.__le__, Sv.__gt__, Sv.__ge__ = _q("<"), _q("<="), _q(">"), _q(">=")
Sv.__eq__, Sv.__ne__ = _q("=="), _q("!=")
Sv.__floordiv__, Sv.__rfloordiv__ = _op(floordiv), _rop(floordiv)
Sv.__mod__ = _op(mod)
Sv.__truediv__, Sv.__rtruediv__ = _op(truediv), _rop(truediv)
Sv.__and__ = lambda a, b: mk(And(a, b), "bool")
Sv.__or__ = lambda a, b: mk(Or(a, b), "bool")
Sv.__rand__ = lambda a, b: mk(And(b, a), "bool")
Sv.__ror__ = lambda a, b: mk(Or(b, a), "bool")
Sv.__invert__ = lambda a: mk(Not(a), "bool")
