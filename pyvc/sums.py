"""Finite sums: construction in a normal form, and the lemmas instantiated for a query."""
import z3
from .core import Sv, mk, ze, And, Or, Not, Fraction

_R = z3.Function("SUM_real", z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.IntSort(), z3.RealSort())
_I = z3.Function("SUM_int", z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort())
NAMES = {"SUM_real", "SUM_int"}
_n = [0]


def has_const(t, k):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(k):
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def threshold(c, k):
    """r such that c <=> k < r, or None (with a flag for the negated form)"""
    neg = False
    while z3.is_not(c):
        c, neg = c.arg(0), not neg
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    a, b = c.arg(0), c.arg(1)
    if a.sort() != z3.IntSort():
        return None
    d = c.decl().kind()
    if d not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        return None
    # a - b = s*k + rest
    e = a - b
    c0 = z3.simplify(z3.substitute(e, (k, z3.IntVal(0))))
    c1 = z3.simplify(z3.substitute(e, (k, z3.IntVal(1))))
    s = z3.simplify(c1 - c0)
    if not z3.is_int_value(s) or abs(s.as_long()) != 1:
        return None
    s = s.as_long()
    if not z3.is_true(z3.simplify(e == c0 + s * k)):
        return None
    # s*k + c0  op  0
    if s == 1:
        # k op -c0
        r = {z3.Z3_OP_LE: (-c0 + 1, False), z3.Z3_OP_LT: (-c0, False),
             z3.Z3_OP_GE: (-c0, True), z3.Z3_OP_GT: (-c0 + 1, True)}[d]
    else:
        # -k + c0 op 0  ->  k op' c0
        r = {z3.Z3_OP_LE: (c0, True), z3.Z3_OP_LT: (c0 + 1, True),
             z3.Z3_OP_GE: (c0 + 1, False), z3.Z3_OP_GT: (c0, False)}[d]
    return z3.simplify(r[0]), r[1] != neg


def count(c, k, m):
    """number of k in range(m) with c(k), when c is a Boolean combination of thresholds on k"""
    iv = interval(c, k)
    if iv is not None:
        lo, hi = iv
        lo = [x for x in lo if not (z3.is_int_value(x) and x.as_long() <= 0)]
        L = z3.IntVal(0)
        for x in lo:
            L = z3.If(x > L, x, L)
        H = m
        for x in hi:
            H = z3.If(x < H, x, H)
        if not lo:
            return H if not hi else z3.If(H < 0, z3.IntVal(0), H)
        return z3.If(H > L, H - L, z3.IntVal(0))
    if z3.is_not(c):
        x = count(c.arg(0), k, m)
        return None if x is None else m - x
    if z3.is_or(c):
        x = count(z3.And(*[neg_(y) for y in c.children()]), k, m)
        return None if x is None else m - x
    return None


def neg_(c):
    return c.arg(0) if z3.is_not(c) else z3.Not(c)


def interval(c, k):
    """([lower bounds], [upper bounds]): c <=> all lo <= k < hi"""
    if z3.is_and(c):
        lo, hi = [], []
        for x in c.children():
            r = interval(x, k)
            if r is None:
                return None
            lo += r[0]
            hi += r[1]
        return lo, hi
    if z3.is_not(c) and z3.is_or(c.arg(0)):
        return interval(z3.And(*[neg_(x) for x in c.arg(0).children()]), k)
    if z3.is_eq(c) and c.arg(0).sort() == z3.IntSort():
        a, b = c.arg(0), c.arg(1)
        for x, y in ((a, b), (b, a)):
            if x.eq(k) and not has_const(y, k):
                return [y], [y + 1]
        return None
    th = threshold(c, k)
    if th is None:
        return None
    r, neg = th
    return ([r], []) if neg else ([], [r])


def sum_z3(E, n, f, real):
    """z3 term of sum(f(k) for k in range(n)); f: z3 int -> z3 term"""
    nn = n if z3.is_expr(n) else z3.IntVal(n)
    nn = z3.simplify(nn)
    if z3.is_int_value(nn) and nn.as_long() <= 16:
        r = z3.RealVal(0) if real else z3.IntVal(0)
        for j in range(nn.as_long()):
            r = r + f(z3.IntVal(j))
        return z3.simplify(r)
    _n[0] += 1
    k = z3.Int(f"k!sum{_n[0]}")
    t = z3.simplify(f(k), som=False)
    return z3.simplify(build(E, t, k, nn, real))


def nonneg(E, n):
    if E is not None and E.valid(n >= 0):
        return n
    return z3.If(n >= 0, n, z3.IntVal(0))


def build(E, t, k, n, real):
    if not has_const(t, k):
        m = nonneg(E, n)
        return (z3.ToReal(m) if real else m) * t
    if z3.is_add(t):
        r = None
        for c in t.children():
            b = build(E, c, k, n, real)
            r = b if r is None else r + b
        return r
    if z3.is_mul(t):
        const = [c for c in t.children() if not has_const(c, k)]
        rest = [c for c in t.children() if has_const(c, k)]
        if const:
            p = const[0]
            for c in const[1:]:
                p = p * c
            q = rest[0]
            for c in rest[1:]:
                q = q * c
            return p * build(E, q, k, n, real)
    if real and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return z3.ToReal(build(E, t.arg(0), k, n, False))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
        return -build(E, t.arg(0), k, n, real)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = t.arg(1), t.arg(2)
        if not has_const(a, k) and not has_const(b, k):
            m = nonneg(E, n)
            x = count(t.arg(0), k, m)
            if x is not None:
                y = m - x
                if real:
                    x, y = z3.ToReal(x), z3.ToReal(y)
                return x * a + y * b
        # a constant conditional with a k-free condition
        if not has_const(t.arg(0), k):
            return z3.If(t.arg(0), build(E, a, k, n, real), build(E, b, k, n, real))
    # one name for all bound variables: equal sums are equal terms
    return (_R if real else _I)(z3.Lambda([_K], z3.substitute(t, (k, _K))), n)


_K = z3.Int("k!sum")


def sum_val(E, n, f, real):
    """n: scalar value, f: Python function of a scalar value; returns a scalar value"""
    kd = "real" if real else "int"
    r = sum_z3(E, ze(n), lambda k: ze(f(mk(k)), kd), real)
    return mk(r, kd)


_COLL = {}


def collect1(f):
    """the sums of one formula (memoised)"""
    k = f.get_id()
    r = _COLL.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    if len(_COLL) > 50000:
        _COLL.clear()
    r = collect_all([f])
    _COLL[k] = (f, r)
    return r


def collect(fs):
    out, seen = [], set()
    for f in fs:
        for t in collect1(f):
            if t.get_id() not in seen:
                seen.add(t.get_id())
                out.append(t)
    return out


def collect_all(fs):
    out, seen, todo = [], set(), list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue          # sums under binders are left alone
        if z3.is_app(t):
            if t.decl().name() in NAMES:
                out.append(t)
            todo.extend(t.children())
    return out


def lemmas(E, hyps, goal, depth=0):
    """equalities between the sums of a query, each proved by a nested query (congruence of sums)"""
    goal_sums = collect([goal])
    if depth:
        hyps = without_sums(hyps)
    sums = collect(list(hyps) + [goal])
    out = []
    if not sums or depth > 4:
        return sums, out
    done = set()
    for s in sums:
        out.append(z3.Implies(s.arg(1) <= 0, s == 0))
        if squares(s):
            out.append(s >= 0)
    reps = []
    for a in goal_sums + [s for s in sums if not any(s.eq(g) for g in goal_sums)]:
        for b in reps:
            if a.eq(b) or a.sort() != b.sort() or (a.get_id(), b.get_id()) in done:
                continue
            if len(sums) > 6 and not any(x.eq(g) for g in goal_sums for x in (a, b)):
                continue
            if len(sums) > 6 and not symbols(a.arg(0)) & symbols(b.arg(0)) and symbols(a.arg(0)) and symbols(b.arg(0)):
                continue
            done.add((a.get_id(), b.get_id()))
            na, nb = a.arg(1), b.arg(1)
            E.sum_ctr = getattr(E, "sum_ctr", 0) + 1
            j = z3.Int(f"j!ext{E.sum_ctr}")
            fa = z3.simplify(z3.Select(a.arg(0), j))
            fb = z3.simplify(z3.Select(b.arg(0), j))
            if not fa.eq(fb):
                # the first term apart
                at = lambda f, i: z3.simplify(z3.Select(f.arg(0), i))
                shifted = False
                for l, s_ in ((a, b), (b, a)):
                    if at(l, j + 1).eq(at(s_, j)):
                        out.append(z3.Implies(z3.And(s_.arg(1) >= 0, l.arg(1) == s_.arg(1) + 1),
                                              l == at(l, z3.IntVal(0)) + s_))
                        shifted = True
                if shifted:
                    continue
                if not quick(E, list(hyps) + [j >= 0, j < na, j < nb], fa == fb, depth + 1):
                    continue
            if na.eq(nb) or quick(E, list(hyps), na == nb, depth + 1):
                out.append(a == b)
            else:
                # same terms, different numbers of terms
                out.append(z3.Implies(na == nb, a == b))
                at = lambda f, i: z3.simplify(z3.Select(f.arg(0), i))
                out.append(z3.Implies(z3.And(nb >= 0, na == nb + 1), a == b + at(b, nb)))
                out.append(z3.Implies(z3.And(na >= 0, nb == na + 1), b == a + at(a, na)))
        reps.append(a)
    return sums, out


def squares(s):
    """the terms of the sum are squares"""
    t = s.arg(0).body() if z3.is_quantifier(s.arg(0)) else None
    while t is not None and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        t = t.arg(0)
    if t is None or not z3.is_app(t):
        return False
    if t.decl().kind() == z3.Z3_OP_POWER:
        e = t.arg(1)
        return (z3.is_rational_value(e) or z3.is_int_value(e)) and e.as_fraction() == 2 if z3.is_rational_value(e) \
            else z3.is_int_value(e) and e.as_long() == 2
    return t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and t.arg(0).eq(t.arg(1))


def nonneg_facts(t):
    return [s >= 0 for s in collect([t]) if squares(s)]


def without_sums(hyps):
    return [h for h in hyps if not collect([h])]


_SYM = {}


def symbols(t):
    """names of the uninterpreted functions of a term"""
    r = _SYM.get(t.get_id())
    if r is not None and r[0].eq(t):
        return r[1]
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in NAMES:
                out.add(x.decl().name())
            todo.extend(x.children())
    _SYM[t.get_id()] = (t, out)
    return out


def quick(E, hyps, goal, depth):
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True
    if z3.is_false(g):
        return False
    key = (tuple(h.get_id() for h in hyps), g.get_id(), depth)
    if key not in _QUICK:
        _QUICK[key] = (quick_query(E, hyps, goal, depth), list(hyps), g)     # the terms are kept alive: their ids stay unique
    return _QUICK[key][0]


_QUICK = {}


def quick_query(E, hyps, goal, depth):
    if depth:
        hyps = without_sums(hyps)
    sums, lem = lemmas(E, hyps, goal, depth) if collect([goal]) else ([], [])
    s = z3.Solver()
    s.set("timeout", 3000)
    fs = abstract(list(hyps) + lem + [z3.Not(goal)])
    s.add(*fs)
    E.nqueries += 1
    return s.check() == z3.unsat


def abstract(fs):
    """replace the sums (outside of binders) by constants"""
    sums = collect(fs)
    if not sums:
        return fs
    pairs = []
    for i, s in enumerate(sorted(set(sums), key=lambda t: -len(t.sexpr()))):
        pairs.append((s, z3.Const(f"sum!{s.get_id()}", s.sort())))
    return [z3.substitute(f, *pairs) for f in fs]
