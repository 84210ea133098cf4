"""Instances of the lemma  n >= 0 and q >= 1  =>  n*q >= n  (and the like) for the products of a formula.

Every instance is a theorem of integer arithmetic, so that adding it never changes what is provable in principle;
z3 and cvc5 do not find these instances by themselves when an array is addressed by i*n + j."""
import z3

_CACHE = {}


def poly(e):
    """{monomial (sorted tuple of (id, expr)): coefficient} of an integer term"""
    e = z3.simplify(e, som=True)
    out = {}
    for t in (e.children() if z3.is_add(e) else [e]):
        c, fs = 1, []
        todo = [t]
        while todo:
            x = todo.pop()
            if z3.is_mul(x):
                todo.extend(x.children())
            elif z3.is_int_value(x):
                c *= x.as_long()
            else:
                fs.append(x)
        fs.sort(key=lambda x: x.get_id())
        k = tuple(x.get_id() for x in fs)
        old = out.get(k)
        out[k] = (c + (old[0] if old else 0), fs)
    return {k: v for k, v in out.items() if v[0]}


def atoms(f):
    out, seen, todo = [], set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.num_args() == 2 and t.decl().kind() in (
                z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and \
                t.arg(0).sort() == z3.IntSort():
            out.append(t)
        todo.extend(t.children())
    return out


def has_product(f):
    seen, todo = set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_mul(t) and t.sort() == z3.IntSort() and \
                sum(1 for c in t.children() if not z3.is_int_value(c)) > 1:
            return True
        if z3.is_app_of(t, z3.Z3_OP_IDIV) or z3.is_app_of(t, z3.Z3_OP_MOD):
            if not z3.is_int_value(t.arg(1)):
                return True
        todo.extend(t.children())
    return False


def lemmas(f):
    """lemma instances for the comparisons of f"""
    k = f.get_id()
    r = _CACHE.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    out, done = [], set()
    if has_product(f):
        for t in atoms(f):
            instances(poly(t.arg(0) - t.arg(1)), out, done)
        divisions(f, out, done)
    roots(f, out)
    if len(_CACHE) > 5000:
        _CACHE.clear()
    _CACHE[k] = (f, out)
    return out


def roots(f, out):
    """the square root of a non-negative number"""
    seen, todo, bound = set(), [f], False
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            bound = bound or mentions_root(t.body())
            continue
        if z3.is_app(t) and t.num_args() == 1 and t.decl().name() in ("cos_", "sin_") and t.sort() == z3.RealSort():
            x = t.arg(0)
            c, n = (z3.Function(k, z3.RealSort(), z3.RealSort())(x) for k in ("cos_", "sin_"))
            out.append(z3.And(c * c + n * n == 1, z3.Implies(x == 0, z3.And(c == 1, n == 0))))
        if z3.is_app(t) and t.num_args() == 1 and t.decl().name() == "sqrt_":
            x = t.arg(0)
            out.append(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
            from . import sums
            from .ops import square_facts
            out.extend(sums.nonneg_facts(x) + square_facts(x))
        todo.extend(t.children())
    if bound:
        x = z3.Real("x!root")
        g = z3.Function("sqrt_", z3.RealSort(), z3.RealSort())(x)
        out.append(z3.ForAll([x], z3.Implies(x >= 0, z3.And(g >= 0, g * g == x)), patterns=[g]))


def mentions_root(t):
    seen, todo = set(), [t]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t) and t.decl().name() == "sqrt_":
            return True
        todo.extend(t.children())
    return False


def lemmas_of(fs, limit=400):
    out, seen = [], set()
    for f in fs:
        for l in lemmas(f):
            if l.get_id() not in seen:
                seen.add(l.get_id())
                out.append(l)
    return out[:limit]


def build(ms):
    s = None
    for c, fs in ms:
        t = z3.IntVal(c)
        for x in fs:
            t = t * x
        s = t if s is None else s + t
    return z3.IntVal(0) if s is None else s


def instances(p, out, done):
    """p: polynomial of a comparison with 0"""
    cands = {}
    for k, (c, fs) in p.items():
        if len(fs) >= 2:
            for x in fs:
                cands.setdefault(x.get_id(), x)
    for n in list(cands.values())[:6]:
        q = []
        for k, (c, fs) in p.items():
            if len(fs) >= 2 and any(x.eq(n) for x in fs):
                rest = list(fs)
                for j, x in enumerate(rest):
                    if x.eq(n):
                        del rest[j]
                        break
                q.append((c, rest))
        # n itself may be part of the factor (n*(q + 1)), which the linear reasoning handles
        if not q:
            continue
        Q = z3.simplify(build(q))
        key = (n.get_id(), Q.get_id())
        if key in done:
            continue
        done.add(key)
        nQ = z3.simplify(build([(c, [n] + r) for c, r in q]), som=True)
        out.append(z3.Implies(n >= 0, z3.And(z3.Implies(Q >= 0, nQ >= 0), z3.Implies(Q <= 0, nQ <= 0),
                                             z3.Implies(Q >= 1, nQ >= n), z3.Implies(Q <= -1, nQ <= -n))))


def divisions(f, out, done):
    """x div n and x mod n for a symbolic n"""
    seen, todo = set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if (z3.is_app_of(t, z3.Z3_OP_IDIV) or z3.is_app_of(t, z3.Z3_OP_MOD)) and not z3.is_int_value(t.arg(1)):
            x, n = t.arg(0), t.arg(1)
            key = ("div", x.get_id(), n.get_id())
            if key not in done:
                done.add(key)
                d, m = x / n, x % n
                out.append(z3.Implies(n >= 1, z3.And(x == n * d + m, m >= 0, m < n,
                                                     z3.Implies(x >= 0, d >= 0), z3.Implies(x < 0, d < 0),
                                                     z3.Implies(x >= n, d >= 1), z3.Implies(x < n, d <= 0),
                                                     z3.Implies(z3.And(x >= 0, x < n), m == x),
                                                     z3.Implies(z3.And(x < 0, x >= -n), z3.And(d == -1, m == x + n)),
                                                     z3.Implies(z3.And(x >= n, x < 2 * n),
                                                                z3.And(d == 1, m == x - n)))))
                qr = quotient(x, n)
                if qr is not None:
                    Q, r = qr
                    for k in (-1, 0, 1, 2):
                        out.append(z3.Implies(z3.And(n >= 1, r >= k * n, r < (k + 1) * n),
                                              z3.And(d == Q + k, m == r - k * n)))
                    instances(poly(x - n * d), out, done)
        todo.extend(t.children())


def quotient(x, n):
    """x = n*q + rest (polynomials), or None when nothing can be taken out"""
    pn = poly(n)
    lead = [(c, fs) for c, fs in pn.values() if len(fs) == 1]
    if not lead:
        return None
    c0, (v,) = lead[0]
    if abs(c0) == 0:
        return None
    q = []
    for c, fs in poly(x).values():
        if len(fs) >= 2 and c % c0 == 0 and any(f.eq(v) for f in fs):
            rest = list(fs)
            for j, f in enumerate(rest):
                if f.eq(v):
                    del rest[j]
                    break
            q.append((c // c0, rest))
    if not q:
        return None
    Q = build(q)
    return z3.simplify(Q), z3.simplify(x - n * Q, som=True)


def split_const(x, d):
    """x div d and x mod d for a constant d > 0, the multiples of d taken out"""
    p = poly(x)
    a, r = [], []
    for k, (c, fs) in p.items():
        if c % d == 0:
            a.append((c // d, fs))
        elif not fs:
            a.append((c // d, fs))
            r.append((c % d, fs))
        else:
            r.append((c, fs))
    return z3.simplify(build(a)), z3.simplify(build(r))
