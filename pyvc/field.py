"""Equalities of rational functions of real numbers: the difference of the two members is brought to one denominator,
its numerator is the zero polynomial (the square of a root being its argument), and each divisor is not zero.

This is the usual decision procedure for fields.  The polynomials are those of sympy (exact rational coefficients)."""
import itertools
import time

import z3


import os
DEBUG = os.environ.get('PYVC_FIELD')


class GiveUp(Exception):
    pass


class Rings:
    def __init__(self, terms):
        from sympy.polys.domains import QQ
        from sympy.polys.rings import ring
        atoms, seen, todo, canon, alias = [], set(), list(terms), {}, {}
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if arith(t):
                todo.extend(t.children())
            elif not number(t):
                # terms which are equal after simplification are the same unknown
                u = z3.simplify(t, som=True) if t.num_args() else t
                if u.get_id() not in canon:
                    canon[u.get_id()] = u
                    atoms.append(t)
                    if root(t):
                        todo.append(t.arg(0))
                alias[t.get_id()] = (t, u)
        atoms.sort(key=lambda t: (root(t), size(t)))
        if not atoms or len(atoms) > 60:
            raise GiveUp
        r = ring(["x%d" % i for i in range(len(atoms))], QQ)
        self.R, gens = r[0], r[1:]
        self.gen = {a.get_id(): g for a, g in zip(atoms, gens)}
        first = {self.canonical(alias, a): g for a, g in zip(atoms, gens)}
        for t, u in alias.values():
            self.gen[t.get_id()] = first[u.get_id()]
        self.keep = alias
        self.atoms = atoms
        self.index = {a.get_id(): i for i, a in enumerate(atoms)}
        self.roots = [a for a in atoms if root(a)]
        self.divisors = []
        self.seen = []          # factors of divisors
        self.reduced = {}       # the roots whose square was replaced
        self.memo = {}
        self.QQ = QQ

    def canonical(self, alias, a):
        return alias[a.get_id()][1].get_id()

    def conv(self, t):
        """(numerator, {factor of the denominator: exponent})"""
        k = t.get_id()
        if k not in self.memo:
            n, d = self._conv(t)
            n, d = self.reduce(n, d)
            if len(n) > 100000:
                raise GiveUp
            self.memo[k] = (t, (n, d))
        return self.memo[k][1]

    def key(self, p):
        """the factor p up to a constant: (constant, monic polynomial)"""
        c = p.LC
        return c, p * (1 / c)

    def factors(self, p):
        """(constant, {factor: exponent}): the variables are separated, the known factors too"""
        c, p = self.key(p)
        out = {}
        if len(p) == 1:
            m = next(iter(p))
            for i, e in enumerate(m):
                if e:
                    out[self.R.gens[i]] = e
            return c, out
        m = [min(q[i] for q in p) for i in range(len(self.R.gens))]
        if any(m):
            mono = self.R.from_dict({tuple(m): self.QQ(1)})
            p = p.quo(mono)
            for i, e in enumerate(m):
                if e:
                    out[self.R.gens[i]] = e
        for f in list(self.seen):
            while len(f) <= len(p):
                q, r = p.div(f)
                if r != 0:
                    break
                out[f] = out.get(f, 0) + 1
                p = q
        if not p.is_ground:
            self.seen.append(p) if p not in self.seen else None
            out[p] = out.get(p, 0) + 1
        else:
            c = c * p.LC
        return c, out

    def cancel(self, n, d):
        d = dict(d)
        if n == 0:
            return n, {}
        for f in list(d):
            while d.get(f, 0):
                if len(f) > 1 and len(n) < len(f):
                    break
                q, r = n.div(f)
                if r != 0:
                    break
                n = q
                d[f] -= 1
                if not d[f]:
                    del d[f]
        return n, d

    def expand(self, d):
        p = self.R.one
        for f, e in d.items():
            p = p * f ** e
        return p

    def reduce(self, n, d):
        """the square of a root is its argument"""
        for a in reversed(self.roots):
            i = self.index[a.get_id()]
            if not any(m[i] > 1 for m in n):
                continue
            self.reduced[a.get_id()] = a
            xn, xd = self.conv(a.arg(0))
            n, top = self.lower(n, i, xn, self.expand(xd))
            d = self.times(d, {f: e * top for f, e in xd.items()})
            n, d = self.cancel(n, d)
        return n, d

    def times(self, a, b):
        out = dict(a)
        for f, e in b.items():
            out[f] = out.get(f, 0) + e
        return {f: e for f, e in out.items() if e}

    def lower(self, p, i, xn, xd):
        top = max((m[i] // 2 for m in p), default=0)
        out = self.R.zero
        groups = {}
        for m, c in p.items():
            k, r = divmod(m[i], 2)
            q = list(m)
            q[i] = r
            groups.setdefault(k, []).append((tuple(q), c))
        for k, items in groups.items():
            part = self.R.from_dict({})
            for m, c in items:
                part[m] = part.get(m, 0) + c
            out = out + part * xn ** k * xd ** (top - k)
        return out, top

    def _conv(self, t):
        one = self.R.one
        if number(t):
            f = t.as_fraction() if z3.is_rational_value(t) else None
            if f is None:
                f = t.as_long()
                return self.R.ground_new(self.QQ(f)), {}
            return self.R.ground_new(self.QQ(f.numerator, f.denominator)), {}
        if not arith(t):
            return self.gen[t.get_id()], {}
        k = t.decl().kind()
        cs = [self.conv(c) for c in t.children()]
        if k == z3.Z3_OP_UMINUS:
            return -cs[0][0], cs[0][1]
        if k == z3.Z3_OP_TO_REAL:
            return cs[0]
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            d = {}
            for _, b in cs:
                for f, e in b.items():
                    d[f] = max(d.get(f, 0), e)
            n = self.R.zero
            for i, (a, b) in enumerate(cs):
                a = a * self.expand({f: e - b.get(f, 0) for f, e in d.items() if e > b.get(f, 0)})
                n = n - a if k == z3.Z3_OP_SUB and i else n + a
            return self.cancel(n, d)
        if k == z3.Z3_OP_MUL:
            n, d = one, {}
            for a, b in cs:
                n, d = self.cancel(n, b)[0] * self.cancel(a, d)[0] if False else n * a, self.times(d, b)
                n, d = self.cancel(n, d)
            return n, d
        if k == z3.Z3_OP_POWER:
            e = t.arg(1)
            if not z3.is_rational_value(e) or e.as_fraction().denominator != 1 or not 0 <= e.as_fraction() <= 8:
                raise GiveUp
            e = int(e.as_fraction())
            return cs[0][0] ** e, {f: e * x for f, x in cs[0][1].items() if e}
        if k == z3.Z3_OP_DIV:
            (a, b), (c, d) = cs
            if c == 0:
                raise GiveUp
            if not number(t.arg(1)):
                self.divisors.append((t.arg(1), c))
            const, fs = self.factors(c)
            n, den = self.cancel(a, fs)
            for f, e in d.items():
                have = min(b.get(f, 0), e)
                b = {**b, f: b.get(f, 0) - have}
                n = n * f ** (e - have)
            n, den = self.cancel(n, self.times({f: e for f, e in b.items() if e}, den))
            return n * (1 / const), den
        raise GiveUp


def number(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def root(t):
    return z3.is_app(t) and t.num_args() == 1 and t.decl().name() == "sqrt_"


def arith(t):
    if not z3.is_app(t) or t.num_args() == 0:
        return False
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return True
    return t.sort() in (z3.RealSort(), z3.IntSort()) and k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) or \
        t.sort() == z3.RealSort() and k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER)


def size(t):
    return len(t.sexpr())


def prove(hyps, goal, seconds=30):
    """True if the goal is an equality of rational functions which holds"""
    end = time.time() + seconds
    hyps = list(hyps)
    goals = [goal]
    while goals:
        g = goals.pop()
        if z3.is_and(g):
            goals.extend(g.children())
        elif z3.is_implies(g):
            hyps.append(g.arg(0))
            goals.append(g.arg(1))
        elif z3.is_or(g) and sum(1 for c in g.children() if not z3.is_not(c)) == 1:
            hyps.extend(c.arg(0) for c in g.children() if z3.is_not(c))
            goals.extend(c for c in g.children() if not z3.is_not(c))
        elif z3.is_true(g):
            pass
        else:
            if not (z3.is_eq(g) and g.arg(0).sort() == z3.RealSort() and rational(g)):
                if DEBUG:
                    print("field: no", z3.is_eq(g), str(g)[:200])
                return False
            try:
                if not equal(hyps, g.arg(0), g.arg(1), end):
                    return False
            except GiveUp:
                if DEBUG:
                    import traceback
                    traceback.print_exc()
                return False
    return True


def has_division(g):
    """a division of real numbers by an unknown"""
    return any(z3.is_app_of(t, z3.Z3_OP_DIV) and not number(t.arg(1)) for t in subterms(g))


def rational(g):
    """products of unknowns or divisions by unknowns, and no conditional"""
    seen, todo, found = set(), [g], False
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t) or z3.is_app_of(t, z3.Z3_OP_ITE):
            return False
        if z3.is_mul(t) and sum(1 for c in t.children() if not number(c)) > 1 or z3.is_div(t) and not number(t.arg(1)) or root(t):
            found = True
        if len(seen) > 3000:
            return False
        todo.extend(t.children())
    return found


def nonzero_facts(hyps):
    out, todo = [], list(hyps)
    while todo:
        h = todo.pop()
        if z3.is_and(h):
            todo.extend(h.children())
            continue
        neg = z3.is_not(h)
        if neg:
            h = h.arg(0)
        if not (z3.is_app(h) and h.num_args() == 2 and h.arg(0).sort() == z3.RealSort()):
            continue
        k = h.decl().kind()
        strict = (k in (z3.Z3_OP_LT, z3.Z3_OP_GT) and not neg) or (k in (z3.Z3_OP_LE, z3.Z3_OP_GE) and neg)
        if neg and k == z3.Z3_OP_EQ or k == z3.Z3_OP_DISTINCT and not neg:
            out.append(h.arg(0) - h.arg(1))
        elif strict and (is_zero(h.arg(0)) or is_zero(h.arg(1))):
            out.append(h.arg(0) - h.arg(1))
    return out


def is_zero(t):
    return number(t) and str(t) == "0"


def equal(hyps, a, b, end):
    facts = [f for f in nonzero_facts(hyps) if f.sort() == z3.RealSort() and rational(f == 0) or z3.is_app(f)]
    K = Rings([a, b])
    n, d = K.conv(a - b)
    if n != 0:
        if DEBUG:
            print("field: not equal", len(n), str(n)[:500])
        return False
    # divisors
    todo = list({t.get_id(): (t, p) for t, p in K.divisors}.values())
    if not todo and not K.reduced:
        return True
    s = z3.Solver()
    s.set("timeout", 1500)
    from . import nonlin
    qf = [h for h in hyps if not quantified(h)]
    s.add(*qf)
    s.add(*nonlin.lemmas_of(qf + [t == 0 for t, _ in todo]))
    ok = {}

    def solver(t):
        k = t.get_id()
        if k not in ok:
            s.push()
            s.add(t == 0)
            ok[k] = (t, s.check() == z3.unsat)
            s.pop()
        return ok[k][1]
    fs = []
    for f in facts:
        try:
            K2 = Rings([a, b, f])
        except GiveUp:
            continue
        fs.append(f)
    K = Rings([a, b] + fs)
    n, d = K.conv(a - b)
    if n != 0:
        return False
    if any(not nonneg(qf, r.arg(0)) for r in K.reduced.values()):
        return False
    todo = sorted({t.get_id(): (t, p) for t, p in K.divisors}.values(), key=lambda x: (len(x[1]), size(x[0])))
    known = [p for p in (K.conv(f)[0] for f in fs) if p != 0 and not p.is_ground]
    known.sort(key=len)
    for t, p in todo:
        if time.time() > end:
            return False
        q = p
        changed = True
        while not q.is_ground and changed:
            changed = False
            for f in known:
                if f.is_ground:
                    continue
                r, rest = q.div(f)
                if rest == 0:
                    q, changed = r, True
                    break
        # the remaining factors which are single unknowns
        for at in K.atoms:
            g = K.gen[at.get_id()]
            if q.is_ground:
                break
            r, rest = q.div(g)
            if rest == 0 and at.sort() == z3.RealSort() and solver(at):
                known.insert(0, g)
                while rest == 0:
                    q = r
                    r, rest = q.div(g)
        if q.is_ground and q != 0:
            continue
        if not solver(t):
            if DEBUG:
                print("field: divisor", str(t)[:300], "\nrest", str(q)[:600], "\nknown", [str(k)[:300] for k in known])
            return False
        known.append(p)
    return True


def nonneg(hyps, x):
    from . import nonlin, sums
    from .ops import square_facts
    s = z3.Solver()
    s.set("timeout", 3000)
    s.add(*hyps)
    s.add(*nonlin.lemmas_of(hyps))
    s.add(*sums.nonneg_facts(x))
    s.add(*square_facts(x))
    s.add(x < 0)
    return s.check() == z3.unsat


_NZ = {}


def nonzero(hyps, a, b):
    """the difference of two terms is a product of terms which are known not to be zero"""
    t = z3.simplify(a - b)
    if not rational(t) or len(list(subterms(t))) < 4:
        return False
    facts = [f for f in nonzero_facts(hyps) if rational(f)]
    key = (t.get_id(), tuple(f.get_id() for f in facts))
    if key not in _NZ:
        try:
            K = Rings([t] + facts)
            n, d = K.conv(t)
            ok = n != 0 and divides(K, hyps, n, facts)
            # the divisors of the term itself
            ok = ok and all(divides(K, hyps, p, facts) for _, p in K.divisors if p is not n)
        except GiveUp:
            ok = False
        _NZ[key] = (ok, t, facts)
    return _NZ[key][0]


def divides(K, hyps, p, facts):
    known = [q for q in (K.conv(f)[0] for f in facts) if q != 0 and not q.is_ground]
    known += [K.gen[h.get_id()] for h in nonzero_facts(hyps) if h.get_id() in K.gen]
    known += [K.gen[x.get_id()] for h in hyps for x in [unknown_of(h)] if x is not None and x.get_id() in K.gen]
    changed = True
    while not p.is_ground and changed:
        changed = False
        for f in known:
            r, rest = p.div(f)
            if rest == 0:
                p, changed = r, True
                break
    return p.is_ground and p != 0


def unknown_of(h):
    """x, for x != 0 or x > 0"""
    if z3.is_not(h) and z3.is_eq(h.arg(0)) and is_zero(h.arg(0).arg(1)):
        return h.arg(0).arg(0)
    if z3.is_not(h) and z3.is_le(h.arg(0)) and is_zero(h.arg(0).arg(1)) or z3.is_gt(h) and is_zero(h.arg(1)):
        return h.arg(0) if z3.is_gt(h) else h.arg(0).arg(0)
    if z3.is_app_of(h, z3.Z3_OP_DISTINCT) and h.num_args() == 2 and is_zero(h.arg(1)):
        return h.arg(0)
    return None


def quantified(f):
    seen, todo = set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        todo.extend(t.children())
    return False


def subterms(t):
    seen, todo = {}, [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen[x.get_id()] = x
        if z3.is_quantifier(x):
            continue
        todo.extend(x.children())
    return seen.values()
