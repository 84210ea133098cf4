"""numpy: arrays as functions of their indices."""
from fractions import Fraction

import z3

from . import ops, sums
from .core import (Sv, Unsupported, mk, ze, zb, And, Or, Not, Implies, kind, is_scalar, nanof,
                   has_nan, NAN)
from .ops import raise_py
from .values import (Arr, ExtRef, Obj, RangeV, SliceV, Store, VDict, VList, VMap, new_arr, vite,
                     subst)
from . import models as M
from .models import MODELS, ARRM, ARRP, lm, model


IGNORED = {"copy", "order", "dtype", "casting", "ndmin", "subok", "like"}


def only(k, *names):
    """keyword arguments without effect on the values (real-number arithmetic); the others are refused"""
    for n, v in k.items():
        if n not in IGNORED and n not in names and v is not None:
            raise Unsupported(f"keyword argument {n} of a numpy function")


def merge_dim(I, a, b):
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        if a == 1:
            return b
        if b == 1:
            return a
        raise_py(ValueError, "operands could not be broadcast together")
    if isinstance(a, Sv) and isinstance(b, Sv) and a.e.eq(b.e):
        return a
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    if I.E.branch(ze(a) == ze(b)):
        return a
    if I.E.branch(ze(b) == 1):
        return a
    if I.E.branch(ze(a) == 1):
        return b
    raise_py(ValueError, "operands could not be broadcast together")


def as_arr(I, v):
    if isinstance(v, Arr):
        return v
    if is_scalar(v) and not isinstance(v, str):
        return new_arr((), lambda idx: v, kind(v))
    if isinstance(v, (VList, tuple, RangeV)):
        return to_array(I, v)
    if v is None:
        raise_py(TypeError, "unsupported operand: None")
    raise Unsupported(f"array from {v!r}")


def bget(a, shape):
    """getter of `a` broadcast to `shape`"""
    g = a.getter()
    off = len(shape) - a.ndim
    if a.ndim == 0:
        return lambda idx: g(())
    ones = [isinstance(s, int) and s == 1 for s in a.shape]
    # a dimension of symbolic size equal to the result is indexed, 1 is repeated
    return lambda idx: g(tuple(0 if o else idx[off + d] for d, o in enumerate(ones)))


def elementwise(I, f, a, b, knd=None):
    a, b = as_arr(I, a), as_arr(I, b)
    nd = max(a.ndim, b.ndim)
    sa = (1,) * (nd - a.ndim) + a.shape
    sb = (1,) * (nd - b.ndim) + b.shape
    shape = tuple(merge_dim(I, x, y) for x, y in zip(sa, sb))
    ga, gb = bget(a, shape), bget(b, shape)
    get = lambda idx: M.npf(f(ga(idx), gb(idx)))
    if knd is None:
        knd = "real" if "real" in (a.kind, b.kind) else "int"
        probe = get(tuple(Sv(z3.Int(f"probe!{d}"), "int") for d in range(nd)))
        knd = kind(probe)
    r = new_arr(shape, get, knd)
    if nd == 0:
        return get(())
    return r


def elementwise1(I, f, a, knd=None):
    g = a.getter()
    get = lambda idx: M.npf(f(g(idx)))
    if knd is None:
        knd = kind(get(tuple(Sv(z3.Int(f"probe!{d}"), "int") for d in range(a.ndim))))
    return new_arr(a.shape, get, knd)


def arr_unary(I, op, v):
    if op == "USub":
        return elementwise1(I, ops.neg, v, v.kind if v.kind != "bool" else "int")
    if op == "Invert" and v.kind == "bool":
        return elementwise1(I, lambda x: mk(z3.simplify(Not(x)), "bool"), v, "bool")
    if op == "UAdd":
        return v
    raise Unsupported(f"array unary {op}")


def expand_index(a, idx):
    """replace the ellipsis, complete with full slices"""
    idx = list(idx)
    n_real = sum(1 for i in idx if i is not None and i is not Ellipsis
                 and not (isinstance(i, Arr) and i.kind == "bool" and i.ndim > 1))
    for i in idx:
        if isinstance(i, Arr) and i.kind == "bool" and i.ndim > 1:
            n_real += i.ndim
    ell = [j for j, i in enumerate(idx) if i is Ellipsis]
    missing = a.ndim - n_real
    if missing < 0:
        raise_py(IndexError, "too many indices for array")
    full = [SliceV(None, None, None)] * missing
    if ell:
        j = ell[0]
        idx[j: j + 1] = full
    else:
        idx += full
    return idx


def view_parts(I, a, idx, check=True):
    """list of ('int', i) / ('slice', start, count, step) / ('new',) per index entry"""
    parts = []
    d = 0
    for i in expand_index(a, idx):
        if i is None:
            parts.append(("new",))
            continue
        n = a.shape[d]
        if isinstance(i, SliceV):
            parts.append(("slice",) + M.slice_bounds(I, i, n))
            d += 1
        elif is_scalar(i) and kind(i) in ("int",):
            parts.append(("int", M.norm_index(I, i, n, "index out of bounds", check)))
            d += 1
        elif isinstance(i, (Arr, VList)):
            parts.append(("fancy", i))
            d += i.ndim if isinstance(i, Arr) and i.kind == "bool" else 1
        elif kind(i) == "real":
            raise_py(IndexError, "only integers, slices... are valid indices")
        else:
            raise Unsupported(f"array index {i!r}")
    return parts


def compose(a, parts):
    """(shape, imap, inv) of the view of `a` selected by parts, in coordinates of a's store"""
    shape = []
    for p in parts:
        if p[0] == "slice":
            shape.append(p[2])
        elif p[0] == "new":
            shape.append(1)
    def local(vidx):
        """index in a"""
        out, k = [], 0
        for p in parts:
            if p[0] == "int":
                out.append(p[1])
            elif p[0] == "slice":
                out.append(ops.add(p[1], vidx[k] if p[3] == 1 else ops.mul(vidx[k], p[3])))
                k += 1
            else:
                k += 1
        return tuple(out)
    def unlocal(aidx):
        """index in a -> (condition, index in the view)"""
        conds, out, d = [], [], 0
        for p in parts:
            if p[0] == "int":
                conds.append(ze(aidx[d]) == ze(p[1]))
                d += 1
            elif p[0] == "slice":
                start, cnt, step = p[1:]
                x = ops.sub(aidx[d], start)
                if step == 1:
                    j = x
                else:
                    j = ops.floordiv(x, step)
                    conds.append(ze(ops.mul(j, step)) == ze(x))
                conds.append(ze(j) >= 0)
                conds.append(ze(j) < ze(cnt))
                out.append(j)
                d += 1
            else:
                out.append(0)
        return And(*conds), tuple(out)
    if a.imap is None:
        imap = local
        inv = unlocal
    else:
        am, ai = a.imap, a.inv
        imap = lambda v: am(local(v))
        def inv(s):
            c1, i1 = ai(s)
            c2, i2 = unlocal(i1)
            return And(c1, c2), i2
    return tuple(shape), imap, inv


def arr_getitem(I, a, idx, check=True):
    idx = tuple(idx)
    if len(idx) == 1 and isinstance(idx[0], tuple):
        idx = idx[0]
    fancy = [i for i in idx if isinstance(i, (Arr, VList))]
    if fancy:
        return fancy_get(I, a, idx)
    parts = view_parts(I, a, idx, check)
    if all(p[0] == "int" for p in parts):
        return M.npf(a.at(tuple(p[1] for p in parts)))
    shape, imap, inv = compose(a, parts)
    return Arr(shape, a.store, imap, inv, a.dtype)


def fancy_get(I, a, idx):
    idx = expand_index(a, idx)
    if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].kind == "bool":
        m = idx[0]
        if m.ndim != a.ndim:
            raise Unsupported("mask of another dimension")
        if m.ndim == 1:
            nz = nonzero1(I, m)
            g = a.getter()
            n, sel = nz.shape[0], nz.getter()
            r = new_arr((n,), lambda i: M.npf(g((sel(i),))), a.kind)
            return r
        raise Unsupported("reading through a 2d mask")
    # integer arrays
    pos = [j for j, i in enumerate(idx) if isinstance(i, (Arr, VList))]
    arrs = [to_array(I, idx[j]) if isinstance(idx[j], VList) else idx[j] for j in pos]
    if any(x.kind == "bool" for x in arrs):
        if len(pos) == 1 and arrs[0].ndim == 1:
            arrs = [nonzero1(I, arrs[0])]
        else:
            raise Unsupported("mixed mask index")
    g = a.getter()
    if len(pos) == len(idx):
        sh = arrs[0].shape
        for x in arrs[1:]:
            if x.ndim != len(sh):
                raise Unsupported("broadcast fancy index")
            sh = tuple(merge_dim(I, p, q) for p, q in zip(sh, x.shape))
        gs = [bget(x, sh) for x in arrs]
        for x, n, gg in zip(arrs, a.shape, gs):
            check_fancy(I, x, gg, sh, n)
        return new_arr(sh, lambda i: M.npf(g(tuple(wrap(I, q(i), n) for q, n in zip(gs, a.shape)))), a.kind)
    if len(pos) == 1:
        p = pos[0]
        x = arrs[0]
        if x.ndim != 1 or not all(isinstance(i, SliceV) for j, i in enumerate(idx) if j != p):
            raise Unsupported("fancy index")
        base = arr_getitem(I, a, tuple(SliceV(None, None, None) if j == p else i for j, i in enumerate(idx)))
        gb, gx = base.getter(), x.getter()
        check_fancy(I, x, lambda i: gx(i), x.shape, a.shape[p])
        sh = tuple(x.shape[0] if d == p else s for d, s in enumerate(base.shape))
        n = a.shape[p]
        return new_arr(sh, lambda i: M.npf(gb(tuple(wrap(I, gx((i[d],)), n) if d == p else i[d]
                                                   for d in range(len(i))))), a.kind)
    raise Unsupported("fancy index")


def wrap(I, i, n):
    if isinstance(i, int) and i >= 0:
        return i
    return vite(ze(i) < 0, ops.add(i, n), i)


def check_fancy(I, x, g, sh, n):
    vs = [z3.Int(I.E.fresh_name("q!fancy")) for _ in sh]
    v = g(tuple(Sv(q, "int") for q in vs))
    if not vs:
        return
    ok = z3.ForAll(vs, Implies(And(*[And(q >= 0, q < ze(s)) for q, s in zip(vs, sh)]),
                               And(ze(v) >= -ze(n), ze(v) < ze(n))))
    if I.E.valid(ok):
        return
    if not I.E.branch(ok):
        raise_py(IndexError, "index out of bounds (fancy)")


def arr_setitem(I, a, idx, v):
    idx = tuple(idx)
    if len(idx) == 1 and isinstance(idx[0], tuple):
        idx = idx[0]
    fancy = [i for i in idx if isinstance(i, (Arr, VList))]
    conv = conv_to(a)
    if fancy:
        return fancy_set(I, a, idx, v)
    parts = view_parts(I, a, idx)
    if all(p[0] == "int" for p in parts):
        tgt = tuple(p[1] for p in parts)
        if isinstance(v, Arr):
            if v.ndim == 0:
                v = v.at(())
            else:
                raise_py(ValueError, "setting an array element with a sequence")
        if not is_scalar(v) and v is not None:
            raise_py(TypeError, "setting an array element")
        v = conv(v)
        if a.inv is not None:
            ainv = a.inv
            def cond(s, t=tgt):
                c, i = ainv(s)
                return And(c, *[ze(x) == ze(y) for x, y in zip(i, t)])
            a.store.layer(cond, lambda s: v)
            return
        if a.imap is not None:
            tgt = a.imap(tgt)
        a.store.layer(lambda s, t=tgt: And(*[ze(x) == ze(y) for x, y in zip(s, t)]), lambda s: v)
        return
    shape, imap, inv = compose(a, parts)
    src = as_arr(I, v)
    if src.ndim > len(shape):
        extra = src.ndim - len(shape)
        for s in src.shape[:extra]:
            if not (isinstance(s, int) and s == 1):
                raise_py(ValueError, "could not broadcast input array")
    off = len(shape) - src.ndim
    for d, s in enumerate(src.shape):
        t = shape[off + d]
        if isinstance(s, int) and s == 1:
            continue
        if isinstance(s, Sv) and isinstance(t, Sv) and s.e.eq(t.e):
            continue
        if not I.truth(ops.compare("==", s, t)):
            raise_py(ValueError, "could not broadcast input array")
    g = bget(src, shape)
    def cond(s):
        return inv(s)[0]
    def val(s):
        return conv(g(inv(s)[1]))
    a.store.layer(cond, val)


def conv_to(a):
    k = a.store.kind
    def conv(v):
        if v is None:
            if k == "real":
                return NAN
            raise_py(TypeError, "None in an array")
        if k == "real":
            if kind(v) == "real":
                return v
            return mk(ze(v, "real"), "real") if isinstance(v, Sv) else Fraction(int(v))
        if k == "int":
            if kind(v) == "real":
                return ops.trunc(v)
            return mk(ze(v, "int"), "int")
        if k == "bool":
            if kind(v) == "bool":
                return v
            return mk(ops.truth_term(v), "bool") if isinstance(v, Sv) else bool(v)
        return v
    return conv


def fancy_set(I, a, idx, v):
    idx = expand_index(a, idx)
    conv = conv_to(a)
    if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].kind == "bool" and idx[0].ndim == a.ndim:
        m = idx[0].getter()
        if isinstance(v, Arr) and v.ndim == 0:
            v = v.at(())
        if isinstance(v, Arr) and (v.ndim != 1 or a.ndim != 1 or a.imap is not None):
            raise Unsupported("array assigned through a mask")
        if isinstance(v, Arr):
            nz = nonzero1(I, idx[0])
            if not I.E.branch(zb(ops.compare("==", v.shape[0], nz.shape[0]))):
                if not I.E.branch(zb(ops.compare("==", v.shape[0], 1))):
                    raise_py(ValueError, "NumPy boolean array indexing assignment cannot assign")
                x = v.at((0,))
                a.store.layer(lambda s: zb(m(s)), lambda s: conv(x))
                return
            g, rank = v.getter(), nz.facts["rank"]
            a.store.layer(lambda s: zb(m(s)), lambda s: conv(g((rank(s[0]),))))
            return
        if a.imap is None:
            a.store.layer(lambda s: zb(m(s)), lambda s: conv(v))
        else:
            inv = a.inv
            def cond(s):
                c, j = inv(s)
                return And(c, zb(m(j)))
            a.store.layer(cond, lambda s: conv(v))
        return
    if len(idx) == 1 and isinstance(idx[0], Arr) and a.ndim == 1 and a.imap is None \
            and getattr(idx[0], "facts", None):
        f = idx[0].facts
        if isinstance(v, Arr) and v.ndim:
            gv = v.getter()
            a.store.layer(lambda s: f["member"](s[0]), lambda s: conv(gv((f["rank"](s[0]),))))
        else:
            if isinstance(v, Arr):
                v = v.at(())
            a.store.layer(lambda s: f["member"](s[0]), lambda s: conv(v))
        return
    arrs = [to_array(I, x) if isinstance(x, VList) else x for x in idx]
    if len(arrs) == a.ndim and all(isinstance(x, Arr) and x.ndim == 1 and x.kind == "int" and
                                   isinstance(x.shape[0], int) and x.shape == arrs[0].shape for x in arrs):
        n = arrs[0].shape[0]
        if isinstance(v, Arr) and v.ndim:
            if v.ndim != 1 or not (isinstance(v.shape[0], int) and v.shape[0] in (1, n)):
                raise Unsupported("assignment through a fancy index")
            vals = [v.at((j if v.shape[0] == n else 0,)) for j in range(n)]
        else:
            vals = [v] * n
        for j in range(n):
            arr_setitem(I, a, tuple(x.at((j,)) for x in arrs), vals[j])
        return
    raise Unsupported("assignment through a fancy index")


# ------------------------------------------------------------- enumeration of a predicate

def filter_facts(I, n, keep, name="sel"):
    """(m, sel, rank): increasing enumeration of {j in [0, n): keep(j)}"""
    E = I.E
    m = E.fresh("int", name + "_n")
    sel = E.fresh_fun(name, "int", "int")
    rank = E.fresh_fun(name + "_rank", "int", "int")
    i, i2, j = z3.Ints(f"{E.fresh_name('i!f')} {E.fresh_name('i2!f')} {E.fresh_name('j!f')}")
    nn = ze(n)
    def K(t):
        return zb(keep(Sv(t, "int")))
    E.assume(And(m.e >= 0, m.e <= nn))
    E.assume(z3.ForAll([i], Implies(And(i >= 0, i < m.e),
                                    And(sel(i) >= 0, sel(i) < nn, rank(sel(i)) == i, K(sel(i)))),
                       patterns=[sel(i)]))
    E.assume(z3.ForAll([i, i2], Implies(And(0 <= i, i < i2, i2 < m.e), sel(i) < sel(i2)),
                       patterns=[z3.MultiPattern(sel(i), sel(i2))]))
    E.assume(z3.ForAll([j], Implies(And(j >= 0, j < nn, K(j)),
                                    And(rank(j) >= 0, rank(j) < m.e, sel(rank(j)) == j)),
                       patterns=[rank(j)]))
    member = lambda x: And(ze(x) >= 0, ze(x) < nn, K(ze(x)), rank(ze(x)) >= 0, rank(ze(x)) < m.e,
                           sel(rank(ze(x))) == ze(x))
    if not hasattr(E, "inverses"):
        E.inverses = {}
    E.inverses[sel.name()] = (rank, member)
    return m, sel, rank, member


def nonzero1(I, m):
    g = m.getter()
    n = m.shape[0]
    def keep(j):
        v = g((j,))
        return ops.truth_term(v) if isinstance(v, Sv) else z3.BoolVal(bool(v))
    E = I.E
    canon = z3.simplify(keep(Sv(z3.Int("j!nz"), "int")))
    memo = E.__dict__.setdefault("enumerations", [])
    facts = None
    for c0, n0, mark, f in memo:
        # the enumeration of the same mask, created on this path
        if c0.eq(canon) and (n0 == n if isinstance(n, int) else not isinstance(n0, int) and ze(n0).eq(ze(n))) and \
                any(x is mark for x in E.pc):
            facts = f
            break
    if facts is None:
        facts = filter_facts(I, n, keep, "nz")
        if E.pc:
            memo.append((canon, n, E.pc[-1], facts))
    cnt, sel, rank, member = facts
    r = new_arr((cnt,), lambda i: Sv(sel(ze(i[0])), "int", None, True), "int")
    r.facts = dict(sel=sel, rank=lambda x: Sv(rank(ze(x)), "int"), member=member, keep=keep, n=n)
    return r


# ------------------------------------------------------------- properties and methods

@lm(ARRP, "shape")
def p_shape(I, a):
    return a.shape


@lm(ARRP, "ndim")
def p_ndim(I, a):
    return a.ndim


@lm(ARRP, "size")
def p_size(I, a):
    r = 1
    for s in a.shape:
        r = ops.mul(r, s)
    return r


@lm(ARRP, "dtype")
def p_dtype(I, a):
    return Obj("dtype", {"kind": a.kind, "name": a.kind})


@lm(ARRP, "T")
def p_T(I, a):
    if a.ndim < 2:
        return a
    rev = lambda i: tuple(reversed(i))
    if a.imap is None:
        return Arr(tuple(reversed(a.shape)), a.store, rev, lambda s: (z3.BoolVal(True), rev(s)), a.dtype)
    am, ai = a.imap, a.inv
    def inv(s):
        c, i = ai(s)
        return c, rev(i)
    return Arr(tuple(reversed(a.shape)), a.store, lambda i: am(rev(i)), inv, a.dtype)


@lm(ARRP, "flat")
def p_flat(I, a):
    return ARRM["ravel"](I, a)


@lm(ARRP, "real")
def p_real(I, a):
    return a


@lm(ARRM, "copy")
def a_copy(I, a, *k, **kw):
    only(kw)
    return new_arr(a.shape, a.getter(), a.kind, a.dtype)


@lm(ARRM, "astype")
def a_astype(I, a, d, copy=True, **kw):
    only(kw)
    hook = getattr(I, "astype_hook", None)
    if hook is not None:
        hook(a, d)
    k = dtype_kind(I, d)
    g = a.getter()
    if k == a.kind:
        return new_arr(a.shape, g, k)
    tmp = new_arr(a.shape, None, k)
    cv = conv_to(tmp)
    def conv(v):
        if k == "int" and has_nan(v):
            v = Sv(v.e, "real")
        return cv(v)
    return new_arr(a.shape, lambda i: M.npf(conv(g(i))), k)


def arr_astype_scalar(I, v, d):
    k = dtype_kind(I, d)
    return conv_to(new_arr((), None, k))(v)


def dtype_kind(I, d, default="real"):
    if d is None:
        return default
    if d is int:
        return "int"
    if d is float:
        return "real"
    if d is bool:
        return "bool"
    if isinstance(d, ExtRef):
        d = d.name.split(".")[-1]
    if isinstance(d, Obj) and d.cls == "dtype":
        return d.attrs["kind"]
    if isinstance(d, str):
        s = d.lower()
        if s.startswith(("float", "double", "single")) or s in ("f", "d", "f4", "f8"):
            return "real"
        if s.startswith(("int", "uint", "long", "short", "i", "u")):
            return "int"
        if s.startswith("bool"):
            return "bool"
        if s.startswith("complex"):
            return "complex"
    raise Unsupported(f"dtype {d!r}")


@lm(ARRM, "ravel")
def a_ravel(I, a, *k):
    return a_reshape(I, a, p_size(I, a))


@lm(ARRM, "flatten")
def a_flatten(I, a, *k):
    r = a_reshape(I, a, p_size(I, a))
    return a_copy(I, r)


@lm(ARRM, "reshape")
def a_reshape(I, a, *shape, **kw):
    """C order; a view (the arrays concerned are contiguous)"""
    only(kw)
    if len(shape) == 1 and isinstance(shape[0], (tuple, VList)):
        shape = shape[0] if isinstance(shape[0], tuple) else tuple(I.concrete_items(shape[0]))
    shape = list(shape)
    size = p_size(I, a)
    neg = [d for d, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if neg:
        rest = 1
        for d, s in enumerate(shape):
            if d != neg[0]:
                rest = ops.mul(rest, s)
        shape[neg[0]] = ops.floordiv(size, rest)
    tot = 1
    for s in shape:
        tot = ops.mul(tot, s)
    if not I.truth(ops.compare("==", tot, size)):
        raise_py(ValueError, "cannot reshape array")
    shape = tuple(shape)
    if len(shape) == a.ndim and all((x is y) or (isinstance(x, int) and x == y) or
                                    (isinstance(x, Sv) and isinstance(y, Sv) and x.e.eq(y.e))
                                    for x, y in zip(shape, a.shape)):
        return a
    old = a.shape
    def lin(i, sh):
        r = 0
        for d, (x, s) in enumerate(zip(i, sh)):
            q = undiv(r, x, s) if d else None
            r = ops.add(ops.mul(r, s), x) if q is None else q
        return r
    def unlin(q, sh):
        out = []
        for s in reversed(sh[1:]):
            out.append(pmod(q, s))
            q = pdiv(q, s)
        out.append(q)
        return tuple(reversed(out))
    def conv(i, frm, to):
        # same trailing structure: 2d <-> 1d
        return unlin(lin(i, frm), to)
    m = lambda i: conv(i, shape, old)
    m_inv = lambda i: conv(i, old, shape)
    if a.imap is None and a.store.log is None and len(shape) > len(old):
        # the content is now indexed by the indices of the result; the arrays on the old content are views of it
        st0 = a.store
        g0 = st0.get
        st = Store(len(shape), lambda i: g0(m(i)), st0.kind)
        for v in list(st0.views):
            im, iv = v.imap, v.inv
            v.store = st
            v.imap = (lambda i, im=im: m_inv(im(i))) if im is not None else m_inv
            v.inv = (lambda s, iv=iv: iv(m(s))) if iv is not None else (lambda s: (z3.BoolVal(True), m(s)))
            st.views.add(v)
        st0.views.clear()
        return Arr(shape, st, None, None, a.dtype)
    if a.imap is None:
        return Arr(shape, a.store, m, lambda s: (z3.BoolVal(True), m_inv(s)), a.dtype)
    am, ai = a.imap, a.inv
    def inv(s):
        c, i = ai(s)
        return c, m_inv(i)
    return Arr(shape, a.store, lambda i: am(m(i)), inv, a.dtype)


def undiv(a, b, s):
    """q when (a, b) is syntactically (q // s, q % s)"""
    if isinstance(a, Sv) and isinstance(b, Sv) and z3.is_app_of(a.e, z3.Z3_OP_IDIV) and \
            z3.is_app_of(b.e, z3.Z3_OP_MOD) and a.e.arg(0).eq(b.e.arg(0)) and a.e.arg(1).eq(b.e.arg(1)) and \
            a.e.arg(1).eq(ze(s)):
        return mk(a.e.arg(0), "int")
    return None


def pdiv(q, s):
    """q // s for q >= 0, s > 0 with (x*s + y) // s folded when possible"""
    d = split_lin(q, s)
    if d is not None:
        return d[0]
    if not isinstance(q, Sv) and not isinstance(s, Sv):
        return q // s
    return mk(z3.simplify(ze(q) / ze(s)))


def pmod(q, s):
    d = split_lin(q, s)
    if d is not None:
        return d[1]
    if not isinstance(q, Sv) and not isinstance(s, Sv):
        return q % s
    return mk(z3.simplify(ze(q) % ze(s)))


def split_lin(q, s):
    """(x, y) when q is syntactically x*s + y with 0 <= y < s known to the engine"""
    if not isinstance(q, Sv):
        return None
    e = q.e
    se = ze(s)
    terms = list(e.children()) if z3.is_add(e) else [e]
    xs, ys = [], []
    for t in terms:
        if t.eq(se) and not z3.is_int_value(t):
            xs.append(z3.IntVal(1))
        elif z3.is_mul(t) and any(c.eq(se) for c in t.children()):
            cs = list(t.children())
            for j, c in enumerate(cs):
                if c.eq(se):
                    del cs[j]
                    break
            p = cs[0]
            for c in cs[1:]:
                p = p * c
            xs.append(p)
        else:
            ys.append(t)
    if not xs:
        return None
    y = ys[0] if ys else z3.IntVal(0)
    for t in ys[1:]:
        y = y + t
    E = ops.E[0]
    rng = And(y >= 0, y < se)
    if not E.valid(rng):
        return None
    x = xs[0]
    for t in xs[1:]:
        x = x + t
    return mk(z3.simplify(x)), mk(z3.simplify(y))


def reduce_sum(I, a, axis=None):
    real = a.kind == "real"
    g = a.getter()
    if axis is not None:
        if isinstance(axis, int) and axis < 0:
            axis += a.ndim
        sh = tuple(s for d, s in enumerate(a.shape) if d != axis)
        n = a.shape[axis]
        def get(idx):
            def f(k):
                j = list(idx)
                j.insert(axis, k)
                v = g(tuple(j))
                if has_nan(v):
                    raise Unsupported("sum over an axis with nan")
                return v
            return sums.sum_val(I.E, n, f, real)
        if not sh:
            return M.npf(get(()))
        return new_arr(sh, get, "real" if real else "int")
    vs = tuple(Sv(z3.Int(I.E.fresh_name("q!sum")), "int") for _ in a.shape)
    probe = g(vs)
    nan = None
    if has_nan(probe):
        rng = And(*[And(v.e >= 0, v.e < ze(s)) for v, s in zip(vs, a.shape)])
        nan = z3.simplify(z3.Exists([v.e for v in vs], And(rng, nanof(probe))))
    def rec(d, idx):
        if d == a.ndim:
            v = g(idx)
            return Sv(v.e, v.kind) if has_nan(v) else v
        return sums.sum_val(I.E, a.shape[d], lambda k: rec(d + 1, idx + (k,)), real)
    r = rec(0, ())
    if nan is not None:
        return mk(ze(r, "real"), "real", nan, True)
    return M.npf(r)


@lm(ARRM, "sum")
def a_sum(I, a, axis=None, **k):
    only(k)
    return reduce_sum(I, a, axis)


@lm(ARRM, "mean")
def a_mean(I, a, axis=None, **k):
    only(k)
    s = reduce_sum(I, a, axis)
    n = p_size(I, a) if axis is None else a.shape[axis]
    return M.binop(I, "Div", s, n)


def arr_extremum(I, a, want_min):
    E = I.E
    g = a.getter()
    tot = p_size(I, a)
    if isinstance(tot, int) and tot <= 32 and a.ndim == 1:
        if tot == 0:
            raise_py(ValueError, "zero-size array to reduction operation")
        r = g((0,))
        for j in range(1, tot):
            x = g((j,))
            if has_nan(r) or has_nan(x):
                c = (ze(x) < ze(r, kind(x))) if want_min else (ze(x) > ze(r))
                r = mk(z3.If(c, ze(x, "real"), ze(r, "real")), "real", ops.nan2(r, x), True)
            else:
                r = ops.minmax(r, x, want_min)
        return M.npf(r)
    vs = [z3.Int(E.fresh_name("q!ext")) for _ in a.shape]
    v = g(tuple(Sv(q, "int") for q in vs))
    nonempty = And(*[ze(s) > 0 for s in a.shape])
    if not E.branch(nonempty):
        raise_py(ValueError, "zero-size array to reduction operation")
    rng = And(*[And(q >= 0, q < ze(s)) for q, s in zip(vs, a.shape)])
    nan = None
    if has_nan(v):
        nan = z3.Exists(vs, And(rng, nanof(v)))
    m = E.fresh(kind(v), "extremum")
    ws = [E.fresh("int", "witness") for _ in a.shape]
    E.assume(z3.ForAll(vs, Implies(rng, Or(nanof(v), (m.e <= ze(v)) if want_min else (m.e >= ze(v))))))
    w = g(tuple(ws))
    E.assume(And(*[And(x.e >= 0, x.e < ze(s)) for x, s in zip(ws, a.shape)]))
    E.assume(Or(ze(w) == m.e if nan is None else And(Not(nanof(w)), ze(w) == m.e), nan if nan is not None else False))
    return Sv(m.e, m.kind, nan, True)


@lm(ARRM, "min")
def a_min(I, a, axis=None, **k):
    only(k)
    if axis is not None and a.ndim > 1:
        raise Unsupported("min over an axis")
    return arr_extremum(I, a, True)


@lm(ARRM, "max")
def a_max(I, a, axis=None, **k):
    only(k)
    if axis is not None and a.ndim > 1:
        raise Unsupported("max over an axis")
    return arr_extremum(I, a, False)


@lm(ARRM, "argmin")
def a_argmin(I, a, **k):
    only(k)
    return arg_ext(I, a, True)


@lm(ARRM, "argmax")
def a_argmax(I, a, **k):
    only(k)
    return arg_ext(I, a, False)


def arg_ext(I, a, want_min):
    """first index of the extremum; the first nan wins (numpy semantics)"""
    E = I.E
    if a.ndim != 1:
        a = a_ravel(I, a)
    g, n = a.getter(), a.shape[0]
    if isinstance(n, int) and n <= 32:
        if n == 0:
            raise_py(ValueError, "attempt to get argmin of an empty sequence")
        best, val = 0, g((0,))
        for j in range(1, n):
            x = g((j,))
            c = ops.compare("<" if want_min else ">", x, val)
            c = And(Not(nanof(val)), Or(c, nanof(x))) if (has_nan(x) or has_nan(val)) else zb(c)
            best = vite(c, j, best)
            val = vite(c, x, val)
        return best
    q = z3.Int(E.fresh_name("q!arg"))
    w = E.fresh("int", "arg")
    if not E.branch(ze(n) > 0):
        raise_py(ValueError, "attempt to get argmin of an empty sequence")
    v, vw = g((Sv(q, "int"),)), g((w,))
    if has_nan(v):
        raise Unsupported("argmin with nan on a symbolic array")
    c = (ze(vw) <= ze(v)) if want_min else (ze(vw) >= ze(v))
    cs = (ze(vw) < ze(v)) if want_min else (ze(vw) > ze(v))
    E.assume(And(w.e >= 0, w.e < ze(n)))
    E.assume(z3.ForAll([q], Implies(And(q >= 0, q < ze(n)), And(c, Implies(q < w.e, cs)))))
    return w


@lm(ARRM, "nonzero")
def a_nonzero(I, a):
    if a.ndim == 1:
        return (nonzero1(I, a),)
    raise Unsupported("nonzero of a 2d array")


@lm(ARRM, "any")
def a_any(I, a, axis=None):
    return arr_quant(I, a, False)


@lm(ARRM, "all")
def a_all(I, a, axis=None):
    return arr_quant(I, a, True)


def arr_quant(I, a, forall):
    vs = [z3.Int(I.E.fresh_name("q!all")) for _ in a.shape]
    v = a.at(tuple(Sv(q, "int") for q in vs))
    t = ops.truth_term(v) if isinstance(v, Sv) else z3.BoolVal(bool(v))
    rng = And(*[And(q >= 0, q < ze(s)) for q, s in zip(vs, a.shape)])
    if forall:
        return mk(z3.ForAll(vs, Implies(rng, t)), "bool")
    return mk(z3.Exists(vs, And(rng, t)), "bool")


@lm(ARRM, "tolist")
def a_tolist(I, a):
    return M.b_list(I, a)


@lm(ARRM, "fill")
def a_fill(I, a, v):
    arr_setitem(I, a, (Ellipsis,), v)


@lm(ARRM, "dot")
def a_dot(I, a, b):
    return m_dot(I, a, b)


@lm(ARRM, "transpose")
def a_transpose(I, a, *ax):
    if ax:
        raise Unsupported("transpose(axes)")
    return p_T(I, a)


@lm(ARRM, "item")
def a_item(I, a):
    return a.at((0,) * a.ndim)


@lm(ARRM, "clip")
def a_clip(I, a, lo=None, hi=None, **k):
    only(k)
    return M.MODELS["numpy.clip"](I, a, lo, hi)


# ------------------------------------------------------------- functions

def shape_of(I, s):
    if isinstance(s, (int, Sv)):
        return (s,)
    if isinstance(s, tuple):
        return s
    return tuple(I.concrete_items(s))


def to_array(I, v, dtype=None):
    if isinstance(v, Arr):
        if dtype is not None and dtype_kind(I, dtype) != v.kind:
            return a_astype(I, v, dtype)
        return a_copy(I, v)
    if is_scalar(v):
        return new_arr((), lambda i: v, kind(v))
    seq = M.as_seq(I, v)
    n = seq.length()
    if isinstance(n, int):
        items = [seq.get(i) for i in range(n)]
        if items and isinstance(items[0], (VList, tuple, Arr, RangeV)):
            subs = [to_array(I, x) for x in items]
            sh = subs[0].shape
            for s in subs[1:]:
                if s.ndim != len(sh):
                    raise_py(ValueError, "inhomogeneous shape")
                sh = tuple(merge_dim(I, x, y) for x, y in zip(sh, s.shape))
            k = "real" if any(s.kind == "real" for s in subs) else subs[0].kind
            gs = [s.getter() for s in subs]
            l = VList(list(range(n)))
            def get(i):
                if isinstance(i[0], int):
                    return gs[i[0]](i[1:])
                r = gs[-1](i[1:])
                for j in range(n - 2, -1, -1):
                    r = vite(ze(i[0]) == j, gs[j](i[1:]), r)
                return r
            r = new_arr((n,) + sh, get, k)
        else:
            if any(not (is_scalar(x)) or kind(x) in ("str", "obj") for x in items):
                raise Unsupported("array of objects")
            k = "real" if any(kind(x) == "real" for x in items) or not items else (
                "int" if any(kind(x) == "int" for x in items) else "bool")
            vals = [x if kind(x) == k else mk(ze(x, k), k) for x in items]
            l = VList(vals)
            r = new_arr((n,), lambda i: l.get(i[0]), k)
    else:
        g = seq.get
        probe = g(Sv(z3.Int("probe!arr"), "int"))
        if isinstance(probe, (tuple, Arr, VList)):
            if isinstance(probe, tuple) and all(ops.num(x) for x in probe):
                k = "real" if any(kind(x) == "real" for x in probe) else "int"
                w = len(probe)
                r = new_arr((n, w), lambda i: VList([mk(ze(x, k), k) for x in g(i[0])]).get(i[1]), k)
            elif isinstance(probe, Arr):
                sh = probe.shape
                r = new_arr((n,) + sh, lambda i: g(i[0]).at(i[1:]), probe.kind)
            else:
                raise Unsupported("array of sequences")
        elif ops.num(probe):
            r = new_arr((n,), lambda i: g(i[0]), kind(probe))
        else:
            raise Unsupported("array of objects of symbolic length")
    if dtype is not None and dtype_kind(I, dtype) != r.kind:
        r = a_astype(I, r, dtype)
    return r


@model("numpy.array", "numpy.asfarray")
def m_array(I, v, dtype=None, **k):
    only(k)
    return to_array(I, v, dtype)


@model("numpy.ascontiguousarray")
def m_ascontiguousarray(I, v, dtype=None, **k):
    """a copy unless the array is already contiguous (a view other than a whole array is taken as not contiguous)"""
    r = m_asarray(I, v, dtype, **k)
    if r is v and r.imap is not None:
        return a_copy(I, r)
    return r


@model("numpy.asarray")
def m_asarray(I, v, dtype=None, **k):
    only(k)
    if isinstance(v, Arr) and (dtype is None or dtype_kind(I, dtype) == v.kind):
        return v
    return to_array(I, v, dtype)


def const_arr(value_real, value_int, value_bool):
    def f(I, shape, dtype=None, **k):
        kd = dtype_kind(I, dtype)
        v = {"real": value_real, "int": value_int, "bool": value_bool}[kd]
        for s in shape_of(I, shape):
            if isinstance(s, Sv) or s < 0:
                if I.truth(ops.compare("<", s, 0)):
                    raise_py(ValueError, "negative dimensions are not allowed")
        return new_arr(shape_of(I, shape), lambda i: v, kd)
    return f


MODELS["numpy.zeros"] = const_arr(Fraction(0), 0, False)
MODELS["numpy.ones"] = const_arr(Fraction(1), 1, True)


@model("numpy.empty")
def m_empty(I, shape, dtype=None, **k):
    only(k)
    kd = dtype_kind(I, dtype)
    sh = shape_of(I, shape)
    for s in sh:
        if isinstance(s, Sv) or s < 0:
            if I.truth(ops.compare("<", s, 0)):
                raise_py(ValueError, "negative dimensions are not allowed")
    return fresh_arr(I, sh, kd, "empty")


def fresh_arr(I, sh, kd, name):
    if not sh:
        v = I.E.fresh(kd, name)
        return new_arr(sh, lambda i: v, kd)
    f = I.E.fresh_fun(name, *(["int"] * len(sh) + [kd]))
    return new_arr(sh, lambda i: Sv(f(*[ze(x) for x in i]), kd), kd)


@model("numpy.full")
def m_full(I, shape, v, dtype=None):
    return new_arr(shape_of(I, shape), lambda i: v, kind(v))


@model("numpy.zeros_like")
def m_zeros_like(I, a, dtype=None):
    a = as_arr(I, a)
    k = a.kind if dtype is None else dtype_kind(I, dtype)
    v = {"real": Fraction(0), "int": 0, "bool": False}[k]
    return new_arr(a.shape, lambda i: v, k)


@model("numpy.ones_like")
def m_ones_like(I, a, dtype=None):
    k = a.kind if dtype is None else dtype_kind(I, dtype)
    v = {"real": Fraction(1), "int": 1, "bool": True}[k]
    return new_arr(a.shape, lambda i: v, k)


@model("numpy.empty_like")
def m_empty_like(I, a, dtype=None):
    a = as_arr(I, a)
    k = a.kind if dtype is None else dtype_kind(I, dtype)
    return fresh_arr(I, a.shape, k, "empty")


@model("numpy.full_like")
def m_full_like(I, a, v, dtype=None):
    return new_arr(a.shape, lambda i: v, a.kind)


@model("numpy.arange")
def m_arange(I, *a, dtype=None):
    if len(a) == 1:
        a = (0, a[0], 1)
    elif len(a) == 2:
        a = (a[0], a[1], 1)
    if all(kind(x) == "int" for x in a):
        r = RangeV(*a)
        n = M.range_len(I, r)
        k = "int" if dtype is None else dtype_kind(I, dtype)
        def get(i):
            v = ops.add(a[0], ops.mul(i[0], a[2]))
            return v if k == "int" else (mk(ze(v, "real")) if isinstance(v, Sv) else Fraction(v))
        return new_arr((n,), get, k)
    # real arange: ceil((stop-start)/step) values
    start, stop, step = a
    q = ops.truediv(ops.sub(stop, start), step)
    n = M.MODELS["math.ceil"](I, q)
    n = M.ite(I, ops.compare(">", n, 0), n, 0)
    k = "real" if dtype is None else dtype_kind(I, dtype)
    def get(i):
        v = ops.add(start, ops.mul(i[0], step))
        if k == "int":
            return ops.trunc(v)
        return v
    if k == "int":
        # numpy converts start and the step start+step - start to the dtype
        s0 = ops.trunc(start)
        d = ops.sub(ops.trunc(ops.add(start, step)), s0)
        return new_arr((n,), lambda i: ops.add(s0, ops.mul(i[0], d)), "int")
    return new_arr((n,), get, k)


@model("numpy.linspace")
def m_linspace(I, a, b, n=50, **k):
    only(k)
    d = ops.truediv(ops.sub(b, a), ops.sub(n, 1))
    return new_arr((n,), lambda i: mk(ze(ops.add(a, ops.mul(i[0], d)), "real")), "real")


@model("numpy.meshgrid")
def m_meshgrid(I, x, y, indexing="xy", **k):
    only(k)
    x, y = as_arr(I, x), as_arr(I, y)
    gx, gy = x.getter(), y.getter()
    if indexing == "ij":
        sh = (x.shape[0], y.shape[0])
        return VList([new_arr(sh, lambda i: gx((i[0],)), x.kind), new_arr(sh, lambda i: gy((i[1],)), y.kind)])
    sh = (y.shape[0], x.shape[0])
    return VList([new_arr(sh, lambda i: gx((i[1],)), x.kind), new_arr(sh, lambda i: gy((i[0],)), y.kind)])


@model("numpy.isnan")
def m_isnan(I, v):
    if isinstance(v, Arr):
        return elementwise1(I, ops.isnan, v, "bool")
    if isinstance(v, VList):
        return m_isnan(I, to_array(I, v))
    if not ops.num(v):
        raise_py(TypeError, "ufunc 'isnan' not supported")
    return ops.isnan(v)


@model("numpy.isfinite")
def m_isfinite(I, v):
    if isinstance(v, Arr):
        return elementwise1(I, lambda x: mk(Not(ops.isnan(x)), "bool"), v, "bool")
    return mk(Not(ops.isnan(v)), "bool")


@model("numpy.ndenumerate")
def m_ndenumerate(I, a):
    from .loops import NdEnumerate
    return NdEnumerate(a)


@model("numpy.sqrt")
def m_npsqrt(I, v):
    if isinstance(v, Arr):
        return elementwise1(I, lambda x: sqrt_el(x), v, "real")
    return ops.sqrt(v, npf=True)


def sqrt_el(x):
    """element of sqrt of an array: no assumption recorded (may be under a binder)"""
    if not isinstance(x, Sv):
        return ops.sqrt(x, npf=True)
    e = ze(x, "real")
    return mk(ops.SQRT(e), "real", z3.simplify(Or(nanof(x), e < 0)), True)


def sign_el(x):
    if not isinstance(x, Sv):
        return (x > 0) - (x < 0)
    e = ze(x)
    one = z3.IntVal(1) if x.kind == "int" else z3.RealVal(1)
    return mk(z3.If(e > 0, one, z3.If(e < 0, -one, 0 * one)), "int" if x.kind == "int" else "real", x.nan, True)


@model("numpy.sign")
def m_sign(I, v):
    if isinstance(v, Arr):
        return elementwise1(I, sign_el, v, v.kind)
    return sign_el(v)


@model("numpy.abs", "numpy.absolute", "numpy.fabs")
def m_abs(I, v):
    return M.b_abs(I, v)


@model("numpy.sum")
def m_sum(I, v, axis=None, **k):
    only(k)
    return reduce_sum(I, as_arr(I, v), axis)


@model("numpy.mean")
def m_mean(I, v, axis=None, **k):
    only(k)
    return a_mean(I, as_arr(I, v), axis)


@model("numpy.min", "numpy.amin")
def m_min(I, v, axis=None, **k):
    only(k)
    return a_min(I, as_arr(I, v), axis)


@model("numpy.max", "numpy.amax")
def m_max(I, v, axis=None, **k):
    only(k)
    return a_max(I, as_arr(I, v), axis)


@model("numpy.any")
def m_any(I, v, **k):
    only(k)
    return arr_quant(I, as_arr(I, v), False)


@model("numpy.all")
def m_all(I, v, **k):
    only(k)
    return arr_quant(I, as_arr(I, v), True)


@model("numpy.argmin")
def m_argmin(I, v, **k):
    only(k)
    return arg_ext(I, as_arr(I, v), True)


@model("numpy.argmax")
def m_argmax(I, v, **k):
    only(k)
    return arg_ext(I, as_arr(I, v), False)


@model("numpy.floor")
def m_floor(I, v):
    f = lambda x: mk(z3.ToReal(z3.ToInt(ze(x, "real"))), "real", nanof(x)) if isinstance(x, Sv) \
        else Fraction(__import__("math").floor(x))
    return elementwise1(I, f, v, "real") if isinstance(v, Arr) else f(v)


@model("numpy.ceil")
def m_ceil(I, v):
    f = lambda x: mk(-z3.ToReal(z3.ToInt(-ze(x, "real"))), "real", nanof(x)) if isinstance(x, Sv) \
        else Fraction(__import__("math").ceil(x))
    return elementwise1(I, f, v, "real") if isinstance(v, Arr) else f(v)


@model("numpy.round", "numpy.rint", "numpy.around")
def m_round(I, v, decimals=0):
    if decimals != 0:
        raise Unsupported("round to decimals")
    if isinstance(v, Arr):
        return elementwise1(I, M.np_round_scalar, v, v.kind)
    return M.npf(M.np_round_scalar(v))


@lm(ARRM, "round")
def a_round(I, a, decimals=0):
    return m_round(I, a, decimals)


@model("numpy.where")
def m_where(I, c, *ab):
    c = as_arr(I, c)
    if not ab:
        return a_nonzero(I, c)
    a, b = as_arr(I, ab[0]), as_arr(I, ab[1])
    nd = max(c.ndim, a.ndim, b.ndim)
    sh = (1,) * nd
    for x in (c, a, b):
        sh = tuple(merge_dim(I, p, q) for p, q in zip(sh, (1,) * (nd - x.ndim) + x.shape))
    gc, ga, gb = bget(c, sh), bget(a, sh), bget(b, sh)
    k = "real" if "real" in (a.kind, b.kind) else a.kind
    get = lambda i: vite(zb(gc(i)), ga(i), gb(i))
    return new_arr(sh, get, k) if nd else get(())


@model("numpy.minimum")
def m_minimum(I, a, b):
    return elementwise(I, lambda x, y: np_minmax(x, y, True), a, b)


@model("numpy.maximum")
def m_maximum(I, a, b):
    return elementwise(I, lambda x, y: np_minmax(x, y, False), a, b)


def np_minmax(x, y, want_min):
    k = ops.common(x, y)
    c = (ze(x, k) <= ze(y, k)) if want_min else (ze(x, k) >= ze(y, k))
    return mk(z3.simplify(z3.If(c, ze(x, k), ze(y, k))), k, ops.nan2(x, y), True)


@model("numpy.clip")
def m_clip(I, a, lo=None, hi=None, **k):
    """minimum(maximum(a, lo), hi)"""
    only(k)
    def isinf(v):
        return isinstance(v, float)
    r = a
    if lo is not None and not isinf(lo):
        r = m_maximum(I, r, lo)
    if hi is not None and not isinf(hi):
        r = m_minimum(I, r, hi)
    return r


@model("numpy.nonzero")
def m_nonzero(I, a):
    return a_nonzero(I, a)


@model("numpy.logical_or")
def m_lor(I, a, b):
    return M.binop(I, "BitOr", a, b)


@model("numpy.logical_and")
def m_land(I, a, b):
    return M.binop(I, "BitAnd", a, b)


@model("numpy.logical_not")
def m_lnot(I, a):
    return arr_unary(I, "Invert", a)


@model("numpy.reshape")
def m_reshape(I, a, shape):
    return a_reshape(I, as_arr(I, a), shape)


@model("numpy.ravel")
def m_ravel(I, a):
    return a_ravel(I, as_arr(I, a))


@model("numpy.shape")
def m_shape(I, a):
    return as_arr(I, a).shape


@model("numpy.size")
def m_size(I, a):
    return p_size(I, as_arr(I, a))


@model("numpy.transpose")
def m_transpose(I, a):
    return p_T(I, as_arr(I, a))


@model("numpy.dot", "numpy.matmul", "numpy.inner")
def m_dot(I, a, b):
    a, b = as_arr(I, a), as_arr(I, b)
    ga, gb = a.getter(), b.getter()
    real = "real" in (a.kind, b.kind)
    if a.ndim == 1 and b.ndim == 1:
        n = merge_dim(I, a.shape[0], b.shape[0])
        return M.npf(sums.sum_val(I.E, n, lambda k: ops.mul(ga((k,)), gb((k,))), real))
    if a.ndim == 2 and b.ndim == 1:
        n = merge_dim(I, a.shape[1], b.shape[0])
        return new_arr((a.shape[0],), lambda i: sums.sum_val(
            I.E, n, lambda k: ops.mul(ga((i[0], k)), gb((k,))), real), "real" if real else "int")
    if a.ndim == 1 and b.ndim == 2:
        n = merge_dim(I, a.shape[0], b.shape[0])
        return new_arr((b.shape[1],), lambda i: sums.sum_val(
            I.E, n, lambda k: ops.mul(ga((k,)), gb((k, i[0]))), real), "real" if real else "int")
    if a.ndim == 2 and b.ndim == 2:
        n = merge_dim(I, a.shape[1], b.shape[0])
        return new_arr((a.shape[0], b.shape[1]), lambda i: sums.sum_val(
            I.E, n, lambda k: ops.mul(ga((i[0], k)), gb((k, i[1]))), real), "real" if real else "int")
    raise Unsupported("dot")


@model("numpy.concatenate")
def m_concat(I, seq, axis=0, **k):
    only(k)
    arrs = [as_arr(I, x) for x in I.concrete_items(seq)]
    if axis != 0:
        raise Unsupported("concatenate along another axis")
    tot = 0
    offs = []
    for a in arrs:
        offs.append(tot)
        tot = ops.add(tot, a.shape[0])
    gs = [a.getter() for a in arrs]
    k_ = "real" if any(a.kind == "real" for a in arrs) else arrs[0].kind
    sh = arrs[0].shape[1:]
    def get(i):
        j = i[0]
        r = None
        for g, o in reversed(list(zip(gs, offs))):
            v = lambda g=g, o=o: g((ops.sub(j, o),) + tuple(i[1:]))
            if r is None:
                r = v()
            else:
                pass
            if r is not None and g is not gs[-1]:
                nxt = offs[gs.index(g) + 1]
                c = z3.simplify(ze(j) < ze(nxt))
                if z3.is_true(c):
                    r = v()
                elif z3.is_false(c):
                    pass
                else:
                    r = vite(c, v(), r)
        return r
    return new_arr((tot,) + tuple(sh), get, k_)


@model("numpy.append")
def m_append(I, a, v, axis=None):
    if axis is not None:
        raise Unsupported("append along an axis")
    a, v = as_arr(I, a), as_arr(I, v)
    if a.ndim != 1:
        a = a_ravel(I, a)
    if v.ndim != 1:
        v = new_arr((1,), lambda i, g=v.getter(): g(()), v.kind) if v.ndim == 0 else a_ravel(I, v)
    return m_concat(I, VList([a, v]))


@model("numpy.pad")
def m_pad(I, a, width, mode="constant", constant_values=0):
    """constant padding"""
    if mode != "constant":
        raise Unsupported(f"numpy.pad mode {mode!r}")
    def pair(w):
        if is_scalar(w):
            return w, w
        w = I.concrete_items(w)
        if len(w) == 1:
            return w[0], w[0]
        return tuple(w)
    a = as_arr(I, a)
    ws = [width] * a.ndim if is_scalar(width) else list(I.concrete_items(width))
    if all(is_scalar(w) for w in ws) and not is_scalar(width):
        ws = [tuple(ws)] * a.ndim
    if len(ws) == 1:
        ws = ws * a.ndim
    if len(ws) != a.ndim:
        raise_py(ValueError, "operands could not be broadcast together")
    ws = [pair(w) for w in ws]
    for w in ws:
        for x in w:
            if not I.truth(ops.compare(">=", x, 0)):
                raise_py(ValueError, "index can't contain negative values")
    cv = [pair(constant_values)] if is_scalar(constant_values) else [pair(x) for x in
                                                                     I.concrete_items(constant_values)]
    if any(not I.truth(ops.compare("==", c[0], c[1])) for c in cv) or len(cv) > 1:
        raise Unsupported("several padding values")
    c = conv_to(new_arr((), None, a.kind))(cv[0][0])
    g = a.getter()
    sh = tuple(ops.add(ops.add(n, w[0]), w[1]) for n, w in zip(a.shape, ws))
    def get(i):
        j = tuple(ops.sub(x, w[0]) for x, w in zip(i, ws))
        inside = And(*[And(ze(x) >= 0, ze(x) < ze(n)) for x, n in zip(j, a.shape)])
        return vite(inside, g(j), c, fork=False)
    return new_arr(sh, get, a.kind)


@model("numpy.argwhere")
def m_argwhere(I, a):
    a = as_arr(I, a)
    if a.ndim != 1:
        raise Unsupported("argwhere of a 2d array")
    nz = nonzero1(I, a)
    g = nz.getter()
    r = new_arr((nz.shape[0], 1), lambda i: g((i[0],)), "int")
    return r


@model("numpy.flatnonzero")
def m_flatnonzero(I, a):
    a = as_arr(I, a)
    return nonzero1(I, a if a.ndim == 1 else a_ravel(I, a))


@model("numpy.vstack")
def m_vstack(I, seq):
    arrs = [as_arr(I, x) for x in I.concrete_items(seq)]
    if all(a.ndim == 1 for a in arrs):
        return to_array(I, VList(arrs))
    return m_concat(I, VList(arrs))


@model("numpy.hstack")
def m_hstack(I, seq):
    arrs = [as_arr(I, x) for x in I.concrete_items(seq)]
    if all(a.ndim == 1 for a in arrs):
        return m_concat(I, VList(arrs))
    raise Unsupported("hstack")


@model("numpy.array_equal")
def m_array_equal(I, a, b):
    a, b = as_arr(I, a), as_arr(I, b)
    if a.ndim != b.ndim:
        return False
    eq = And(*[ze(x) == ze(y) for x, y in zip(a.shape, b.shape)])
    q = arr_quant(I, elementwise(I, lambda x, y: ops.compare("==", x, y), a, b, "bool"), True)
    return mk(And(eq, zb(q)), "bool")


@model("numpy.stack")
def m_stack(I, seq, axis=0):
    arrs = [as_arr(I, x) for x in I.concrete_items(seq)]
    if axis == 0:
        return to_array(I, VList(arrs))
    raise Unsupported("stack")


@model("numpy.squeeze")
def m_squeeze(I, a):
    keep = [d for d, s in enumerate(a.shape) if not (isinstance(s, int) and s == 1)]
    if any(isinstance(a.shape[d], Sv) for d in keep):
        pass
    return arr_getitem(I, a, tuple(SliceV(None, None, None) if d in keep else 0 for d in range(a.ndim)))


@model("numpy.flip")
def m_flip(I, a, axis=None):
    axes = range(a.ndim) if axis is None else [axis] if isinstance(axis, int) else list(axis)
    axes = [x % a.ndim for x in axes]
    return arr_getitem(I, a, tuple(SliceV(None, None, -1 if d in axes else None) for d in range(a.ndim)))


@model("numpy.flipud")
def m_flipud(I, a):
    return arr_getitem(I, a, (SliceV(None, None, -1),))


@model("numpy.fliplr")
def m_fliplr(I, a):
    return arr_getitem(I, a, (SliceV(None, None, None), SliceV(None, None, -1)))


@model("numpy.unique")
def m_unique(I, a, **k):
    only(k)
    hook = getattr(I, "unique_hook", None)
    if hook:
        return hook(I, a, **k)
    raise Unsupported("numpy.unique")


@model("numpy.cross")
def m_cross(I, a, b):
    a, b = as_arr(I, a), as_arr(I, b)
    if a.ndim != 1 or b.ndim != 1 or a.shape != (3,) or b.shape != (3,):
        raise Unsupported("cross")
    x = [a.at((i,)) for i in range(3)]
    y = [b.at((i,)) for i in range(3)]
    r = [ops.sub(ops.mul(x[(i + 1) % 3], y[(i + 2) % 3]), ops.mul(x[(i + 2) % 3], y[(i + 1) % 3]))
         for i in range(3)]
    return to_array(I, VList(r))


@model("numpy.linalg.norm")
def m_norm(I, a, **k):
    only(k)
    a = as_arr(I, a)
    s = reduce_sum(I, elementwise1(I, lambda x: ops.mul(x, x), a))
    return ops.sqrt(s, npf=True)


for _d in ("float32", "float64", "float_", "double"):
    MODELS["numpy." + _d] = lambda I, v=0: M.b_float(I, v) if not isinstance(v, Arr) else a_astype(I, v, float)
for _d in ("int32", "int64", "int8", "int16", "uint8", "uint16", "uint32", "uint64", "int_"):
    MODELS["numpy." + _d] = lambda I, v=0: M.b_int(I, v) if not isinstance(v, Arr) else a_astype(I, v, int)
MODELS["numpy.bool_"] = lambda I, v=False: M.b_bool(I, v)
