"""C04: the selected correlation peak is the maximum of the allowed region."""
from pyvc.spec import *
from pyvc import values

CO = "calcul.correl"


def forall2(f):
    a, b = z3.Ints("a!q b!q")
    return z3.ForAll([a, b], f(Sv(a, "int"), Sv(b, "int")))


def is_piv_error(exc):
    return getattr(getattr(exc, "cls", None), "name", None) == "PIVError"


@contract("C04")
def argmax(S):
    """nan_indices_max: every map, every pattern of invalid values, every search region; the values outside of the
    region are invalid (established by the search limits below)"""
    n0, n1 = S.int("n0", 1), S.int("n1", 1)
    s0, e0, s1, e1 = S.int("s0", 0), S.int("e0"), S.int("s1", 0), S.int("e1")
    S.req(And(s0 < e0, e0 <= n0, s1 < e1, e1 <= n1))
    m = S.arr("correl", (n0, n1), nan=True)
    v = m.getter()
    nan = lambda a, b: nanof(v((a, b)))
    inmap = lambda a, b: And(a >= 0, a < n0, b >= 0, b < n1)
    inreg = lambda a, b: And(a >= s0, a < e0, b >= s1, b < e1)
    S.req(forall2(lambda a, b: Implies(And(inmap(a, b), Not(inreg(a, b))), nan(a, b))))
    r = S.call(CO + ":nan_indices_max", m, s0, e0, s1, e1)
    S.cover("requires")
    i, j, msg = S.get(r, 0), S.get(r, 1), S.get(r, 2)
    a, b = S.idx("a", n0), S.idx("b", n1)
    S.instances((a - s0) * n1 + b - s1)
    valid = And(inreg(a, b), Not(nan(a, b)))
    accepted = S.eq(msg, "")
    S.ens("an accepted peak lies in the search region", Implies(accepted, inreg(i, j)))
    S.ens("the peak lies in the search region when a valid value exists", Implies(valid, inreg(i, j)))
    S.ens("the peak is valid when a valid value exists", Implies(valid, Not(nan(i, j))))
    S.ens("an accepted peak is valid", Implies(accepted, Not(nan(i, j))))
    S.ens("no valid value is larger", Implies(valid, ze(v((a, b))) <= ze(v((i, j)))))
    S.ens("an accepted peak does not touch the border", Implies(accepted, And(
        i > 0, i < n0 - 1, j > 0, j < n1 - 1)))
    around = [(p, q) for p in (-1, 0, 1) for q in (-1, 0, 1)]
    S.ens("an accepted peak does not touch an invalid value", Implies(accepted, And(
        *[Not(nan(i + p, j + q)) for p, q in around])))
    S.ens("no other peak is rejected", Implies(And(
        inreg(i, j), i > 0, i < n0 - 1, j > 0, j < n1 - 1, *[Not(nan(i + p, j + q)) for p, q in around]), accepted))


@contract("C04")
def normalised_maximum(S):
    """_compute_indices_max: the search limits are passed on, the reported maximum is the value of the selected position
    divided by the norm (0 for a zero norm), and a reported problem is raised"""
    n0, n1 = S.int("n0", 1), S.int("n1", 1)
    m = S.arr("correl", (n0, n1), nan=True)
    v = m.getter()
    i, j, msg = S.idx("i", n0), S.idx("j", n1), S.str("msg")
    seen = {}
    def search(I, *a):
        seen["a"] = a
        return (i, j, msg)
    S.stub(CO + ":nan_indices_max", search)
    norm = S.real("norm")
    whole = S.when(S.bool("no_limits"))
    s0, e0, s1, e1 = (0, n0, 0, n1) if whole else (S.int("s0"), S.int("e0"), S.int("s1"), S.int("e1"))
    tup = (lambda *a: values.VList(list(a))) if whole else (lambda *a: a)
    c = S.new(CO + ":CorrelFFTNumpy", start_stop_for_search0=tup(s0, None if whole else e0),
              start_stop_for_search1=tup(s1, None if whole else e1))
    r, exc = S.attempt(lambda: S.meth(c, "_compute_indices_max", m, norm))
    S.cover("requires")
    S.ens("search limits", And(z3.BoolVal(seen["a"][0] is m), *[S.eq(x, y) for x, y in zip(seen["a"][1:], (s0, e0, s1, e1))]))
    S.ens("an error if and only if a problem is reported", S.eq(msg, "") == z3.BoolVal(exc is None))
    x = v((i, j))
    def value(got):
        return And(Implies(ze(norm) == 0, S.eq(got, 0.0)), Implies(ze(norm) != 0, And(
            nanof(got) == nanof(x), Implies(Not(nanof(x)), ze(got) * ze(norm) == ze(x)))))
    if exc is None:
        S.ens("position", And(S.eq(S.get(r, 0), j), S.eq(S.get(r, 1), i)))
        S.ens("value divided by the norm", value(S.get(r, 2)))
    else:
        S.ens("the error is a PIVError", is_piv_error(exc))
        res = S.attr(exc, "results")
        S.ens("position of the problem", And(S.eq(S.get(res, 0), j), S.eq(S.get(res, 1), i)))
        S.ens("value of the problem", value(S.get(res, 2)))
        S.ens("explanation", S.eq(S.attr(exc, "explanation"), msg))


@contract("C04")
def search_limits(S):
    """CorrelFFTBase: the excluded positions are exactly those with a displacement larger than the maximum, and the
    search limits contain every position which is not excluded"""
    n0, n1 = S.int("n0", 2), S.int("n1", 2)
    c = S.new(CO + ":CorrelFFTNumpy", im0_shape=(n0, n1), im1_shape=(n0, n1), iy0=n0 // 2 - 1, ix0=n1 // 2 - 1)
    dm = S.real("displacement_max")
    S.req(dm >= 0)
    c.attrs["displacement_max"] = dm
    c.attrs["fft"] = None
    S.call(CO + ":CorrelFFTBase._finalize_init", c)
    S.cover("requires")
    w = c.attrs["where_large_displacement"]
    S.instances(c.attrs["iy0"], c.attrs["ix0"])
    S.instances(c.attrs["ix0"], c.attrs["iy0"])
    a, b = S.idx("a", n0), S.idx("b", n1)
    dx, dy = S.meth(c, "compute_displacement_from_indices", b, a)
    S.ens("size of the mask", S.eq(w.shape, (n0, n1)))
    large = ze(dx * dx + dy * dy) > ze(dm) * ze(dm)
    S.ens("excluded if and only if the displacement is larger than the maximum", zb(w.at((a, b))) == large)
    for q, (x, n) in enumerate(((a, n0), (b, n1))):
        st = c.attrs[f"start_stop_for_search{q}"]
        lo, hi = S.get(st, 0), S.get(st, 1)
        S.ens(f"limits inside the map {q}", And(lo >= 0, hi <= n, lo < hi))
        S.ens(f"no allowed position outside of the limits {q}", Implies(Not(zb(w.at((a, b)))), And(x >= lo, x < hi)))


def selection(S, nb):
    """compute_displacements_from_correl with the contract of _compute_indices_max (position in the map; the checks
    above prove that it is the maximum of the map it is given)"""
    n0, n1 = S.int("n0", 2), S.int("n1", 2)
    m = S.arr("correl", (n0, n1), nan=True)
    v = m.getter()
    r = S.int("particle_radius", 0)
    c = S.new(CO + ":CorrelFFTNumpy", iy0=S.int("iy0"), ix0=S.int("ix0"), particle_radius=r, nb_peaks_to_search=nb)
    limited = S.when(S.bool("limited"))
    if limited:
        w = S.arr("where_large", (n0, n1), "bool")
        excluded = lambda a, b: zb(w.at((a, b)))
        c.attrs.update(displacement_max=S.real("displacement_max", ), where_large_displacement=w)
    else:
        excluded = lambda a, b: z3.BoolVal(False)
        c.attrs["displacement_max"] = None
    a, b = S.idx("a", n0), S.idx("b", n1)
    calls, peaks = [], []
    norm = S.real("norm")
    def find(I, *args):
        arr, nrm = args[-2:]
        q = len(calls)
        i, j, x = S.idx("i", n0), S.idx("j", n1), S.real("x")
        bad = S.choose(2, "peak")
        calls.append((arr.getter(), nrm, (i, j, x), bad, list(peaks), arr))
        peaks.append((i, j))
        if bad:
            e = S.call("calcul.errors:PIVError", explanation=S.str("why"))
            e.attrs["results"] = (j, i, x)
            raise PyRaise(e)
        return (j, i, x)
    S.stub(CO + ":CorrelBase._compute_indices_max", find)
    res, exc = S.attempt(lambda: S.meth(c, "compute_displacements_from_correl", m, norm))
    S.cover("requires")
    near = lambda p, x, y: And(p[0] - r <= x, x <= p[0] + r, p[1] - r <= y, y <= p[1] + r)
    for q, (g, nrm, pos, bad, prev, arr) in enumerate(calls):
        gone = Or(excluded(a, b), *[near(p, a, b) for p in prev])
        S.ens("norm", S.eq(nrm, norm))
        S.ens("the excluded positions and the neighbourhoods of the previous peaks are not searched",
              Implies(gone, nanof(g((a, b)))))
        S.ens("every other position is searched", Implies(Not(gone), S.eq(g((a, b)), v((a, b)))))
    if limited:
        S.ens("the map of the caller is not modified", S.eq(m.at((a, b)), v((a, b))))
    d = lambda p: S.meth(c, "compute_displacement_from_indices", p[1], p[0])
    ok = [k for k in calls if not k[3]]
    if all(k[3] for k in calls[:2]):
        S.ens("two attempts before an error", len(calls) == 2)
        S.ens("an error without an accepted peak", is_piv_error(exc) if exc is not None else False)
        if exc is not None and is_piv_error(exc):
            got, p = S.attr(exc, "results"), calls[0][2]
            S.ens("the error reports the first peak", S.eq(got, (*d(p), p[2])))
        return
    S.ens("no error with an accepted peak", exc is None)
    if exc is not None:
        return
    first = ok[0][2]
    S.ens("displacement and maximum of the accepted peak", And(S.eq(S.get(res, 0), d(first)[0]), S.eq(
        S.get(res, 1), d(first)[1]), S.eq(S.get(res, 2), first[2])))
    if nb == 1:
        S.ens("no secondary peak", S.get(res, 3) is None)
        return
    others = S.get(res, 3)
    S.ens("number of secondary peaks", S.eq(S.len(others), len(ok) - 1))
    S.ens("search until the number of peaks or an error", z3.BoolVal(
        len(ok) == nb or bool(calls[-1][3])))
    for q, k in enumerate(ok[1:]):
        p = k[2]
        S.ens("secondary peak", S.eq(S.get(others, q), (*d(p), p[2])))


@contract("C04")
def selected_peak(S):
    """one peak: every map, limits, radius and answer of the search"""
    selection(S, 1)


@contract("C04", bounded="number of peaks <= 3")
def secondary_peaks(S):
    """two or three peaks"""
    selection(S, 2 + S.choose(2, "peaks"))
