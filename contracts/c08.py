"""C08: a vector is rejected if and only if an error explains it."""
from pyvc.spec import *
from pyvc import values

FIX = "works.piv.fix"
LOW, FAR, NEIGH = "correl < correl_min", "delta2 < displacement_max2", "diff neighbour too large"


class Scene:
    def __init__(self, S, nb_peaks, dmax, thr, peaks=None, second_pass=False):
        self.S, self.N = S, S.int("N", 1)
        N, E = self.N, S.E
        self.dx, self.dy = S.arr("dx", (N,), nan=True), S.arr("dy", (N,), nan=True)
        self.co = S.arr("correl", (N,), nan=True)
        self.x0, self.y0, self.c0 = self.dx.getter(), self.dy.getter(), self.co.getter()
        self.nerr = S.int("number_errors", 0)
        key = E.fresh_fun("error_vector", "int", "int")
        inv = E.fresh_fun("error_rank", "int", "int")
        text = E.fresh_fun("error_text", "int", "str")
        j = z3.Int("j!err")
        ok = z3.And(j >= 0, j < ze(self.nerr))
        S.req(z3.ForAll([j], z3.Implies(ok, z3.And(key(j) >= 0, key(j) < ze(N), inv(key(j)) == j)), patterns=[key(j)]))
        S.E.inverses[key.name()] = (lambda q: inv(q), self.member(inv, key))
        # `had`: the vectors with an error, enumerated by key
        self.had = self.member(inv, key)
        self.text = lambda q: Sv(text(ze(q)), "str")
        errors = values.VMap("int", self.had, self.text, order=(self.nerr, lambda i: Sv(key(ze(i)), "int")))
        self.cmin = S.real("correl_min")
        self.dmax = S.real("displacement_max") if dmax else None
        self.thr = S.real("threshold") if thr else None
        if thr:
            S.req(self.thr >= 0)
        # the mean over the neighbours (contract of C09): the field given is recorded
        self.mx, self.my = S.arr("mean_x", (N,), nan=True), S.arr("mean_y", (N,), nan=True)
        self.given = {}
        def mean(I, u, v, iy, ix):
            self.given.update(u=u.getter(), v=v.getter(), iy=iy, ix=ix)
            return self.mx, self.my
        S.stub("calcul.mean_neighbors:mean_neighbors_xy", mean)
        self.ix, self.iy = S.arr("ixvecs", (S.int("nx", 1),), "int"), S.arr("iyvecs", (S.int("ny", 1),), "int")
        piv = S.new("works.piv.singlepass:FirstWorkPIV", ixvecs=self.ix, iyvecs=self.iy,
                    params=S.ns("params", piv0=S.ns("piv0", nb_peaks_to_search=nb_peaks), mask=S.ns("mask", strcrop=None)),
                    correl=S.ns("correl", apply_subpix=self.subpix))
        self.work = S.new(FIX + ":WorkFIX", piv_work=piv,
                          params_fix=S.ns("fix", correl_min=self.cmin, displacement_max=self.dmax,
                                          threshold_diff_neighbour=self.thr))
        kw = {}
        if second_pass:
            self.ux, self.uy = S.arr("input_x", (N,), "int"), S.arr("input_y", (N,), "int")
            kw = dict(deltaxs_input=self.ux, deltays_input=self.uy)
        if peaks is not None:
            kw.update(secondary_peaks=peaks, correls=S.list("maps", N))
        self.res = S.new("data_objects.piv:HeavyPIVResults", deltaxs=self.dx, deltays=self.dy, correls_max=self.co,
                         errors=errors, **kw)

    def member(self, inv, key):
        return lambda q: z3.And(inv(ze(q)) >= 0, inv(ze(q)) < ze(self.nerr), key(inv(ze(q))) == ze(q))

    def subpix(self, I, *a):
        raise NotImplementedError

    def limits(self, q):
        """the criteria which fail for vector q: (error before, correlation, displacement, neighbours)"""
        x, y, c = self.x0((q,)), self.y0((q,)), self.c0((q,))
        had = self.had(q)
        low = And(Not(nanof(c)), ze(c) < ze(self.cmin))
        valid = And(Not(had), Not(nanof(x)), Not(nanof(y)))
        far = z3.BoolVal(False)
        if self.dmax is not None:
            far = And(valid, Not(low), ze(self.dmax) != 0, ze(x * x + y * y) > ze(self.dmax * self.dmax))
        neigh = z3.BoolVal(False)
        if self.thr is not None:
            mx, my = self.mx.at((q,)), self.my.at((q,))
            ddx, ddy = ze(mx) - ze(x), ze(my) - ze(y)
            neigh = And(valid, Not(low), Not(far), Not(nanof(mx)), Not(nanof(my)),
                        ddx * ddx + ddy * ddy > ze(self.thr) * ze(self.thr))
        return had, low, far, neigh


def validation(S, dmax, thr):
    c = Scene(S, S.int("nb_peaks", 0, 1), dmax, thr)
    r = S.meth(c.work, "calcul", c.res)
    S.cover("requires")
    S.ens("the result is the field", z3.BoolVal(r is c.res))
    q = S.idx("q", c.N)
    had, low, far, neigh = c.limits(q)
    bad = Or(had, low, far, neigh)
    errors = S.attr(r, "errors")
    wx, wy = S.attr(r, "deltaxs_wrong"), S.attr(r, "deltays_wrong")
    x, y = S.attr(r, "deltaxs").at((q,)), S.attr(r, "deltays").at((q,))
    S.ens("correlations unchanged", S.eq(S.attr(r, "correls_max").at((q,)), c.c0((q,))))
    o = S.int("o")
    S.ens("no other explanation", Implies(Or(o < 0, o >= c.N), And(Not(S.contains(errors, o)), Not(S.contains(wx, o)))))
    if c.given:
        u, v = c.given["u"]((q,)), c.given["v"]((q,))
        gone = Or(had, low, far)
        S.ens("the neighbours are those accepted before",
              And(Implies(gone, And(nanof(u), nanof(v))),
                  Implies(Not(gone), And(S.eq(u, c.x0((q,))), S.eq(v, c.y0((q,)))))))
        S.ens("grid", z3.BoolVal(c.given["iy"] is c.iy and c.given["ix"] is c.ix))
    if not S.when(bad):
        S.ens("accepted: no explanation", Not(S.contains(errors, q)))
        S.ens("accepted: no rejected value", And(Not(S.contains(wx, q)), Not(S.contains(wy, q))))
        S.ens("accepted: unchanged", And(S.eq(x, c.x0((q,))), S.eq(y, c.y0((q,)))))
        return
    if S.when(had):
        text = c.text(q)
        if S.when(low):
            text = text + (" + " + LOW)
    elif S.when(low):
        text = LOW
    elif S.when(far):
        text = FAR
    else:
        text = None
    S.ens("rejected: an explanation", S.contains(errors, q))
    S.ens("rejected: the values are kept", And(S.contains(wx, q), S.contains(wy, q)))
    S.ens("rejected: not a number", And(nanof(x), nanof(y)))
    S.ens("the original value is kept", And(S.eq(S.get(wx, q), c.x0((q,))), S.eq(S.get(wy, q), c.y0((q,)))))
    t = S.get(errors, q)
    S.ens("the explanation names the failed criterion",
          S.eq(t, text) if text is not None else z3.PrefixOf(z3.StringVal(NEIGH), ze(t)))


@contract("C08")
def correlation_only(S):
    """every field, every set of previous errors, no maximum displacement, no threshold"""
    validation(S, False, False)


@contract("C08")
def displacement(S):
    """every field, every maximum displacement"""
    validation(S, True, False)


@contract("C08")
def neighbours(S):
    """every field, every threshold"""
    validation(S, False, True)


@contract("C08")
def all_criteria(S):
    """every field, every maximum displacement and threshold"""
    validation(S, True, True)


def secondary(S, second_pass, dmax, thr, limit):
    """every field and every number (at most `limit`) of secondary peaks of each vector"""
    E = S.E
    npk = E.fresh_fun("number_peaks", "int", "int")
    px, py, pc = (E.fresh_fun("peak_" + c, "int", "int", "int" if c != "c" else "real") for c in "xyc")
    def peaks_of(k):
        k = ze(k)
        for n in range(-1, limit):
            if E.branch(npk(k) == n):
                break
        else:
            n = limit
        if n < 0:
            return None
        return values.VList([(Sv(px(k, z3.IntVal(j)), "int"), Sv(py(k, z3.IntVal(j)), "int"), Sv(pc(k, z3.IntVal(j)), "real"))
                             for j in range(n)])
    N = z3.Int("N")
    c = Scene(S, 2, dmax, thr, peaks=values.VList(n=Sv(N, "int"), get=peaks_of), second_pass=second_pass)
    assert ze(c.N).eq(N)
    k = z3.Int("k!peaks")
    S.req(z3.ForAll([k], z3.And(npk(k) >= -1, npk(k) <= limit), patterns=[npk(k)]))
    S.req(c.cmin >= 0)
    sx, sy = (E.fresh_fun("subpix_" + d, "int", "int", "obj", "real") for d in "xy")
    bad = E.fresh_fun("subpix_error", "int", "int", "obj", "bool")
    def subpix(I, x, y, m):
        if E.branch(bad(ze(x), ze(y), ze(m))):
            S.raise_("fluidimage.calcul.errors:PIVError")
        return Sv(sx(ze(x), ze(y), ze(m)), "real"), Sv(sy(ze(x), ze(y), ze(m)), "real")
    c.res.attrs["replaced_vectors"] = S.map("replaced", "int")
    c.work.attrs["piv_work"].attrs["correl"].attrs["apply_subpix"] = subpix
    maps = S.attr(c.res, "correls")
    r = S.meth(c.work, "calcul", c.res)
    S.cover("requires")
    q = S.idx("q", c.N)
    had, low, far, neigh = c.limits(q)
    rejected = Or(had, low, far, neigh)
    errors, wx, wy = S.attr(r, "errors"), S.attr(r, "deltaxs_wrong"), S.attr(r, "deltays_wrong")
    x, y, cm = S.attr(r, "deltaxs").at((q,)), S.attr(r, "deltays").at((q,)), S.attr(r, "correls_max").at((q,))
    rep = S.attr(r, "replaced_vectors")
    ux, uy = (c.ux.at((q,)), c.uy.at((q,))) if second_pass else (0, 0)
    if not S.when(S.contains(rep, q)):
        S.ens("not replaced: the correlation is unchanged", S.eq(cm, c.c0((q,))))
        if S.when(rejected):
            S.ens("not replaced, rejected: an explanation", And(S.contains(errors, q), S.contains(wx, q), S.contains(wy, q)))
            S.ens("not replaced: not a number", And(nanof(x), nanof(y)))
            S.ens("not replaced: the value is kept", And(S.eq(S.get(wx, q), c.x0((q,))), S.eq(S.get(wy, q), c.y0((q,)))))
        else:
            S.ens("not replaced, accepted: no explanation", And(Not(S.contains(errors, q)), Not(S.contains(wx, q)), Not(S.contains(wy, q))))
            S.ens("not replaced: unchanged", And(S.eq(x, c.x0((q,))), S.eq(y, c.y0((q,)))))
        return
    S.cover("replaced")
    S.ens("replaced: no longer flagged as wrong", And(Not(S.contains(errors, q)), Not(S.contains(wx, q)), Not(S.contains(wy, q))))
    old = S.get(rep, q)
    for name, v, v0 in zip("xyc", (S.get(old, j) for j in range(3)), (c.x0, c.y0, c.c0)):
        S.ens("replaced: previous value kept " + name, S.eq(v, v0((q,))))
    m = ze(S.get(maps, q))
    cases = []
    for j in range(limit):
        jx, jy, jc = px(ze(q), z3.IntVal(j)), py(ze(q), z3.IntVal(j)), pc(ze(q), z3.IntVal(j))
        ax, ay = jx + ze(ux), jy + ze(uy)
        ok = [npk(ze(q)) > j, jc > ze(c.cmin), Not(bad(jx, jy, m)), S.eq(cm, Sv(jc, "real")),
              S.eq(x, Sv(sx(jx, jy, m), "real") + ux), S.eq(y, Sv(sy(jx, jy, m), "real") + uy)]
        if dmax:
            ok.append(Or(ze(c.dmax) == 0, z3.ToReal(ax * ax + ay * ay) <= ze(c.dmax) * ze(c.dmax)))
        if thr:
            ex, ey = ze(c.mx.at((q,))) - z3.ToReal(ax), ze(c.my.at((q,))) - z3.ToReal(ay)
            ok.append(ex * ex + ey * ey <= ze(c.thr) * ze(c.thr))
        cases.append(And(*ok))
    S.ens("replaced: a peak which satisfies the limits", Or(*cases))


@contract("C08", bounded="at most one secondary peak per vector")
def one_peak(S):
    """every field, second pass, every limit"""
    secondary(S, True, True, True, 1)


@contract("C08", bounded="at most two secondary peaks per vector")
def two_peaks(S):
    """every field, first pass, every threshold"""
    secondary(S, False, False, True, 2)


@contract("C08", bounded="at most one secondary peak per vector")
def one_peak_without_threshold(S):
    """every field, first pass, every maximum displacement"""
    secondary(S, False, True, False, 1)
