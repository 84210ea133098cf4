"""C18: operations on vector fields keep each vector at its position.

Grids of any shape (two by two at least) and any values (not-a-number included)."""
import z3
from pyvc.spec import *
from pyvc.core import NAN, Undischarged

VF = "postproc.vector_field:VectorFieldOnGrid"
AF = "postproc.vector_field:ArrayOfVectorFieldsOnGrid"


def regular(S):
    S.stub("postproc.vector_field:_is_regular", lambda I, x: S.bool("regular"))


class Field:
    def __init__(self, S, name="f", shape=None, increasing=True, vz=None, z=None):
        self.S = S
        self.ny, self.nx = shape or (S.int("ny", 2), S.int("nx", 2))
        sh = (self.ny, self.nx)
        self.x, self.y = S.arr("x", (self.nx,)), S.arr("y", (self.ny,))
        self.vx, self.vy = S.arr(name + "_vx", sh, nan=True), S.arr(name + "_vy", sh, nan=True)
        self.i, self.j = S.idx("i", self.ny), S.idx("j", self.nx)
        vz = S.choose(3, "vz") if vz is None else vz
        self.vz = [S.real("vz"), S.arr(name + "_vz", sh, nan=True), NAN][vz]
        z = S.choose(3, "z") if z is None else z
        self.z = [None, S.real("z"), S.arr("z", sh)][z]
        if increasing:
            self.increasing(self.x, self.nx)
            self.increasing(self.y, self.ny)

    def increasing(self, x, n):
        a, b = z3.Ints("a b")
        f = lambda q: ze(x.at((Sv(q, "int"),)))
        self.S.req(z3.ForAll([a, b], Implies(And(a >= 0, a < b, b < ze(n)), f(a) < f(b))))
        self.S.req(f(0) < f(z3.IntVal(1)))

    def obj(self):
        S = self.S
        return S.new(VF, x=self.x, y=self.y, z=self.z, vx=self.vx, vy=self.vy, vz=self.vz, history=VList(["fluidimage"]),
                     is_grid_regular=S.bool("is_regular"), name="name", params=None, namevx="vx")


def value(S, a, i, j):
    return a.at((i, j)) if isinstance(a, Arr) else a


def same_value(S, what, a, b):
    S.ens(what, And(nanof(a) == nanof(b), Or(nanof(a), ze(a, "real") == ze(b, "real"))))


def shapes(S, r, ny, nx, f):
    S.ens("size of the axes", And(*[ze(u) == ze(v) for u, v in [(r.attrs["x"].shape[0], nx), (r.attrs["y"].shape[0], ny)]]))
    for n in ("vx", "vy", "vz", "z"):
        a = r.attrs[n]
        if isinstance(a, Arr) and a.ndim == 2:
            S.ens(f"shape of {n}", And(ze(a.shape[0]) == ze(ny), ze(a.shape[1]) == ze(nx)))
        elif n in ("vx", "vy"):
            S.ens(f"shape of {n}", z3.BoolVal(False))


def node(S, r, q, p, f, i, j):
    """the node (q, p) of r is the node (i, j) of f, with its vector"""
    S.ens("x of the vector", S.eq(r.attrs["x"].at((p,)), f.x.at((j,))))
    S.ens("y of the vector", S.eq(r.attrs["y"].at((q,)), f.y.at((i,))))
    for n in ("vx", "vy", "vz", "z"):
        a, b = r.attrs[n], getattr(f, n)
        if b is None:
            S.ens("no z", z3.BoolVal(a is None))
        else:
            S.ens(f"kind of {n}", z3.BoolVal(isinstance(a, Arr) == isinstance(b, Arr)))
            same_value(S, f"{n} of the vector", value(S, a, q, p), value(S, b, i, j))


@contract("C18")
def orientation(S):
    """VectorFieldOnGrid.__init__: increasing axes, each vector at its coordinates"""
    f = Field(S, increasing=False)
    regular(S)
    sx, sy = [1, -1][S.choose(2)], [1, -1][S.choose(2)]
    a, b = z3.Ints("a b")
    for x, n, s in ((f.x, f.nx, sx), (f.y, f.ny, sy)):
        g = lambda q, x=x: ze(x.at((Sv(q, "int"),)))
        S.req(z3.ForAll([a, b], Implies(And(a >= 0, a < b, b < ze(n)), g(a) < g(b) if s > 0 else g(a) > g(b))))
        S.req(g(0) < g(z3.IntVal(1)) if s > 0 else g(0) > g(z3.IntVal(1)))
    r = S.call(VF, f.x, f.y, f.z, f.vx, f.vy, f.vz)
    q = f.i if sy > 0 else Sv(ze(f.ny) - 1 - ze(f.i), "int")
    p = f.j if sx > 0 else Sv(ze(f.nx) - 1 - ze(f.j), "int")
    shapes(S, r, f.ny, f.nx, f)
    node(S, r, q, p, f, f.i, f.j)
    for ax, n in (("x", f.nx), ("y", f.ny)):
        u, v = S.idx("u", n), S.idx("v", n)
        S.req(u < v)
        g = lambda q: ze(r.attrs[ax].at((q,)))
        S.ens(f"{ax} is increasing", g(u) < g(v))


def operands_kept(S, o, before):
    S.ens("the field is not modified", z3.BoolVal(all(o.attrs[k] is v for k, v in before.items())))


@contract("C18")
def extraction(S):
    """extract: the sub-arrays"""
    f = Field(S)
    o = f.obj()
    before = dict(o.attrs)
    a0, a1, b0, b1 = S.int("start0", 0), S.int("stop0"), S.int("start1", 0), S.int("stop1")
    S.req(And(a0 < a1, a1 <= f.ny, b0 < b1, b1 <= f.nx))
    r = S.meth(o, "extract", a0, a1, b0, b1)
    shapes(S, r, Sv(ze(a1) - ze(a0), "int"), Sv(ze(b1) - ze(b0), "int"), f)
    S.req(And(ze(f.i) >= ze(a0), ze(f.i) < ze(a1), ze(f.j) >= ze(b0), ze(f.j) < ze(b1)))
    node(S, r, Sv(ze(f.i) - ze(a0), "int"), Sv(ze(f.j) - ze(b0), "int"), f, f.i, f.j)
    operands_kept(S, o, before)


def extract_contract(S):
    """the contract of extract (above): what it is asked for"""
    asked = []

    def extract(I, self, start0, stop0, start1, stop1, phys=False):
        asked.append(tuple(Sv(ze(x), "int") for x in (start0, stop0, start1, stop1)) + (phys,))
        return S.ns("extracted")
    S.stub(VF + ".extract", extract)
    return asked


@contract("C18")
def truncation(S):
    """truncate: the borders are dropped"""
    f = Field(S, vz=0, z=0)
    asked = extract_contract(S)
    cut = S.int("cut", 0)
    S.req(And(2 * ze(cut) < ze(f.ny), 2 * ze(cut) < ze(f.nx)))
    S.meth(f.obj(), "truncate", cut)
    S.ens("one extraction, with indices", z3.BoolVal(len(asked) == 1 and asked[0][4] is False))
    a0, a1, b0, b1, _ = [ze(x) if not isinstance(x, bool) else x for x in asked[0]]
    S.ens("cut on each side", And(a0 == cut.e, a1 == ze(f.ny) - cut.e, b0 == cut.e, b1 == ze(f.nx) - cut.e))


@contract("C18")
def square(S):
    """extract_square: a square of the announced size, in the field and centred"""
    f = Field(S, vz=0, z=0)
    asked = extract_contract(S)
    cut = S.int("cut", 0)
    even = [True, False][S.choose(2)]
    S.req(And(2 * ze(cut) < ze(f.ny) - 1, 2 * ze(cut) < ze(f.nx) - 1))
    S.meth(f.obj(), "extract_square", cut, even)
    S.ens("one extraction, with indices", z3.BoolVal(len(asked) == 1 and asked[0][4] is False))
    a0, a1, b0, b1, _ = [ze(x) if not isinstance(x, bool) else x for x in asked[0]]
    ny, nx, c = ze(f.ny), ze(f.nx), cut.e
    n = z3.If(nx < ny, nx, ny) - 2 * c
    if even:
        n = n - n % 2
    S.ens("a square of the announced size", And(a1 - a0 == n, b1 - b0 == n))
    S.ens("inside of the field, without the borders", And(a0 >= c, a1 <= ny - c, b0 >= c, b1 <= nx - c))
    for s, e, m in ((a0, a1, ny), (b0, b1, nx)):
        S.ens("centred", And(s - (m - e) <= 1, (m - e) - s <= 1))


@contract("C18")
def regularisation(S):
    """regularize_grid: only the last column or line is dropped, when this makes the grid regular"""
    f = Field(S, vz=[0, 2][S.choose(2)], z=S.choose(2))
    o = f.obj()
    S.req(And(ze(f.nx) >= 3, ze(f.ny) >= 3))
    state = {}

    def is_regular(I, x):
        k = ("x" if z3.eq(ze(x.at((0,))), ze(f.x.at((0,)))) else "y", z3.simplify(ze(x.shape[0])).sexpr())
        if k not in state:
            state[k] = S.bool("regular_" + k[0])
        return state[k]
    S.stub("postproc.vector_field:_is_regular", is_regular)
    r, exc = S.attempt(lambda: S.meth(o, "regularize_grid"))
    get = lambda ax, n: state.get((ax, z3.simplify(ze(n)).sexpr()))
    if exc is not None:
        S.ens("refused", z3.BoolVal(S.exc_is(exc, NotImplementedError)))
        return
    nx2, ny2 = o.attrs["x"].shape[0], o.attrs["y"].shape[0]
    S.ens("at most the last column", Or(ze(nx2) == ze(f.nx), ze(nx2) == ze(f.nx) - 1))
    S.ens("at most the last line", Or(ze(ny2) == ze(f.ny), ze(ny2) == ze(f.ny) - 1))
    shapes(S, o, ny2, nx2, f)
    S.req(And(ze(f.i) < ze(ny2), ze(f.j) < ze(nx2)))
    node(S, o, f.i, f.j, f, f.i, f.j)


OPS = dict(add=("__add__", lambda a, b: a + b), sub=("__sub__", lambda a, b: a - b), mul=("__mul__", lambda a, b: a * b),
           truediv=("__truediv__", None))


@contract("C18")
def arithmetic(S):
    """sums, differences, products and quotients, vector by vector"""
    regular(S)
    op = ["add", "sub", "mul", "truediv"][S.choose(4)]
    name, fn = OPS[op]
    vz = S.choose(3, "vz")
    f = Field(S, "f", vz=vz, z=0)
    o = f.obj()
    before = dict(o.attrs)
    number = S.choose(2)
    if number:
        other = S.real("number")
        if op == "truediv":
            S.req(ze(other) != 0)
        g = {n: other for n in ("vx", "vy", "vz")}
    else:
        h = Field(S, "h", shape=(f.ny, f.nx), vz=vz, z=0)
        other = h.obj()
        before2 = dict(other.attrs)
        g = {n: getattr(h, n) for n in ("vx", "vy", "vz")}
        if op == "truediv":
            # the quotients by zero are left aside (infinities are not modelled)
            for n in g:
                v = value(S, g[n], f.i, f.j)
                S.req(Or(nanof(v), ze(v, "real") != 0))
    r = S.meth(o, name, other)
    S.ens("a field", z3.BoolVal(r is not o))
    shapes(S, r, f.ny, f.nx, f)
    S.ens("x", S.eq(r.attrs["x"].at((f.j,)), f.x.at((f.j,))))
    S.ens("y", S.eq(r.attrs["y"].at((f.i,)), f.y.at((f.i,))))
    for n in ("vx", "vy", "vz"):
        a, b = value(S, getattr(f, n), f.i, f.j), value(S, g[n], f.i, f.j)
        c = value(S, r.attrs[n], f.i, f.j)
        x, y, w = ze(a, "real"), ze(b, "real"), ze(c, "real")
        nan = Or(nanof(a), nanof(b))
        S.ens(f"{n}: not a number exactly as the operands", nanof(c) == nan)
        ok = w * y == x if op == "truediv" else w == fn(x, y)
        S.ens(f"{n}: {op}", Or(nan, ok))
    operands_kept(S, o, before)
    if not number:
        operands_kept(S, other, before2)
    if op in ("add", "mul") and number:
        rr = S.meth(o, "__r" + name[2:], other)
        if rr is not o:
            c, d = value(S, rr.attrs["vx"], f.i, f.j), value(S, r.attrs["vx"], f.i, f.j)
            same_value(S, "commutes with numbers", c, d)
        else:
            S.ens("the field itself is given back for zero only", And(z3.BoolVal(op == "add"), ze(other) == 0))


@contract("C18")
def physical_extraction(S):
    """extract with physical bounds: exactly the vectors between the bounds"""
    f = Field(S, vz=0, z=0)
    o = f.obj()
    lo0, hi0, lo1, hi1 = S.real("y_min"), S.real("y_max"), S.real("x_min"), S.real("x_max")
    X = lambda q: ze(f.x.at((Sv(ze(q), "int"),)))
    Y = lambda q: ze(f.y.at((Sv(ze(q), "int"),)))
    # there is a vector between the bounds
    yi, xi = S.idx("some_line", f.ny), S.idx("some_column", f.nx)
    S.req(And(Y(yi) >= ze(lo0), Y(yi) <= ze(hi0), X(xi) >= ze(lo1), X(xi) <= ze(hi1)))
    r = S.meth(o, "extract", lo0, hi0, lo1, hi1, phys=True)
    rx, ry = r.attrs["x"], r.attrs["y"]
    S.ens("not empty", And(ze(rx.shape[0]) >= 1, ze(ry.shape[0]) >= 1))

    def start(g):
        # index of the first node which is kept
        t = z3.simplify(ze(g.at((0,))))
        S.ens("nodes of the axis", z3.BoolVal(t.num_args() == 1))
        return t.arg(0)
    s0, s1 = start(ry), start(rx)
    q, p = S.idx("q", ry.shape[0]), S.idx("p", rx.shape[0])
    i, j = Sv(s0 + ze(q), "int"), Sv(s1 + ze(p), "int")
    S.ens("nodes of the field", And(ze(i) >= 0, ze(i) < ze(f.ny), ze(j) >= 0, ze(j) < ze(f.nx)))
    S.ens("between the bounds (y)", And(Y(i) >= ze(lo0), Y(i) <= ze(hi0)))
    S.ens("between the bounds (x)", And(X(j) >= ze(lo1), X(j) <= ze(hi1)))
    node(S, r, q, p, f, i, j)
    # a node between the bounds is kept
    S.ens("all the lines between the bounds", Implies(And(Y(f.i) >= ze(lo0), Y(f.i) <= ze(hi0)), And(
        ze(f.i) >= s0, ze(f.i) < s0 + ze(ry.shape[0]))))
    S.ens("all the columns between the bounds", Implies(And(X(f.j) >= ze(lo1), X(f.j) <= ze(hi1)), And(
        ze(f.j) >= s1, ze(f.j) < s1 + ze(rx.shape[0]))))


@contract("C18")
def reshaping(S):
    """reshape_on_grid_final: each vector at the node which has its coordinates"""
    ny, nx = S.int("ny", 2), S.int("nx", 2)
    X, Y = S.E.fresh_fun("column", "int", "real"), S.E.fresh_fun("line", "int", "real")
    sx, sy = [1, -1][S.choose(2)], [1, -1][S.choose(2)]
    x_last = S.choose(2)
    a, b = z3.Ints("a b")
    for g, n, s in ((X, nx, sx), (Y, ny, sy)):
        S.req(z3.ForAll([a, b], Implies(And(a >= 0, a < b, b < ze(n)), g(a) < g(b) if s > 0 else g(a) > g(b)), patterns=[z3.MultiPattern(g(a), g(b))]))
    N = Sv(ze(nx) * ze(ny), "int")
    xf, yf = S.arr("x_flat", (N,)), S.arr("y_flat", (N,))
    dx, dy = S.arr("deltaxs", (N,), nan=True), S.arr("deltays", (N,), nan=True)

    def vector(i, j):
        """the index of the vector of the node (i, j), and its coordinates"""
        i, j = [z3.IntVal(t) if isinstance(t, int) else ze(t) for t in (i, j)]
        k = i * ze(nx) + j if x_last else j * ze(ny) + i
        S.req(Implies(And(i >= 0, i < ze(ny), j >= 0, j < ze(nx)), And(
            k >= 0, k < ze(N), ze(xf.at((Sv(k, "int"),))) == X(j), ze(yf.at((Sv(k, "int"),))) == Y(i))))
        return Sv(k, "int")
    for i in range(2):
        for j in range(2):
            vector(i, j)
    S.req(And(ze(N) >= 4, ze(N) >= 2 * ze(nx), ze(N) >= 2 * ze(ny)))

    def unique(I, v, **k):
        # the distinct values, increasing
        if v is xf:
            return new_arr((nx,), lambda q: Sv(X(ze(q[0]) if sx > 0 else ze(nx) - 1 - ze(q[0])), "real"), "real")
        if v is yf:
            return new_arr((ny,), lambda q: Sv(Y(ze(q[0]) if sy > 0 else ze(ny) - 1 - ze(q[0])), "real"), "real")
        raise Undischarged("unique values of another array")
    S.I.unique_hook = unique
    r = S.call("postproc.util:reshape_on_grid_final", xf, yf, dx, dy)
    GX, GY, U, V = S.I.unpack(r, 4)
    for g in (GX, GY, U, V):
        S.ens("shape", And(ze(g.shape[0]) == ze(ny), ze(g.shape[1]) == ze(nx)) if g.ndim == 2 else False)
    i, j = S.idx("i", ny), S.idx("j", nx)
    k = vector(i, j)
    S.ens("x of the node", S.eq(GX.at((i, j)), xf.at((k,))))
    S.ens("y of the node", S.eq(GY.at((i, j)), yf.at((k,))))
    same_value(S, "x displacement of the node", U.at((i, j)), dx.at((k,)))
    same_value(S, "y displacement of the node", V.at((i, j)), dy.at((k,)))
    S.cover("end")


class Partial:
    """the partial sum of the fields 0, ..., k"""
    semantic = True

    def __init__(self, S, fields, n):
        self.S, self.fields, self.objects = S, fields, []
        self.n = Sv(z3.simplify(ze(n) - 1), "int")
        f = fields.first
        self.f = f
        E = S.E
        self.sums = {}
        for c in ("vx", "vy"):
            self.sums[c] = E.fresh_fun("sum_" + c, "int", "int", "int", "real")

    def partial(self, c, k, i, j):
        return self.sums[c](ze(k), ze(i), ze(j))

    def check(self, k):
        S, f = self.S, self.f
        for v in self.vars:
            r = S.I.frame.vars[v]
            shapes(S, r, f.ny, f.nx, f)
            S.ens("x", S.eq(r.attrs["x"].at((f.j,)), f.x.at((f.j,))))
            S.ens("y", S.eq(r.attrs["y"].at((f.i,)), f.y.at((f.i,))))
            for c in ("vx", "vy"):
                S.ens("the partial sum of the fields", ze(r.attrs[c].at((f.i, f.j)), "real") == self.partial(c, k, f.i, f.j))

    def establish(self):
        S, f = self.S, self.f
        fr = S.I.frame
        self.vars = [v for v in fr.vars if isinstance(fr.vars[v], Obj) and "vx" in fr.vars[v].attrs]
        # definition of the partial sums
        for c in ("vx", "vy"):
            S.req(self.partial(c, 0, f.i, f.j) == self.fields.value(c, 0, f.i, f.j))
        self.check(0)

    def havoc(self, k):
        self.k = k

    def fill(self):
        for v in self.vars:
            self.S.I.frame.vars[v] = self.carried_value(self.k)

    def start(self, k):
        S, f = self.S, self.f
        for c in ("vx", "vy"):
            S.req(self.partial(c, Sv(ze(k) + 1, "int"), f.i, f.j) == self.partial(c, k, f.i, f.j) + self.fields.value(c, Sv(ze(k) + 1, "int"), f.i, f.j))

    def carried_value(self, k):
        S, f = self.S, self.f
        a = {c: new_arr((f.ny, f.nx), lambda q, c=c: Sv(self.partial(c, k, q[0], q[1]), "real"), "real") for c in ("vx", "vy")}
        return S.new(VF, x=f.x, y=f.y, z=f.z, vx=a["vx"], vy=a["vy"], vz=NAN, history=VList(["fluidimage"]))

    def preserve(self, k):
        self.check(Sv(ze(k) + 1, "int"))


@contract("C18")
def time_average(S):
    """ArrayOfVectorFieldsOnGrid.compute_time_average: the mean of the vectors of a node"""
    regular(S)
    n = S.int("nb_fields", 1)
    f = Field(S, vz=2, z=0)
    val = {c: S.E.fresh_fun(c, "int", "int", "int", "real") for c in ("vx", "vy")}

    class Fields:
        first = f

        def value(self, c, k, i, j):
            return val[c](ze(k), ze(i), ze(j))
    fields = Fields()

    def field(k):
        a = {c: new_arr((f.ny, f.nx), lambda q, c=c: Sv(val[c](ze(k), ze(q[0]), ze(q[1])), "real"), "real") for c in ("vx", "vy")}
        return S.new(VF, x=f.x, y=f.y, z=f.z, vx=a["vx"], vy=a["vy"], vz=NAN, history=VList(["fluidimage"]))
    rule = Partial(S, fields, n)
    S.I.loop_rules = [rule]
    top = S.new(AF, _list=VList(n=n, get=field))
    r = S.meth(top, "compute_time_average")
    shapes(S, r, f.ny, f.nx, f)
    for c in ("vx", "vy"):
        S.ens("the sum of the fields divided by their number", ze(r.attrs[c].at((f.i, f.j)), "real") * z3.ToReal(ze(n)) ==
              rule.partial(c, Sv(ze(n) - 1, "int"), f.i, f.j))
    S.ens("x", S.eq(r.attrs["x"].at((f.j,)), f.x.at((f.j,))))
    S.ens("y", S.eq(r.attrs["y"].at((f.i,)), f.y.at((f.i,))))
    S.cover("end")
