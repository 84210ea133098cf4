"""C09: the mean over neighbours uses exactly the valid nearest neighbours."""
from pyvc.spec import *

MN = "calcul.mean_neighbors:mean_neighbors_xy"


@contract("C09")
def mean_of_neighbours(S):
    """every grid of at least two by two, every pattern of nan, every value"""
    n0, n1 = S.int("n0", 2), S.int("n1", 2)
    u, v = S.arr("u", (n0 * n1,), nan=True), S.arr("v", (n0 * n1,), nan=True)
    ux0, vx0 = u.getter(), v.getter()
    iy, ix = S.arr("iy", (n0,), "int"), S.arr("ix", (n1,), "int")
    mx, my = S.call(MN, u, v, iy, ix)
    S.cover("requires")
    i, j = S.idx("i", n0), S.idx("j", n1)
    flat = lambda a, b: a * n1 + b
    def val(f, a, b):
        inside = And(a >= 0, a < n0, b >= 0, b < n1)
        k = (flat(a, b),)
        ok = And(inside, Not(nanof(ux0(k))), Not(nanof(vx0(k))))
        return ok, f(k)
    for name, f, res in (("x", ux0, mx), ("y", vx0, my)):
        S.ens("size " + name, S.eq(res.shape, (n0 * n1,)))
        num, den = z3.RealVal(0), z3.IntVal(0)
        for a in (-1, 0, 1):
            for b in (-1, 0, 1):
                if a or b:
                    ok, x = val(f, i + a, j + b)
                    num = num + z3.If(ok, ze(x), 0)
                    den = den + z3.If(ok, 1, 0)
        valid = val(f, i, j)[0]
        got = res.at((flat(i, j),))
        S.ens("nan if and only if missing or without neighbour " + name, nanof(got) == Or(Not(valid), den == 0))
        S.ens("mean of the valid neighbours " + name,
              Implies(And(valid, den > 0), ze(got) == num / z3.ToReal(den)))
    q = S.idx("q", n0 * n1)
    S.ens("inputs unchanged", And(S.eq(u.at((q,)), ux0((q,))), S.eq(v.at((q,)), vx0((q,)))))
