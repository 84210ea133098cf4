"""C05: the direct correlation equals its definition for every window shape."""
from pyvc.spec import *

CO = "calcul.correl"


def overlap(n0, n1, off, d):
    """first pixel of the second window and number of its pixels which are on the first window, for a shift"""
    lo = vmax(0, 0 - (off + d))
    hi = vmin(n0 - off - d, n1)
    return lo, hi - lo


@contract("C05")
def direct_correlation(S):
    """every pair of shapes (the second one not larger) and every maximum for which the windows always overlap"""
    ny0, nx0, ny1, nx1 = S.int("ny0", 1), S.int("nx0", 1), S.int("ny1", 1), S.int("nx1", 1)
    S.req(And(ny1 <= ny0, nx1 <= nx0))
    D = S.int("disp_max", 0)
    offy, offx = ny0 // 2 - ny1 // 2, nx0 // 2 - nx1 // 2
    for off, n0, n1 in ((offy, ny0, ny1), (offx, nx0, nx1)):
        S.req(And(n1 + off - D >= 1, n0 - off - D >= 1))
    im0, im1 = S.arr("im0", (ny0, nx0)), S.arr("im1", (ny1, nx1))
    r = S.call(CO + ":correl_numpy", im0, im1, D)
    S.cover("requires")
    m = S.get(r, 0)
    S.ens("size of the map", S.eq(m.shape, (2 * D + 1, 2 * D + 1)))
    ky, kx = S.idx("ky", 2 * D + 1), S.idx("kx", 2 * D + 1)
    # the map position (ky, kx) is the shift (ky - D, kx - D)
    dy, dx = ky - D, kx - D
    cases = lambda off, n0, n1, d: [And(d <= 0, off + d < 0), And(d <= 0, off + d >= 0),
                                    And(d > 0, off + d + n1 <= n0), And(d > 0, off + d + n1 > n0)]
    for cy in cases(offy, ny0, ny1, dy):
        for cx in cases(offx, nx0, nx1, dx):
            ly, cnty = overlap(ny0, ny1, offy, dy)
            lx, cntx = overlap(nx0, nx1, offx, dx)
            tot = S.sum(cnty, lambda iy: S.sum(cntx, lambda ix: im1.at((ly + iy, lx + ix)) * im0.at(
                (ly + iy + offy + dy, lx + ix + offx + dx)), real=True), real=True)
            got = m.at((ky, kx))
            S.ens("mean of the products of the overlapping pixels, times the size of the second window", Implies(
                And(cy, cx), ze(got) == ze(tot) / ze(cnty * cntx, "real") * ze(ny1 * nx1, "real")))
    sq = [S.sum(n, lambda i: S.sum(m_, lambda j: im.at((i, j)) * im.at((i, j)), real=True), real=True)
          for im, n, m_ in ((im0, ny0, nx0), (im1, ny1, nx1))]
    norm = S.get(r, 1)
    S.ens("the norm is the product of the root sums of squares", Implies(ze(sq[0]) * ze(sq[1]) >= 0, And(
        ze(norm) >= 0, ze(norm) * ze(norm) == ze(sq[0]) * ze(sq[1]))))


@contract("C05")
def norm_of_images(S):
    """_norm_images, for every pair of shapes (equal or different)"""
    ny0, nx0, ny1, nx1 = S.int("ny0", 1), S.int("nx0", 1), S.int("ny1", 1), S.int("nx1", 1)
    im0, im1 = S.arr("im0", (ny0, nx0)), S.arr("im1", (ny1, nx1))
    norm = S.call(CO + ":_norm_images", im0, im1)
    S.cover("requires")
    def squares(im, ny, nx):
        def f(k):
            x = im.at((k // nx, k % nx))
            return x * x
        return S.sum(ny * nx, f, real=True)
    a, b = squares(im0, ny0, nx0), squares(im1, ny1, nx1)
    S.ens("the norm is the product of the root sums of squares", Implies(ze(a) * ze(b) >= 0, And(
        ze(norm) >= 0, ze(norm) * ze(norm) == ze(a) * ze(b))))
