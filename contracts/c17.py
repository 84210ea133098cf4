"""C17: calibrations map pixels and physical space consistently"""
import z3
from pyvc.spec import *
from pyvc.models import MODELS

SIMPLE = "calibration.calib2d_simple:Calibration2DSimple"
TSAI = "calibration.calib_tsai:Calibration"
UTIL = "calibration.util:"


@contract("C17")
def simple(S):
    """Calibration2DSimple: affine, the two points at the given distance, displacements = differences of positions"""
    p0, p1 = (S.real("y0"), S.real("x0")), (S.real("y1"), S.real("x1"))
    distance, ratio = S.real("distance"), S.real("aspect_ratio")
    S.req(ze(distance) > 0)
    S.req(ze(ratio) > 0)
    S.req(Or(ze(p0[0]) != ze(p1[0]), ze(p0[1]) != ze(p1[1])))
    shape = (S.int("height", 1), S.int("width", 1))
    origin, phys = (S.real("iy_origin"), S.real("ix_origin")), (S.real("yphys_origin"), S.real("xphys_origin"))
    if S.choose(2, "shape of the image"):
        how = dict(shape_image=shape)
    else:
        S.stub("calibration.calib2d_simple:imread", lambda I, p: S.arr("image", shape))
        S.model("fluiddyn.io.image.imread", lambda I, p: S.arr("image", shape))
        how = dict(path_image=S.str("path"))
    given = S.choose(2, "origin")
    if given:
        how.update(point_origin=origin, orig_phys=phys)
    else:
        origin, phys = (0, 0), (0, 0)
    c = S.call(SIMPLE, p0, p1, distance, aspect_ratio_pixel=ratio, **how)
    S.ens("shape of the image", S.eq(c.attrs["shape_image"], shape))
    x, y = S.meth(c, "pix2phys", origin[1], origin[0])
    S.ens("the reference pixel is at the reference position", And(ze(x, "real") == ze(phys[1], "real"), ze(y, "real") == ze(phys[0], "real")))
    xa, ya = S.meth(c, "pix2phys", p0[1], p0[0])
    xb, yb = S.meth(c, "pix2phys", p1[1], p1[0])
    S.ens("distance of the two points", (ze(xb) - ze(xa)) * (ze(xb) - ze(xa)) + (ze(yb) - ze(ya)) * (ze(yb) - ze(ya)) == ze(distance) * ze(distance))
    n = S.int("n", 1)
    q = S.idx("q", n)
    a = [S.arr(k, (n,)) for k in ("ix", "iy", "dx", "dy")]
    v = [u.at((q,)) for u in a]
    args = a if S.choose(2, "arrays") else v
    el = lambda u: ze(u.at((q,)) if isinstance(u, Arr) else u, "real")
    X, Y, DX, DY = [el(u) for u in S.meth(c, "displ2phys", *args)]
    ix, iy, dx, dy = [ze(u, "real") for u in v]
    xq, yq = [el(u) for u in S.meth(c, "pix2phys", *args[:2])]
    S.ens("positions of the displacements", And(X == xq, Y == yq))
    x2, y2 = S.meth(c, "pix2phys", Sv(ix + dx, "real"), Sv(iy + dy, "real"))
    S.ens("horizontal displacement", DX == ze(x2, "real") - X)
    S.ens("vertical displacement", DY == ze(y2, "real") - Y)
    e1, f1 = S.meth(c, "pix2phys", Sv(ix + 1, "real"), Sv(iy + 1, "real"))
    S.ens("same direction of the axes", ze(e1, "real") > X)
    S.ens("aspect ratio of the pixel", ze(f1, "real") - Y == ze(ratio) * (ze(e1, "real") - X))
    for u, w in zip(a, v):
        S.ens("the arguments are not modified", ze(u.at((q,)), "real") == ze(w, "real"))
    S.cover("end")


@contract("C17")
def plane_equation(S):
    """get_plane_equation: the plane through (0, 0, z0) inclined around one of the axes"""
    z0, alpha, beta = S.real("z0"), S.real("alpha"), S.real("beta")
    out, exc = S.attempt(lambda: S.call(UTIL + "get_plane_equation", z0, alpha, beta))
    both = And(ze(alpha) != 0, ze(beta) != 0)
    if exc is not None:
        S.ens("refused only for two angles", And(both, S.exc_is(exc, ValueError)))
        S.cover("refused")
        return
    S.ens("two angles are refused", Not(both))
    a, b, c, d = [ze(u, "real") for u in out]
    cos, sin = (lambda t: ze(MODELS["math.cos"](S.I, t), "real")), (lambda t: ze(MODELS["math.sin"](S.I, t), "real"))
    S.ens("the point at the height z0", c * ze(z0) + d == 0)
    S.ens("unit normal", a * a + b * b + c * c == 1)
    S.ens("rotation around x", Implies(ze(beta) == 0, And(a == 0, b == -sin(alpha), c == cos(alpha))))
    S.ens("rotation around y", Implies(ze(alpha) == 0, And(a == sin(beta), b == 0, c == cos(beta))))
    S.cover("end")


@contract("C17")
def base(S):
    """get_base_from_normal_vector: an orthonormal, direct base whose last vector is along the normal"""
    n = [S.real(k) for k in ("nx", "ny", "nz")]
    S.req(ze(n[2]) > 0)
    inv = []

    def inverse(I, a):
        inv.append(a)
        return S.ns("inverse", mark="inverse")
    S.model("numpy.linalg.inv", inverse)
    A, B = S.call(UTIL + "get_base_from_normal_vector", *n)
    S.ens("the second result is the inverse of the first", z3.BoolVal(inv == [A] and B.attrs["mark"] == "inverse"))
    e = [[ze(A.at((i, j)), "real") for i in range(3)] for j in range(3)]
    for i in range(3):
        for j in range(i, 3):
            S.ens(f"vectors {i} and {j}", sum(u * v for u, v in zip(e[i], e[j])) == (1 if i == j else 0))
    N = [ze(u) for u in n]
    for i in range(2):
        S.ens(f"last vector along the normal, component {i}", e[2][i] * N[2] == e[2][2] * N[i])
    S.ens("last vector in the direction of the normal", e[2][2] > 0)
    det = sum(e[0][i] * (e[1][(i + 1) % 3] * e[2][(i + 2) % 3] - e[1][(i + 2) % 3] * e[2][(i + 1) % 3]) for i in range(3))
    S.ens("direct base", det == 1)
    S.cover("end")


class Camera:
    """a calibration without distortion"""
    def __init__(self, S, refraction, distortion=False):
        self.S = S
        self.f, self.C, self.T = [[S.real(k + "_" + c) for c in comps] for k, comps in (("f", "xy"), ("C", "xy"), ("T", "xyz"))]
        self.R = [S.real(f"R{i}") for i in range(9)]
        S.req(And(ze(self.f[0]) != 0, ze(self.f[1]) != 0))
        self.nb = S.int("nb_slice", 1)
        self.coord, self.angle = S.arr("zslice_coord", (self.nb, 3)), S.arr("slice_angle", (self.nb, 3))
        self.index = S.idx("index_level", self.nb)
        self.kc = S.real("kc") if distortion else 0
        self.refraction = refraction
        params = dict(f=S.list(*self.f) if False else VList(list(self.f)), C=self.vector(self.C), T=self.vector(self.T), R=self.vector(self.R), kc=self.kc,
                      slices=S.ns("slices", zslice_coord=self.coord, slice_angle=self.angle, nb_slice=self.nb))
        if refraction:
            self.H, self.n = S.real("H"), S.real("refraction_index")
            S.req(ze(self.n) > 0)
            params.update(interface_coord=VList([S.real("xi"), S.real("yi"), self.H]), refraction_index=self.n)
        self.obj = S.new(TSAI, params=S.ns("params", **params))

    def vector(self, v):
        return new_arr((len(v),), lambda p: v[p[0]] if not isinstance(p[0], Sv) else self.pick(v, p[0]), "real")

    def pick(self, v, i):
        r = v[-1]
        for k in range(len(v) - 1):
            r = ite(ze(i) == k, v[k], r)
        return r

    def plane(self, angle):
        """(position, normal) of the plane of the slice"""
        S = self.S
        p = [ze(self.coord.at((self.index, i)), "real") for i in range(3)]
        w = [ze(self.angle.at((self.index, i)), "real") for i in range(3)]
        flat = And(*[u == 0 for u in w])
        if not angle or S.when(flat):
            return p, [z3.RealVal(k) for k in (0, 0, 1)]
        om = MODELS["numpy.linalg.norm"](S.I, new_arr((3,), lambda q: self.angle.at((self.index, q[0])), "real"))
        om = ze(om, "real")
        S.ens("the angle is not zero", om != 0)
        S.nonzero(om)
        u = [k / om for k in w]
        rad = Sv(z3.Real("pi") * om / 180, "real")
        cos, sin = (ze(MODELS["numpy." + k](S.I, rad), "real") for k in ("cos", "sin"))
        # the vertical axis after the rotation
        ez = [u[2] * u[i] * (1 - cos) for i in range(3)]
        ez[0] = ez[0] + u[1] * sin
        ez[1] = ez[1] - u[0] * sin
        ez[2] = ez[2] + cos
        S.nonzero(ez[2])
        return p, ez


@contract("C17")
def tsai(S):
    """Calibration: from a point of the plane to the pixels and back"""
    S.E.solver.linear = True
    cam = Camera(S, S.choose(2, "refraction"))
    angle = S.choose(2, "angle")
    p, e = cam.plane(angle)
    inclined = not z3.is_rational_value(e[2])
    x, y = [S.real(k) for k in "xy"]                    # in m, as the results
    cx, cy = ze(x) * 100, ze(y) * 100
    cz = p[2] - (e[0] * (cx - p[0]) + e[1] * (cy - p[1])) / e[2]
    z0 = (e[0] * p[0] + e[1] * p[1] + e[2] * p[2]) / e[2]
    virtual = lambda h: h
    slope = 1
    if cam.refraction:
        H, n = ze(cam.H), ze(cam.n)
        S.req((H > cz) == (H > z0))                     # the plane does not cross the interface
        if S.when(H > cz):
            virtual = lambda h: H - (H - h) / n
            slope = n
    z = cz / 100
    R, T = [ze(r) for r in cam.R], [ze(t) for t in cam.T]
    # the point is not at the level of the camera, and the camera is not in the (virtual) plane
    zc = R[6] * cx + R[7] * cy + R[8] * virtual(cz) + T[2]
    S.nonzero(zc)
    A = [[R[3 * i + j] - R[3 * i + 2] * e[j] / e[2] / slope for j in range(2)] for i in range(3)]
    o = [T[i] + R[3 * i + 2] * virtual(z0) for i in range(3)]
    det = sum(o[i] * (A[(i + 1) % 3][0] * A[(i + 2) % 3][1] - A[(i + 2) % 3][0] * A[(i + 1) % 3][1]) for i in range(3))
    S.nonzero(det)
    m = S.int("nb_points", 1)
    q = S.idx("q", m)
    kind = not angle and S.choose(2, "arrays")
    f = [S.E.fresh_fun(k, "int", "real") for k in ("xs", "ys", "zs")]
    arrays = [new_arr((m,), lambda i, g=g: Sv(g(ze(i[0])), "real"), "real") for g in f]
    if kind:
        for g, v in zip(f, (ze(x), ze(y), z)):
            S.req(g(ze(q)) == v)
        args = arrays
    else:
        args = [x, y, Sv(z, "real")]
    el = lambda u: ze(u.at((q,)) if isinstance(u, Arr) else u, "real")
    X, Y = S.meth(cam.obj, "phys2pix", *args)
    if kind:
        for a, v in zip(arrays, (ze(x), ze(y), z)):
            S.ens("phys2pix does not modify its arguments", el(a) == v)
        S.E.assume(And(*[g(ze(q)) == v for g, v in zip(f, (ze(x), ze(y), z))]))
    # the projection of a point
    zv = virtual(cz)
    pc = [R[3 * i] * cx + R[3 * i + 1] * cy + R[3 * i + 2] * zv + T[i] for i in range(3)]
    sub = lambda t: z3.substitute(t, *[(g(ze(q)), v) for g, v in zip(f, (ze(x), ze(y), z))])
    X1, Y1 = sub(el(X)), sub(el(Y))
    pix = [ze(cam.f[i]) * pc[i] / pc[2] + ze(cam.C[i]) for i in range(2)]
    S.ens("horizontal pixel", X1 == pix[0])
    S.ens("vertical pixel", Y1 == pix[1])
    X1, Y1 = pix
    nbypix = S.int("nbypix", 1)
    bx, by, bz = S.meth(cam.obj, "pix2phys", Sv(X1, "real"), Sv(z3.ToReal(ze(nbypix)) - Y1, "real"), cam.index, nbypix, **({} if angle else dict(angle=False)))
    S.ens("x back", el(bx) == ze(x))
    S.ens("y back", el(by) == ze(y))
    S.ens("z back", el(bz) == z)
    S.cover("inclined" if inclined else "horizontal")


@contract("C17")
def tsai_displacements(S):
    """Calibration.pix2phys_UV: positions of the vectors, differences of the positions of their ends"""
    n = S.int("n", 1)
    q = S.idx("q", n)
    a = [S.arr(k, (n,)) for k in ("X", "Y", "dx", "dy")]
    index, nbypix = S.int("index_level", 0), S.int("nbypix", 1)
    f = [S.E.fresh_fun("phys_" + c, "real", "real", "real") for c in "xyz"]
    angle = [None, True, False][S.choose(3, "angle")]

    def pix2phys(I, self, X, Y, index_level, nbypix_=None, angle_=True, **k):
        nb = k.get("nbypix", nbypix_)
        an = k.get("angle", angle_)
        S.ens("level, number of pixels and angle are those given", And(ze(index_level) == ze(index), ze(nb) == ze(nbypix), z3.BoolVal(an is (True if angle is None else angle))))
        return tuple(new_arr((n,), lambda p, g=g: Sv(g(ze(X.at(p), "real"), ze(Y.at(p), "real")), "real"), "real") for g in f)
    S.stub(TSAI + ".pix2phys", pix2phys)
    c = S.new(TSAI, params=S.ns("params"))
    out = S.meth(c, "pix2phys_UV", *a, index, nbypix, **({} if angle is None else dict(angle=angle)))
    x, y, dx, dy = [ze(u.at((q,)), "real") for u in a]
    for i, k in enumerate("xyz"):
        S.ens(f"position {k}", ze(out[i].at((q,)), "real") == f[i](x, y))
        S.ens(f"displacement {k}", ze(out[3 + i].at((q,)), "real") == f[i](x + dx / 2, y + dy / 2) - f[i](x - dx / 2, y - dy / 2))
    S.cover("end")
