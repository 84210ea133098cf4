"""C10: positions of cropped images are always reported in the original frame."""
from pyvc.spec import *
from pyvc import values

DP = "data_objects.piv"
SP = "works.piv.singlepass"
MASK = "works.with_mask:BaseWorkWithMask"


def crop_string(S):
    """a crop string with any combination of present bounds; (string, origin y, origin x, stop y, stop x)"""
    parts, origin, stops = [], [], []
    pattern = S.choose(16, "bounds present")
    for d, name in enumerate("yx"):
        lo = S.int("start_" + name, 0) if pattern >> (2 * d) & 1 else None
        hi = S.int("stop_" + name, 0) if pattern >> (2 * d + 1) & 1 else None
        t = (S.fmt(lo) if lo is not None else "") + ":" + (S.fmt(hi) if hi is not None else "")
        parts.append(t)
        origin.append(lo)
        stops.append(hi)
    return parts[0] + ", " + parts[1], origin, stops


@contract("C10")
def crop(S):
    """every image, every crop: pixel p of the cropped image is pixel p + origin of the image"""
    strcrop, origin, stops = crop_string(S)
    n0, n1 = S.int("n0", 1), S.int("n1", 1)
    im = S.arr("im", (n0, n1))
    v = im.getter()
    c = S.new(DP + ":ArrayCouple", params_mask=S.ns("mask", strcrop=strcrop))
    r = S.meth(c, "_mask_array", im)
    S.cover("requires")
    oy, ox = (0 if o is None else o for o in origin)
    for d, (o, st, n) in enumerate(zip((oy, ox), stops, (n0, n1))):
        hi = n if st is None else vmin(st, n)
        S.ens(f"size {d}", S.eq(r.shape[d], ite(hi > o, hi - o, 0)))
    i, j = S.idx("i", r.shape[0]), S.idx("j", r.shape[1])
    S.ens("pixel of the original image", S.eq(r.at((i, j)), v((i + oy, j + ox))))


@contract("C10")
def no_crop(S):
    """without crop the image is unchanged"""
    im = S.arr("im", (S.int("n0", 1), S.int("n1", 1)))
    mask = None if S.choose(2, "mask") else S.ns("mask", strcrop=None)
    c = S.new(DP + ":ArrayCouple", params_mask=mask)
    S.ens("same image", S.meth(c, "_mask_array", im) is im)
    w = S.new("works.piv.singlepass:FirstWorkPIV", params=S.ns("params", mask=S.ns("mask", strcrop=None)))
    xs, ys = S.arr("xs", (S.int("n", 0),)), S.arr("ys", (3,))
    for f in ("_xymasked_from_xyoriginalimage", "_xyoriginalimage_from_xymasked"):
        r = S.meth(w, f, xs, ys)
        S.ens("same positions", z3.BoolVal(S.get(r, 0) is xs and S.get(r, 1) is ys))
    S.cover("requires")


@contract("C10")
def frames(S):
    """every crop, every position: to the original frame (the position of the pixel) and back"""
    strcrop, origin, stops = crop_string(S)
    w = S.new("works.piv.singlepass:FirstWorkPIV", params=S.ns("params", mask=S.ns("mask", strcrop=strcrop)))
    oy, ox = (0 if o is None else o for o in origin)
    kd = ("int", "real")[S.choose(2, "type of the positions")]
    n, m = S.int("n", 0), S.int("m", 0)
    xs, ys = S.arr("xs", (n,), kd), S.arr("ys", (m,), kd)
    vx, vy = xs.getter(), ys.getter()
    X, Y = S.meth(w, "_xyoriginalimage_from_xymasked", xs, ys)
    i, j = S.idx("i", n), S.idx("j", m)
    S.cover("requires")
    S.ens("x in the original frame", S.eq(X.at((i,)), vx((i,)) + ox))
    S.ens("y in the original frame", S.eq(Y.at((j,)), vy((j,)) + oy))
    x2, y2 = S.meth(w, "_xymasked_from_xyoriginalimage", X, Y)
    S.ens("back to the cropped image", And(S.eq(x2.at((i,)), vx((i,))), S.eq(y2.at((j,)), vy((j,)))))
    S.ens("the positions given are not modified", And(S.eq(xs.at((i,)), vx((i,))), S.eq(ys.at((j,)), vy((j,)))))
    x3, y3 = S.meth(w, "_xyoriginalimage_from_xymasked", *S.meth(w, "_xymasked_from_xyoriginalimage", xs, ys))
    S.ens("to the cropped image and back", And(S.eq(x3.at((i,)), vx((i,))), S.eq(y3.at((j,)), vy((j,)))))


def work(S, cls, strcrop, **kw):
    params = S.ns("params", mask=S.ns("mask", strcrop=strcrop), **kw)
    correl = S.ns("correl", get_indices_no_displacement=lambda I: (0, 0), displacement_max=None)
    return S.new(f"{SP}:{cls}", params=params, correl=correl)


def origin_of(origin):
    return (0 if o is None else o for o in origin)


@contract("C10")
def reported_positions(S):
    """both passes: the positions of the result are those of the vectors of the cropped images, in the original frame"""
    strcrop, origin, stops = crop_string(S)
    oy, ox = origin_of(origin)
    second = S.choose(2, "pass")
    w = work(S, "WorkPIVFromDisplacement" if second else "FirstWorkPIV", strcrop)
    n = S.int("n", 1)
    xs, ys = S.arr("xs", (n,)), S.arr("ys", (n,))
    vx, vy = xs.getter(), ys.getter()
    dx, dy = S.arr("dx", (n,)), S.arr("dy", (n,))
    errors = S.ns("errors")
    n0, n1 = S.int("n0", 1), S.int("n1", 1)
    im0, im1 = S.arr("im0", (n0, n1)), S.arr("im1", (n0, n1))
    couple = S.new(DP + ":ArrayCouple", arrays=(im0, im1), params_mask=w.attrs["params"].attrs["mask"] if second else None)
    seen = {}
    def loop(I, *a):
        seen["images"] = a[1:3]
        return (dx, dy, xs, ys, None, None, errors, None)
    S.stub(SP + ":BaseWorkPIV._loop_vectors", loop)
    S.stub(SP + ":BaseWorkPIV._prepare_with_image", lambda I, *a, **k: None)
    if second:
        res0 = S.new(DP + ":HeavyPIVResults", couple=couple)
        approx = S.arr("approx", (n,))
        def interp(I, self, piv, last=False):
            piv.attrs["deltaxs_approx"] = approx
            piv.attrs["deltays_approx"] = approx
        S.stub(SP + ":BaseWorkPIV.apply_interp", interp)
        r = S.meth(w, "calcul", res0)
    else:
        r = S.meth(w, "calcul", couple)
    S.cover("requires")
    i = S.idx("i", n)
    S.ens("x in the original frame", S.eq(r.attrs["xs"].at((i,)), vx((i,)) + ox))
    S.ens("y in the original frame", S.eq(r.attrs["ys"].at((i,)), vy((i,)) + oy))
    S.ens("displacements", z3.BoolVal(r.attrs["deltaxs"] is dx and r.attrs["deltays"] is dy))
    if not second:
        a, b = seen["images"]
        S.ens("the cropped images are compared", And(*[S.eq(x.shape[0], y.shape[0]) for x, y in ((a, b),)]))
        p, q = S.idx("p", a.shape[0]), S.idx("q", a.shape[1])
        S.ens("first image", S.eq(a.at((p, q)), im0.at((p + oy, q + ox))))
        S.ens("second image", S.eq(b.at((p, q)), im1.at((p + oy, q + ox))))


@contract("C10")
def interpolated_positions(S):
    """the positions of the interpolated fields are those of the grid, in the original frame, and the known vectors are
    located in the frame of the grid for the interpolation"""
    strcrop, origin, stops = crop_string(S)
    oy, ox = origin_of(origin)
    n, m = S.int("n", 1), S.int("m", 1)
    w = work(S, "FirstWorkPIV", strcrop, multipass=S.ns("multipass", use_tps=False))
    gx, gy = S.arr("gx", (m,), "int"), S.arr("gy", (m,), "int")
    ix, iy = S.arr("ix", (S.int("mx", 1),), "int"), S.arr("iy", (S.int("my", 1),), "int")
    w.attrs.update(ixvecs_grid=gx, iyvecs_grid=gy, ixvecs=ix, iyvecs=iy)
    xs, ys = S.arr("xs", (n,)), S.arr("ys", (n,))
    vx, vy = xs.getter(), ys.getter()
    dx, dy = S.arr("dx", (n,), nan=True), S.arr("dy", (n,), nan=True)
    last = bool(S.choose(2, "last"))
    piv = S.new(DP + ":HeavyPIVResults", xs=xs, ys=ys, deltaxs=dx, deltays=dy)
    calls = []
    def grid(I, centers, values_, where):
        calls.append((centers, values_, where))
        return S.arr(f"field{len(calls)}", (m,), nan=True)
    S.stub(SP + ":griddata", grid)
    S.stub("calcul.interpolate.griddata:griddata", grid)
    r, exc = S.attempt(lambda: S.meth(w, "apply_interp", piv, last=last))
    S.cover("requires")
    suf = "final" if last else "approx"
    k = S.idx("k", m)
    if "ixvecs_" + suf not in piv.attrs:
        S.ens("positions of the interpolated field", False)
        return
    S.ens("x of the interpolated field", S.eq(piv.attrs["ixvecs_" + suf].at((k,)), gx.at((k,)) + ox))
    S.ens("y of the interpolated field", S.eq(piv.attrs["iyvecs_" + suf].at((k,)), gy.at((k,)) + oy))
    if exc is not None:
        return
    S.ens("two fields are interpolated", z3.BoolVal(len(calls) == 2))
    if len(calls) != 2:
        return
    for q, (c, val, where) in enumerate(calls):
        cx, cy = S.get(c, 0), S.get(c, 1)
        j = S.idx("j", val.shape[0])
        src = (dx, dy)[q]
        kk = z3.Int("known")
        # the j-th known vector is a vector of the result, at its position in the cropped image
        exists = z3.Exists([kk], And(kk >= 0, kk < ze(n), S.eq(val.at((j,)), src.at((Sv(kk, "int"),))),
                                     S.eq(cx.at((j,)), vx((Sv(kk, "int"),)) - ox),
                                     S.eq(cy.at((j,)), vy((Sv(kk, "int"),)) - oy)))
        S.ens("known vectors in the frame of the grid", exists)
        S.ens("interpolated on the grid", z3.BoolVal(S.get(where, 0) is ix and S.get(where, 1) is iy))
    S.ens("interpolated fields", z3.BoolVal("deltaxs_" + suf in piv.attrs and "deltays_" + suf in piv.attrs))


@contract("C10")
def smoothed_positions(S):
    """with the thin-plate splines: centres and new positions in the frame of the grid, smoothed field at the positions of
    the vectors in the original frame"""
    strcrop, origin, stops = crop_string(S)
    oy, ox = origin_of(origin)
    n = S.int("n", 1)
    w = work(S, "FirstWorkPIV", strcrop, multipass=S.ns(
        "multipass", use_tps=True, smoothing_coef=S.real("sc"), subdom_size=S.int("ss"), threshold_tps=S.real("tt")))
    gx, gy = S.arr("gx", (n,), "int"), S.arr("gy", (n,), "int")
    w.attrs.update(ixvecs_grid=gx, iyvecs_grid=gy)
    xs, ys = S.arr("xs", (n,)), S.arr("ys", (n,))
    vx, vy = xs.getter(), ys.getter()
    dx, dy = S.arr("dx", (n,), nan=True), S.arr("dy", (n,), nan=True)
    nx, ny = dx.getter(), dy.getter()
    piv = S.new(DP + ":HeavyPIVResults", xs=xs, ys=ys, deltaxs=dx, deltays=dy, couple=S.ns("couple", name="c"))
    seen = {"given": [], "smooth": [], "interp": []}
    T = "calcul.interpolate.thin_plate_spline_subdom:ThinPlateSplineSubdom"
    def init(I, self, centers, *a, **k):
        seen["centers"] = centers
    def weights(I, self, u):
        seen["given"].append(u)
        s = S.arr(f"smooth{len(seen['smooth'])}", (u.shape[0],))
        seen["smooth"].append(s)
        return (s, S.ns(f"tps{len(seen['smooth'])}"), VDict({"nb_fixed_vectors_tot": 0}))
    def new_pos(I, self, p):
        seen["new"] = p
    def interpolate(I, self, tps):
        f = S.arr(f"interp{len(seen['interp'])}", (n,))
        seen["interp"].append((tps, f))
        return f
    for name, f in (("__init__", init), ("compute_tps_weights_subdom", weights), ("init_with_new_positions", new_pos),
                    ("interpolate", interpolate)):
        S.stub(f"{T}.{name}", f)
    tag = T.split(":")[1]
    r, exc = S.attempt(lambda: S.meth(w, "apply_interp", piv, last=True))
    S.cover("requires")
    if exc is not None:
        S.ens("only without any valid vector", z3.BoolVal(getattr(getattr(exc, "cls", None), "name", "") == "InterpError"))
        return
    k = S.idx("k", n)
    S.ens("new positions", And(S.eq(seen["new"].at((1, k)), gx.at((k,))), S.eq(seen["new"].at((0, k)), gy.at((k,)))))
    c = seen["centers"]
    j = S.idx("j", c.shape[1])
    kk = z3.Int("known")
    K = Sv(kk, "int")
    S.ens("centres in the frame of the grid, with their displacements", z3.Exists([kk], And(
        kk >= 0, kk < ze(n), S.eq(c.at((0, j)), vy((K,)) - oy), S.eq(c.at((1, j)), vx((K,)) - ox),
        S.eq(seen["given"][0].at((j,)), nx((K,))), S.eq(seen["given"][1].at((j,)), ny((K,))))))
    good = And(Not(nanof(nx((k,)))), Not(nanof(ny((k,)))))
    X, Y = piv.attrs["xs_smooth"], piv.attrs["ys_smooth"]
    S.ens("smoothed field at the position of a valid vector", Implies(good, And(
        S.eq(X.at((k,)), vx((k,))), S.eq(Y.at((k,)), vy((k,))))))
    S.ens("smoothed field at the position of the grid elsewhere", Implies(Not(good), And(
        S.eq(X.at((k,)), gx.at((k,)) + ox), S.eq(Y.at((k,)), gy.at((k,)) + oy))))
    S.ens("interpolated where there is no vector", Implies(Not(good), And(
        S.eq(piv.attrs["deltaxs_smooth"].at((k,)), seen["interp"][0][1].at((k,))),
        S.eq(piv.attrs["deltays_smooth"].at((k,)), seen["interp"][1][1].at((k,))))))


@contract("C10")
def optical_flow_positions(S):
    """the positions of the optical flow are reported in the original frame"""
    strcrop, origin, stops = crop_string(S)
    oy, ox = origin_of(origin)
    of = "works.optical_flow"
    params = S.ns("params", mask=S.ns("mask", strcrop=strcrop), filters=S.ns(
        "filters", threshold_diff_ab_ba=None, displacement_min=None, displacement_max=None))
    w = S.new(of + ":WorkOpticalFlow", params=params, dict_params_features=None, dict_params_flow=None)
    n = S.int("n", 1)
    pos, dis = S.arr("positions", (n, 2)), S.arr("displacements", (n, 2))
    v, d = pos.getter(), dis.getter()
    n0, n1 = S.int("n0", 1), S.int("n1", 1)
    im0, im1 = S.arr("im0", (n0, n1)), S.arr("im1", (n0, n1))
    seen = {}
    def flow(I, a, b, *args, **k):
        seen["images"] = (a, b)
        return (pos, dis)
    S.stub(of + ":optical_flow", flow)
    couple = S.new(DP + ":ArrayCouple", arrays=(im0, im1), params_mask=None)
    r = S.meth(w, "calcul", couple)
    S.cover("requires")
    i = S.idx("i", n)
    S.ens("positions in the original frame", And(S.eq(r.attrs["xs"].at((i,)), v((i, 0)) + ox),
                                                 S.eq(r.attrs["ys"].at((i,)), v((i, 1)) + oy)))
    S.ens("displacements", And(S.eq(r.attrs["deltaxs"].at((i,)), d((i, 0))), S.eq(r.attrs["deltays"].at((i,)), d((i, 1)))))
    for x, im in zip(seen["images"], (im0, im1)):
        p, q = S.idx("p", x.shape[0]), S.idx("q", x.shape[1])
        S.ens("cropped images", S.eq(x.at((p, q)), im.at((p + oy, q + ox))))
