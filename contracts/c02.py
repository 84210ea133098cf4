"""C02: PIV grid and interrogation windows stay inside the padded images."""
from pyvc.spec import *

SP = "works.piv.singlepass"


def worker(S, cls="FirstWorkPIV", crop=True, **attrs):
    """a PIV work with arbitrary window shapes (second one not larger than the first one)"""
    w = S.new(f"{SP}:{cls}", **attrs)
    s0 = (S.int("h0", 1), S.int("w0", 1))
    s1 = (S.int("h1", 1), S.int("w1", 1))
    S.req(And(s1[0] <= s0[0], s1[1] <= s0[1]))
    w.attrs["shape_crop_im0"], w.attrs["shape_crop_im1"] = s0, s1
    if crop:
        S.meth(w, "_init_crop")
    return w, s0, s1


@contract("C02")
def declared_shapes(S):
    """_init_shape_crop: integers or pairs, second shape None or given"""
    w = S.new(SP + ":FirstWorkPIV")
    def shape(name):
        a = S.int(name + "_y", 1)
        if S.when(S.bool(name + "_is_int")):
            return a, (a, a)
        b = S.int(name + "_x", 1)
        return ((a, b) if S.when(S.bool(name + "_tuple")) else VList([a, b])), (a, b)
    arg0, s0 = shape("shape0")
    if S.when(S.bool("shape1_none")):
        arg1, s1 = None, s0
    else:
        arg1, s1 = shape("shape1")
    S.cover("requires")
    _, exc = S.attempt(lambda: S.meth(w, "_init_shape_crop", arg0, arg1))
    ok = And(s1[0] <= s0[0], s1[1] <= s0[1])
    if exc is not None:
        S.ens("refused only if the second window is larger", And(S.exc_is(exc, ValueError), Not(ok)))
        return
    S.ens("a larger second window is refused", ok)
    S.ens("first shape", S.eq(w.attrs["shape_crop_im0"], s0))
    S.ens("second shape", S.eq(w.attrs["shape_crop_im1"], s1))


@contract("C02")
def grid(S):
    """every image larger than the window, every overlap smaller than one giving a step of at least one pixel"""
    w, s0, s1 = worker(S)
    ov = S.real("overlap")
    S.req(ov < 1)
    w.attrs["overlap"] = ov
    ly, lx = S.int("len_y", 2), S.int("len_x", 2)
    S.req(And(ly > s0[0], lx > s0[1]))
    _, exc = S.attempt(lambda: S.meth(w, "_prepare_with_image", imshape=(ly, lx)))
    if exc is not None:
        S.ens("the only refusal is a step smaller than one pixel", S.exc_is(exc, AssertionError))
        return
    S.cover("requires")
    vec = {}
    for name, L, s in (("y", ly, s0[0]), ("x", lx, s0[1])):
        v = S.attr(w, f"i{name}vecs")
        n = v.shape[0]
        vec[name] = (v, n)
        half = s // 2
        S.ens(f"at least one position ({name})", n >= 1)
        S.ens(f"first position ({name})", v.at((0,)) == half)
        i = S.idx("i", n)
        S.ens(f"the window lies inside the image ({name})", And(v.at((i,)) - half >= 0, v.at((i,)) - half + s <= L))
        k = S.idx("k", n - 1)
        S.ens(f"increasing ({name})", v.at((k,)) < v.at((k + 1,)))
        q = S.idx("q", n - 2)
        S.ens(f"regular, the last step may be smaller ({name})", And(
            v.at((k + 1,)) - v.at((k,)) <= v.at((1,)) - v.at((0,)),
            v.at((q + 1,)) - v.at((q,)) == v.at((1,)) - v.at((0,))))
        d = v.at((1,)) - v.at((0,))
        S.ens(f"no position is missing at the end ({name})",
              Implies(n >= 3, v.at((n - 1,)) + d >= L - (s - half)))
        S.ens(f"the step is the window size times one minus the overlap, rounded ({name})",
              Implies(n >= 3, And(2 * (d - s * (1 - ov)) <= 1, 2 * (d - s * (1 - ov)) >= -1)))
    gx, gy = S.attr(w, "ixvecs_grid"), S.attr(w, "iyvecs_grid")
    (vx, nx), (vy, ny) = vec["x"], vec["y"]
    S.ens("number of vectors", And(S.eq(gx.shape, (nx * ny,)), S.eq(gy.shape, (nx * ny,))))
    a, b = S.idx("a", ny), S.idx("b", nx)
    S.ens("every pair of positions, x changing first", And(S.eq(gx.at((a * nx + b,)), vx.at((b,))),
                                                          S.eq(gy.at((a * nx + b,)), vy.at((a,)))))


def images(S, ly, lx):
    im0, im1 = S.arr("im0", (ly, lx)), S.arr("im1", (ly, lx))
    return im0, im1


@contract("C02")
def padded_images(S):
    """_pad_images: the pixel p of the image is the pixel p + npad, zeros around, and the margin is enough for
    every window whose centre lies in the image"""
    w, s0, s1 = worker(S)
    ly, lx = S.int("len_y", 1), S.int("len_x", 1)
    im0, im1 = images(S, ly, lx)
    p0, p1 = S.meth(w, "_pad_images", im0, im1)
    S.cover("requires")
    npad = S.attr(w, "npad")
    S.ens("margin", And(npad >= s0[0] // 2, npad >= s0[1] // 2, npad >= s0[0] - s0[0] // 2, npad >= s0[1] - s0[1] // 2))
    for n, im, pad in (("0", im0, p0), ("1", im1, p1)):
        S.ens("shape " + n, S.eq(pad.shape, (ly + 2 * npad, lx + 2 * npad)))
        a, b, a2, b2 = S.idx("a", ly), S.idx("b", lx), S.idx("a2", ly), S.idx("b2", lx)
        d = pad.at((a + npad, b + npad)) - im.at((a, b))
        S.ens("pixels minus a constant " + n, pad.at((a2 + npad, b2 + npad)) - im.at((a2, b2)) == d)
        S.ens("not negative " + n, pad.at((a + npad, b + npad)) >= 0)
        y, x = S.idx("y", ly + 2 * npad), S.idx("x", lx + 2 * npad)
        out = Or(y < npad, y >= ly + npad, x < npad, x >= lx + npad)
        S.ens("zeros around " + n, Implies(out, pad.at((y, x)) == 0))


@contract("C02")
def windows(S):
    """_crop_im0/_crop_im1: for every centre in the image (borders included), the window has exactly the declared
    shape and its pixels are those around the centre, all in the padded image"""
    w, s0, s1 = worker(S)
    ly, lx = S.int("len_y", 1), S.int("len_x", 1)
    im0, im1 = images(S, ly, lx)
    p0, p1 = S.meth(w, "_pad_images", im0, im1)
    npad = S.attr(w, "npad")
    cy, cx = S.int("cy", 0, ly), S.int("cx", 0, lx)
    S.cover("requires")
    for n, s, pad in (("0", s0, p0), ("1", s1, p1)):
        win = S.meth(w, "_crop_im" + n, cx + npad, cy + npad, pad)
        S.ens("declared shape " + n, S.eq(win.shape, s))
        a, b = S.idx("a", s[0]), S.idx("b", s[1])
        y, x = cy + npad - s[0] // 2 + a, cx + npad - s[1] // 2 + b
        S.ens("inside the padded image " + n, And(y >= 0, y < pad.shape[0], x >= 0, x < pad.shape[1]))
        S.ens("pixels " + n, S.eq(win.at((a, b)), pad.at((y, x))))


@contract("C02")
def window_positions_first_pass(S):
    """without approximate displacement both windows are centred on the grid point"""
    w, s0, s1 = worker(S, npad=S.int("npad", 1))
    n = S.int("n", 1)
    gx, gy = S.arr("gx", (n,), "int"), S.arr("gy", (n,), "int")
    w.attrs.update(ixvecs_grid=gx, iyvecs_grid=gy)
    r = S.meth(w, "_calcul_positions_vectors_subimages", None, None)
    S.cover("requires")
    i = S.idx("i", n)
    npad = w.attrs["npad"]
    at = lambda k: r[k].at((i,))
    x, y = gx.at((i,)), gy.at((i,))
    S.ens("vector at the grid point", And(S.eq(at(0), x), S.eq(at(1), y)))
    S.ens("centres of both windows", And(at(2) == x + npad, at(3) == y + npad, at(4) == x + npad, at(5) == y + npad))
    S.ens("sizes", And(*[S.eq(a.shape, (n,)) for a in r]))


@contract("C02")
def window_positions_shifted(S):
    """with an approximate displacement"""
    w, s0, s1 = worker(S, "WorkPIVFromDisplacement", npad=S.int("npad", 1))
    n = S.int("n", 1)
    ly, lx = S.int("len_y", 1), S.int("len_x", 1)
    w.attrs["imshape0"] = (ly, lx)
    gx, gy = S.arr("gx", (n,), "int"), S.arr("gy", (n,), "int")
    dx, dy = S.arr("dx", (n,), "int"), S.arr("dy", (n,), "int")
    w.attrs.update(ixvecs_grid=gx, iyvecs_grid=gy)
    i = S.idx("i", n)
    x, y, u, v = gx.at((i,)), gy.at((i,)), dx.at((i,)), dy.at((i,))
    r = S.meth(w, "_calcul_positions_vectors_subimages", dx, dy)
    npad = w.attrs["npad"]
    xs, ys, x0, y0, x1, y1 = [a.at((i,)) for a in r]
    x0, y0, x1, y1 = x0 - npad, y0 - npad, x1 - npad, y1 - npad
    S.cover("requires", And(x >= 0, y >= 0, x <= lx, y <= ly))
    S.ens("windows shifted by exactly the displacement", And(x1 - x0 == u, y1 - y0 == v))
    S.ens("the vector is midway", And(2 * xs == x0 + x1, 2 * ys == y0 + y1))
    inside = lambda a, b: And(a >= 0, a <= lx, b >= 0, b <= ly)
    S.req(inside(x, y))
    S.ens("both centres in the image if only the second window can be moved",
          Implies(inside(x + u, y + v), And(inside(x0, y0), inside(x1, y1))))
    S.ens("both centres in the image if only the first window can be moved",
          Implies(inside(x - u, y - v), And(inside(x0, y0), inside(x1, y1))))
    S.ens("shared shift when possible", Implies(And(inside(x + u, y + v), inside(x - u, y - v)), And(
        2 * x0 + u - 2 * x <= 1, 2 * x - 2 * x0 - u <= 1, 2 * y0 + v - 2 * y <= 1, 2 * y - 2 * y0 - v <= 1)))
    S.ens("grid unchanged", And(gx.at((i,)) == x, gy.at((i,)) == y, dx.at((i,)) == u, dy.at((i,)) == v))


@contract("C02")
def loop_over_vectors(S):
    """_loop_vectors: each vector is computed from its own two windows and the displacement reported is the one of
    the correlation plus the shift; a window of a bad shape is reported as an error"""
    w = S.new(f"{SP}:WorkPIVFromDisplacement")
    s0, s1 = (S.int("h0", 1), S.int("w0", 1)), (S.int("h1", 1), S.int("w1", 1))
    w.attrs["shape_crop_im0"], w.attrs["shape_crop_im1"] = s0, s1
    n = S.int("n", 1)
    xs, ys = S.arr("xs", (n,)), S.arr("ys", (n,))
    pos = [S.arr(k, (n,), "int") for k in ("x0", "y0", "x1", "y1")]
    p0, p1 = S.ns(k=0), S.ns(k=1)
    npass, ip = S.int("npass", 1), S.int("index_pass", 0)
    w.attrs.update(index_pass=ip, params=S.ns(multipass=S.ns(number=npass)))
    w.attrs["_pad_images"] = lambda I, a, b: (p0, p1)
    shifted = S.when(S.bool("shifted"))
    w.attrs["_calcul_positions_vectors_subimages"] = lambda I, a, b: (xs, ys, *pos)
    sh = [S.E.fresh_fun(f"sh{k}", "int", "int", "int") for k in range(4)]
    tag = S.E.fresh_fun("tag", "int", "int", "int", "int", "obj")
    f = {k: S.E.fresh_fun(k, "int", "int", "int", "int", "real") for k in ("dx", "dy", "cm", "ex", "ey", "ec", "sx", "sy")}
    fails = S.E.fresh_fun("peak_fails", "int", "int", "int", "int", "bool")
    subfails = S.E.fresh_fun("subpix_fails", "int", "int", "int", "int", "bool")
    err = "calcul.errors:PIVError"
    def crop(k, pad):
        def c(I, x, y, im):
            S.ens(f"window {k} is read in the padded image {k}", im.attrs["k"] == k)
            return S.ns(x=x, y=y, shape=(mk(sh[2 * k](ze(x), ze(y))), mk(sh[2 * k + 1](ze(x), ze(y)))))
        return c
    w.attrs["_crop_im0"], w.attrs["_crop_im1"] = crop(0, p0), crop(1, p1)
    class Correl: pass
    def key(c):
        return [ze(c.attrs[k]) for k in ("x0", "y0", "x1", "y1")]
    def correl(I, a, b):
        return S.ns(x0=a.attrs["x"], y0=a.attrs["y"], x1=b.attrs["x"], y1=b.attrs["y"]), S.ns(norm=1)
    def disp(I, c, norm=None):
        k = key(c)
        if S.when(fails(*k)):
            S.raise_(err, explanation="no peak", results=(mk(f["ex"](*k)), mk(f["ey"](*k)), mk(f["ec"](*k))))
        return mk(f["dx"](*k)), mk(f["dy"](*k)), mk(f["cm"](*k)), None
    def subpix(I, dx, dy, c):
        k = key(c)
        if S.when(subfails(*k)):
            S.raise_(err, explanation="subpix")
        return mk(f["sx"](*k)), mk(f["sy"](*k))
    w.attrs["correl"] = S.ns(__call__=correl, compute_displacements_from_correl=disp, apply_subpix=subpix)
    u, v = S.arr("u", (n,), "int"), S.arr("v", (n,), "int")
    S.cover("requires")
    r = S.meth(w, "_loop_vectors", S.ns(), S.ns(), *((u, v) if shifted else ()))
    i = S.idx("i", n)
    k = [ze(a.at((i,))) for a in pos]
    shape_ok = And(*[sh[j](*k[2 * (j // 2):2 * (j // 2) + 2]) == ze(s) for j, s in enumerate(s0 + s1)])
    dx, dy, cm = r[0].at((i,)), r[1].at((i,)), r[4].at((i,))
    zx, zy = (u.at((i,)), v.at((i,))) if shifted else (0, 0)
    bad, sub = fails(*k), And(ip == npass - 1, Not(subfails(*k)))
    S.ens("bad shape: not a number", Implies(Not(shape_ok), And(nanof(dx), nanof(dy), nanof(cm))))
    S.ens("no peak: values of the error", Implies(And(shape_ok, bad), And(
        ze(dx) == f["ex"](*k) + ze(zx), ze(dy) == f["ey"](*k) + ze(zy), ze(cm) == f["ec"](*k))))
    S.ens("displacement of the correlation plus the shift", Implies(And(shape_ok, Not(bad)), And(
        ze(dx) == z3.If(sub, f["sx"](*k), f["dx"](*k)) + ze(zx), ze(dy) == z3.If(sub, f["sy"](*k), f["dy"](*k)) + ze(zy),
        ze(cm) == f["cm"](*k))))
    S.ens("not a number only if the shape is bad", Implies(shape_ok, Not(Or(nanof(dx), nanof(dy)))))
    S.ens("an error is recorded exactly for the vectors concerned", S.contains(r[6], i) == Or(
        Not(shape_ok), bad, And(ip == npass - 1, subfails(*k))))
    S.ens("positions", And(S.eq(r[2].at((i,)), xs.at((i,))), S.eq(r[3].at((i,)), ys.at((i,)))))
    S.ens("sizes", And(*[S.eq(r[j].shape, (n,)) for j in (0, 1, 4)]))


@contract("C02")
def second_pass(S):
    """WorkPIVFromDisplacement.calcul: the shift of a vector is the approximate displacement rounded to the nearest
    integer, along the same axis, and everything the loop returns is reported unexchanged"""
    n = S.int("n", 1)
    ax, ay = S.arr("ax", (n,)), S.arr("ay", (n,))
    i = S.idx("i", n)
    w = S.new(f"{SP}:WorkPIVFromDisplacement", ixvecs_grid=S.ns(), iyvecs_grid=S.ns(), params=S.ns())
    im = (S.ns(k=0), S.ns(k=1))
    couple = S.new("data_objects.piv:ArrayCouple", get_arrays=lambda I: im)
    res = S.new("data_objects.piv:HeavyPIVResults", couple=couple)
    done = []
    def interp(I, r, last=False):
        r.attrs["deltaxs_approx"], r.attrs["deltays_approx"] = ax, ay
        done.append("interp")
    out = [S.ns(k=k) for k in ("deltaxs", "deltays", "xs", "ys", "correls_max", "correls", "errors", "secondary_peaks")]
    def loop(I, a, b, u, v):
        S.ens("images in order", a is im[0] and b is im[1])
        done.append("loop")
        for nm, s, t in (("x", u, ax), ("y", v, ay)):
            d = s.at((i,)) - t.at((i,))
            S.ens("nearest integer " + nm, And(2 * d <= 1, 2 * d >= -1))
            S.ens("integer " + nm, kind(s.at((i,))) == "int")
        S.E.shifts = (u, v)
        return tuple(out)
    w.attrs.update(apply_interp=interp, _loop_vectors=loop,
                   _xyoriginalimage_from_xymasked=lambda I, x, y: (S.ns(k="orig", of=x), S.ns(k="orig", of=y)),
                   correl=S.ns(get_indices_no_displacement=lambda I: (1, 2), displacement_max=3))
    S.cover("requires")
    r = S.meth(w, "calcul", res)
    S.ens("interpolation then one loop over the vectors", done == ["interp", "loop"])
    for k in (0, 1, 4, 5, 6, 7):
        name = out[k].attrs["k"]
        S.ens(name, S.attr(r, name).attrs.get("k") == name)
    S.ens("positions", S.attr(r, "xs").attrs["of"] is out[2] and S.attr(r, "ys").attrs["of"] is out[3])
    S.ens("shifts kept with the result", S.attr(r, "deltaxs_input") is S.E.shifts[0] and
          S.attr(r, "deltays_input") is S.E.shifts[1])


@contract("C02")
def first_pass(S):
    """BaseWorkPIV.calcul: the images of the couple are given in order and the results are reported unexchanged"""
    im = (S.ns(k=0, shape=(5, 6)), S.ns(k=1, shape=(5, 6)))
    couple = S.new("data_objects.piv:ArrayCouple", get_arrays=lambda I: im, apply_mask=lambda I, m: None)
    done = []
    out = [S.ns(k=k) for k in ("deltaxs", "deltays", "xs", "ys", "correls_max", "correls", "errors", "secondary_peaks")]
    w = S.new(f"{SP}:FirstWorkPIV", params=S.ns(mask=None))
    def prepare(I, im0=None, imshape=None):
        S.ens("grid of the first image", im0 is im[0] or imshape == (5, 6))
        done.append("prepare")
        w.attrs["ixvecs_grid"] = S.ns()
    def loop(I, a, b, u=None, v=None):
        S.ens("images in order", a is im[0] and b is im[1] and u is None and v is None)
        done.append("loop")
        return tuple(out)
    w.attrs.update(_prepare_with_image=prepare, _loop_vectors=loop,
                   _xyoriginalimage_from_xymasked=lambda I, x, y: (S.ns(k="orig", of=x), S.ns(k="orig", of=y)),
                   correl=S.ns(get_indices_no_displacement=lambda I: (1, 2), displacement_max=3))
    S.cover("requires")
    r = S.meth(w, "calcul", couple)
    S.meth(w, "calcul", couple)
    S.ens("the grid is prepared once, before the first loop", done == ["prepare", "loop", "loop"])
    for k in (0, 1, 4, 5, 6, 7):
        name = out[k].attrs["k"]
        S.ens(name, S.attr(r, name).attrs.get("k") == name)
    S.ens("positions", S.attr(r, "xs").attrs["of"] is out[2] and S.attr(r, "ys").attrs["of"] is out[3])
