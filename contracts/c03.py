"""C03: correlation-map positions and displacements are in exact correspondence."""
from pyvc.spec import *
from pyvc import values

CO = "calcul.correl"
CLASSES = ["CorrelScipySignal", "CorrelScipyNdimage", "CorrelPythran", "CorrelPyCuda", "CorrelFFTNumpy", "CorrelFFTW",
           "CorrelCuFFT", "CorrelSKCuFFT"]


def any_class(S):
    n = S.choose(len(CLASSES), "correlation method")
    return CLASSES[n]


@contract("C03")
def correspondence(S):
    """every method, every origin: both conversions are inverse of each other, zero displacement at the origin, one
    pixel of the map is one pixel of displacement along the same axis"""
    cls = any_class(S)
    iy0, ix0 = S.int("iy0"), S.int("ix0")
    c = S.new(f"{CO}:{cls}", iy0=iy0, ix0=ix0)
    ix, iy = S.real("ix"), S.real("iy")
    if S.when(S.bool("integers")):
        ix, iy = S.int("jx"), S.int("jy")
    dx, dy = S.meth(c, "compute_displacement_from_indices", ix, iy)
    S.cover("requires")
    jx, jy = S.meth(c, "compute_indices_from_displacement", dx, dy)
    S.ens("from the position to the displacement and back", And(S.eq(jx, ix), S.eq(jy, iy)))
    ddx, ddy = S.meth(c, "compute_displacement_from_indices", *S.meth(c, "compute_indices_from_displacement", ix, iy))
    S.ens("from the displacement to the position and back", And(S.eq(ddx, ix), S.eq(ddy, iy)))
    o = S.meth(c, "get_indices_no_displacement")
    zx, zy = S.meth(c, "compute_displacement_from_indices", S.get(o, 1), S.get(o, 0))
    S.ens("zero displacement at the announced position", And(ze(zx) == 0, ze(zy) == 0))
    d2x, d2y = S.meth(c, "compute_displacement_from_indices", ix + 1, iy)
    S.ens("one pixel along x", And(Or(ze(d2x - dx) == 1, ze(d2x - dx) == -1), S.eq(d2y, dy)))
    d3x, d3y = S.meth(c, "compute_displacement_from_indices", ix, iy + 1)
    S.ens("one pixel along y", And(S.eq(d3x, dx), Or(ze(d3y - dy) == 1, ze(d3y - dy) == -1)))
    kx, ky = S.call(CO + ":compute_indices_from_displacement", dx, dy, o)
    S.ens("the function used by the display agrees", And(S.eq(kx, ix), S.eq(ky, iy)))


@contract("C03")
def subpixel_displacement(S):
    """the refinement is applied at the position of the displacement, and its shift is the shift of the displacement"""
    cls = any_class(S)
    c = S.new(f"{CO}:{cls}", iy0=S.int("iy0"), ix0=S.int("ix0"))
    dx, dy = S.int("dx"), S.int("dy")
    wx, wy = S.meth(c, "compute_indices_from_displacement", dx, dy)
    ex, ey = S.real("ex"), S.real("ey")
    correl = S.arr("correl", (S.int("n0", 1), S.int("n1", 1)))
    seen = {}
    def sub(I, a, x, y):
        seen.update(a=a, x=x, y=y)
        return (x + ex, y + ey)
    c.attrs["subpix"] = S.ns("subpix", compute_subpix=sub)
    r = S.meth(c, "apply_subpix", dx, dy, correl)
    S.cover("requires")
    S.ens("refinement of the given map", seen["a"] is correl)
    S.ens("at the position of the displacement", And(S.eq(seen["x"], wx), S.eq(seen["y"], wy)))
    wanted = S.meth(c, "compute_displacement_from_indices", wx + ex, wy + ey)
    S.ens("displacement of the refined position", S.eq(r, wanted))


def build(S, cls, s0, s1, **kw):
    S.stub("calcul.subpix:SubPix.__init__", lambda I, *a, **k: None)
    for f in ("CUFFT2DReal2Complex", "SKCUFFT2DReal2Complex", "FFTW2DReal2Complex", "NumpyFFT2DReal2Complex"):
        S.stub(f"calcul.fft:{f}.__init__", lambda I, *a, **k: None)
    return S.call(f"{CO}:{cls}", s0, s1, **kw)


def shapes(S, same=False):
    s0 = (S.int("h0", 2), S.int("w0", 2))
    if same:
        return s0, s0
    if S.when(S.bool("same_shapes")):
        return s0, s0
    s1 = (S.int("h1", 1), S.int("w1", 1))
    S.req(And(s1[0] <= s0[0], s1[1] <= s0[1]))
    return s0, s1


def shifted(S):
    """K(dy, dx): sum over the pixels l of the second window of  im1[l] * im0[l + n0//2 - n1//2 - d], i.e. the
    product of the windows, their centres (pixels n//2) being shifted by the displacement d of the second one"""
    K = S.E.fresh_fun("K", "int", "int", "real")
    return lambda dy, dx: Sv(K(ze(dy), ze(dx)), "real", None, True)


def map_of(S, shape, K, off, c):
    """the library computes  out[m] = sum_l im0[m + l - c] im1[l] = K(off + c - m)"""
    return values.new_arr(shape, lambda i: K(off[0] + c[0] - i[0], off[1] + c[1] - i[1]), "real")


def check_map(S, c, m, K):
    """every position of the map holds the product of the windows for the displacement of this position"""
    S.cover("requires")
    iy, ix = S.idx("iy", m.shape[0]), S.idx("ix", m.shape[1])
    dx, dy = S.meth(c, "compute_displacement_from_indices", ix, iy)
    S.ens("the position holds the correlation for its displacement", S.eq(m.at((iy, ix)), K(dy, dx)))
    o = S.meth(c, "get_indices_no_displacement")
    S.ens("the announced position holds the correlation without shift", S.eq(
        m.at((S.get(o, 0), S.get(o, 1))), K(0, 0)))


@contract("C03")
def origin_of_scipy_signal(S):
    """scipy.signal.correlate2d, modes 'same' and 'valid', every pair of window shapes"""
    s0, s1 = shapes(S)
    mode = "valid" if S.when(S.bool("valid")) else "same"
    c = build(S, "CorrelScipySignal", s0, s1, **({"mode": "valid"} if mode == "valid" else
                                                {"mode": None} if S.when(S.bool("default")) else {}))
    K = shifted(S)
    im0, im1 = S.arr("im0", s0), S.arr("im1", s1)
    def correlate2d(I, a, b, mode="full", fillvalue=0, boundary="fill"):
        S.ens("first window, second window", And(a is im0, b is im1))
        off = tuple(x // 2 - y // 2 for x, y in zip(s0, s1))
        S.ens("zeros or a constant around", S.eq(boundary, "fill"))
        if mode == "same":
            return map_of(S, s0, K, off, tuple((y - 1) // 2 for y in s1))
        S.ens("known mode", mode == "valid")
        return map_of(S, tuple(x - y + 1 for x, y in zip(s0, s1)), K, off, (0, 0))
    S.model("scipy.signal.correlate2d", correlate2d)
    S.stub(CO + ":_norm_images", lambda I, a, b: S.real("norm"))
    r = S.call(S.attr(c, "__call__"), im0, im1)
    check_map(S, c, S.get(r, 0), K)


@contract("C03")
def origin_of_scipy_ndimage(S):
    """scipy.ndimage.correlate, every pair of window shapes"""
    s0, s1 = shapes(S)
    c = build(S, "CorrelScipyNdimage", s0, s1)
    K = shifted(S)
    im0, im1 = S.arr("im0", s0), S.arr("im1", s1)
    def correlate(I, a, b, output=None, mode="reflect", cval=0, origin=0):
        S.ens("first window, second window", And(a is im0, b is im1))
        S.ens("centred filter", S.eq(origin, 0))
        off = tuple(x // 2 - y // 2 for x, y in zip(s0, s1))
        return map_of(S, s0, K, off, tuple(y // 2 for y in s1))
    S.model("scipy.ndimage.correlate", correlate)
    r = S.call(S.attr(c, "__call__"), im0, im1)
    check_map(S, c, S.get(r, 0), K)


def direct(S, cls, fun):
    s0, s1 = shapes(S)
    kw = {}
    given = S.when(S.bool("given"))
    if given:
        kw["displacement_max"] = S.int("dmax") if S.when(S.bool("dmax_int")) else S.real("dmax_r")
    c, exc = S.attempt(lambda: build(S, cls, s0, s1, **kw))
    if exc is not None:
        S.ens("refused only when no displacement is possible", S.exc_is(exc, ValueError))
        if given:
            S.ens("a positive maximum is not refused", ze(kw["displacement_max"]) < 1)
        return
    K = shifted(S)
    im0, im1 = S.arr("im0", s0), S.arr("im1", s1)
    def correl_numpy(I, a, b, d):
        S.ens("first window, second window", And(a is im0, b is im1))
        S.ens("whole number of pixels", core_kind(d) == "int")
        if given:
            S.ens("the search is not larger than the given maximum", ze(d, "real") <= ze(kw["displacement_max"], "real"))
        m = map_of(S, (2 * d + 1, 2 * d + 1), K, (0, 0), (d, d))
        return (m, S.real("norm"))
    S.stub(fun, correl_numpy)
    r = S.call(S.attr(c, "__call__"), im0, im1)
    check_map(S, c, S.get(r, 0), K)


from pyvc.core import kind as core_kind  # noqa: E402


@contract("C03")
def origin_of_direct_method(S):
    """method 'pythran': the map is the one of correl_numpy (C05)"""
    direct(S, "CorrelPythran", CO + ":correl_numpy")


@contract("C03")
def origin_of_cuda_method(S):
    """method 'pycuda', the CUDA kernel being assumed to have the contract of correl_numpy"""
    direct(S, "CorrelPyCuda", "calcul.correl_pycuda:correl_pycuda")


@contract("C03")
def origin_of_fourier_methods(S):
    """Fourier methods: periodic correlation reordered by _like_fftshift (contract proved in C06)"""
    cls = CLASSES[4 + S.choose(4, "fourier method")]
    (n0, n1), s1 = shapes(S, True)
    kw = {} if S.when(S.bool("no_maximum")) else {"displacement_max": None}
    c = build(S, cls, (n0, n1), s1, **kw)
    S.cover("requires")
    k, l = S.idx("raw_y", n0), S.idx("raw_x", n1)
    # position of the raw value (C06)
    py = (n0 - 1 - k + n0 // 2) % n0
    px = (n1 - 1 - l + n1 // 2) % n1
    dx, dy = S.meth(c, "compute_displacement_from_indices", px, py)
    S.ens("periodic displacement of the position (y)", (dy - k) % n0 == 0)
    S.ens("periodic displacement of the position (x)", (dx - l) % n1 == 0)
    S.ens("displacements up to half of the window", And(2 * dy <= n0, 2 * dy >= -n0 - 1,
                                                        2 * dx <= n1, 2 * dx >= -n1 - 1))


@contract("C03")
def fourier_methods_need_equal_shapes(S):
    """windows of different shapes are refused by the Fourier methods"""
    cls = CLASSES[4 + S.choose(4, "fourier method")]
    s0, s1 = shapes(S)
    c, exc = S.attempt(lambda: build(S, cls, s0, s1))
    S.cover("requires")
    same = And(s0[0] == s1[0], s0[1] == s1[1])
    if exc is None:
        S.ens("accepted only if the shapes are equal", same)
    else:
        S.ens("refused only if the shapes differ", And(S.exc_is(exc, ValueError), Not(same)))
