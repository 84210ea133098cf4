"""C06: reordering of Fourier correlation maps is an exact permutation."""
from pyvc.spec import *
from pyvc import values

CO = "calcul.correl"
FT = "calcul.fft"


def size(S, name):
    """any size, as twice a number or twice a number plus one"""
    if S.when(S.bool(name + "_even")):
        return 2 * S.int("half_" + name, 1)
    return 2 * S.int("half_" + name, 0) + 1


@contract("C06")
def reordering(S):
    """every size: each raw value appears exactly once, axes reversed and halves exchanged"""
    n0, n1 = size(S, "n0"), size(S, "n1")
    a = S.arr("raw", (n0, n1), nan=True)
    old = a.getter()
    r = S.call(CO + ":_like_fftshift", a)
    S.cover("requires")
    S.ens("size", S.eq(r.shape, (n0, n1)))
    i, j = S.idx("i", n0), S.idx("j", n1)
    def place(i, n):
        """position of the raw index: axis reversed, then rotated by half of the size: [(condition, position)]"""
        t = n - 1 - i + n // 2
        return [(t >= n, t - n), (t < n, t)]
    def source(k, n):
        """raw index found at a position"""
        t = k - n // 2
        return [(t < 0, -1 - t), (t >= 0, n - 1 - t)]
    for c0, p in place(i, n0):
        for c1, q in place(j, n1):
            S.ens("the raw value is at the prescribed position",
                  Implies(And(c0, c1), S.eq(r.at((p, q)), old((i, j)))))
    for c0, p in source(i, n0):
        for c1, q in source(j, n1):
            S.ens("each position holds one raw value", Implies(And(c0, c1), S.eq(r.at((i, j)), old((p, q)))))
    k, l = i, j
    S.ens("the raw map is not modified", S.eq(a.at((k, l)), old((k, l))))


@contract("C06")
def energy_of_half_spectrum(S):
    """every size with at least two columns: first and last columns once, the others twice"""
    n0, n1 = S.int("n0", 1), S.int("n1", 2)
    f = S.arr("fft", (n0, n1), "obj")
    c = S.int("coef", 1)
    r = S.call(FT + ":_compute_energy_from_fourier", f, c)
    S.cover("requires")
    def m(i, j):
        a = S.call_builtin("abs", f.at((i, j)))
        return a * a
    tot = S.sum(n0, lambda i: m(i, 0) + m(i, n1 - 1) + S.sum(n1 - 2, lambda j: 2 * m(i, j + 1), real=True), real=True)
    S.ens("energy", 2 * c * r == tot)


def model_fft(S, n0, n1, real_attr):
    """assumed contract of the Fourier libraries (convolution theorem): the inverse transform of conj(A)*B is the
    periodic correlation  sum_m a[m] b[m + k]  of the images without their means"""
    PC = S.E.fresh_fun("PC", "int", "int", "int", "int", "real")
    state = dict(spectra=[])

    def spectrum(im, conj=False, st=None):
        st = st if st is not None else {}
        o = S.ns("spectrum", im=im, c=conj, st=st)
        def setitem(I, idx, v):
            S.ens("only the mean of the images is removed", And(S.eq(idx, (0, 0)), ze(v) == 0))
            st["mean"] = True
        o.attrs["__setitem__"] = setitem
        o.attrs["conj"] = lambda I: spectrum(im, not conj, st)
        o.attrs["__mul__"] = lambda I, b: product(o, b)
        return o

    def product(a, b):
        S.ens("product of one conjugate and one spectrum", a.attrs["c"] != b.attrs["c"])
        S.ens("the means are removed", bool(a.attrs["st"].get("mean")) and bool(b.attrs["st"].get("mean")))
        if b.attrs["c"]:
            a, b = b, a
        return S.ns("product", a=a.attrs["im"], b=b.attrs["im"])

    ident = {}
    def which(im):
        return ident[id(im.store)]

    def ifft(I, p):
        a, b = which(p.attrs["a"]), which(p.attrs["b"])
        r = values.new_arr((n0, n1), lambda i: Sv(PC(z3.IntVal(a), z3.IntVal(b), ze(i[0]), ze(i[1])), "real", None, True),
                           "real")
        return S.ns("complex", real=r) if real_attr else r

    def energy(I, f):
        e = S.real("energy", np=True)
        S.req(e >= 0)
        return e

    oper = S.ns("oper", fft=lambda I, im: spectrum(im), ifft=ifft, compute_energy_from_fourier=energy,
                coef_norm_correl=S.int("coef", 1))
    return oper, PC, ident


def fourier_map(S, cls, real_attr):
    n0, n1 = size(S, "n0"), size(S, "n1")
    im0, im1 = S.arr("im0", (n0, n1)), S.arr("im1", (n0, n1))
    oper, PC, ident = model_fft(S, n0, n1, real_attr)
    ident.update({id(im0.store): 0, id(im1.store): 1})
    c = S.new(f"{CO}:{cls}", oper=oper, im0_shape=(n0, n1), im1_shape=(n0, n1))
    old0, old1 = im0.getter(), im1.getter()
    got = {}
    def shift(I, a):
        got["raw"] = a
        got["out"] = S.arr("out", (n0, n1))
        return got["out"]
    S.stub(CO + ":_like_fftshift", shift)
    r = S.call(S.attr(c, "__call__"), im0, im1)
    S.cover("requires")
    S.ens("the result is the reordered map and a norm", isinstance(r, tuple) and len(r) == 2 and r[0] is got["out"])
    i, j = S.idx("i", n0), S.idx("j", n1)
    S.ens("size of the raw map", S.eq(got["raw"].shape, (n0, n1)))
    S.ens("the raw map is the periodic correlation of the first image with the second one",
          ze(got["raw"].at((i, j))) == PC(0, 1, i.e, j.e))
    S.ens("the norm is not negative", ze(r[1]) >= 0)
    S.ens("the images are not modified", And(S.eq(im0.at((i, j)), old0((i, j))), S.eq(im1.at((i, j)), old1((i, j)))))


@contract("C06")
def map_of_fourier_methods(S):
    """the map of the methods using an operator (fftw...) is the reordered periodic correlation of the images"""
    fourier_map(S, "CorrelFFTW", False)


@contract("C06")
def map_of_numpy_fourier_method(S):
    """the same for numpy.fft"""
    fourier_map(S, "CorrelFFTNumpy", True)


@contract("C06")
def energy_of_operators(S):
    """the energy methods of the operators: half spectrum weights, normalised by the squared number of pixels"""
    nx, ny = S.int("nx", 2), S.int("ny", 1)
    half = S.when(S.bool("half"))
    o = S.new(FT + (":FFTW2DReal2Complex" if half else ":NumpyFFT2DReal2Complex"))
    S.stub(FT + ":FFTW2DReal2Complex.__init__", lambda I, *a: None)
    if half:
        S.call(S.ref(FT + ":OperatorFFTBase.__init__"), o, nx, ny)
        f = S.arr("fft", (ny, nx // 2 + 1), "obj")
        seen = {}
        def energy(I, f, c):
            seen["f"], seen["c"] = f, c
            return S.real("e")
        S.stub(FT + ":_compute_energy_from_fourier", energy)
        r = S.meth(o, "compute_energy_from_fourier", f)
        S.cover("requires")
        S.ens("the weighted sum of the spectrum", seen["f"] is f)
        S.ens("normalisation", S.eq(seen["c"], (nx * ny) * (nx * ny)))
        S.ens("shape of the half spectrum", S.eq(S.get(S.attr(o, "shapeK"), 1), nx // 2 + 1))
        return
    S.call(S.ref(FT + ":NumpyFFT2DReal2Complex.__init__"), o, nx, ny)
    f = S.arr("fft", (ny, nx), "obj")
    r = S.meth(o, "compute_energy_from_fourier", f)
    S.cover("requires")
    def m(i, j):
        a = S.call_builtin("abs", f.at((i, j)))
        return a * a
    tot = S.sum(ny, lambda i: S.sum(nx, lambda j: m(i, j), real=True), real=True)
    S.ens("energy of the whole spectrum", 2 * ((nx * ny) * (nx * ny)) * r == tot)
