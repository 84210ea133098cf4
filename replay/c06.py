"""reordering, energy and Fourier correlation maps of random arrays of every parity on the Python source, against
direct definitions"""
import numpy as np


def periodic(a, b):
    """sum_m a[m] b[m + k], periodic"""
    n0, n1 = a.shape
    return np.array([[np.sum(a * np.roll(np.roll(b, -k, 0), -l, 1)) for l in range(n1)] for k in range(n0)])


def reorder(raw):
    n0, n1 = raw.shape
    r = np.empty_like(raw)
    for i in range(n0):
        for j in range(n1):
            r[(n0 - 1 - i + n0 // 2) % n0, (n1 - 1 - j + n1 // 2) % n1] = raw[i, j]
    return r


def run(h):
    from fluidimage.calcul import correl as C
    from fluidimage.calcul import fft as F
    rng = np.random.RandomState(h.seed)

    def shift(n0, n1, dt):
        a = np.arange(n0 * n1).reshape(n0, n1).astype(dt)
        rng.shuffle(a.ravel())
        if rng.rand() < 0.3:
            a[rng.randint(n0), rng.randint(n1)] = np.nan
        b = a.copy()
        r = C._like_fftshift(a)
        h.check(np.array_equal(r, reorder(b), equal_nan=True), "reordered map")
        h.check(n0 * n1 == 1 or np.array_equal(a, b, equal_nan=True), "the raw map is modified")

    def energy(n0, n1):
        f = (rng.rand(n0, n1) + 1j * rng.rand(n0, n1))
        m = np.abs(f) ** 2
        want = 0.5 / 7 * (m[:, 0].sum() + m[:, -1].sum() + 2 * m[:, 1:-1].sum())
        got = F._compute_energy_from_fourier(f, 7)
        h.check(abs(got - want) < 1e-9 * want, lambda: f"energy {got} instead of {want}")

    def maps(cls, n0, n1, dmax):
        im0, im1 = (rng.rand(n0, n1) for _ in range(2))
        im0, im1 = im0.astype("float32"), im1.astype("float32")
        c = cls((n0, n1), (n0, n1), **({"displacement_max": dmax} if dmax else {}))
        b0, b1 = im0.copy(), im1.copy()
        r, norm = c(im0, im1)
        h.check(np.array_equal(b0, im0) and np.array_equal(b1, im1), "images modified")
        want = reorder(periodic(im0 - im0.mean(), im1 - im1.mean()))
        # the scale of the map is free (the norm has the same one)
        k = np.sum(r * want) / np.sum(want * want)
        h.check(k > 0 and np.allclose(r, k * want, atol=1e-4 * k * np.abs(want).max()), "map of the method " + cls._tag)
        if n1 % 2 == 0 or cls._tag == "np.fft":
            s, snorm = c(im0, im0)
            h.check(abs(s.max() / snorm - 1) < 1e-2, lambda: f"maximum of the normalised map of an image with itself "
                                                             f"{s.max() / snorm} ({cls._tag})")

    def oper_energy(cls, n0, n1):
        op = cls(n1, n0)
        im = rng.rand(n0, n1).astype(op.type_real)
        e0, e1 = op.compute_energy_from_spatial(im), op.compute_energy_from_fourier(op.fft(im))
        h.check(e1 > 0, "energy is positive")
        if cls is F.FFTW2DReal2Complex and n1 % 2 == 0:
            h.check(abs(e0 - e1) < 1e-3 * e0, lambda: f"energies {e0} {e1}")

    methods = [C.CorrelFFTNumpy]
    for cls in (C.CorrelFFTW,):
        try:
            cls((4, 4), (4, 4))
            methods.append(cls)
        except Exception:
            pass
    for n0 in range(1, 9):
        for n1 in range(1, 9):
            for dt in ("float32", "float64"):
                h.run("reordering", lambda: shift(n0, n1, dt), n0=n0, n1=n1, dtype=dt)
            if n1 > 1:
                h.run("energy", lambda: energy(n0, n1), n0=n0, n1=n1)
    while h.more() and h.cases < 900:
        n0, n1 = rng.randint(2, 12), rng.randint(2, 12)
        h.run("reordering", lambda: shift(2 * n0 + 1, 3 * n1, "float32"), n0=2 * n0 + 1, n1=3 * n1)
        h.run("energy", lambda: energy(n0, n1), n0=n0, n1=n1)
        for cls in methods:
            dmax = rng.choice([0, 2])
            h.run("map " + cls._tag, lambda: maps(cls, n0, n1, dmax), n0=n0, n1=n1, displacement_max=dmax)
            h.run("energy of " + cls.FFTClass.__name__, lambda: oper_energy(cls.FFTClass, n0, n1), n0=n0, n1=n1)
