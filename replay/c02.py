"""grids, windows and shifted windows of random images on the Python source, the correlation being replaced by a
recorder of the windows it receives"""
import numpy as np


class Recorder:
    displacement_max = None

    def __init__(self, rng):
        self.windows, self.rng, self.vals = [], rng, []

    def __call__(self, a, b):
        self.windows.append((np.array(a), np.array(b)))
        return len(self.windows) - 1, 1.0

    def compute_displacements_from_correl(self, k, norm=None):
        self.vals.append((self.rng.randint(-9, 9), self.rng.randint(-9, 9), 0.5))
        return self.vals[-1] + (None,)

    def apply_subpix(self, dx, dy, correl):
        return dx, dy

    def get_indices_no_displacement(self):
        return 0, 0


def run(h):
    from fluidimage.data_objects.piv import ArrayCouple, HeavyPIVResults
    from fluidimage.piv import Work
    from fluidimage.works.piv.singlepass import FirstWorkPIV, WorkPIVFromDisplacement

    params0 = Work.create_default_params()

    def make(cls, shape0, shape1, ov):
        p = params0
        p.piv0.method_correl = "scipy.signal" if shape1 is not None else "fftw"
        p.piv0.shape_crop_im0, p.piv0.shape_crop_im1, p.piv0.grid.overlap = shape0, shape1, ov
        orig = cls._init_correl
        cls._init_correl = lambda self: None
        try:
            w = cls(p)
        finally:
            cls._init_correl = orig
        w.correl = Recorder(h.rng)
        return w

    def pair(s):
        return (s, s) if isinstance(s, int) else tuple(s)

    def pad(im, m):
        r = np.zeros((im.shape[0] + 2 * m, im.shape[1] + 2 * m))
        r[m:-m, m:-m] = im - im.min()
        return r

    def check_windows(w, s0, s1, im0, im1, c0, c1, what):
        """c0, c1: centres (y, x) of the windows of each vector, in the image"""
        m = 200
        p0, p1 = pad(im0, m), pad(im1, m)
        if not h.check(len(w.correl.windows) == len(c0), f"{what}: one correlation per vector"):
            return
        for (a, b), (y0, x0), (y1, x1) in zip(w.correl.windows, c0, c1):
            for win, s, p, y, x, n in ((a, s0, p0, y0, x0, 0), (b, s1, p1, y1, x1, 1)):
                if not h.check(win.shape == s, lambda: f"{what}: window {n} of shape {win.shape} instead of {s}"):
                    return
                ys, xs = int(y) - s[0] // 2 + m, int(x) - s[1] // 2 + m
                want = p[ys:ys + s[0], xs:xs + s[1]]
                if not h.check(np.array_equal(win, want.astype(np.float32)),
                               lambda: f"{what}: pixels of window {n} of the vector at {y, x}"):
                    return

    def first(shape, sh0, sh1, ov):
        s0 = pair(sh0)
        s1 = s0 if sh1 is None else pair(sh1)
        w = make(FirstWorkPIV, sh0, sh1, ov)
        nprng = np.random.RandomState(h.rng.randint(0, 10**6))
        im0 = nprng.permutation(shape[0] * shape[1]).reshape(shape).astype(float) + 3
        im1 = nprng.permutation(shape[0] * shape[1]).reshape(shape).astype(float) + 5
        r = w.calcul(ArrayCouple(names=["a", "b"], arrays=[im0, im1]))
        xs, ys = np.asarray(r.xs), np.asarray(r.ys)
        for nm, v, L, s in (("y", ys, shape[0], s0[0]), ("x", xs, shape[1], s0[1])):
            u = np.unique(v)
            h.check(u[0] == s // 2, f"first position {nm}")
            h.check(np.all(u - s // 2 >= 0) and np.all(u - s // 2 + s <= L), f"windows inside the image {nm}")
            d = np.diff(u)
            if len(d) > 1:
                h.check(np.all(d[:-1] == d[0]) and 0 < d[-1] <= d[0], f"regular grid {nm}: {d}")
                h.check(abs(d[0] - s * (1 - ov)) <= 0.5 + 1e-9, f"step {nm}: {d[0]}")
                h.check(u[-1] + d[0] >= L - (s - s // 2), f"positions missing at the end {nm}")
        uy, ux = np.unique(ys), np.unique(xs)
        gx, gy = np.meshgrid(ux, uy)
        h.check(np.array_equal(gx.ravel(), xs) and np.array_equal(gy.ravel(), ys), "order of the vectors")
        c = list(zip(ys, xs))
        check_windows(w, s0, s1, im0, im1, c, c, "first pass")
        v = np.array(w.correl.vals)
        h.check(np.array_equal(r.deltaxs, v[:, 0]) and np.array_equal(r.deltays, v[:, 1]), "displacements")
        return im0, im1, s0, s1, c

    def second(shape, sh0, sh1, ov, dmax):
        im0, im1, s0, s1, grid = first(shape, sh0, sh1, ov)
        w = make(WorkPIVFromDisplacement, sh0, sh1, ov)
        n = len(grid)
        rng = np.random.RandomState(h.rng.randint(0, 10**6))
        ax, ay = rng.uniform(-dmax, dmax, n), rng.uniform(-dmax, dmax, n)

        def interp(res, last=False):
            res.deltaxs_approx, res.deltays_approx = ax.copy(), ay.copy()
        w.apply_interp = interp
        z = np.zeros(n)
        res = HeavyPIVResults(z, z, z, z, {}, couple=ArrayCouple(names=["a", "b"], arrays=[im0, im1]))
        r = w.calcul(res)
        u, v = np.round(ax).astype(int), np.round(ay).astype(int)
        xs, ys = np.asarray(r.xs), np.asarray(r.ys)
        c0 = np.array([ys * 2 - v, xs * 2 - u]) / 2
        c1 = c0 + np.array([v, u])
        ly, lx = shape
        inside = lambda c: (c[0] >= 0) & (c[0] <= ly) & (c[1] >= 0) & (c[1] <= lx)
        g = np.array(grid).T
        d = np.array([v, u])
        can = inside(g + d) | inside(g - d)
        both = inside(c0) & inside(c1)
        h.check(np.all(c0 == np.round(c0)), "centres are not pixels")
        h.check(np.all(both[can]), lambda: f"centres outside of the image: {np.argwhere(can & ~both)[:3].tolist()}")
        shared = inside(g + d) & inside(g - d)
        h.check(np.all(np.abs(2 * (g - c0) - d)[:, shared] <= 1), "shift not shared")
        if np.all(can):
            check_windows(w, s0, s1, im0, im1, list(zip(*c0)), list(zip(*c1)), "second pass")
            q = np.array(w.correl.vals)
            h.check(np.array_equal(np.asarray(r.deltaxs), q[:, 0] + u) and
                    np.array_equal(np.asarray(r.deltays), q[:, 1] + v), "displacement plus shift")

    n = 0
    while h.more() and n < (150 if not h.strong else 1500):
        n += 1
        r = h.rng
        sh0 = r.choice([r.randint(2, 14), (r.randint(2, 14), r.randint(2, 14))])
        s0 = pair(sh0)
        sh1 = r.choice([None, None, r.randint(1, min(s0)), (r.randint(1, s0[0]), r.randint(1, s0[1]))])
        shape = (s0[0] + r.randint(1, 30), s0[1] + r.randint(1, 30))
        ov = r.choice([0, 0.25, 0.3, 0.5, 0.6])
        if any(s - int(np.round(ov * s)) < 1 for s in s0):
            continue
        f = r.choice([first, second, second])
        k = () if f is first else (r.choice([1, 3, 10, max(shape)]),)
        h.run(f.__name__ + " pass", lambda: f(shape, sh0, sh1, ov, *k), image=shape, shape_crop_im0=sh0,
              shape_crop_im1=sh1, overlap=ov, displacement=k)
