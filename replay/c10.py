"""random crops: pixels, conversions in both directions, and complete works (PIV with two passes, optical flow) on cropped
images with the position of every reported vector"""
import numpy as np


def run(h):
    from fluidimage.data_objects.piv import ArrayCouple, get_slices_from_strcrop
    from fluidimage.works.piv import WorkPIV
    from fluidimage.works.piv.singlepass import FirstWorkPIV
    rng = np.random.RandomState(h.seed)

    class NS:
        def __init__(self, **k):
            self.__dict__.update(k)

    def crop(n0, n1, small=1):
        out, org = [], []
        for n in (n0, n1):
            lo = int(rng.randint(0, n - small + 1)) if rng.rand() < 0.7 else None
            hi = int(rng.randint((lo or 0) + small, n + 3)) if rng.rand() < 0.7 else None
            out.append(("" if lo is None else str(lo)) + ":" + ("" if hi is None else str(hi)))
            org.append(lo or 0)
        return (", " if rng.rand() < 0.5 else ",").join(out), org

    def simple():
        n0, n1 = (int(rng.randint(2, 20)) for _ in range(2))
        s, (oy, ox) = crop(n0, n1)

        def f():
            im = rng.rand(n0, n1)
            c = ArrayCouple.__new__(ArrayCouple)
            c.params_mask = NS(strcrop=s)
            r = c._mask_array(im)
            if r.size:
                i, j = (int(rng.randint(0, k)) for k in r.shape)
                h.check(r[i, j] == im[i + oy, j + ox], "pixel of the cropped image")
                sl = get_slices_from_strcrop(s)
                h.eq(r.shape, im[sl[0], sl[1]].shape, "shape")
            w = FirstWorkPIV.__new__(FirstWorkPIV)
            w.params = NS(mask=NS(strcrop=s))
            for dt in (float, int):
                xs, ys = (np.array(rng.randint(0, 50, size=4)).astype(dt) for _ in range(2))
                kx, ky = xs.copy(), ys.copy()
                X, Y = w._xyoriginalimage_from_xymasked(xs, ys)
                h.check((X == kx + ox).all() and (Y == ky + oy).all(), "original frame")
                x2, y2 = w._xymasked_from_xyoriginalimage(X, Y)
                h.check((x2 == kx).all() and (y2 == ky).all(), "back to the cropped frame")
                h.check((xs == kx).all() and (ys == ky).all(), "positions modified")
            w.params.mask.strcrop = None
            h.check(w._xyoriginalimage_from_xymasked(xs, ys)[0] is xs, "no crop")
        h.run("crop and conversions", f, strcrop=s, shape=(n0, n1))

    def negative():
        def f():
            im = rng.rand(12, 10)
            c = ArrayCouple.__new__(ArrayCouple)
            c.params_mask = NS(strcrop="-8:, -7:")
            r = c._mask_array(im)
            w = FirstWorkPIV.__new__(FirstWorkPIV)
            w.params = NS(mask=NS(strcrop="-8:, -7:"))
            X, Y = w._xyoriginalimage_from_xymasked(np.array([2]), np.array([1]))
            h.check(0 <= X[0] < 10 and 0 <= Y[0] < 12 and im[Y[0], X[0]] == r[1, 2],
                    f"position ({X[0]}, {Y[0]}) for the pixel of the cropped image (2, 1)")
        h.run("negative start of a crop", f, strcrop="-8:, -7:", shape=(12, 10))

    def texture(n0, n1):
        a = rng.rand(n0 + 8, n1 + 8)
        for _ in range(2):
            a = (a + np.roll(a, 1, 0) + np.roll(a, -1, 0) + np.roll(a, 1, 1) + np.roll(a, -1, 1)) / 5
        return a

    def whole():
        n0, n1 = int(rng.randint(60, 80)), int(rng.randint(60, 80))
        s, (oy, ox) = crop(n0, n1, small=40)
        use_tps = [False, True, "last"][rng.randint(3)]
        nb = int(rng.randint(1, 3))

        def f():
            big = texture(n0, n1) * 255
            dy, dx = int(rng.randint(-2, 3)), int(rng.randint(-2, 3))
            im0 = big[4:4 + n0, 4:4 + n1].astype("float32")
            im1 = big[4 - dy:4 - dy + n0, 4 - dx:4 - dx + n1].astype("float32")

            def compute(a0, a1, strcrop):
                params = WorkPIV.create_default_params()
                params.piv0.shape_crop_im0 = 16
                params.multipass.number = nb
                params.multipass.use_tps = use_tps
                params.mask.strcrop = strcrop
                work = WorkPIV(params)
                return work.calcul(ArrayCouple(names=("a", "b"), arrays=(a0, a1)))
            sl = get_slices_from_strcrop(s)
            r = compute(im0, im1, s)
            ref = compute(im0[sl[0], sl[1]].copy(), im1[sl[0], sl[1]].copy(), None)
            for k, (p, q) in enumerate(zip(r.passes, ref.passes)):
                for name in ("xs", "ixvecs_approx", "ixvecs_final", "xs_smooth", "ys", "iyvecs_approx", "iyvecs_final",
                             "ys_smooth"):
                    h.check(hasattr(p, name) == hasattr(q, name), f"{name} present only with or without a crop")
                    if hasattr(p, name) and hasattr(q, name):
                        o = ox if name.startswith(("x", "ix")) else oy
                        h.check(np.allclose(getattr(p, name), getattr(q, name) + o), f"pass {k}: {name} (origin {o})")
                for name in ("deltaxs", "deltays", "deltaxs_final", "deltays_final", "deltaxs_approx", "deltays_approx"):
                    if hasattr(p, name):
                        h.check(np.allclose(getattr(p, name), getattr(q, name), equal_nan=True, atol=1e-3),
                                f"pass {k}: {name} differs from the field of the images cropped by hand")
        h.run("PIV of cropped images", f, strcrop=s, shape=(n0, n1), use_tps=use_tps, passes=nb)

    negative()
    import contextlib
    import io
    n = 0
    first = True
    while first or h.more():
        first = False
        for _ in range(20):
            simple()
        with contextlib.redirect_stdout(io.StringIO()):
            whole()
