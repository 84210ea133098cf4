"""the direct correlation and the norm compared with their definitions (double precision) on random windows"""
import numpy as np


def run(h):
    from fluidimage.calcul import correl as C
    rng = np.random.RandomState(h.seed)

    def overlap(n0, n1, off, d):
        lo = max(0, -(off + d))
        hi = min(n0 - off - d, n1)
        return lo, hi - lo

    def reference(im0, im1, D):
        (ny0, nx0), (ny1, nx1) = im0.shape, im1.shape
        offy, offx = ny0 // 2 - ny1 // 2, nx0 // 2 - nx1 // 2
        out = np.empty((2 * D + 1, 2 * D + 1))
        for ky in range(2 * D + 1):
            for kx in range(2 * D + 1):
                dy, dx = ky - D, kx - D
                ly, cy = overlap(ny0, ny1, offy, dy)
                lx, cx = overlap(nx0, nx1, offx, dx)
                a = im1[ly:ly + cy, lx:lx + cx].astype(float)
                b = im0[ly + offy + dy:ly + offy + dy + cy, lx + offx + dx:lx + offx + dx + cx].astype(float)
                assert a.shape == b.shape == (cy, cx)
                out[ky, kx] = (a * b).sum() / (cy * cx) * (ny1 * nx1)
        return out

    def one(ny0, nx0, ny1, nx1, D):
        im0 = (rng.rand(ny0, nx0) + 0.1).astype("float32")
        im1 = (rng.rand(ny1, nx1) + 0.1).astype("float32")
        k0, k1 = im0.copy(), im1.copy()
        corr, norm = C.correl_numpy(im0, im1, D)
        h.eq(corr.shape, (2 * D + 1, 2 * D + 1), "size of the map")
        ref = reference(im0, im1, D)
        h.check(np.allclose(corr, ref, rtol=2e-4, atol=1e-5),
                lambda: f"map differs from the definition at {np.argwhere(~np.isclose(corr, ref, rtol=2e-4, atol=1e-5))[:3].tolist()}")
        n = np.sqrt((im0.astype(float)**2).sum() * (im1.astype(float)**2).sum())
        h.check(np.isclose(norm, n, rtol=1e-4), f"norm {norm}, expected {n}")
        n2 = C._norm_images(im0, im1)
        h.check(np.isclose(n2, n, rtol=1e-4), f"_norm_images {n2}, expected {n}")
        h.check((im0 == k0).all() and (im1 == k1).all(), "the windows are modified")

    first = True
    while first or h.more():
        first = False
        ny0, nx0 = (int(rng.randint(1, 13)) for _ in range(2))
        ny1, nx1 = (int(rng.randint(1, n + 1)) for n in (ny0, nx0))
        if rng.rand() < 0.3:
            ny1, nx1 = ny0, nx0
        offy, offx = ny0 // 2 - ny1 // 2, nx0 // 2 - nx1 // 2
        m = min(min(n1 + o, n0 - o) - 1 for o, n0, n1 in ((offy, ny0, ny1), (offx, nx0, nx1)))
        if m < 0:
            continue
        D = int(rng.randint(0, m + 1))
        h.run("correl_numpy", lambda: one(ny0, nx0, ny1, nx1, D), shape0=(ny0, nx0), shape1=(ny1, nx1), disp_max=D)
