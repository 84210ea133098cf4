"""correlation maps of random windows with every available method on the Python source: conversions, origin, and
displacement of shifted windows"""
import numpy as np


def run(h):
    from fluidimage.calcul import correl as C
    rng = np.random.RandomState(h.seed)

    def smooth(n0, n1):
        a = rng.rand(n0, n1)
        for _ in range(2):
            a = (a + np.roll(a, 1, 0) + np.roll(a, -1, 0) + np.roll(a, 1, 1) + np.roll(a, -1, 1)) / 5
        return (a - a.mean()).astype("float32")

    def conversions(c, tag):
        for _ in range(6):
            ix, iy = (int(rng.randint(-20, 40)) + rng.choice([0, 0.25]) for _ in range(2))
            dx, dy = c.compute_displacement_from_indices(ix, iy)
            h.eq(tuple(c.compute_indices_from_displacement(dx, dy)), (ix, iy), tag + ": indices and back")
            d2 = c.compute_displacement_from_indices(ix + 1, iy)
            h.check(abs(d2[0] - dx) == 1 and d2[1] == dy, tag + ": one pixel along x")
            d3 = c.compute_displacement_from_indices(ix, iy + 1)
            h.check(abs(d3[1] - dy) == 1 and d3[0] == dx, tag + ": one pixel along y")
            o = c.get_indices_no_displacement()
            h.eq(tuple(C.compute_indices_from_displacement(dx, dy, o)), (ix, iy), tag + ": display")
        oy, ox = c.get_indices_no_displacement()
        h.eq(tuple(c.compute_displacement_from_indices(ox, oy)), (0, 0), tag + ": displacement at the origin")
        seen = []
        class Sub:
            def compute_subpix(self, correl, ix, iy, *a, **k):
                seen.append((ix, iy))
                return ix + 0.25, iy - 0.125
        old, c.subpix = c.subpix, Sub()
        r = c.apply_subpix(3, -2, None)
        c.subpix = old
        ix, iy = c.compute_indices_from_displacement(3, -2)
        h.eq(seen, [(ix, iy)], tag + ": position of the refinement")
        h.eq(tuple(r), tuple(c.compute_displacement_from_indices(ix + 0.25, iy - 0.125)), tag + ": refined displacement")

    def known_shift(tag, s0, s1, kw):
        """the second window is the (periodic) first one moved by a known displacement"""
        cls = C.correlation_classes[tag]
        c = cls(s0, s1, **kw)
        conversions(c, tag)
        fft = issubclass(cls, C.CorrelFFTBase)
        if tag == "pythran":
            m = int(c.displacement_max)
            m = max(0, min(m - 1, 2))
        else:
            m = 2
        for _ in range(3):
            dx, dy = (int(rng.randint(-m, m + 1)) for _ in range(2))
            if kw.get("mode") == "valid":
                ly, lx = (a - b for a, b in zip(s0, s1))
                dy, dx = min(dy, ly // 2 - 1), min(dx, lx // 2 - 1)
                dy, dx = max(dy, -(ly // 2) + 1), max(dx, -(lx // 2) + 1)
            big = np.tile(smooth(*s0), (3, 3))
            im0 = big[s0[0]:2 * s0[0], s0[1]:2 * s0[1]].copy()
            y, x = (s0[d] + s0[d] // 2 - s1[d] // 2 for d in (0, 1))
            im1 = big[y - dy:y - dy + s1[0], x - dx:x - dx + s1[1]].copy()
            correl, norm = c(im0, im1)
            iy, ix = c.compute_indices_from_displacement(dx, dy)[::-1]
            if tag == "pythran" and s0 == s1:
                # the map is divided by the number of overlapping pixels
                b = s0[0] // 2 - s1[0] // 2
            if not h.check(0 <= iy < correl.shape[0] and 0 <= ix < correl.shape[1],
                           lambda: f"{tag} {s0} {s1} {kw}: displacement {dx, dy} outside of the map {correl.shape}"):
                continue
            # value of the map at the position of the displacement, from the definition
            if not fft:
                pad = np.zeros((3 * s0[0], 3 * s0[1]))
                inside = True
                val, cnt = 0.0, 0
                oy, ox = s0[0] // 2 - s1[0] // 2 - dy, s0[1] // 2 - s1[1] // 2 - dx
                for a in range(s1[0]):
                    for b in range(s1[1]):
                        if 0 <= a + oy < s0[0] and 0 <= b + ox < s0[1]:
                            val += float(im0[a + oy, b + ox]) * float(im1[a, b])
                            cnt += 1
                        else:
                            inside = False
                if tag == "pythran":
                    val *= im1.size / cnt
                    inside = True
                if inside:
                    h.check(abs(correl[iy, ix] - val) < 1e-4 * max(1e-3, np.abs(correl).max()),
                            lambda: f"{tag} {s0} {s1} {kw}: value of the map for the displacement {dx, dy}: "
                                    f"{correl[iy, ix]} instead of {val}")
            elif fft:
                k = np.unravel_index(np.argmax(correl), correl.shape)
                h.eq(tuple(int(v) for v in c.compute_displacement_from_indices(k[1], k[0])), (dx, dy),
                     f"{tag} {s0} {kw}: displacement of the maximum for a periodic shift")

    def identical(tag, s0, kw):
        c = C.correlation_classes[tag](s0, s0, **kw)
        im = smooth(*s0)
        correl, norm = c(im, im)
        k = np.unravel_index(np.argmax(correl), correl.shape)
        h.eq(tuple(int(v) for v in c.compute_displacement_from_indices(k[1], k[0])), (0, 0),
             f"{tag} {s0} {kw}: identical windows")

    methods = []
    for tag, cls in C.correlation_classes.items():
        if tag in ("pycuda", "cufft", "skcufft"):
            continue
        try:
            cls((8, 8), (8, 8))
            methods.append(tag)
        except NameError:
            pass
    while h.more() and h.cases < 500:
        tag = methods[rng.randint(len(methods))]
        s0 = (int(rng.randint(8, 15)), int(rng.randint(8, 15)))
        kw = {}
        if issubclass(C.correlation_classes[tag], C.CorrelFFTBase):
            s1 = s0
            if rng.rand() < 0.4:
                kw = {"displacement_max": int(rng.randint(3, 6))}
        elif tag == "pythran":
            s1 = s0 if rng.rand() < 0.3 else tuple(n - int(rng.randint(4, 6)) for n in s0)
            if rng.rand() < 0.4:
                kw = {"displacement_max": 2}
        else:
            s1 = s0 if rng.rand() < 0.3 else tuple(n - int(rng.randint(0, 5)) for n in s0)
            if tag == "scipy.signal" and rng.rand() < 0.3:
                s1 = tuple(n - 4 - int(rng.randint(0, 2)) for n in s0)
                kw = {"mode": "valid"}
        h.run("known shift " + tag, lambda: known_shift(tag, s0, s1, kw), method=tag, shape0=s0, shape1=s1, options=kw)
        if kw.get("mode") != "valid":
            h.run("identical windows " + tag, lambda: identical(tag, s0, kw), method=tag, shape=s0, options=kw)
    # the conversions of the methods which cannot run here
    for cls in (C.CorrelPyCuda,):
        c = h.run("conversions pycuda", lambda: cls((16, 16), (8, 8)))
        if c is not None:
            h.run("conversions pycuda", lambda: conversions(c, "pycuda"))
