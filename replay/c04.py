"""random maps with ties, invalid values and peaks close to the borders, random limits, radius and numbers of peaks"""
import numpy as np


def run(h):
    from fluidimage.calcul import correl as C
    from fluidimage.calcul.errors import PIVError
    rng = np.random.RandomState(h.seed)
    nan = np.nan

    def random_map(n0, n1):
        kind = rng.randint(4)
        if kind == 0:
            m = rng.rand(n0, n1)
        elif kind == 1:
            m = rng.randint(-2, 3, size=(n0, n1)).astype(float)
        elif kind == 2:
            m = -rng.rand(n0, n1) - 1
        else:
            m = rng.rand(n0, n1) * 0.1
            for _ in range(3):
                m[rng.randint(n0), rng.randint(n1)] = 1 + rng.rand()
        return m.astype("float32")

    def ref_search(m):
        """(status, (iy, ix)) of a map where only the region is valid; the last maximum for ties is not imposed"""
        ok = ~np.isnan(m)
        if not ok.any():
            return "empty", []
        best = m[ok].max()
        out = []
        n0, n1 = m.shape
        for i, j in np.argwhere(ok & (m == best)):
            if i in (0, n0 - 1) or j in (0, n1 - 1):
                st = "bad"
            elif np.isnan(m[i - 1:i + 2, j - 1:j + 2]).any():
                st = "bad"
            else:
                st = "ok"
            out.append((st, (int(i), int(j))))
        return "max", out

    def one_search():
        n0, n1 = (int(rng.randint(1, 9)) for _ in range(2))
        m = random_map(n0, n1)
        s0, s1 = int(rng.randint(n0)), int(rng.randint(n1))
        e0, e1 = int(rng.randint(s0 + 1, n0 + 1)), int(rng.randint(s1 + 1, n1 + 1))
        if rng.rand() < 0.4:
            s0 = s1 = 0
            e0, e1 = n0, n1
        mask = np.ones((n0, n1), bool)
        mask[s0:e0, s1:e1] = False
        m[mask] = nan
        m[rng.rand(n0, n1) < rng.choice([0, 0.1, 0.5, 1])] = nan
        k = m.copy()

        def f():
            i, j, msg = C.nan_indices_max(m, s0, e0, s1, e1)
            h.check(np.array_equal(m, k, equal_nan=True), "the map is modified")
            st, cands = ref_search(m)
            if st == "empty":
                h.check(msg != "", "an empty map is accepted")
                return
            byp = {p: s for s, p in cands}
            if h.check((i, j) in byp, f"selected {(i, j)}, maxima at {sorted(byp)}"):
                h.check((msg == "") == (byp[(i, j)] == "ok"), f"message {msg!r} for {(i, j)}: {byp[(i, j)]}")
            norm = rng.choice([0.0, 1.0, 2.0])
            lim = ((s0, e0), (s1, e1))
            try:
                r = C._compute_indices_max(m, norm, *lim)
                h.check(msg == "", "no error raised")
            except PIVError as e:
                r = e.results
                h.check(msg != "", "error raised")
            want = m[i, j] / norm if norm else 0.0
            h.check((r[0], r[1]) == (j, i) and np.isclose(r[2], want), f"results {r}, expected {(j, i, want)}")
        h.run("nan_indices_max", f, map=m.tolist(), region=(s0, e0, s1, e1))

    def one_selection():
        n0, n1 = (int(rng.randint(4, 13)) for _ in range(2))
        r = int(rng.randint(0, 4))
        nb = int(rng.randint(1, 4))
        dm = rng.choice([None, 0.5, 1, 1.5, 2, 3, 4.5, "20%", "40%"])
        if dm is not None and not str(dm).endswith("%"):
            dm = float(dm)
        m = random_map(n0, n1)
        norm = float(rng.choice([1.0, 2.0]))

        def f():
            c = C.CorrelFFTNumpy((n0, n1), (n0, n1), displacement_max=dm, particle_radius=r, nb_peaks_to_search=nb)
            limit = None if dm is None else float(dm[:-1]) / 100 * max(n0, n1) if isinstance(dm, str) else dm
            work = m.copy()
            for iy in range(n0):
                for ix in range(n1):
                    dx, dy = c.compute_displacement_from_indices(ix, iy)
                    if limit is not None and np.sqrt(dx**2 + dy**2) > limit:
                        work[iy, ix] = nan
            given = m.copy()
            try:
                res, err = c.compute_displacements_from_correl(given, norm), None
            except PIVError as e:
                res, err = None, e
            if limit is not None:
                h.check(np.array_equal(given, m, equal_nan=True), "the map of the caller is modified")

            def remove(w, i, j):
                w = w.copy()
                for a in range(n0):
                    for b in range(n1):
                        if abs(a - i) <= r and abs(b - j) <= r:
                            w[a, b] = nan
                return w

            def search(w):
                """the last of the maxima, as the code does; (status, position)"""
                st, cands = ref_search(w)
                if st == "empty":
                    return "bad", (0, 0)
                return cands[-1]
            st, p = search(work)
            first = p
            if st != "ok":
                work = remove(work, *p)
                st, p = search(work)
            if st != "ok":
                if h.check(err is not None, lambda: f"accepted {res}, no valid peak"):
                    d = c.compute_displacement_from_indices(first[1], first[0])
                    h.check(tuple(err.results[:2]) == d, f"error at {err.results}, first peak {d}")
                return
            if not h.check(err is None, lambda: f"error {err.explanation!r}, a valid peak exists at {p}"):
                return
            want = [c.compute_displacement_from_indices(p[1], p[0]) + (work[p] / norm,)]
            for _ in range(nb - 1):
                work = remove(work, *p)
                st, p = search(work)
                if st != "ok":
                    break
                want.append(c.compute_displacement_from_indices(p[1], p[0]) + (work[p] / norm,))
            got = [tuple(res[:3])] + (list(res[3]) if res[3] is not None else [])
            h.check(len(got) == len(want) and np.allclose(got, want), f"peaks {got}, expected {want}")
            h.check((res[3] is None) == (nb == 1), "secondary peaks")
        h.run("compute_displacements_from_correl", f, map=m.tolist(), displacement_max=dm, radius=r, nb_peaks=nb,
              norm=norm)

    first = True
    while first or h.more():
        first = False
        for _ in range(5):
            one_search()
        one_selection()
