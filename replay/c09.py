"""mean_neighbors_xy against the definition, on random grids with missing values"""
import numpy as np


def run(h):
    from fluidimage.calcul.mean_neighbors import mean_neighbors_xy as f

    def one(n0, n1, u, v):
        u, v = np.array(u), np.array(v)
        u0, v0 = u.copy(), v.copy()
        a, b = f(u, v, np.arange(n0), np.arange(n1))
        h.check(np.array_equal(u, u0, equal_nan=True) and np.array_equal(v, v0, equal_nan=True), "inputs modified")
        bad = np.isnan(u0) | np.isnan(v0)
        bad = bad.reshape(n0, n1)
        for name, x, res in (("x", u0, a), ("y", v0, b)):
            res = np.asarray(res)
            if not h.check(res.shape == (n0 * n1,), "shape"):
                continue
            x, res = x.reshape(n0, n1), res.reshape(n0, n1)
            for i in range(n0):
                for j in range(n1):
                    vals = [x[p, q] for p in range(max(i - 1, 0), min(i + 2, n0))
                            for q in range(max(j - 1, 0), min(j + 2, n1))
                            if (p, q) != (i, j) and not bad[p, q]]
                    want = np.nan if bad[i, j] or not vals else sum(vals) / len(vals)
                    got = res[i, j]
                    ok = np.isnan(got) if np.isnan(want) else abs(got - want) < 1e-9 * (1 + abs(want))
                    h.check(ok, lambda: f"{name}[{i}, {j}] = {got}, expected {want}")

    n = 0
    while h.more() and n < (600 if not h.strong else 4000):
        n += 1
        n0, n1 = h.rng.randint(2, 6), h.rng.randint(2, 6)
        p = h.rng.choice([0, 0.1, 0.5, 0.9])
        mk = lambda: [float("nan") if h.rng.random() < p else float(h.rng.randint(-50, 50)) for _ in range(n0 * n1)]
        u, v = mk(), mk()
        h.run("mean_neighbors_xy", lambda: one(n0, n1, u, v), n0=n0, n1=n1, u=u, v=v)
