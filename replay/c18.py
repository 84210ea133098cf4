"""operations on vector fields: random grids (all shapes and orientations), values and operands"""


def run(h):
    import numpy as np
    from fluidimage.postproc.vector_field import ArrayOfVectorFieldsOnGrid, VectorFieldOnGrid
    from fluidimage.postproc.util import get_grid_from_ivecs_final, reshape_on_grid_final

    rng = h.rng
    r = np.random.default_rng(h.seed)

    def axis(n, regular=False):
        if regular:
            return r.uniform(-50, 50) + r.uniform(0.5, 20) * np.arange(n)
        return r.uniform(-50, 50) + np.cumsum(r.uniform(0.5, 20, n))

    def values(shape):
        a = r.normal(size=shape)
        if rng.random() < 0.3:
            a[r.random(shape) < 0.2] = np.nan
        return a

    def field(ny, nx, x=None, y=None, decreasing=False, vz=None, z=None, regular=False):
        x = axis(nx, regular) if x is None else x
        y = axis(ny, regular) if y is None else y
        if decreasing:
            x, y = x[::rng.choice([1, -1])], y[::rng.choice([1, -1])]
        sh = (ny, nx)
        vz = rng.choice(["nan", "array", "number"]) if vz is None else vz
        z = rng.choice(["none", "array", "number"]) if z is None else z
        kw = {} if vz == "nan" else dict(vz=values(sh) if vz == "array" else r.normal())
        zz = None if z == "none" else r.normal(size=sh) if z == "array" else 2.5
        return dict(x=x.copy(), y=y.copy(), z=zz, vx=values(sh), vy=values(sh), **kw)

    def nodes(x, y, *arrays):
        """{(x, y): values}"""
        return {(x[j], y[i]): tuple(a if a is None or np.ndim(a) == 0 else a[i, j] for a in arrays)
                for i in range(len(y)) for j in range(len(x))}

    def of(f):
        return nodes(f.x, f.y, f.vx, f.vy, f.vz, f.z)

    def same(a, b):
        if a.keys() != b.keys():
            return False
        eq = lambda u, v: u is v or (u is not None and v is not None and (u == v or (np.isnan(u) and np.isnan(v))))
        return all(len(a[k]) == len(b[k]) and all(eq(u, v) for u, v in zip(a[k], b[k])) for k in a)

    def kinds(f, what):
        sh = (len(f.y), len(f.x))
        h.check(f.vx.shape == sh and f.vy.shape == sh, f"{what}: shape of the vectors")
        for a in (f.vz, f.z):
            h.check(a is None or np.ndim(a) == 0 or a.shape == sh, f"{what}: shapes of vz and z")

    def orientation(ny, nx, kw):
        before = nodes(kw["x"], kw["y"], kw["vx"], kw["vy"], kw.get("vz", np.nan), kw["z"])
        f = VectorFieldOnGrid(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()})
        h.check(np.all(np.diff(f.x) > 0) and np.all(np.diff(f.y) > 0), "increasing axes")
        kinds(f, "field")
        h.check(same(of(f), before), "a vector left its position")

    def build(ny, nx, **kw):
        return VectorFieldOnGrid(**field(ny, nx, **kw))

    def region(f, g, ys, xs, what):
        kinds(g, what)
        h.check(np.array_equal(g.x, f.x[xs]) and np.array_equal(g.y, f.y[ys]), f"{what}: axes")
        for n in ("vx", "vy", "vz", "z"):
            a, b = getattr(f, n), getattr(g, n)
            if isinstance(a, np.ndarray):
                h.check(isinstance(b, np.ndarray) and np.array_equal(a[ys, xs], b, equal_nan=True), f"{what}: {n}")
            else:
                h.check(a is b or a == b or (np.isnan(a) and np.isnan(b)), f"{what}: {n}")

    def unchanged(f, before, what):
        h.check(same(of(f), before), f"{what}: the operand is changed")

    def extraction(ny, nx, cut, s):
        f = build(ny, nx, decreasing=True)
        before = of(f)
        i0, i1, j0, j1 = s
        g = f.extract(i0, i1, j0, j1)
        region(f, g, slice(i0, i1), slice(j0, j1), "extract")
        if 2 * cut < min(ny, nx):
            region(f, f.truncate(cut), slice(cut, ny - cut), slice(cut, nx - cut), "truncate")
            region(f, ArrayOfVectorFieldsOnGrid([f]).truncate(cut)[0], slice(cut, ny - cut), slice(cut, nx - cut), "truncate")
        # physical bounds: exactly the vectors between the bounds
        a0, a1 = sorted(r.uniform(f.y[0] - 5, f.y[-1] + 5, 2)) if rng.random() < 0.7 else (f.y[i0], f.y[i1 - 1])
        b0, b1 = sorted(r.uniform(f.x[0] - 5, f.x[-1] + 5, 2)) if rng.random() < 0.7 else (f.x[j0], f.x[j1 - 1])
        iy, ix = np.flatnonzero((f.y >= a0) & (f.y <= a1)), np.flatnonzero((f.x >= b0) & (f.x <= b1))
        if len(iy) and len(ix):
            region(f, f.extract(a0, a1, b0, b1, phys=True), slice(iy[0], iy[-1] + 1), slice(ix[0], ix[-1] + 1), "physical extraction")
        g.vx[:] = 0
        g.x[:] = 0
        unchanged(f, before, "extraction")

    def square(ny, nx, cut, even):
        f = build(ny, nx)
        n = min(ny, nx) - 2 * cut
        n -= even and n % 2
        for g in [f.extract_square(cut, force_even=even)] + ([ArrayOfVectorFieldsOnGrid([f]).extract_square(cut)[0]] if even else []):
            h.eq(g.vx.shape, (n, n), "shape of a square extraction")
            i, j = np.searchsorted(f.y, g.y[0]), np.searchsorted(f.x, g.x[0])
            region(f, g, slice(i, i + n), slice(j, j + n), "extract_square")
            big, first = (nx, j) if nx > ny else (ny, i)
            h.check(abs(2 * first - (big - n)) <= 1, "the square is not centred")
            h.check((i if nx > ny else j) == cut, "the square does not begin at the cut")

    def regularise(ny, nx, odd_x, odd_y):
        x, y = axis(nx, True), axis(ny, True)
        if odd_x:
            x[-1] += r.uniform(0.1, 0.4)
        if odd_y:
            y[-1] += r.uniform(0.1, 0.4)
        f = build(ny, nx, x=x, y=y, vz="nan", z=rng.choice(["none", "number"]))
        vx, vy = f.vx.copy(), f.vy.copy()
        if rng.random() < 0.5:
            f.regularize_grid()
        else:
            ArrayOfVectorFieldsOnGrid([f]).regularize_grid()
        sx, sy = slice(0, nx - odd_x), slice(0, ny - odd_y)
        h.check(np.array_equal(f.x, x[sx]) and np.array_equal(f.y, y[sy]), "regularize_grid: axes")
        h.check(np.array_equal(f.vx, vx[sy, sx], equal_nan=True) and np.array_equal(f.vy, vy[sy, sx], equal_nan=True), "regularize_grid: vectors")
        h.check(bool(f.is_grid_regular), "the grid is not regular")

    def arithmetic(ny, nx):
        x, y, vz, z = axis(nx), axis(ny), rng.choice(["nan", "array", "number"]), rng.choice(["none", "array", "number"])
        f, g = build(ny, nx, x=x, y=y, vz=vz, z=z), build(ny, nx, x=x, y=y, vz=vz, z=z)
        bf, bg = of(f), of(g)
        c = rng.choice([2, -0.5, 3.25])
        A = ArrayOfVectorFieldsOnGrid
        with np.errstate(all="ignore"):
            for what, got, exp in [
                ("f + g", f + g, lambda u, v: u + v), ("f - g", f - g, lambda u, v: u - v), ("f * g", f * g, lambda u, v: u * v),
                ("f / g", f / g, lambda u, v: u / v), ("f + c", f + c, lambda u, v: u + c), ("c + f", c + f, lambda u, v: u + c),
                ("f - c", f - c, lambda u, v: u - c), ("f * c", f * c, lambda u, v: u * c), ("c * f", c * f, lambda u, v: u * c),
                ("f / c", f / c, lambda u, v: u / c), ("[f] + g", (A([f]) + g)[0], lambda u, v: u + v),
                ("[f] - g", (A([f]) - g)[0], lambda u, v: u - v), ("[f] * c", (A([f]) * c)[0], lambda u, v: u * c),
                ("c * [f]", (c * A([f]))[0], lambda u, v: u * c), ("[f] / c", (A([f]) / c)[0], lambda u, v: u / c),
                ("sum", sum([f, g]), lambda u, v: u + v)]:
                kinds(got, what)
                h.check(np.array_equal(got.x, x) and np.array_equal(got.y, y), f"{what}: axes")
                for n in ("vx", "vy", "vz"):
                    h.check(np.allclose(getattr(got, n), exp(getattr(f, n), getattr(g, n)), equal_nan=True, rtol=1e-12), f"{what}: {n}")
                h.check(got.z is f.z or np.array_equal(got.z, f.z), f"{what}: z")
        unchanged(f, bf, "arithmetic")
        unchanged(g, bg, "arithmetic")

    def average(ny, nx, n):
        x, y, vz = axis(nx), axis(ny), rng.choice(["nan", "array"])
        fs = [build(ny, nx, x=x, y=y, vz=vz, z="none") for _ in range(n)]
        before = [of(f) for f in fs]
        m = ArrayOfVectorFieldsOnGrid(fs).compute_time_average()
        for c in ("vx", "vy", "vz"):
            h.check(np.allclose(getattr(m, c), sum(getattr(f, c) for f in fs) / n, equal_nan=True), f"time average: {c}")
        h.check(np.array_equal(m.x, x) and np.array_equal(m.y, y), "time average: axes")
        for f, b in zip(fs, before):
            unchanged(f, b, "time average")

    def reshaping(ny, nx, order, sx, sy):
        x, y = np.cumsum(r.integers(1, 9, nx))[::sx], np.cumsum(r.integers(1, 9, ny))[::sy]
        if order == "x first":
            xf, yf = np.tile(x, ny), np.repeat(y, nx)
        else:
            xf, yf = np.repeat(x, ny), np.tile(y, nx)
        u, v = values(nx * ny), values(nx * ny)
        X, Y, U, V = reshape_on_grid_final(xf, yf, u, v)
        h.check(X.shape == Y.shape == U.shape == V.shape == (ny, nx), "shape of the grid")
        X2, Y2 = get_grid_from_ivecs_final(xf, yf)
        h.check(np.array_equal(X, X2) and np.array_equal(Y, Y2), "grid")
        exp = {(a, b): (c, d) for a, b, c, d in zip(xf, yf, u, v)}
        got = {(X[i, j], Y[i, j]): (U[i, j], V[i, j]) for i in range(ny) for j in range(nx)}
        h.check(same(got, exp), "a vector is not at the node of its coordinates")
        h.check(np.all(X == X[:1, :]) and np.all(Y == Y[:, :1]), "the grid is not a grid")

    while h.more():
        ny, nx = rng.randint(2, 9), rng.randint(2, 9)
        h.run("field", lambda: orientation(ny, nx, field(ny, nx, decreasing=True)), ny=ny, nx=nx)
        ny, nx = rng.randint(3, 9), rng.randint(3, 9)
        i0, j0 = rng.randrange(ny), rng.randrange(nx)
        s = (i0, rng.randint(i0 + 1, ny), j0, rng.randint(j0 + 1, nx))
        cut = rng.randint(0, 3)
        h.run("extraction", lambda: extraction(ny, nx, cut, s), ny=ny, nx=nx, cut=cut, bounds=str(s))
        cut, even = rng.randint(0, (min(ny, nx) - 2) // 2), rng.random() < 0.5
        if min(ny, nx) - 2 * cut > 1:
            h.run("square", lambda: square(ny, nx, cut, even), ny=ny, nx=nx, cut=cut, even=even)
        ox, oy = rng.randrange(2), rng.randrange(2)
        h.run("regularize", lambda: regularise(ny + 2, nx + 2, ox, oy), ny=ny + 2, nx=nx + 2, odd_x=ox, odd_y=oy)
        h.run("arithmetic", lambda: arithmetic(ny, nx), ny=ny, nx=nx)
        n = rng.randint(1, 6)
        h.run("average", lambda: average(ny, nx, n), ny=ny, nx=nx, n=n)
        order, sx, sy = rng.choice(["x first", "y first"]), rng.choice([1, -1]), rng.choice([1, -1])
        h.run("reshaping", lambda: reshaping(ny - 1, nx - 1, order, sx, sy), ny=ny - 1, nx=nx - 1, order=order, sx=sx, sy=sy)
