"""corrections of phases: random frames, and chains of frames through the topology's couples"""


def run(h):
    import contextlib
    import io
    import numpy as np
    from fluidimage.topologies.base import Queue
    from fluidimage.topologies.surface_tracking import TopologySurfaceTracking
    from fluidimage.works.surface_tracking import WorkSurfaceTracking
    rng = h.rng
    r = np.random.default_rng(h.seed)

    def work(l_y, l_x, red):
        w = object.__new__(WorkSurfaceTracking)
        w.l_y, w.l_x, w.red_factor = l_y, l_x, red
        return w

    def pixel(w):
        return int(w.l_y / 20 / w.red_factor), int(w.l_x / 2 / w.red_factor)

    def quiet(f):
        with contextlib.redirect_stdout(io.StringIO()):
            return f()

    def verify(w, before, after, previous, what=""):
        m = (after - before) / (2 * np.pi)
        k = np.round(m[0, 0])
        h.check(np.allclose(m, k, atol=1e-6), lambda: f"{what}not the same whole number of periods: {m.tolist()}")
        y, x = pixel(w)
        jump = after[y, x] - previous[y, x]
        h.check(abs(jump) <= np.pi + 1e-9, lambda: f"{what}remaining jump {jump}")
        if abs(before[y, x] - previous[y, x]) <= np.pi:
            h.check(np.array_equal(before, after), "a consistent frame is modified")

    def one(l_y, l_x, red, jump):
        w = work(l_y, l_x, red)
        shape = (-(-l_y // red), -(-l_x // red))
        previous, angle = r.normal(0, 3, shape), r.normal(0, 3, shape)
        y, x = pixel(w)
        angle[y, x] = previous[y, x] + jump
        before, p0 = angle.copy(), previous.copy()
        after, s = quiet(lambda: w.correctcouple(((previous, shape), (angle, shape))))
        h.eq(s, shape, "shape")
        h.check(np.array_equal(angle, before) and np.array_equal(previous, p0), "the given frames are modified")
        verify(w, before, after, previous)

    def chain(n, l_y, l_x, red):
        """frames arriving in any order: each one is corrected with the corrected previous one, and given once"""
        w = work(l_y, l_x, red)
        shape = (-(-l_y // red), -(-l_x // red))
        frames = {f"f{i}": r.normal(0, 6, shape) for i in range(n)}
        top = object.__new__(TopologySurfaceTracking)
        mod0, angles, names, mod, couples = (Queue(x) for x in ("mod0", "angles", "names", "mod", "couples"))
        names[-1] = ("f0", "f0")
        names[-1] = (names[-1][0],) * 2
        for i in range(n - 1):
            names[i] = (f"f{i}", f"f{i+1}")
        order = list(frames)
        rng.shuffle(order)
        out = {}
        for _ in range(20 * n + 20):
            what = rng.randrange(3)
            if what == 0 and order:
                k = order.pop()
                angles[k] = (frames[k].copy(), shape)
            elif what == 1 and couples:
                k, c = couples.pop_first_item()
                mod0[k] = w.correctcouple(c)
            elif names or mod0:
                top.make_couples((mod0, angles, names), (mod, couples))
            if not order and not names and not couples and not mod0:
                break
            while mod:
                k, v = mod.pop_first_item()
                h.check(k not in out, "a frame is given twice")
                out[k] = v
        for _ in range(2 * n + 4):
            while order:
                k = order.pop()
                angles[k] = (frames[k].copy(), shape)
            top.make_couples((mod0, angles, names), (mod, couples))
            while couples:
                k, c = couples.pop_first_item()
                mod0[k] = w.correctcouple(c)
        while mod:
            k, v = mod.pop_first_item()
            h.check(k not in out, "a frame is given twice")
            out[k] = v
        if not h.eq(set(out), set(frames), "frames"):
            return
        for i in range(n):
            previous = out[f"f{i-1}"][0] if i else out["f0"][0]
            verify(w, frames[f"f{i}"], out[f"f{i}"][0], previous, f"frame {i}: ")

    rounds = 0
    while h.more() and rounds < (20000 if h.tier == "thorough" else 1500):
        rounds += 1
        l_y, l_x, red = rng.randint(1, 60), rng.randint(1, 30), rng.randint(1, 4)
        jump = rng.choice([0, 1, -1, 3, -3, 3.2, -3.2, 2 * np.pi, -2 * np.pi, 9, -9.5, 50, -120, np.pi, -np.pi, r.normal(0, 30)])
        h.run("one", lambda: one(l_y, l_x, red, jump), l_y=l_y, l_x=l_x, red_factor=red, jump=jump)
        if rounds % 5 == 0:
            n = rng.randint(1, 6)
            h.run("chain", lambda: quiet(lambda: chain(n, l_y, l_x, red)), n=n, l_y=l_y, l_x=l_x, red_factor=red)
