"""format_time_in_seconds on random and boundary durations (int and float)"""
import math
import re


def run(h):
    from fluidimage.util.util import format_time_in_seconds as f

    def one(d):
        t = f(d)
        if d < 60:
            h.check(t == f"{d:.2f} s", f"{d!r} -> {t!r}")
            return
        m = re.fullmatch(r"(\d{2,}):(\d{2}):(\d{2})", t)
        if not h.check(m, f"{d!r} -> {t!r}"):
            return
        a, b, c = map(int, m.groups())
        h.check(b < 60 and c < 60 and a * 3600 + b * 60 + c == math.floor(d), f"{d!r} -> {t!r}")

    vals = [0, 0.004, 0.5, 1, 9.99, 59, 59.4, 60, 60.5, 61, 119.9, 120, 599, 3599, 3599.5, 3600, 3601, 3659.9, 3660,
            7199.99, 35999, 36000, 86399, 86400, 359999, 360000, 1e6]
    for d in vals:
        h.run("format_time", lambda: one(d), duration=d)
    n = 0
    while h.more() and n < 20000:
        n += 1
        d = h.rng.choice([h.rng.uniform(0, 60), h.rng.uniform(60, 4000), h.rng.uniform(0, 1e6), h.rng.randint(0, 10**6),
                          h.rng.randint(0, 100) * 60, h.rng.randint(0, 50) * 3600])
        h.run("format_time", lambda: one(d), duration=d)
