"""C25: an elapsed time is displayed exactly, in normalised units."""
from pyvc.spec import *


def floor_(x):
    return mk(z3.ToInt(ze(x))) if kind(x) == "real" else x


@contract("C25")
def format_time(S):
    """any duration >= 0, an integer or a real number"""
    if S.when(S.bool("integer")):
        d = S.int("duration", 0)
    else:
        d = S.real("duration")
        S.req(d >= 0)
    S.cover("short", d < 60)
    S.cover("long", d >= 3600)
    r = S.call("util.util:format_time_in_seconds", d)
    if not S.when(d >= 60):
        S.ens("short duration: value in seconds", S.eq(r, S.fmt(d, ".2f") + " s"))
        return
    t = floor_(d)
    h, m, s = t // 3600, (t // 60) % 60, t % 60
    S.ens("units add up to the duration", And(h * 3600 + m * 60 + s == t, m >= 0, m < 60, s >= 0, s < 60))
    S.ens("text", S.eq(r, S.fmt(h, "02") + ":" + S.fmt(m, "02") + ":" + S.fmt(s, "02")))
