"""C22: the correction of the phase of a frame is a whole number of periods, the same for all the pixels.

The loop carries one invariant: every frame it computes is the initial one plus m periods (m a ghost integer, the
same for all the frames and pixels), and every number it computes is the jump of the reference pixel of this frame."""
import z3
from pyvc.spec import *
from pyvc import loops

WORK = "works.surface_tracking:WorkSurfaceTracking"
PI = z3.Real("pi")
PERIOD = 2 * PI


class Periods:
    def __init__(self, S, angle, previous, ref, pixel):
        self.S, self.angle, self.previous, self.ref, self.pixel = S, angle, previous, ref, pixel
        self.m = None
        self.objects = []
        self.names = None

    def applies(self, I, st):
        self.st = st
        return True

    def variables(self):
        """the frames and the numbers which the loop assigns: those with a value before the loop"""
        I = self.S.I
        names = loops.assigned_names([self.st])
        v = {n: I.frame.vars[n] for n in names if n in I.frame.vars and not isinstance(I.frame.vars[n], loops.Poison)}
        return ([n for n, x in v.items() if isinstance(x, Arr)], [n for n, x in v.items() if not isinstance(x, Arr)])

    def jump(self, m):
        return ze(self.angle.at(self.ref)) + PERIOD * z3.ToReal(m) - ze(self.previous.at(self.ref))

    def check(self, m):
        S = self.S
        frames, numbers = self.names
        for n in frames:
            a = S.I.frame.vars[n]
            for p in (self.pixel, self.ref):
                S.ens("the frame is the initial one plus whole periods", ze(a.at(p)) == ze(self.angle.at(p)) + PERIOD * z3.ToReal(m))
            S.ens("same shape", And(*[ze(x) == ze(y) for x, y in zip(a.shape, self.angle.shape)]))
        for n in numbers:
            S.ens("the number is the jump of the reference pixel", ze(S.I.frame.vars[n], "real") == self.jump(m))

    def establish(self):
        self.names = self.variables()
        self.check(z3.IntVal(0))

    def havoc(self):
        S = self.S
        self.m = ze(S.int("periods"))
        self.poisoned = False

    def fill(self):
        # (after the assigned variables have been forgotten)
        I, m = self.S.I, self.m
        frames, numbers = self.names
        for n in frames:
            I.frame.vars[n] = new_arr(self.angle.shape, lambda ix: Sv(ze(self.angle.at(ix)) + PERIOD * z3.ToReal(m), "real"), "real")
        for n in numbers:
            I.frame.vars[n] = Sv(self.jump(m), "real")

    def variant(self):
        if not self.poisoned:
            self.poisoned = True
            self.fill()
        else:
            # the periods after this iteration: the one for which the invariant holds
            pass
        m = self.m if not hasattr(self, "after") else self.after
        j = self.jump(m)
        a = z3.If(j >= 0, j, -j)
        S = self.S
        q = ze(S.int("whole_periods"))
        S.req(And(z3.ToReal(q) * PERIOD <= a, a < (z3.ToReal(q) + 1) * PERIOD))
        return Sv(q + z3.If(a > PI, 1, 0), "int")

    def preserve(self):
        # one period more or less
        S = self.S
        frames, numbers = self.names
        d = [ze(S.I.frame.vars[n].at(self.ref)) for n in frames] or [ze(S.I.frame.vars[n], "real") for n in numbers]
        m = self.m
        self.after = m + (1 if S.when(d[0] > (ze(self.angle.at(self.ref)) if frames else self.jump(z3.IntVal(0))) + PERIOD * z3.ToReal(m)) else -1)
        self.check(self.after)


@contract("C22")
def correction(S):
    """WorkSurfaceTracking.correctcouple"""
    l_y, l_x, red = S.int("l_y", 1), S.int("l_x", 1), S.int("red_factor", 1)
    S.req(And(PI > 3, PI < 4))
    H, W = S.int("H", 1), S.int("W", 1)
    # the frames are the images of l_y lines and l_x columns, one pixel over red_factor being kept
    S.req(And((ze(H) - 1) * ze(red) < ze(l_y), ze(l_y) <= ze(H) * ze(red)))
    S.req(And((ze(W) - 1) * ze(red) < ze(l_x), ze(l_x) <= ze(W) * ze(red)))
    angle, previous = S.arr("angle", (H, W)), S.arr("previous", (H, W))
    pixel = (S.idx("i", H), S.idx("j", W))
    ry, rx = S.int("reference_line", 0), S.int("reference_column", 0)
    # the reference pixel: parts of the numbers of lines and columns, towards zero
    S.req(And(20 * ze(red) * ze(ry) <= ze(l_y), ze(l_y) < 20 * ze(red) * (ze(ry) + 1)))
    S.req(And(2 * ze(red) * ze(rx) <= ze(l_x), ze(l_x) < 2 * ze(red) * (ze(rx) + 1)))
    S.req(And(ze(ry) < ze(H), ze(rx) < ze(W)))
    y, x = S.real("y"), S.real("x")
    work = S.new(WORK, l_y=l_y, l_x=l_x, red_factor=red)
    fixed = []

    def fix(I, v):
        r = [ry, rx][len(fixed) % 2]
        k = 20 if r is ry else 2
        S.ens("the reference pixel", ze(v, "real") * (k * z3.ToReal(ze(red))) == z3.ToReal(ze(l_y if r is ry else l_x)))
        fixed.append(v)
        return Sv(z3.ToReal(ze(r)), "real")
    S.model("numpy.fix", fix)
    rule = Periods(S, angle, previous, (ry, rx), pixel)
    S.I.while_rules = [rule]
    shape = S.ns("shape")
    r = S.meth(work, "correctcouple", ((previous, S.ns("shape of the previous frame")), (angle, shape)))
    corrected, sh = S.I.unpack(r, 2)
    S.ens("the shape is given back", z3.BoolVal(sh is shape))
    m = rule.m if rule.m is not None else z3.IntVal(0)
    S.ens("a whole number of periods, the same for all the pixels", And(
        ze(corrected.at(pixel)) == ze(angle.at(pixel)) + PERIOD * z3.ToReal(m),
        ze(corrected.at((ry, rx))) == ze(angle.at((ry, rx))) + PERIOD * z3.ToReal(m)))
    j = ze(corrected.at((ry, rx))) - ze(previous.at((ry, rx)))
    S.ens("the jump that remains is at most half a period", And(j <= PI, j >= -PI))
    S.cover("end")


@contract("C22")
def consistent(S):
    """a frame which is consistent with the previous one is not modified"""
    S.req(And(PI > 3, PI < 4))
    H, W = S.int("H", 1), S.int("W", 1)
    angle, previous = S.arr("angle", (H, W)), S.arr("previous", (H, W))
    pixel = (S.idx("i", H), S.idx("j", W))
    ry, rx = S.int("reference_line", 0), S.int("reference_column", 0)
    S.req(And(ze(ry) < ze(H), ze(rx) < ze(W)))
    fixed = []

    def fix(I, v):
        fixed.append(v)
        return Sv(z3.ToReal(ze([ry, rx][(len(fixed) - 1) % 2])), "real")
    S.model("numpy.fix", fix)
    j0 = ze(angle.at((ry, rx))) - ze(previous.at((ry, rx)))
    S.req(And(j0 <= PI, j0 >= -PI))
    work = S.new(WORK, l_y=S.int("l_y", 1), l_x=S.int("l_x", 1), red_factor=S.int("red_factor", 1))
    r = S.meth(work, "correctcouple", ((previous, S.ns("shape of the previous frame")), (angle, S.ns("shape"))))
    corrected, sh = S.I.unpack(r, 2)
    S.ens("not modified", S.eq(corrected.at(pixel), angle.at(pixel)))
    S.cover("end")
