"""C19: preprocessing tools are applied in order and respect their bounds.

An image is any two-dimensional array. The statistics of scipy.ndimage are opaque: an array of the shape of the
image which depends on the arguments given."""
import z3
from pyvc.spec import *
from pyvc.core import NAN, Undischarged

TB = "works.preproc._toolbox_py:"


class Steps:
    """the loop over the sequence of tools: the image is the one obtained with the k first tools"""
    semantic = True

    def __init__(self, S, n, state):
        self.S, self.n, self.state, self.objects = S, n, state, [S.I.ghosts]

    def establish(self):
        fr = self.S.I.frame
        self.vars = [v for v in fr.vars if fr.vars[v] is self.S.first]

    def havoc(self, k):
        self.k = k

    def fill(self):
        for v in self.vars:
            self.S.I.frame.vars[v] = self.state(self.k)

    def start(self, k):
        self.S.begin(k)

    def preserve(self, k):
        S = self.S
        for v in self.vars:
            S.end(k, S.I.frame.vars[v])


@contract("C19")
def sequence(S):
    """PreprocToolsBase.apply: each enabled tool of the sequence, once, with its parameters, on the last output"""
    n = S.int("nb_tools", 0)
    names = S.E.fresh_fun("tool", "int", "int")
    other = S.E.fresh_fun("available", "int", "int")
    which = S.choose(2)     # a given sequence or the default one
    tool = [names, other][which]
    enabled = S.E.fresh_fun("enabled", "int", "bool")
    par = [S.E.fresh_fun(p, "int", "real") for p in ("weight", "size")]
    apply = S.E.fresh_fun("apply", "int", "int", "real", "real", "int")
    state = S.E.fresh_fun("image_after", "int", "int")
    seqs = [VList(n=n, get=lambda k: Sv(names(ze(k)), "int")), VList(n=S.int("nb_available", 0) if which == 0 else n, get=lambda k: Sv(other(ze(k)), "int"))]
    order = S.choose(3)

    def params_of(I, t):
        d = {"weight": Sv(par[0](ze(t)), "real"), "size": Sv(par[1](ze(t)), "real")}
        items = list(d.items())
        items.insert(order, ("enable", Sv(enabled(ze(t)), "bool")))
        return S.ns("tool_params", enable=Sv(enabled(ze(t)), "bool"), _make_dict_attribs=lambda I: VDict(dict(items)), **d)

    params = S.ns("params_tools", sequence=seqs[0] if which == 0 else None, available_tools=seqs[1], __getitem__=params_of)
    called = S.I.ghosts.attrs

    def tool_of(I, t):
        def run(I, img, **kw):
            S.ens("the parameters of the tool are given", z3.BoolVal(set(kw) == {"weight", "size"}))
            for p, name in zip(par, ("weight", "size")):
                if name in kw:
                    S.ens("the tool has its own parameters", ze(kw[name]) == p(ze(t)))
            called["calls"] = called["calls"] + 1
            called["last"] = t
            return Sv(apply(ze(t), ze(img), par[0](ze(t)), par[1](ze(t))), "int")
        return run

    class_ = S.ns("class", __name__="PreprocToolsPy", **{"__dict__": S.ns("class_dict", __getitem__=tool_of)})
    img = S.int("img")
    S.first = img
    S.req(state(0) == ze(img))
    called["calls"] = 0
    called["last"] = None

    def begin(k):
        called["calls"] = 0
        t = tool(ze(k))
        S.req(state(ze(k) + 1) == z3.If(enabled(t), apply(t, state(ze(k)), par[0](t), par[1](t)), state(ze(k))))

    def end(k, v):
        t = tool(ze(k))
        S.ens("the tool is called once if it is enabled, otherwise it is not called", z3.BoolVal(called["calls"] <= 1))
        S.ens("an enabled tool is called", ze(called["calls"]) == z3.If(enabled(t), 1, 0))
        S.ens("the image is the output of the tool, or the one before if the tool is not enabled", ze(v) == state(ze(k) + 1))
        S.cover("enabled" if called["calls"] else "not enabled")

    S.begin, S.end = begin, end
    S.I.loop_rules = [Steps(S, n, lambda k: Sv(state(ze(k)), "int"))]
    top = S.new("works.preproc.toolbox:PreprocToolsPy", params=params, **{"__class__": class_})
    r = S.meth(top, "apply", img)
    S.ens("the result is the image after the last tool", ze(r) == state(ze(n)))
    S.cover("end")


# ---------------------------------------------------------------- tools on a single image

def image(S, name="img", kd=None):
    ny, nx = S.int("ny", 1), S.int("nx", 1)
    kd = ["int", "real"][S.choose(2)] if kd is None else kd
    a = S.arr(name, (ny, nx), kd)
    return a, (S.idx("i", ny), S.idx("j", nx))


def unchanged(S, a, p, before):
    S.ens("the image given is not modified", S.eq(a.at(p), before))


def shape2(S, r, a):
    S.ens("shape of the result", z3.BoolVal(isinstance(r, Arr) and r.ndim == 2) if not (isinstance(r, Arr) and r.ndim == 2) else And(
        *[ze(u) == ze(v) for u, v in zip(r.shape, a.shape)]))


@contract("C19")
def threshold(S):
    """global_threshold: every pixel is clipped to the interval"""
    img, p = image(S)
    before = img.at(p)
    k = img.kind
    lo = S.int("minima") if k == "int" else S.real("minima")
    given = S.choose(3)         # maxima given; not given; nothing given (minima = 0)
    top = S.int("type_max", 1)
    S.model("numpy.iinfo", lambda I, d: S.ns("iinfo", max=top, min=0) if k == "int" else S.raise_(ValueError, "not an integer type"))
    kw = {}
    if given < 2:
        kw["minima"] = lo
    if given == 0:
        kw["maxima"] = S.int("maxima") if k == "int" else S.real("maxima")
    low = lo if given < 2 else 0
    high = kw["maxima"] if given == 0 else top if k == "int" else 65535
    S.req(ze(low, k) <= ze(high, k))
    r = S.call(TB + "global_threshold", img, **kw)
    shape2(S, r, img)
    x, b = ze(r.at(p), k), ze(before, k)
    low, high = ze(low, k), ze(high, k)
    S.ens("clipped to the interval", x == z3.If(b < low, low, z3.If(b > high, high, b)))
    S.ens("the kind of the pixels is kept", z3.BoolVal(r.kind == k))
    unchanged(S, img, p, before)
    S.cover("end")


def sliding(tool, statistic):
    def sliding_filter(S):
        img, p = image(S)
        before = img.at(p)
        stat = S.arr("statistic", img.shape, img.kind)
        calls = []

        def model(I, a, *args, **kw):
            calls.append((a, args, kw))
            return stat
        for f in ("median_filter", "minimum_filter", "percentile_filter"):
            S.model("scipy.ndimage." + f, model if f == statistic else (lambda I, *a, f=f, **k: S.ens(f"{f} is not used", z3.BoolVal(False))))
        w = S.real("weight")
        size, mode, q = S.int("window_size", 1), S.str("mode"), S.real("percentile")
        kw = dict(weight=w, window_size=size, boundary_condition=mode)
        if statistic == "percentile_filter":
            kw["percentile"] = q
        r = S.call(TB + tool, img, **kw)
        S.ens("one statistic", z3.BoolVal(len(calls) == 1))
        a, args, k = calls[0]
        S.ens("of the image", S.eq(a.at(p), before))
        S.ens("in the window", And(S.eq(k["size"], size), S.eq(k["mode"], mode)) if {"size", "mode"} <= set(k) else z3.BoolVal(False))
        if statistic == "percentile_filter":
            S.ens("of the percentile", S.eq(args[0] if args else k["percentile"], q))
        shape2(S, r, img)
        d = ze(before, "real") - ze(w) * ze(stat.at(p), "real")
        S.ens("the image minus the weighted statistic, never negative", ze(r.at(p), "real") == z3.If(d < 0, 0, d))
        unchanged(S, img, p, before)
        S.cover("end")
    sliding_filter.__name__ = tool
    sliding_filter.__doc__ = f"{tool}: the image minus the weighted statistic, never negative"
    contract("C19")(sliding_filter)


for t, s in (("sliding_median", "median_filter"), ("sliding_minima", "minimum_filter"), ("sliding_percentile", "percentile_filter")):
    sliding(t, s)


# ---------------------------------------------------------------- several images

def temporal(tool, statistic):
    def temporal_filter(S):
        nt, ny, nx = S.int("nt", 0), S.int("ny", 1), S.int("nx", 1)
        kd = ["int", "real"][S.choose(2)]
        img = S.arr("img", (nt, ny, nx), kd)
        as_list = S.choose(2)
        t, i, j = S.int("t"), S.idx("i", ny), S.idx("j", nx)
        S.req(And(ze(t) >= 0, ze(t) < ze(nt)))
        p = (t, i, j)
        before = img.at(p)
        stat = S.arr("statistic", img.shape, img.kind)
        calls = []

        def model(I, a, *args, **kw):
            calls.append((a, args, kw))
            return stat
        for f in ("median_filter", "minimum_filter", "percentile_filter"):
            S.model("scipy.ndimage." + f, model if f == statistic else (lambda I, *a, f=f, **k: S.ens(f"{f} is not used", z3.BoolVal(False))))
        w, q = S.real("weight"), S.real("percentile")
        a, b, c = S.int("wt"), S.int("wy", 1), S.int("wx", 1)
        kind = S.choose(6)
        shape, exp = [(None, (nt, 1, 1)), (a, (a, 1, 1)), ((b, c), (nt, b, c)), (VList([b, c]), (nt, b, c)), ((a, b, c), (a, b, c)), (VList([a, b, c]), (a, b, c))][kind]
        kw = dict(weight=w)
        if shape is not None or S.choose(2):
            kw["window_shape"] = shape
        if statistic == "percentile_filter":
            kw["percentile"] = q
        r, exc = S.attempt(lambda: S.call(TB + tool, img, **kw))
        spans = And(ze(nt) > 1, ze(exp[0]) > 1)
        if exc is not None:
            S.ens("a window is refused with a ValueError", z3.BoolVal(S.exc_is(exc, ValueError)))
            S.ens("a window which spans several images is accepted", Not(spans))
            S.cover("refused")
            return
        S.ens("a window which does not span several images is refused", spans)
        S.ens("one statistic", z3.BoolVal(len(calls) == 1))
        x, args, k = calls[0]
        S.ens("of the images", S.eq(x.at(p), before))
        got = list(S.I.unpack(k["size"], 3)) if "size" in k else [0, 0, 0]
        S.ens("in the window", And(*[ze(u) == ze(v) for u, v in zip(got, exp)]))
        if statistic == "percentile_filter":
            S.ens("of the percentile", S.eq(args[0] if args else k["percentile"], q))
        S.ens("shape of the result", And(*[ze(u) == ze(v) for u, v in zip(r.shape, img.shape)]))
        S.ens("the images minus the weighted statistic", ze(r.at(p), "real") == ze(before, "real") - ze(w) * ze(stat.at(p), "real"))
        S.ens("the images given are not modified", S.eq(img.at(p), before))
        S.cover("end")
    temporal_filter.__name__ = tool
    temporal_filter.__doc__ = f"{tool}: refused or the images minus the weighted statistic"
    contract("C19")(temporal_filter)


for t, s in (("temporal_median", "median_filter"), ("temporal_minima", "minimum_filter"), ("temporal_percentile", "percentile_filter")):
    temporal(t, s)


class Images:
    """the loop over the images: the k first images have been processed; the arguments other than the image
    are the ones given, whatever the image and the container of the arguments have become"""
    semantic = True

    def __init__(self, S, n, spec, rest):
        self.S, self.n, self.spec, self.rest, self.objects = S, n, spec, rest, []

    def check(self, k):
        S = self.S
        for v in self.outs:
            a = S.I.frame.vars[v]
            t = S.E.fresh("int", "t")
            i, j = self.pixel
            S.ens("the images already processed", Implies(And(ze(t) >= 0, ze(t) < ze(k)), ze(a.at((t, i, j)), "real") == ze(
                self.spec(t, i, j), "real")))
        for v in self.kws:
            S.ens("no keyword is added", z3.BoolVal(self.is_empty(S.I.frame.vars[v])))
        for v in self.args:
            a = S.I.frame.vars[v]
            items = list(a) if isinstance(a, tuple) else list(S.I.concrete_items(a))
            S.ens("the other arguments are kept", z3.BoolVal(len(items) == 1 + len(self.rest) and all(x is y for x, y in zip(items[1:], self.rest))))

    def establish(self):
        fr = self.S.I.frame
        self.outs = [v for v in fr.vars if isinstance(fr.vars[v], Arr) and fr.vars[v].ndim == 3 and not any(
            fr.vars[v].store is x.store for x in self.given)]
        self.args = [v for v in fr.vars if isinstance(fr.vars[v], (tuple, VList)) and self.is_args(fr.vars[v])]
        self.kws = [v for v in fr.vars if self.is_empty(fr.vars[v])]
        self.objects = [fr.vars[v].store for v in self.outs] + [fr.vars[v] for v in self.outs]
        self.shape = {v: fr.vars[v].shape for v in self.outs}
        self.check(0)

    def is_empty(self, v):
        return isinstance(v, VDict) and not v.d

    def is_args(self, a):
        if isinstance(a, VList) and not a.concrete:
            return False
        items = list(a) if isinstance(a, tuple) else list(a.items)
        return len(items) == 1 + len(self.rest) and all(x is y for x, y in zip(items[1:], self.rest))

    def havoc(self, k):
        self.k = k

    def fill(self):
        S = self.S
        for v in self.outs:
            old = S.E.fresh_fun("out", "int", "int", "int", "real")
            k, a = self.k, S.I.frame.vars[v]
            a.store.get = (lambda p, k=k, old=old: Sv(z3.If(ze(p[0]) < ze(k), ze(self.spec(*p), "real"), old(*[ze(x) for x in p])), "real"))
            a.store.kind = "real"
        for v in self.kws:
            S.I.frame.vars[v] = VDict({})
        for v in self.args:
            img = S.arr("last_image", self.given[0].shape[1:])
            items = [img] + list(self.rest)
            S.I.frame.vars[v] = tuple(items) if S.choose(2) else VList(items)

    def start(self, k):
        pass

    def preserve(self, k):
        self.check(Sv(ze(k) + 1, "int"))


@contract("C19")
def several_images(S):
    """iterate_multiple_imgs: several images (array or list) are processed like each of them alone, in order"""
    nt, ny, nx = S.int("nt", 0), S.int("ny", 1), S.int("nx", 1)
    i, j = S.idx("i", ny), S.idx("j", nx)
    t = S.int("t")
    S.req(And(ze(t) >= 0, ze(t) < ze(nt)))
    stack = S.arr("img", (nt, ny, nx), ["int", "real"][S.choose(2)])
    before = stack.at((t, i, j))
    as_list = S.choose(2)
    # the result of the tool on an image depends on the image (represented by one of its pixels)
    res = S.E.fresh_fun("tool", "real", "int", "int", "real", "real")
    w = S.real("weight")

    def tool(I, img, *args, **kw):
        S.ens("the tool is called with one image", z3.BoolVal(isinstance(img, Arr) and img.ndim == 2))
        S.ens("and with the other parameters", z3.BoolVal(len(args) == 1 and not kw))
        v, weight = img.at((i, j)), args[0]
        return new_arr(img.shape, lambda p: Sv(res(ze(v, "real"), ze(p[0]), ze(p[1]), ze(weight, "real")), "real"), "real")

    given = stack
    if as_list:
        S.req(ze(nt) >= 1)
        given = VList(n=nt, get=lambda k: new_arr((ny, nx), lambda p, k=k: stack.at((k, p[0], p[1])), stack.kind))
    caller = S.ref("works.preproc.io:iterate_multiple_imgs")
    from pyvc.source import FuncV
    plain = FuncV(caller.module, caller.node, caller.cls, caller.closure, caller.qual)
    plain.decorators = []
    rule = Images(S, nt, lambda t, p, q: Sv(res(ze(stack.at((t, i, j)), "real"), ze(p), ze(q), ze(w)), "real"), [w])
    rule.given, rule.pixel = [stack], (i, j)
    S.I.loop_rules = [rule]
    r = S.I.call(plain, [tool, given, w], {})
    S.ens("as many images", And(*[ze(u) == ze(v) for u, v in zip(r.shape, (nt, ny, nx))]))
    S.ens("each image is processed alone, in the order of the images", ze(r.at((t, i, j)), "real") == res(ze(before, "real"), ze(i), ze(j), ze(w)))
    S.ens("the images given are not modified", S.eq(stack.at((t, i, j)), before))
    S.cover("end")
