"""C20: saved PIV results are read back as they were.

Model of an HDF5 file (assumed contracts of h5py): a group is a table of named members; creating a member which
exists is an error; a member is read back as it was written; the order of the names of a group is unknown.
The arrays saved in single precision are equal up to this rounding (reals are exact here)."""
import z3
from pyvc.spec import *
from pyvc.models import str_concat
from pyvc.core import Undischarged

PIV = "data_objects.piv:"
TEXTS = ("Correlation peak touching", "correl < correl_min", "delta2 < displacement_max2", "diff neighbour too large")


def dataset(S, v):
    """v[...], v[:]"""
    return S.ns("dataset", __getitem__=lambda I, i: v)


class Group:
    def __init__(self, S, parent=None):
        self.S, self.data, self.parent = S, {}, parent
        self.recorded = []
        self.any_data = None        # members with names which depend on an index: (count, name -> member, order)
        self.obj = S.ns("h5group", attrs=VDict({}), parent=parent.obj if parent else None, keys=lambda I: self.names(),
                        __contains__=lambda I, k: self.member(k) is not None, __getitem__=lambda I, k: self.get(k),
                        __len__=lambda I: self.length(), __iter__=lambda I: self.names(),
                        create_group=lambda I, k: self.create_group(k), create_dataset=lambda I, k, data=None: self.create_dataset(k, data))

    def member(self, k):
        if not isinstance(k, str):
            raise Undischarged("a member whose name is not constant")
        return self.data.get(k)

    def length(self):
        return len(self.data) if self.any_data is None else self.any_data[0]

    def names(self):
        if self.any_data is None:
            return VList(list(self.data))
        n, _, order = self.any_data
        return VList(n=n, get=order)

    def get(self, k):
        if self.any_data is not None:
            return self.any_data[1](k)
        m = self.member(k)
        if m is None:
            self.S.raise_(KeyError, k)
        return m.obj if isinstance(m, Group) else m

    def new(self, k, m):
        S = self.S
        if not isinstance(k, str):
            self.recorded.append((k, m))
            return
        S.ens("a member is created once", z3.BoolVal(k not in self.data))
        self.data[k] = m

    def create_group(self, k):
        g = Group(self.S, self)
        self.new(k, g)
        return g.obj

    def create_dataset(self, k, data):
        self.S.ens("something is written", z3.BoolVal(data is not None))
        self.new(k, data)


def arr1(S, name, n=None):
    return S.arr(name, (S.int("n_" + name, 0) if n is None else n,), nan=True)


def same_array(S, what, a, b):
    """equal at an arbitrary index"""
    if not (isinstance(a, Arr) and a.ndim == 1):
        S.ens(f"{what} is an array", z3.BoolVal(False))
        return
    S.ens(f"size of {what}", ze(a.shape[0]) == ze(b.shape[0]))
    q = S.E.fresh("int", "q")
    x, y = a.at((q,)), b.at((q,))
    inside = And(ze(q) >= 0, ze(q) < ze(b.shape[0]))
    S.ens(what, Implies(inside, And(nanof(x) == nanof(y), Or(nanof(x), ze(x, "real") == ze(y, "real")))))


def params(S):
    calls = []
    p = S.ns("params", _save_as_hdf5=lambda I, hdf5_parent: calls.append(hdf5_parent), mask=None)
    return p, calls


KEYS = ["xs", "ys", "xs_smooth", "ys_smooth", "deltaxs", "deltays", "correls_max", "deltaxs_approx", "deltays_approx", "ixvecs_approx",
        "iyvecs_approx", "deltaxs_final", "deltays_final", "deltaxs_smooth", "deltays_smooth", "ixvecs_final", "iyvecs_final"]


def root_file(S):
    f = Group(S)
    f.data["params"] = S.ns("saved params")
    f.data["couple"] = S.ns("saved couple")
    return f


def dtypes(S, res):
    """type of the numbers of the arrays: double or single precision"""
    return [None, None]


@contract("C20")
def arrays(S):
    """HeavyPIVResults: each array is written and read back under its own name"""
    f = root_file(S)
    p, _ = params(S)
    vals = {k: arr1(S, k) for k in KEYS}
    which, how = S.choose(len(KEYS)), S.choose(3)
    odd = KEYS[which]
    kept = dict(vals)
    if how == 0:
        del kept[odd]
    elif how == 1:
        kept[odd] = None
    elif S.choose(2):
        # the others are not there
        kept = {odd: vals[odd]}
    res = S.new(PIV + "HeavyPIVResults", params=p, couple=S.ns("couple"), errors=None, **kept)
    S.meth(res, "_save_in_hdf5_object", f.obj, tag="piv3")
    S.ens("the pass has its own group", z3.BoolVal("piv3" in f.data))
    back = S.call(PIV + "HeavyPIVResults", hdf5_object=f.data["piv3"].obj, couple=S.ns("couple"), params=p)
    for k in KEYS:
        if kept.get(k) is None:
            S.ens(f"{k} is not there", z3.BoolVal(back.attrs.get(k) is None))
        elif k not in back.attrs:
            S.ens(f"{k} is read back", z3.BoolVal(False))
        else:
            same_array(S, f"{k} is read back", back.attrs[k], vals[k])
    S.cover("end")


def table(S, name, valk, n=None):
    """a dictionary of any size: {vector: value}, in any order"""
    n = S.int(f"nb_{name}", 0) if n is None else n
    key = S.E.fresh_fun(f"{name}_key", "int", "int")
    rank = S.E.fresh_fun(f"{name}_rank", "int", "int")
    val = S.E.fresh_fun(f"{name}_value", "int", valk)
    q = z3.Int("q")
    S.req(z3.ForAll([q], Implies(And(q >= 0, q < ze(n)), rank(key(q)) == q), patterns=[key(q)]))
    has = lambda v: And(rank(ze(v)) >= 0, rank(ze(v)) < ze(n), key(rank(ze(v))) == ze(v))
    return VMap("int", has, lambda v: Sv(val(ze(v)), valk), order=(n, lambda i: Sv(key(ze(i)), "int"))), n, key


@contract("C20")
def rejected(S):
    """the errors and the rejected values are read back attached to the same vector, with the code of the first criterion"""
    f = root_file(S)
    p, _ = params(S)
    d = {}
    for name, valk in (("errors", "str"), ("deltaxs_wrong", "real"), ("deltays_wrong", "real")):
        d[name], n, key = table(S, name, valk)
        d[name + "_n"], d[name + "_key"] = n, key
    kept = {k: d[k] for k in ("errors", "deltaxs_wrong", "deltays_wrong")}
    if S.choose(2):
        kept = {"errors": d["errors"]}
    res = S.new(PIV + "HeavyPIVResults", params=p, couple=S.ns("couple"), **kept)
    # the codes are stored on one byte without sign
    S.model("numpy.iinfo", lambda I, t: S.ns("iinfo", max=255, min=0))
    S.meth(res, "_save_in_hdf5_object", f.obj)
    back = S.call(PIV + "HeavyPIVResults", hdf5_object=f.data["piv0"].obj, couple=S.ns("couple"), params=p)
    for name in ("errors", "deltaxs_wrong", "deltays_wrong"):
        if name not in kept:
            S.ens(f"{name}: nothing is invented", z3.BoolVal(name not in back.attrs))
            continue
        got, exp = back.attrs.get(name), kept[name]
        S.ens(f"{name} are read back", z3.BoolVal(isinstance(got, (VMap, VDict))))
        v = S.int("vector")
        S.ens(f"{name}: the same vectors", zb(S.contains(got, v)) == zb(exp.has(v)))
        if S.when(exp.has(v)):
            g = S.get(got, v)
            S.ens(f"{name}: the value of the vector", S.eq(g, exp.get(v)))
    codes = f.data["piv0"].data["errors"].data.get("codes")
    n = d["errors_n"]
    i = S.int("i")
    S.req(And(ze(i) >= 0, ze(i) < ze(n)))
    S.ens("as many codes as errors", ze(codes.shape[0]) == ze(n))
    text = ze(d["errors"].get(Sv(d["errors_key"](ze(i)), "int")))
    exp = z3.IntVal(255)
    for c, t in reversed(list(enumerate(TEXTS, 1))):
        exp = z3.If(z3.PrefixOf(z3.StringVal(t), text), z3.IntVal(c), exp)
    S.ens("code of the first failed criterion", ze(codes.at((i,))) == exp)
    S.cover("end")


# ---------------------------------------------------------------- spline weights, passes

class Writes:
    """the loop over the subdomains (or the passes): the iteration k writes the item k, under the name of k, and
    nothing else"""

    def __init__(self, S, n, check):
        self.S, self.n, self.check, self.objects, self.done = S, n, check, [], 0
        self.groups = []

    def establish(self):
        self.done += 1

    def havoc(self, k):
        pass

    def start(self, k):
        for g in self.groups():
            g.recorded = []

    def preserve(self, k):
        self.check(k)


def numbered(S, prefix, k):
    return str_concat([prefix, S.fmt(k)])


def members(S, name, n, item):
    """the members prefix0, prefix1, ... which have been written: name -> item, in an unknown order"""
    data = S.E.fresh_fun(name + "_data", "str", "obj")
    perm = S.E.fresh_fun(name + "_order", "int", "int")

    def known(prefix, q):
        S.req(Implies(And(ze(q) >= 0, ze(q) < ze(n)), data(ze(numbered(S, prefix, q))) == ze(item(q))))
    return data, (lambda prefix: lambda i: numbered(S, prefix, Sv(perm(ze(i)), "int"))), known


@contract("C20")
def spline_weights(S):
    """the spline weights of each subdomain are read back in the order of the subdomains, however many they are"""
    f = root_file(S)
    p, _ = params(S)
    fun = {c: S.E.fresh_fun(f"weights_{c}", "int", "obj") for c in "xy"}
    n = {c: S.int(f"nb_subdom_{c}", 0) for c in "xy"}
    item = {c: (lambda i, c=c: Sv(fun[c](ze(i)), "obj")) for c in "xy"}
    res = S.new(PIV + "HeavyPIVResults", params=p, couple=S.ns("couple"), errors=None,
                deltaxs_tps=VList(n=n["x"], get=item["x"]), deltays_tps=VList(n=n["y"], get=item["y"]))
    groups = lambda: [g for h in f.data.values() if isinstance(h, Group) for g in h.data.values() if isinstance(g, Group)]

    def check(c):
        def f_(k):
            mine = f.data["piv0"].data[f"delta{c}s_tps"]
            S.ens("nothing is written elsewhere", z3.BoolVal(all(not g.recorded for g in groups() if g is not mine)))
            S.ens("one member per subdomain", z3.BoolVal(len(mine.recorded) == 1))
            name, data = mine.recorded[0]
            S.ens("its name is the one of the subdomain", S.eq(name, numbered(S, "subdom", k)))
            S.ens("it contains the weights of the subdomain", ze(data) == ze(item[c](k)))
        return f_
    rules = {}
    for c in "xy":
        rules[c] = Writes(S, n[c], check(c))
        rules[c].groups = groups
    S.I.loop_rules = list(rules.values())
    S.meth(res, "_save_in_hdf5_object", f.obj)
    S.I.loop_rules = []
    g0 = f.data["piv0"]
    q = S.int("subdomain")
    for c in "xy":
        S.ens("the weights are written", z3.BoolVal(rules[c].done == 1))
        data, order, known = members(S, c, n[c], item[c])
        g0.data[f"delta{c}s_tps"].any_data = (n[c], lambda k, data=data: dataset(S, Sv(data(ze(k)), "obj")), order("subdom"))
        known("subdom", q)
    back = S.call(PIV + "HeavyPIVResults", hdf5_object=g0.obj, couple=S.ns("couple"), params=p)
    for c in "xy":
        got = back.attrs.get(f"delta{c}s_tps")
        S.ens("the weights are read back", z3.BoolVal(isinstance(got, VList)))
        S.ens("as many subdomains", ze(S.len(got)) == ze(n[c]))
        if S.when(And(ze(q) >= 0, ze(q) < ze(n[c]))):
            S.ens("the weights of the subdomain", ze(got.get(q)) == ze(item[c](q)))
    S.cover("end")


def opened(S, f):
    modes = []

    def open_(I, path, mode="r"):
        modes.append(mode)
        g = f.obj
        g.attrs["__enter__"] = lambda I: g
        g.attrs["__exit__"] = lambda I, *a: None
        return g
    S.model("h5py.File", open_)
    S.model("os.path.join", lambda I, *a: S.str("path_file"))
    S.model("os.path.basename", lambda I, a: S.str("file_name"))
    S.model("os.path.splitext", lambda I, a: (S.str("root"), ""))
    return modes


@contract("C20")
def passes(S):
    """MultipassPIVResults: the passes are written and read back in order, however many they are"""
    n = S.int("nb_passes", 1)
    S.model("importlib.metadata.version", lambda I, *a: S.str("version"))
    fun = S.E.fresh_fun("pass", "int", "obj")
    written = []
    f = root_file(S)
    modes = opened(S, f)

    def one(i):
        return S.ns("pass", _save_in_hdf5_object=lambda I, file, tag=None: written.append((file, tag, i)))

    class Reset:
        @property
        def recorded(self):
            return written

        @recorded.setter
        def recorded(self, v):
            written.clear()

    def check(k):
        S.ens("each pass is written once", z3.BoolVal(len(written) == 1))
        file, tag, i = written[0]
        S.ens("in the file", z3.BoolVal(file is f.obj))
        S.ens("the pass", ze(i) == ze(k))
        S.ens("under its number", S.eq(tag, numbered(S, "piv", k)))

    rule = Writes(S, n, check)
    rule.groups = lambda: [Reset()]
    S.I.loop_rules = [rule]
    res = S.new(PIV + "MultipassPIVResults", passes=VList(n=n, get=one), file_name=S.str("name"))
    S.meth(res, "save", [None, S.str("path")][S.choose(2)])
    S.ens("the passes are written", z3.BoolVal(rule.done == 1))
    S.ens("the file is created", z3.BoolVal(modes == ["w"]))
    # reading
    S.I.loop_rules = []
    q = S.int("q")
    data, order, known = members(S, "pass", n, lambda i: Sv(fun(ze(i)), "obj"))
    known("piv", q)
    par, couple = S.ns("params", mark="params"), S.ns("couple", mark="couple")
    got = f.get
    f.get = lambda k: got(k) if isinstance(k, str) else Sv(data(ze(k)), "obj")
    S.stub("data_objects.piv:ParamContainer", lambda I, hdf5_object: par)
    S.model("fluiddyn.util.paramcontainer.ParamContainer", lambda I, hdf5_object: par)
    S.stub("data_objects.piv:ArrayCouple", lambda I, hdf5_parent=None, params_mask=None: couple)
    load = S.E.fresh_fun("loaded", "obj", "obj")

    def heavy(I, hdf5_object=None, couple=None, params=None):
        S.ens("with the couple and the parameters of the file", z3.BoolVal(couple.attrs.get("mark") == "couple" and params.attrs.get("mark") == "params"))
        return Sv(load(ze(hdf5_object)), "obj")
    S.stub("data_objects.piv:HeavyPIVResults", heavy)
    back = S.new(PIV + "MultipassPIVResults", passes=VList([]), **{"__dict__": S.map("dict", "str", "obj")})
    S.meth(back, "_load", S.str("path"))
    r = back.attrs["passes"]
    S.ens("as many passes", ze(S.len(r)) == ze(n))
    if S.when(And(ze(q) >= 0, ze(q) < ze(n))):
        S.ens("each pass at its place", ze(r.get(q)) == load(fun(ze(q))))
        S.cover("pass")
    S.cover("end")


@contract("C20")
def light(S):
    """make_light_result: the positions and displacements of the requested pass, unexchanged, written and read back"""
    n = S.int("nb_passes", 1)
    last = S.choose(2)
    k = -1 if last else S.int("ind_pass", 0)
    index = Sv(ze(n) - 1, "int") if last else k
    if not last:
        S.req(ze(k) < ze(n) - 1)
    kind_ = "final" if last else "approx"
    m = S.int("nb_vectors", 0)
    vals = {v + kind: S.E.fresh_fun(v + kind, "int", "int", "real") for v in ("ixvecs_", "iyvecs_", "deltaxs_", "deltays_") for kind in ("final", "approx")}
    couple, (par, saved) = S.ns("couple", save=lambda I, hdf5_parent: None), params(S)

    def one(i):
        kinds = ["final"] if last else ["approx"]
        return S.new(PIV + "HeavyPIVResults", couple=couple, params=par, **{
            a: new_arr((m,), lambda p, g=g: Sv(g(ze(i), ze(p[0])), "real"), "real") for a, g in vals.items() if a.split("_")[1] in kinds})
    top = S.new(PIV + "MultipassPIVResults", passes=VList(n=n, get=one), file_name=S.str("file_name"))
    r = S.meth(top, "make_light_result", k) if not last or S.choose(2) else S.meth(top, "make_light_result")
    q = S.idx("vector", Sv(ze(m) + 1, "int"))
    S.req(ze(q) < ze(m))

    def check(r, what):
        for v in ("ixvecs_", "iyvecs_", "deltaxs_", "deltays_"):
            a = r.attrs[v + "final"]
            S.ens(f"{what}: number of values of {v}", ze(a.shape[0]) == ze(m))
            S.ens(f"{what}: {v} of the pass", ze(a.at((q,)), "real") == vals[v + kind_](ze(index), ze(q)))
    check(r, "light result")
    S.ens("couple and parameters of the pass", z3.BoolVal(r.attrs["couple"] is couple and r.attrs["params"] is par))
    f = Group(S)
    modes = opened(S, f)
    S.meth(r, "save", [None, S.str("path")][S.choose(2)])
    S.ens("the file is created", z3.BoolVal(modes == ["w"]))
    f.data["params"] = S.ns("saved params")
    f.data["couple"] = S.ns("saved couple")
    S.model("fluiddyn.util.paramcontainer.ParamContainer", lambda I, hdf5_object: par)
    S.stub("data_objects.piv:ArrayCouple", lambda I, hdf5_parent=None, params_mask=None: couple)
    back = S.call(PIV + "LightPIVResults", str_path=S.str("path"))
    check(back, "read back")
    S.cover("end")
