"""C13: completing a computation computes exactly the missing results.

Any number of items, any content of the result directory (an arbitrary predicate on paths)."""
import z3
from pyvc.spec import *
from pyvc import textfs
from pyvc import odict
from pyvc.models import str_concat

PIV = "topologies.piv:TopologyPIV"
PRE = "topologies.preproc:TopologyPreproc"
IMAGES = "topologies.base:TopologyBaseFromImages"
BOS = "topologies.bos:TopologyBOS"


def selection(S, what, r, n, item, wanted):
    """r is the list of the items 0, ..., n - 1 which are wanted, in order, each once"""
    f = getattr(r, "facts", None)
    if f is None or "sel" not in f:
        i, k = S.idx("i", n), S.idx("k", S.len(r))
        p = z3.Int("position")
        S.ens(what + ": a list filled by a selection", z3.BoolVal(False))
        return
    i = S.idx("i", n)
    S.ens(what + ": all the items are considered", And(ze(f["n"]) == ze(n), ze(f["n0"]) == 0))
    k = zb(f["keep"](i))
    if S.when(zb(wanted(i))):
        S.ens(what + ": a wanted item is taken", k)
        S.ens(what + ": the item itself", S.eq(f["item"](i), item(i)))
    else:
        S.ens(what + ": an item which is not wanted is not taken", Not(k))
    S.ens(what + ": each once", S.eq(S.len(r), f["m"]))
    j = S.idx("j", S.len(r))
    S.ens(what + ": in order", S.eq(S.get(r, j), f["item"](Sv(f["sel"](ze(j)), "int"))))


def exists(S, p):
    return zb(S.fs().has(textfs.pstr(S.I, p)))


class Series:
    """series of arrays: n items (index(i), serie i), the name of the result of the item i is name(i)"""

    def __init__(self, S):
        E = S.E
        self.S = S
        self.n = S.int("n", 0)
        self.index = E.fresh_fun("index", "int", "int")
        self.name = E.fresh_fun("name", "int", "str")
        self.nb = S.int("nb_series", 0)
        self.set = []
        self.items = VList(n=self.n, get=lambda i: (Sv(self.index(ze(i)), "int"), self.serie(i)))
        self.obj = S.ns("series", items=lambda I: self.items, nb_series=self.nb, __len__=lambda I: self.n,
                        __iter__=lambda I: VList(n=self.n, get=self.serie),
                        set_index_series=lambda I, l: self.set.append(l))

    def serie(self, i):
        S = self.S
        return S.ns("serie", i=Sv(ze(i), "int"), get_name_arrays=lambda I: S.ns("names", i=Sv(ze(i), "int")))

    def the_name(self, i):
        return Sv(self.name(ze(i)), "str")


@contract("C13")
def missing_couples(S):
    """TopologyPIV.compute_indices_to_be_computed"""
    s = Series(S)
    prefixes = []

    def name(I, serie, prefix="piv"):
        prefixes.append(prefix)
        return s.the_name(serie.attrs["i"])
    S.stub("data_objects.piv:get_name_piv", name)
    S.fs()
    top = S.new(PIV, series=s.obj, path_dir_result=S.path("result"))
    r = S.meth(top, "compute_indices_to_be_computed")
    S.ens("the prefix of the saved results", z3.BoolVal(all(p == "piv" for p in prefixes) and bool(prefixes)) if prefixes else ze(s.n) == 0)
    selection(S, "missing couples", r, s.n, lambda i: Sv(s.index(ze(i)), "int"),
              lambda i: Not(exists(S, textfs.p_div(S.I, top.attrs["path_dir_result"], s.the_name(i)))))


@contract("C13")
def missing_subsets(S):
    """TopologyPreproc.compute_indices_to_be_computed"""
    s = Series(S)
    bad = []
    fmt = S.str("format")

    def name(I, serie, names, ind, nb, out):
        i = serie.attrs["i"]
        S.ens("name of the result: its own subset", And(
            S.eq(names.attrs["i"], i), S.eq(ind, Sv(s.index(ze(i)), "int")), S.eq(nb, s.nb), S.eq(out, fmt)))
        return s.the_name(i)
    S.stub("data_objects.preproc:get_name_preproc", name)
    S.fs()
    params = S.ns("params", saving=S.ns("saving", format=fmt))
    top = S.new(PRE, series=s.obj, path_dir_result=S.path("result"), params=params)
    r = S.meth(top, "compute_indices_to_be_computed")
    selection(S, "missing subsets", r, s.n, lambda i: Sv(s.index(ze(i)), "int"),
              lambda i: Not(exists(S, textfs.p_div(S.I, top.attrs["path_dir_result"], s.the_name(i)))))


@contract("C13")
def series_to_compute(S):
    """TopologyBaseFromSeries.init_series: the items of the series, for each mode"""
    s = Series(S)
    cls = [PIV, PRE][S.choose(2)]
    mode = ["complete", "from_path_indices", "recompute", "new_dir"][S.choose(4)]
    n = S.int("nb_missing", 0)
    miss = S.E.fresh_fun("missing", "int", "int")
    missing = VList(n=n, get=lambda i: Sv(miss(ze(i)), "int"))
    for c in (PIV, PRE):
        S.stub(c + ".compute_indices_to_be_computed", lambda I, self: missing)
    S.fs()
    path = S.path("indices")
    if mode == "from_path_indices":
        # written by save_indices_files (C01), for a process with at least one item
        S.req(ze(n) >= 1)
        S.fs().set(textfs.pstr(S.I, path), textfs.Lines(VList(n=n, get=lambda i: S.fmt(Sv(miss(ze(i)), "int"))), True))
    top = S.new(cls, series=s.obj, how_saving=mode, params=S.ns("params", series=S.ns("series", path_indices_file=path)))
    S.meth(top, "init_series")
    S.cover("end")
    if S.when(ze(s.n) == 0):
        S.ens("no item: nothing is selected", z3.BoolVal(not s.set))
    elif mode in ("complete", "from_path_indices"):
        S.ens("the items are selected once", z3.BoolVal(len(s.set) == 1))
        l = s.set[0]
        S.ens("exactly these items", S.eq(S.len(l), n))
        i = S.idx("i", n)
        S.ens("exactly these items, in order", S.eq(S.get(l, i), Sv(miss(ze(i)), "int")))
    else:
        S.ens("all the items", z3.BoolVal(not s.set))


# ------------------------------------------------------------------ topologies from images

class Images:
    """serie of images: n images, indices(i) = (first(i), second(i)), distinct names name(first, second)"""

    def __init__(self, S, dims):
        E = S.E
        self.S, self.dims = S, dims
        self.n = S.int("n", 0)
        self.ind = [E.fresh_fun(f"index{d}", "int", "int") for d in range(dims)]
        self.name = E.fresh_fun("name", *["int"] * dims, "str")
        # the name determines the image
        self.number = E.fresh_fun("number", "str", "int")
        self.obj = S.ns("serie", iter_indices=lambda I: VList(n=self.n, get=self.indices),
                        compute_name_from_indices=lambda I, *a: self.name_of(a), __len__=lambda I: self.n,
                        base_name=S.str("base"), extension_file=S.str("ext"), path_dir=S.path("source"))

    def indices(self, i):
        return tuple(Sv(f(ze(i)), "int") for f in self.ind)

    def name_of(self, a):
        assert len(a) == self.dims
        return Sv(self.name(*[ze(x) for x in a]), "str")

    def image(self, i):
        t = self.name_of(self.indices(i))
        self.S.req(Implies(And(ze(i) >= 0, ze(i) < ze(self.n)), self.number(t.e) == ze(i)))
        return t


@contract("C13")
def missing_images(S):
    """TopologyBaseFromImages.compute_indices_to_be_computed, any name of the result of an image"""
    s = Images(S, 1 + S.choose(2))
    res = S.E.fresh_fun("result_name", "str", "str")
    kind = S.choose(2)
    if kind:
        S.stub(IMAGES + "._get_name_result_from_name", lambda I, self, n: Sv(res(ze(n)), "str"))
    S.fs()
    top = S.new(IMAGES, serie=s.obj, path_dir_result=S.path("result"))
    r = S.meth(top, "compute_indices_to_be_computed")
    rn = lambda i: Sv(res(ze(s.image(i))), "str") if kind else s.image(i)
    selection(S, "missing images", r, s.n, s.indices,
              lambda i: Not(exists(S, textfs.p_div(S.I, top.attrs["path_dir_result"], rn(i)))))


class Fill:
    """invariant of the loop which fills the queue of paths: the first k wanted images are there"""

    def __init__(self, S, s, n, item, q, src):
        self.S, self.s, self.n, self.item, self.q, self.src = S, s, n, item, q, src
        self.objects = [q]
        self.x = S.str("x")
        # pos(x): position of the image of name x among the wanted ones
        self.pos = S.E.fresh_fun("position", "str", "int")

    def name(self, k):
        """name of the wanted image k: the names of the wanted images are distinct"""
        t = self.s.name_of(self.item(k))
        self.S.req(Implies(And(ze(k) >= 0, ze(k) < ze(self.n)), self.pos(t.e) == ze(k)))
        return t

    def member(self, k, x):
        p = self.pos(ze(x))
        return And(p >= 0, p < ze(k), ze(self.name(Sv(p, "int"))) == ze(x))

    def path(self, x):
        return textfs.pstr(self.S.I, textfs.p_div(self.S.I, self.src, Sv(ze(x), "str")))

    def establish(self):
        self.S.ens("the queue is empty at the beginning", ze(self.q.attrs["__od__"].n) == 0)
        self.begun = True

    def havoc(self, k):
        def unknown(*a):
            raise Unsupported("order of the items of a queue modified in a loop")
        self.q.attrs["__od__"] = odict.OD(self.S.int("filled_n", 0), unknown, unknown, lambda x: self.member(k, x), self.path)

    def start(self, k):
        self.nk = self.name(k)

    def preserve(self, k):
        S, x, o = self.S, self.x, self.q.attrs["__od__"]
        k1 = Sv(ze(k) + 1, "int")
        S.cover("an image is added")
        S.ens("the wanted image is added", zb(o.has(self.nk)))
        S.ens("with the path of the source image", S.eq(o.get(self.nk), self.path(self.nk)))
        S.ens("only the wanted images", zb(o.has(x)) == self.member(k1, x))
        S.ens("with their paths", Implies(zb(o.has(x)), S.eq(o.get(x), self.path(x))))


@contract("C13")
def images_to_compute(S):
    """TopologyBaseFromImages.fill_queue_paths: the images which will be computed, for each mode"""
    dims = 1 + S.choose(2)
    s = Images(S, dims)
    mode = ["complete", "from_path_indices", "recompute", "new_dir"][S.choose(4)]
    wanted = S.int("nb_wanted", 0)
    w = [S.E.fresh_fun(f"wanted{d}", "int", "int") for d in range(dims)]
    witem = lambda k: tuple(Sv(f(ze(k)), "int") for f in w)
    S.stub(IMAGES + ".compute_indices_to_be_computed", lambda I, self: VList(n=wanted, get=witem))
    fixed = []
    S.stub(IMAGES + "._fix_indices_images", lambda I, self, l: fixed.append(l))
    S.fs()
    path = S.path("indices")
    if mode == "from_path_indices":
        S.req(ze(wanted) >= 1)
        # one tuple per line (its text is read back by _tuple_ints_from_str: C01)
        text = S.E.fresh_fun("line", "int", "str")
        S.fs().set(textfs.pstr(S.I, path), textfs.Lines(VList(n=wanted, get=lambda i: Sv(text(ze(i)), "str")), True))
        back = S.E.fresh_fun("parsed", "str", "int")

        def parse(I, line):
            k = back(ze(line))
            return witem(Sv(k, "int"))
        S.stub("topologies.base:_tuple_ints_from_str", parse)
        j = z3.Int("j")
        from pyvc.models import str_concat
        S.req(z3.ForAll([j], Implies(And(j >= 0, j < ze(wanted)), back(ze(str_concat([Sv(text(j), "str"), "\n"]))) == j), patterns=[text(j)]))
    given = mode in ("complete", "from_path_indices")
    q = S.call("topologies.base:Queue", "paths")
    src = S.path("source")
    top = S.new(IMAGES, serie=s.obj, how_saving=mode, path_dir_src=src, path_dir_result=S.path("result"),
                params=S.ns("params", images=S.ns("images", path_indices_file=path)))
    rule = Fill(S, s, wanted if given else s.n, witem if given else s.indices, q, src)
    S.I.loop_rules = [rule]
    r, exc = S.attempt(lambda: S.meth(top, "fill_queue_paths", None, q))
    S.ens("no exception", z3.BoolVal(exc is None))
    o = q.attrs["__od__"]
    x = rule.x
    S.cover("end")
    if S.when(ze(s.n) == 0):
        S.ens("no image: the queue stays empty", ze(o.n) == 0)
    elif S.when(ze(rule.n) == 0):
        S.ens("no image to be computed: the queue stays empty", ze(o.n) == 0)
    else:
        S.ens("exactly the images to be computed", zb(o.has(x)) == rule.member(rule.n, x))
        S.ens("with the paths of the source images", Implies(zb(o.has(x)), S.eq(o.get(x), rule.path(x))))
        if not given:
            S.ens("the reference is excluded when all the images are taken", z3.BoolVal(len(fixed) == 1))


# ------------------------------------------------------------------ names of the results

class Opened:
    """h5py.File(path, mode): the files which are written"""

    def __init__(self, S):
        self.paths = []
        S.model("importlib.metadata.version", lambda I, name: "version")
        for lib in ("h5py.File", "h5netcdf.File"):
            S.model(lib, self.open)
        self.S = S

    def open(self, I, path, mode="r", *a, **k):
        S = self.S
        if not (isinstance(mode, str) and mode.startswith("r")):
            self.paths.append(path)
        f = S.ns("file", attrs=VDict({}))
        f.attrs["__enter__"] = lambda I: f
        f.attrs["__exit__"] = lambda I, *a: None
        f.attrs["keys"] = lambda I: VList([])
        return f


def piv_serie(S):
    E = S.E
    dims = 1 + S.choose(3, "number of indices")
    txt = E.fresh_fun("str_index", "int", "int", "str")
    tuples = []
    for d in range(dims):
        i0, i1, k = S.int(f"start{d}"), S.int(f"stop{d}"), S.choose(2)
        tuples.append((i0, i1) if k else (i0,))
    seps = [S.str(f"separator{d}") for d in range(dims)]
    return S.ns("serie", get_slicing_tuples=lambda I: tuple(tuples), get_index_separators=lambda I: VList(list(seps)),
                get_str_for_name_from_idim_idx=lambda I, d, i: Sv(txt(ze(d), ze(i)), "str"),
                get_name_arrays=lambda I: (S.str("n0"), S.str("n1")))


@contract("C13")
def piv_names(S):
    """the file tested by compute_indices_to_be_computed is the one written by save (PIV)"""
    serie = piv_serie(S)
    S.fs()
    d = S.path("result")
    tested = []
    has = S.fs().has
    series = S.ns("series", items=lambda I: VList([(7, serie)]))
    top = S.new(PIV, series=series, path_dir_result=d, results=VList([]))
    r = S.meth(top, "compute_indices_to_be_computed")
    opened = Opened(S)
    light = S.choose(2)
    couple = S.ns("couple", serie=serie, name=S.str("couple_name"))
    S.stub("data_objects.piv:HeavyPIVResults._save_in_hdf5_object", lambda I, self, file, tag="piv0": None)
    p = S.new("data_objects.piv:HeavyPIVResults", couple=couple)
    res = p if light else S.new("data_objects.piv:MultipassPIVResults", passes=VList([p, p]))
    # precondition: the name of the directory has not the extension of a file
    root, ext = S.str("root"), S.str("extension")
    S.req(Not(Or(ext.e == z3.StringVal(".h5"), ext.e == z3.StringVal(".nc"))))
    S.model("os.path.splitext", lambda I, p: (root, ext))
    S.meth(top, "save_piv_object", res)
    S.ens("one file is written", z3.BoolVal(len(opened.paths) == 1))
    w = textfs.pstr(S.I, opened.paths[0])
    if S.when(zb(S.fs().has(w))):
        S.ens("the result exists: not computed", S.len(r) == 0)
    else:
        S.ens("the result is missing: computed", And(S.len(r) == 1, S.eq(S.get(r, 0), 7)) if not isinstance(S.len(r), int) or S.len(r) else z3.BoolVal(False))
    S.ens("the name is recorded", S.eq(S.get(top.attrs["results"], 0), opened.paths[0]))


@contract("C13")
def bos_names(S):
    """the file tested for an image is the one written for it (BOS)"""
    has_ext = S.choose(2)
    base, ext = S.str("base"), (S.str("ext") if has_ext else None)
    name, ref = S.str("name"), S.str("reference")
    src = S.path("source")
    serie = S.ns("serie", base_name=base, extension_file=ext, path_dir=src,
                 iter_indices=lambda I: VList([(3,)]), compute_name_from_indices=lambda I, i: name)
    S.fs()
    work = S.new("works.bos:WorkBOS", serie=serie, path_dir_src=src, name_reference=ref, params=S.ns("params", mask=None),
                 path_reference=textfs.p_div(S.I, src, ref), image_reference=S.arr("ref", (S.int("H", 1), S.int("W", 1))),
                 work_piv=S.ns("work", calcul=lambda I, c: S.new(
                     "data_objects.piv:MultipassPIVResults", passes=VList([S.new("data_objects.piv:HeavyPIVResults", couple=c)]))))
    top = S.new(BOS, serie=serie, path_dir_result=S.path("result"), results=VList([]), main_work=work)
    S.stub(BOS + "._fix_indices_images", lambda I, self, l: None)
    r = S.meth(top, "compute_indices_to_be_computed")
    S.stub("data_objects.piv:HeavyPIVResults._save_in_hdf5_object", lambda I, self, file, tag="piv0": None)
    opened = Opened(S)
    S.model("os.path.abspath", lambda I, p: S.str("absolute"))
    root, e = S.str("root"), S.str("extension")
    S.req(Not(Or(e.e == z3.StringVal(".h5"), e.e == z3.StringVal(".nc"))))
    S.model("os.path.splitext", lambda I, p: (root, e))
    res = S.meth(top, "calcul", (S.arr("im", (S.int("H", 1), S.int("W", 1))), name))
    S.meth(top, "save_bos_object", res)
    S.ens("one file is written", z3.BoolVal(len(opened.paths) == 1))
    if S.when(zb(S.fs().has(textfs.pstr(S.I, opened.paths[0])))):
        S.ens("the result exists: not computed", S.len(r) == 0)
    else:
        S.ens("the result is missing: computed", S.len(r) == 1)


@contract("C13")
def preproc_names(S):
    """the file tested for a subset is one of those written for it, and by it only (images)"""
    L = S.int("L", 1)
    nam = S.E.fresh_fun("names", "int", "str")
    names = VList(n=L, get=lambda i: Sv(nam(ze(i)), "str"))
    m0, m1 = S.int("middle_start", 0), S.int("middle_end")
    S.req(And(m0 < m1, m1 <= L))
    for m in ("data_objects.preproc", "works.preproc"):
        S.stub("data_objects.preproc:get_ind_middle", lambda I, serie: (m0, m1))
    nb, k = S.int("nb_series", 1), S.int("key", 0)
    serie = S.ns("serie")
    n = S.call("data_objects.preproc:get_name_preproc", serie, names, k, nb, "img")
    images = VList(n=L, get=lambda i: S.ns("image", i=i))
    arr = S.ns("array serie", names=names, nb_series=nb, ind_serie=k, serie=serie)
    w = S.new("works.preproc:WorkPreproc")
    d = S.meth(w, "_make_dict_to_save", arr, images)
    S.ens("the tested file is written", S.contains(d, n))
    # (the names of a subset are distinct, and a dictionary keeps the order of the insertions)
    pairs = getattr(d, "pairs", None)
    if pairs is not None:
        S.ens("it is the last one which is written", S.eq(pairs.get(Sv(ze(pairs.length()) - 1, "int"))[0], n))


@contract("C13")
def middle(S):
    """the images saved for a subset are inside of the subset, at least one"""
    dims = 1 + S.choose(2)
    a, b = S.int("a"), S.int("b")
    S.req(a < b)
    t = [(a, b)]
    Nj = 1
    if dims == 2:
        c, d = S.int("c"), S.int("d")
        S.req(c < d)
        one = S.choose(2)
        t.append((c,) if one else (c, d))
        Nj = 1 if one else Sv(ze(d) - ze(c), "int")
    S.stub("data_objects.preproc:get_Ni_Nj", lambda I, s: (Sv(ze(b) - ze(a), "int"), Nj))
    m0, m1 = S.call("data_objects.preproc:get_ind_middle", S.ns("serie"))
    if dims == 1 or one:
        S.ens("one image per index", ze(m1) == ze(m0) + 1)
    S.ens("inside", And(ze(m0) >= 0, ze(m0) < ze(m1), ze(m1) <= (ze(b) - ze(a)) * ze(Nj)))


@contract("C13")
def subset_identity(S):
    """a subset knows its number: it is saved under the names tested for it"""
    S.fs()
    nb, key = S.int("nb_series", 1), S.int("key", 0)
    names = (S.str("n0"), S.str("n1"))
    S.req(Not(S.eq(names[0], names[1])))
    serie = S.ns("serie", get_name_arrays=lambda I: names, get_path_arrays=lambda I: (S.str("p0"), S.str("p1")))
    S.model("os.path.abspath", lambda I, p: S.str("absolute"))
    series = S.ns("series", get_serie_from_index=lambda I, k: serie, nb_series=nb)
    top = S.new(PRE, series=series)
    subsets, arrays, out = [S.call("topologies.base:Queue", n) for n in ("subsets", "arrays", "out")]
    S.I.setitem(subsets, key, names)
    for i in range(2):
        S.I.setitem(arrays, names[i], S.ns("image", i=i))
    S.meth(top, "make_subsets", (subsets, arrays), out)
    r = S.get(out, key)
    S.ens("its number", S.eq(r.attrs["ind_serie"], key))
    S.ens("the number of subsets", S.eq(r.attrs["nb_series"], nb))
    S.ens("its names", And(S.eq(S.get(r.attrs["names"], 0), names[0]), S.eq(S.get(r.attrs["names"], 1), names[1])))


@contract("C13")
def preproc_save(S):
    """the images of a preprocessed subset are saved under their names"""
    S.fs()
    fmt = ["img", "h5"][S.choose(2)]
    saved = []
    S.model("fluiddyn.io.image.imsave", lambda I, p, a, *x, **k: saved.append((p, a)))
    S.model("fluiddyn.io.image.imsave_h5", lambda I, p, a, *x, **k: saved.append((p, a)))
    name, im = S.str("name"), S.ns("image")
    r = S.new("data_objects.preproc:PreprocResults", params=S.ns("params", saving=S.ns("saving", format=fmt)), data=VDict({}))
    r.attrs["data"] = S.ns("data", items=lambda I: VList([(name, im)]))
    d = S.path("result")
    top = S.new(PRE, path_dir_result=d, results=VList([]))
    S.meth(top, "save_preproc_object", r)
    S.ens("one image is saved", z3.BoolVal(len(saved) == 1))
    S.ens("in the result directory, under its name", S.eq(textfs.pstr(S.I, saved[0][0]), textfs.pstr(S.I, textfs.p_div(S.I, d, name))))
    S.ens("the image itself", z3.BoolVal(saved[0][1] is im))
    # the tested name: the one of the image (img), or with the extension .h5
    stem, ext = S.str("stem"), S.str("ext")
    S.model("os.path.splitext", lambda I, p: (stem, ext))
    S.stub("data_objects.preproc:get_ind_middle", lambda I, serie: (0, 1))
    t = S.call("data_objects.preproc:get_name_preproc", S.ns("serie"), (name,), 3, 9, fmt)
    S.ens("the tested name", S.eq(t, name if fmt == "img" else str_concat([stem, ".h5"])))


@contract("C13")
def reference(S):
    """TopologyBOS._fix_indices_images: only the reference image is dropped, if it is one of the images"""
    S.fs()
    dims = 1 + S.choose(2)
    n = S.int("n", 0)
    f = [S.E.fresh_fun(f"index{d}", "int", "int") for d in range(dims)]
    item = lambda k: tuple(Sv(g(ze(k)), "int") for g in f)
    l = VList(n=n, get=item)
    base, src, ref = S.str("base"), S.path("source"), S.path("reference")
    fails = S.choose(2)
    ri = tuple(S.int(f"ref{d}") for d in range(dims))

    def indices(I, name):
        if fails:
            S.raise_(ValueError, "indices of a name")
        S.ens("name of the reference", S.eq(name, textfs.p_getattr(I, ref, "name")))
        return VList(list(ri))
    serie = S.ns("serie", base_name=base, path_dir=src, compute_indices_from_name=indices)
    top = S.new(BOS, serie=serie, path_reference=ref)
    i, j = z3.Ints("i j")
    # the indices of the images are distinct (SerieOfArrays.iter_indices)
    S.req(z3.ForAll([i, j], Implies(And(i >= 0, i < j, j < ze(n)), z3.Or(*[g(i) != g(j) for g in f]))))
    S.meth(top, "_fix_indices_images", l)
    k = S.idx("k", n)
    is_ref = And(*[ze(item(k)[d]) == ze(ri[d]) for d in range(dims)])
    m = S.len(l)
    if not S.when(ze(m) != ze(n)):
        S.ens("unchanged", And(*[ze(S.get(l, k)[d]) == ze(item(k)[d]) for d in range(dims)]))
        inside = zb(textfs.p_is_relative_to(S.I, ref, src))
        named = z3.PrefixOf(ze(base), ze(textfs.p_getattr(S.I, ref, "name")))
        if not fails and S.when(And(inside, named)):
            S.ens("the reference is not one of them", Not(is_ref))
        return
    S.ens("one image is dropped", ze(m) == ze(n) - 1)
    p = l.facts["removed"]
    S.ens("the reference itself", And(*[ze(item(p)[d]) == ze(ri[d]) for d in range(dims)]))
    q = S.idx("q", m)
    S.ens("the others are kept, in order", And(*[
        ze(S.get(l, q)[d]) == ze(item(Sv(z3.If(ze(q) < ze(p), ze(q), ze(q) + 1), "int"))[d]) for d in range(dims)]))
