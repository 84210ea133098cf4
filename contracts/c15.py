"""C15: the mean image does not depend on how the sums are grouped.

The queue of the partial sums is any list known by its total (the sum of its images at an arbitrary pixel, the
number of images they count for and its length): pop takes an arbitrary item out of it, append and insert add
one. The loops carry one invariant: what has been taken from the queue of the images plus the total of the
partial sums is constant, and the number of results recorded plus the number of partial sums too."""
import fnmatch

import z3
from pyvc.spec import *
from pyvc import textfs
from pyvc.core import Unsupported

MEAN = "topologies.mean:TopologyMeanImage"


class Partial(VList):
    """a list of (image, number of images), of unknown content: only its total is known"""

    def __init__(self, S, name, shape, pixel, single=False):
        VList.__init__(self, n=S.int(name + "_len", 0), get=self.no_item)
        self.S, self.shape, self.pixel, self.name, self.single = S, shape, pixel, name, single
        self.state(S.int(name + "_sum"), S.int(name + "_count", 0))
        self.methods = dict(pop=self.pop, append=self.append_, insert=self.insert)
        if single:
            self.methods = dict(pop_first_item=self.pop_first_item, popitem=self.pop_first_item)

    def no_item(self, i):
        raise Unsupported("item of a queue known by its total")

    def state(self, total, count):
        raw = lambda t: t if z3.is_expr(t) else ze(t)
        self.total, self.count = Sv(raw(total), "int"), Sv(raw(count), "int")
        S = self.S
        if self.single:
            S.req(ze(self.count) == ze(self.n))
        # an empty list has a null total
        S.req(Implies(ze(self.n) == 0, And(ze(self.total) == 0, ze(self.count) == 0)))

    def take(self):
        S = self.S
        if S.when(ze(self.n) == 0):
            S.raise_(IndexError, "pop from empty list")
        im = S.arr(self.name + "_item", self.shape, "int")
        k = 1 if self.single else S.int(self.name + "_k", 1)
        self.n = Sv(ze(self.n) - 1, "int")
        self.state(ze(self.total) - ze(im.at(self.pixel)), ze(self.count) - ze(k))
        return im, k

    def pop(self, i=-1):
        return self.take()

    def pop_first_item(self, *a, **k):
        im, _ = self.take()
        return self.S.str("name"), im

    def append_(self, item):
        S = self.S
        im, k = S.I.unpack(item, 2)
        S.ens("the partial sum has the shape of the images", And(*[ze(a) == ze(b) for a, b in zip(im.shape, self.shape)]) if len(im.shape) == 2 else False)
        S.ens("the partial sum is made of integers", z3.BoolVal(im.kind == "int"))
        self.n = Sv(ze(self.n) + 1, "int")
        self.total = Sv(ze(self.total) + ze(im.at(self.pixel)), "int")
        self.count = Sv(ze(self.count) + ze(k), "int")

    def insert(self, i, item):
        self.append_(item)

    def havoc(self):
        S = self.S
        self.n = S.int(self.name + "_len", 0)
        self.state(S.int(self.name + "_sum"), S.int(self.name + "_count", 0))


class Conserved:
    """the invariant of the loops on the queues"""

    def __init__(self, S, tmp, images, results):
        self.S, self.tmp, self.images, self.results = S, tmp, images, results
        self.all = self.objects = [x for x in (tmp, images, results) if x is not None]
        self.sums = [x for x in (tmp, images) if x is not None]
        self.init = self.now()

    def now(self):
        return (z3.Sum([ze(x.total) for x in self.sums]), z3.Sum([ze(x.count) for x in self.sums]),
                z3.Sum([ze(self.S.len(x)) for x in self.all]))

    def inv(self):
        a, b = self.now(), self.init
        return [("the total of the images is conserved", a[0] == b[0]), ("the number of images is conserved", a[1] == b[1]),
                ("one result is recorded per image which is added to another one", a[2] == b[2])]

    def applies(self, I, st):
        return any(x is y for x in self.sums for y in I.frame.vars.values())

    def establish(self):
        for what, f in self.inv():
            self.S.ens("loop: " + what, f)

    def havoc(self):
        S = self.S
        # what the loop cannot reach is not changed
        here = [x for x in S.I.frame.vars.values()]
        for x in self.sums:
            if any(x is y for y in here):
                x.havoc()
        self.objects = [x for x in self.all if x is self.results or any(x is y for y in here)]
        n = S.int("len_results", 0)
        self.results.replace(n, lambda i: Sv(S.E.fresh_fun("result", "int", "int")(ze(i)), "int"))
        for what, f in self.inv():
            S.req(f)

    def variant(self):
        n = ze(self.tmp.n)
        # an image which is read, or two partial sums which are merged
        here = any(x is self.images for x in self.objects)
        return Sv(n + 2 * ze(self.images.n) if here else n, "int")

    def preserve(self):
        self.establish()


def scene(S, images=True):
    H, W = S.int("H", 1), S.int("W", 1)
    pixel = (S.idx("i", H), S.idx("j", W))
    tmp = Partial(S, "tmp", (H, W), pixel)
    ims = Partial(S, "images", (H, W), pixel, single=True) if images else None
    if ims is not None:
        S.req(ze(ims.count) == ze(ims.n))
    results = VList(n=S.int("nb_results", 0), get=lambda i: Sv(S.E.fresh_fun("result0", "int", "int")(ze(i)), "int"))
    rule = Conserved(S, tmp, ims, results)
    S.I.while_rules = [rule]

    def astype(a, d):
        # sums of images in 32 bits at least (assumption: the sum of the images is less than 2 ** 32)
        name = getattr(d, "name", str(d)).rpartition(".")[2]
        S.ens("sums are computed with 32 bits at least", z3.BoolVal(name in (
            "uint32", "uint64", "int64", "float64", "int", "float", "uint", "double")))
    S.I.astype_hook = astype
    return tmp, ims, results, rule


def conserved(S, rule):
    for what, f in rule.inv():
        S.ens(what, f)


@contract("C15")
def by_four(S):
    """reduce_queue_tmp_arrays4"""
    tmp, _, results, rule = scene(S, False)
    top = S.new(MEAN, results=results)
    S.meth(top, "reduce_queue_tmp_arrays4", tmp)
    conserved(S, rule)
    S.ens("few partial sums are left", ze(tmp.n) < 4)
    S.cover("end")


@contract("C15")
def by_two(S):
    """reduce_queue_tmp_arrays2"""
    tmp, _, results, rule = scene(S, False)
    n0 = tmp.n
    top = S.new(MEAN, results=results)
    S.meth(top, "reduce_queue_tmp_arrays2", tmp)
    conserved(S, rule)
    S.ens("at most one sum is left", ze(tmp.n) <= 1)
    S.cover("end")


def written_files(S):
    out = []

    def opened(I, path, mode="r", *a, **k):
        f = S.ns("file", attrs=VDict({}), data=VDict({}))
        S.ens("opened to be written", z3.BoolVal(mode == "w"))
        f.attrs["create_dataset"] = lambda I, name, data=None, *a, **k: f.attrs["data"].d.__setitem__(name, data)
        f.attrs["__setitem__"] = lambda I, name, data: f.attrs["data"].d.__setitem__(name, data)
        f.attrs["__enter__"] = lambda I: f
        f.attrs["__exit__"] = lambda I, *a: None
        out.append((path, f))
        return f
    S.model("h5py.File", opened)
    return out


@contract("C15")
def step(S):
    """TopologyMeanImage.main: nothing is lost, and the sum is written when there is nothing left to add"""
    tmp, ims, results, rule = scene(S)
    S.fs()
    paths = S.ns("paths", n=S.int("nb_paths", 0))
    paths.attrs["__len__"] = lambda I: paths.attrs["n"]
    d = S.path("job")
    ex = S.ns("executor", path_job_data=d)
    io = S.int("nb_io", 0) if S.choose(2) else 0
    if not isinstance(io, int):
        ex.attrs["nb_working_workers_io"] = io
    index = S.int("index_process", 0) if S.choose(2) else None
    if index is not None:
        ex.attrs["index_process"] = index
    out = written_files(S)
    total, count, _ = rule.init
    top = S.new(MEAN, results=results, executor=ex)
    S.meth(top, "main", (paths, ims, tmp), None)
    S.ens("all the images which have been read are taken", ze(ims.n) == 0)
    last = S.when(And(ze(paths.attrs["n"]) == 0, ze(io) == 0))
    if not last or S.when(And(count == 0, ze(tmp.n) == 0)) and not out:
        S.ens("nothing is written", z3.BoolVal(not out))
        conserved(S, rule)
        return
    S.ens("one sum is written", z3.BoolVal(len(out) == 1))
    path, f = out[0]
    S.ens("the sum of all the images", S.eq(f.attrs["data"].d["arr"].at(tmp.pixel), Sv(total, "int")))
    S.ens("the number of images", S.eq(f.attrs["attrs"].d["num_images"], Sv(count, "int")))
    S.ens("nothing is kept", And(ze(tmp.n) == 0, ze(tmp.total) == 0, ze(tmp.count) == 0))
    from pyvc.models import str_concat
    k = 0 if index is None else index
    S.ens("the file of this process", S.eq(textfs.pstr(S.I, path), textfs.pstr(S.I, textfs.p_div(
        S.I, d, str_concat(["tmp_sum", S.fmt(k, "03d"), ".h5"])))))
    S.cover("written")


@contract("C15")
def results_of_a_process(S):
    """with n images, a process records n - 1 results"""
    tmp, ims, results, rule = scene(S)
    S.fs()
    S.req(And(ze(tmp.n) == 0, ze(S.len(results)) == 0, ze(ims.n) >= 1))
    n = ims.n
    paths = S.ns("paths")
    paths.attrs["__len__"] = lambda I: 0
    ex = S.ns("executor", path_job_data=S.path("job"), index_process=S.int("index", 0))
    out = written_files(S)
    top = S.new(MEAN, results=results, executor=ex)
    S.meth(top, "main", (paths, ims, tmp), None)
    S.ens("the sum is written", z3.BoolVal(len(out) == 1))
    S.ens("number of results", ze(S.len(results)) == ze(n) - 1)


@contract("C15")
def final(S):
    """TopologyMeanImage.final_seq_work: all the sums of the processes, divided by the number of images"""
    S.fs()
    H, W = S.int("H", 1), S.int("W", 1)
    pixel = (S.idx("i", H), S.idx("j", W))
    nf = S.int("nb_files", 1)
    E = S.E
    val = E.fresh_fun("sum_of_file", "int", "int", "int", "int")
    num = E.fresh_fun("count_of_file", "int", "int")
    path_of = E.fresh_fun("path_of_file", "int", "str")
    number = E.fresh_fun("file_of_path", "str", "int")
    k = z3.Int("k")
    S.req(z3.ForAll([k], And(number(path_of(k)) == k, num(k) >= 1), patterns=[path_of(k)]))
    S.req(z3.ForAll([k], num(k) >= 1, patterns=[num(k)]))
    job = S.ns("job directory")
    removed = []

    def glob(I, pattern):
        good = isinstance(pattern, str) and all(fnmatch.fnmatch(f"tmp_sum{i:03d}.h5", pattern) for i in (0, 1, 12, 999, 1234))
        S.ens("the files of all the processes", z3.BoolVal(good))
        l = VList(n=nf, get=lambda i: one(i))
        l.any_order = True
        return l

    def one(i):
        return textfs.mkpath(Sv(path_of(ze(i)), "str"))
    job.attrs["glob"] = glob

    def opened(I, path, mode="r", *a, **kw):
        i = number(ze(textfs.pstr(I, path)))
        S.ens("opened to be read", z3.BoolVal(mode == "r"))
        data = new_arr((H, W), lambda ix: Sv(val(i, ze(ix[0]), ze(ix[1])), "int"), "int")
        f = S.ns("file", attrs=VDict({"num_images": Sv(num(i), "int")}))
        f.attrs["__getitem__"] = lambda I, name: data if name == "arr" else S.raise_(KeyError, name)
        f.attrs["__enter__"] = lambda I: f
        f.attrs["__exit__"] = lambda I, *a: None
        return f
    S.model("h5py.File", opened)
    total = S.arr("total", (H, W), "int")
    count = S.int("count", 1)
    given = []

    # the contracts of the two reductions (by_four, by_two): the total is conserved, one sum is left
    def four(I, self, l):
        given.append("four")
        check(l)

    def check(l):
        q = S.idx("q", nf)
        S.ens("one sum per file", S.eq(S.len(l), nf))
        im, c = S.I.unpack(S.get(l, q), 2)
        S.ens("the sum and the number of images of a file", And(S.eq(im.at(pixel), Sv(val(ze(q), ze(pixel[0]), ze(pixel[1])), "int")), S.eq(c, Sv(num(ze(q)), "int"))))

    def two(I, self, l):
        if not given:
            check(l)
        given.append("two")
        l.items = [(total, count)]
    S.stub(MEAN + ".reduce_queue_tmp_arrays4", four)
    S.stub(MEAN + ".reduce_queue_tmp_arrays2", two)
    saved = []
    S.model("Path.unlink", lambda I, p, *a, **k: S.ens("the partial sums are removed after the mean is saved", z3.BoolVal(len(saved) == 1)))
    S.model("PIL.Image.fromarray", lambda I, a: S.ns("image", save=lambda I, p, *x: saved.append((a, p)), close=lambda I: None))
    dt = ["uint8", "float64"][S.choose(2)]
    ex = S.ns("executor", path_job_data=job)
    res = VList(n=S.int("nb_results", 0), get=lambda i: 1)
    n0 = S.len(res)
    top = S.new(MEAN, executor=ex, results=res, path_dir_result=S.path("result"), original_dtype=dt)
    S.meth(top, "final_seq_work")
    r = top.attrs["result"]
    S.ens("the sums are merged", z3.BoolVal("two" in given))
    S.ens("shape", And(ze(r.shape[0]) == ze(H), ze(r.shape[1]) == ze(W)))
    v, t, c = r.at(pixel), ze(total.at(pixel)), ze(count)
    S.req(t >= 0)
    if dt == "float64":
        S.ens("the sum is divided by the number of images", ze(v, "real") * c == z3.ToReal(t))
    else:
        S.ens("the sum is divided by the number of images, and truncated", And(ze(v) * c <= t, t < (ze(v) + 1) * c))
    S.ens("one more result", ze(S.len(res)) == ze(n0) + 1)
    S.ens("the mean is saved", z3.BoolVal(len(saved) == 1 and saved[0][0] is r))
