"""C01: splitting a computation over processes partitions it exactly."""
from pyvc.spec import *

SPL = "topologies.splitters"


def rlen(S, *a):
    return S.len(S.call_builtin("range", *a))


@contract("C01")
def split_range(S):
    """start0, stop0, step0 >= 1, num_parts >= 1: num_parts ranges, contiguous, whose sizes differ by
    at most one (with split_range_last: they partition the range, by induction over the parts)"""
    start, stop, step, p = S.int("start"), S.int("stop"), S.int("step", 1), S.int("num_parts", 1)
    S.cover("requires")
    n = rlen(S, start, stop, step)
    r = S.call(SPL + ":split_range", start, stop, step, p)
    S.ens("number of parts", S.len(r) == p)
    S.ens("first part starts at start", S.get(S.get(r, 0), 0) == start)
    i, j = S.idx("i", p), S.idx("j", p)
    part = lambda k: S.get(r, k)
    size = lambda k: rlen(S, *part(k))
    S.ens("step kept", part(i)[2] == step)
    S.ens("a part stops where its elements stop", part(i)[1] == part(i)[0] + size(i) * step)
    S.ens("sizes differ by at most one", And(size(i) - size(j) <= 1, size(j) - size(i) <= 1))
    k = S.idx("k", p - 1)
    S.ens("parts are contiguous and ordered", part(k)[1] == part(k + 1)[0])


@contract("C01")
def split_range_last(S):
    """the last part ends after the last element"""
    start, stop, step, p = S.int("start"), S.int("stop"), S.int("step", 1), S.int("num_parts", 1)
    n = rlen(S, start, stop, step)
    r = S.call(SPL + ":split_range", start, stop, step, p)
    S.cover("requires")
    S.ens("last stop", S.get(S.get(r, p - 1), 1) == start + n * step)


@contract("C01")
def split_list(S):
    """any list, num_parts >= 1: slices of the list, contiguous, of sizes differing by at most one"""
    n, p = S.int("n", 0), S.int("num_parts", 1)
    seq, pos = S.distinct("items", n)
    S.cover("empty list", n == 0)
    S.cover("fewer items than parts", And(n > 0, n < p))
    r = S.call(SPL + ":split_list", seq, p)
    m = S.len(r)
    if not S.when(n > 0):
        i = S.idx("i", p)
        S.ens("empty parts", And(m == p, S.len(S.get(r, i)) == 0))
        return
    i, j = S.idx("i", m), S.idx("j", m)
    part = lambda k: S.get(r, k)
    size = lambda k: S.len(part(k))
    S.ens("number of parts", And(m >= 1, m <= p))
    S.ens("no empty part", size(i) >= 1)
    S.ens("sizes differ by at most one", And(size(i) - size(j) <= 1, size(j) - size(i) <= 1))
    q = S.idx("q", size(i))
    S.ens("consecutive items", pos(S.get(part(i), q)) == pos(S.get(part(i), 0)) + q)
    S.ens("first item", pos(S.get(part(0), 0)) == 0)
    S.ens("last item", pos(S.get(part(m - 1), size(m - 1) - 1)) == n - 1)
    k = S.idx("k", m - 1)
    S.ens("parts follow each other", pos(S.get(part(k + 1), 0)) == pos(S.get(part(k), size(k) - 1)) + 1)
    S.ens("the list itself is not modified", S.len(seq) == n)


@contract("C01")
def ranges_to_params_series(S):
    """SplitterFromSeries: one copy of the parameters per non-empty range, with exactly its bounds"""
    m = 3
    step = S.int("step", 1)
    rs = [(S.int("a"), S.int("b"), step) for _ in range(m)]
    series = S.ns(ind_start=0, ind_stop=None, ind_step=1)
    params = S.ns(series=series)
    sp = S.new(SPL + ":SplitterFromSeries", params=params, num_processes=m, ranges=VList(list(rs)),
               indices_lists=None)
    out = S.meth(sp, "iter_over_new_params")
    S.cover("requires")
    k = 0
    for a, b, c in rs:
        if S.when(b > a):
            p = S.attr(S.get(out, k), "series")
            S.ens("bounds of a part", And(S.attr(p, "ind_start") == a, S.attr(p, "ind_stop") == b,
                                          S.attr(p, "ind_step") == c))
            S.ens("parameters are copied", S.get(out, k) is not params and p is not series)
            k += 1
    S.ens("empty parts launch no process", S.len(out) == k)
    S.ens("parameters of the caller unchanged", And(series.attrs["ind_start"] == 0, series.attrs["ind_step"] == 1))


def _complete(n_parts):
    """case: a list of items to be computed, given or computed by the topology"""


@contract("C01")
def series_splitter(S):
    """SplitterFromSeries of a topology: number of expected results, parts cover the series"""
    a, b, c, p = S.int("ind_start"), S.int("ind_stop"), S.int("ind_step", 1), S.int("num_processes", 1)
    series = S.ns(ind_start=a, ind_stop=b, ind_step=c)
    how = S.str("how")
    n = S.int("n", 0)
    items, pos = S.distinct("items", n)
    top = S.ns(series=series, how_saving=how)
    if S.when(S.bool("has_method")):
        top.attrs["compute_indices_to_be_computed"] = lambda I: items
    given = S.when(S.bool("given"))
    sp = S.call(SPL + ":SplitterFromSeries", S.ns(series=S.ns()), p, top, items if given else None)
    S.cover("requires")
    if S.when(And(S.eq(how, "complete"), "compute_indices_to_be_computed" in top.attrs)):
        S.ens("expected results: items to be computed", S.attr(sp, "num_expected_results") == n)
        S.ens("no ranges", S.attr(sp, "ranges") is None)
        parts = S.attr(sp, "indices_lists")
        whole_list(S, parts, n, pos, p)
    else:
        S.ens("expected results: length of the series",
              S.attr(sp, "num_expected_results") == rlen(S, a, b, c))
        S.ens("no lists", S.attr(sp, "indices_lists") is None)
        whole_range(S, S.attr(sp, "ranges"), a, b, c, p)


def whole_list(S, parts, n, pos, p):
    """the concatenation of the parts is the list"""
    m = S.len(parts)
    if not S.when(n > 0):
        S.ens("all parts empty", S.len(S.get(parts, S.idx("i", m))) == 0)
        return
    part = lambda k: S.get(parts, k)
    i = S.idx("i", m)
    q = S.idx("q", S.len(part(i)))
    S.ens("consecutive items", pos(S.get(part(i), q)) == pos(S.get(part(i), 0)) + q)
    S.ens("from the first", pos(S.get(part(0), 0)) == 0)
    S.ens("to the last", pos(S.get(part(m - 1), S.len(part(m - 1)) - 1)) == n - 1)
    k = S.idx("k", m - 1)
    S.ens("parts follow each other", pos(S.get(part(k + 1), 0)) == pos(S.get(part(k), S.len(part(k)) - 1)) + 1)


def whole_range(S, r, a, b, c, p):
    n = rlen(S, a, b, c)
    part = lambda k: S.get(r, k)
    S.ens("number of ranges", S.len(r) == p)
    S.ens("first start", part(0)[0] == a)
    S.ens("last stop", part(p - 1)[1] == a + n * c)
    i, k = S.idx("i", p), S.idx("k", p - 1)
    S.ens("step kept", part(i)[2] == c)
    S.ens("contiguous", part(k)[1] == part(k + 1)[0])


@contract("C01")
def images_splitter(S):
    """SplitterFromImages of a topology: the subset strings given to the sub-processes"""
    a, b, c, p = S.int("start"), S.int("stop"), S.int("step", 1), S.int("num_processes", 1)
    a1, b1, c1 = S.int("start1"), S.int("stop1"), S.int("step1", 1)
    two = S.when(S.bool("two_indices"))
    tuples = [(a, b, c), (a1, b1, c1)] if two else [(a, b, c)]
    if S.when(S.bool("integer_first_index")):       # index given as an integer: no step in the tuple
        S.req(And(b == a + 1, c == 1))
        tuples[0] = (a, b)
    total = S.int("total", 0)
    serie = S.ns(get_slicing_tuples=lambda I: VList(list(tuples)), __len__=lambda I: total)
    top = S.ns(serie=serie, how_saving="recompute")
    images = S.ns(str_subset="")
    params = S.ns(images=images)
    sp = S.call(SPL + ":SplitterFromImages", params, p, top)
    S.cover("requires")
    S.ens("expected results: number of images", S.attr(sp, "num_expected_results") == total)
    whole_range(S, S.attr(sp, "ranges"), a, b, c, p)
    x, y = S.int("x"), S.int("y")
    S.req(x < y)
    sp.attrs["ranges"] = VList([(x, y, c)])
    out = S.meth(sp, "iter_over_new_params")
    S.ens("one process", S.len(out) == 1)
    from pyvc.textfs import text_split, flatten
    txt = S.attr(S.attr(S.get(out, 0), "images"), "str_subset")
    st = lambda v: S.call_builtin("str", v)
    want = st(x) + ":" + st(y) + ":" + st(c)
    if two:
        want = want + "," + st(a1) + ":" + st(b1) + ":" + st(c1)
    S.ens("subset string", S.eq(txt, want))


@contract("C01")
def index_files_series(S):
    """indices written for a process are read back unchanged by the sub-computation (series)"""
    n, m = S.int("n", 0), S.int("m", 0)
    l0, l1 = S.list("l0_", n, "int"), S.list("l1_", m, "int")
    params = S.ns(saving=S.ns(how="complete"),
                  series=S.ns(path_indices_file=None, _set_attrib=lambda I, k, v: None))
    sp = S.new(SPL + ":SplitterFromSeries", params=params, num_processes=2, ranges=None,
               indices_lists=VList([l0, l1]), _indices_files_saved=False, _path_dir_indices=None)
    path_dir = S.path("dir")
    S.meth(sp, "save_indices_files", path_dir)
    out = S.meth(sp, "iter_over_new_params")
    S.cover("requires", And(n > 0, m > 0))
    k = 0
    for lst, size in ((l0, n), (l1, m)):
        if not S.when(size > 0):
            continue
        p = S.get(out, k)
        k += 1
        got = []
        series = S.ns(set_index_series=lambda I, x: got.append(x), __len__=lambda I: 1,
                      __iter__=lambda I: VList([]))
        S.ens("read from the file", S.attr(S.attr(p, "saving"), "how") == "from_path_indices")
        top = S.ns(series=series, how_saving="from_path_indices", params=p)
        S.call("topologies.base:TopologyBaseFromSeries.init_series", top)
        S.ens("indices are set once", len(got) == 1)
        S.ens("number of indices", S.len(got[0]) == size)
        q = S.idx("q", size)
        S.ens("same indices", S.get(got[0], q) == S.get(lst, q))
    S.ens("one process per non-empty part", S.len(out) == k)
    S.ens("parameters of the caller unchanged", params.attrs["saving"].attrs["how"] == "complete")


@contract("C01", bounded="two non-empty parts among at most 258 processes")
def index_files_of_many_processes(S):
    """two of many processes read their own indices (bounded: four pairs of positions below 258)"""
    n, m = S.int("n", 1), S.int("m", 1)
    l0, l1 = S.list("l0_", n, "int"), S.list("l1_", m, "int")
    a, b = [(3, 13), (20, 120), (99, 100), (1, 257)][S.E.choose(4, "positions")]
    params = S.ns(saving=S.ns(how="complete"),
                  series=S.ns(path_indices_file=None, _set_attrib=lambda I, k, v: None))
    sp = S.new(SPL + ":SplitterFromSeries", params=params, num_processes=b + 1, ranges=None,
               indices_lists=VList([l0 if i == a else l1 if i == b else VList([]) for i in range(b + 1)]),
               _indices_files_saved=False, _path_dir_indices=None)
    S.meth(sp, "save_indices_files", S.path("dir"))
    out = S.meth(sp, "iter_over_new_params")
    S.cover("requires")
    S.ens("one process per non-empty part", S.len(out) == 2)
    for k, (lst, size) in enumerate(((l0, n), (l1, m))):
        got = []
        series = S.ns(set_index_series=lambda I, x: got.append(x), __len__=lambda I: 1,
                      __iter__=lambda I: VList([]))
        top = S.ns(series=series, how_saving="from_path_indices", params=S.get(out, k))
        S.call("topologies.base:TopologyBaseFromSeries.init_series", top)
        S.ens("indices are set once", len(got) == 1)
        S.ens("number of indices", S.len(got[0]) == size)
        q = S.idx("q", size)
        S.ens("same indices", S.get(got[0], q) == S.get(lst, q))


@contract("C01")
def index_files_images(S):
    """indices of images (tuples of one or two integers) are read back unchanged"""
    n = S.int("n", 1)
    dim = 2 if S.when(S.bool("two_indices")) else 1
    fs = [S.list(f"i{d}_", n, "int") for d in range(dim)]
    lst = S.list("idx", n, get=lambda i: tuple(f.get(i) for f in fs))
    params = S.ns(saving=S.ns(how="complete"),
                  images=S.ns(path_indices_file=None, _set_attrib=lambda I, k, v: None))
    sp = S.new(SPL + ":SplitterFromImages", params=params, num_processes=1, ranges=None,
               indices_lists=VList([lst]), _indices_files_saved=False, _path_dir_indices=None)
    S.meth(sp, "save_indices_files", S.path("dir"))
    out = S.meth(sp, "iter_over_new_params")
    S.cover("requires")
    p = S.get(out, 0)
    name = S.E.fresh_fun("name", *["int"] * dim, "str")
    seen = []
    def compute_name(I, *ind):
        return mk(name(*[ze(x) for x in ind]), "str")
    serie = S.ns(compute_name_from_indices=compute_name, __len__=lambda I: 1)
    queue = S.map("queue", "str")
    top = S.new("topologies.image2image:TopologyImage2Image", serie=serie, how_saving="from_path_indices",
                params=p, path_dir_src=S.path("src"))
    S.meth(top, "fill_queue_paths", None, queue)
    q = S.idx("q", n)
    k = compute_name(None, *lst.get(q))
    S.ens("every item is queued", queue.has(k))
    x = S.str("x")
    S.req(queue.has(x))
    m = S.int("m")
    S.ens("nothing else is queued", z3.Exists([m.e], And(m >= 0, m < n, S.eq(x, compute_name(None, *lst.get(m))))))
