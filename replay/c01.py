"""the contracts of the splitters evaluated on the Python source with random ranges, lists, numbers of processes,
series of files and index files"""
import os
from pathlib import Path
from types import SimpleNamespace


class NS(SimpleNamespace):
    def _set_attrib(self, k, v):
        setattr(self, k, v)


def check_parts(h, items, parts, n):
    flat = [x for p in parts for x in p]
    h.eq(flat, list(items), "concatenation of the parts")
    sizes = [len(p) for p in parts]
    h.check(not sizes or max(sizes) - min(sizes) <= 1, f"sizes {sizes}")


def run(h):
    from fluidimage.topologies import splitters as sp
    from fluidimage.topologies import base
    from fluiddyn.util.serieofarrays import SerieOfArraysFromFiles, SeriesOfArrays

    def ranges(a, b, c, p):
        r = sp.split_range(a, b, c, p)
        h.eq(len(r), p, "number of parts")
        check_parts(h, list(range(a, b, c)), [list(range(*x)) for x in r], p)

    def lists(n, p):
        seq = [object() for _ in range(n)] if n % 2 else list(range(3, 3 + n))
        keep = list(seq)
        r = sp.split_list(seq, p)
        check_parts(h, keep, r, p)
        h.eq(seq, keep, "the list itself")
        h.check(len(r) <= max(p, 1) and (n == 0 or all(r)), "parts")

    for n in range(0, 14):
        for p in range(1, 12):
            h.run("split_list", lambda: lists(n, p), n=n, num_parts=p)
            h.run("split_range", lambda: ranges(2, 2 + n, 1, p), start=2, stop=2 + n, step=1, p=p)
    d = Path(h.scratch)
    cnt = [0]

    class Top(base.TopologyBaseFromImages):
        def __init__(self, **k):
            self.__dict__.update(k)

    class TopS(base.TopologyBaseFromSeries):
        def __init__(self, **k):
            self.__dict__.update(k)

        def compute_indices_to_be_computed(self):
            return self.todo

    def series_case(a, b, c, p, complete, todo, given):
        series = NS(ind_start=a, ind_stop=b, ind_step=c)
        params = NS(series=NS(path_indices_file=None), saving=NS(how="ask"))
        top = NS(series=series, how_saving="complete" if complete else "recompute")
        if complete:
            top.compute_indices_to_be_computed = lambda: list(todo)
        s = sp.SplitterFromSeries(params, p, top, list(todo) if given and complete else None)
        cnt[0] += 1
        items = list(todo) if complete else list(range(a, b, c))
        h.eq(s.num_expected_results, len(items), "num_expected_results")
        got = []
        if complete:
            pd = d / f"s{cnt[0]}"
            pd.mkdir()
            s.save_indices_files(pd)
        ps = list(s.iter_over_new_params())
        for q in ps:
            if complete:
                h.eq(q.saving.how, "from_path_indices", "how")
                r = []
                ser = SimpleNamespace(set_index_series=r.extend)

                class Ser(list):
                    def set_index_series(self, x):
                        r.extend(x)
                t = TopS(series=Ser([1]), how_saving="from_path_indices", params=q)
                t.init_series()
                got.append(r)
            else:
                got.append(list(range(q.series.ind_start, q.series.ind_stop, q.series.ind_step)))
        h.check(all(got), "no empty process")
        h.check(len(got) == min(p, len(items)), f"number of processes {len(got)}")
        check_parts(h, items, got, p)
        h.eq(params.saving.how, "ask", "caller's parameters")

    def images_case(n0, n1, sub, p, complete):
        cnt[0] += 1
        src = d / f"i{cnt[0]}"
        src.mkdir()
        for i in range(n0):
            if n1:
                for j in range(n1):
                    (src / f"im{i:02}{'abcdefg'[j]}.png").touch()
            else:
                (src / f"im_{i:02}.png").touch()
        serie = SerieOfArraysFromFiles(str(src), sub)
        items = list(serie.iter_indices())
        params = NS(images=NS(path=str(src), str_subset=sub, path_indices_file=None), saving=NS(how="ask"))
        top = NS(serie=serie, how_saving="complete" if complete else "recompute")
        todo = [x for q, x in enumerate(items) if q % 3 != 1]
        if complete:
            top.compute_indices_to_be_computed = lambda: todo
            items = todo
        s = sp.SplitterFromImages(params, p, top, None)
        h.eq(s.num_expected_results, len(items), "num_expected_results")
        if complete:
            s.save_indices_files(src)
        names, all_names = [], [serie.compute_name_from_indices(*x) for x in items]
        for q in s.iter_over_new_params():
            if complete:
                out = base.Queue("q")
                t = Top(serie=serie, how_saving="from_path_indices", params=q, path_dir_src=src)
                t.fill_queue_paths(None, out)
                r = list(out)
            else:
                r = list(SerieOfArraysFromFiles(q.images.path, q.images.str_subset).get_name_files())
            h.check(r, "empty process")
            names.append(r)
        h.eq([x for r in names for x in r], all_names, "images of the processes")

    for n, np_ in ((101, 101), (260, 130), (1200, 1100)):
        todo = list(range(3, 3 + n))
        h.run("splitter of series, many processes", lambda: series_case(3, 3 + n, 1, np_, True, todo, True),
              items=n, num_processes=np_)

    while h.more():
        r = h.rng
        a, c, p = r.randint(-9, 30), r.randint(1, 5), r.randint(1, 12)
        b = a + r.randint(-3, 60)
        h.run("split_range", lambda: ranges(a, b, c, p), start=a, stop=b, step=c, p=p)
        n = r.randint(0, 80)
        h.run("split_list", lambda: lists(n, p), n=n, num_parts=p)
        todo = sorted(r.sample(range(0, 200), r.randint(0, 12)))
        comp, given = r.random() < 0.5, r.random() < 0.5
        h.run("SplitterFromSeries", lambda: series_case(a, b, c, p, comp, todo, given), start=a, stop=b, step=c,
              p=p, complete=comp, todo=todo, given=given)
        n0, n1 = r.randint(2, 9), r.choice([0, 2, 3])
        st = r.randint(1, 3)
        lo = r.randint(0, n0 - 2)
        sub = r.choice([None, f"{lo}:{n0}:{st}", f"{lo}:{n0}", f"{lo}"])
        if sub and n1:
            sub += "," + r.choice(["0:2", "0:2:1", "1", f"0:{n1}:2"])
        h.run("SplitterFromImages", lambda: images_case(n0, n1, sub, p, comp), n0=n0, n1=n1, str_subset=sub, p=p,
              complete=comp)
        if cnt[0] > (400 if not h.strong else 3000):
            break
