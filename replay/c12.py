"""make_couples and make_subsets on random sets of couples, with random orders of arrival of the images"""
from types import SimpleNamespace as NS


def run(h):
    import numpy as np
    from fluidimage.topologies.base import Queue
    from fluidimage.topologies.piv import TopologyPIV
    from fluidimage.topologies.preproc import TopologyPreproc
    from fluidimage.data_objects.piv import ArrayCouple

    class Serie:
        def __init__(self, names):
            self.names = names

        def get_name_arrays(self):
            return self.names

        def get_path_arrays(self):
            return tuple("/data/" + n for n in self.names)

        def check_all_files_exist(self):
            return True

        def get_name_path_arrays(self):
            return tuple(zip(self.get_name_arrays(), self.get_path_arrays()))

    class Series:
        def __init__(self, d):
            self.d = {k: Serie(n) for k, n in d.items()}
            self.nb_series = len(d)

        def get_serie_from_index(self, k):
            return self.d[k]

        def items(self):
            return iter(self.d.items())

        def __iter__(self):
            return iter(self.d.values())

        def __len__(self):
            return len(self.d)

    def go(kind, items, order, bad, mask, together):
        items = {k: tuple(v) for k, v in items}
        images = {n: (ValueError(n) if n in bad else np.full((8, 8), i)) for i, n in enumerate(order)}
        top = object.__new__(TopologyPIV if kind == "couples" else TopologyPreproc)
        top.series = Series(items)
        top.params = NS(mask=NS(strcrop=None)) if mask else NS()
        top.init_series = lambda: None
        waiting, paths, arrays, out = Queue("names"), Queue("paths"), Queue("arrays"), Queue("out")
        if kind == "couples":
            top.fill_couples_of_names_and_paths(None, (waiting, paths))
        else:
            top.fill_subsets_of_names_and_paths(None, (waiting, paths))
        h.eq(dict(waiting), items, "items to be made")
        h.eq(dict(paths), {n: "/data/" + n for v in items.values() for n in v}, "images to be read")
        step = top.make_couples if kind == "couples" else top.make_subsets
        taken = {}
        todo = dict(items)
        there = set()
        for j, n in enumerate(order):
            arrays[n] = images[n]
            there.add(n)
            if together and j % together and j + 1 < len(order):
                continue
            step((waiting, arrays), out)
            ready = {k for k, v in todo.items() if set(v) <= there}
            h.eq(set(out), ready, f"items produced after {j + 1} images")
            for k in ready:
                r, names = out.pop(k), todo.pop(k)
                h.check(k not in taken, "an item is produced twice")
                taken[k] = r
                errs = [images[m] for m in names if m in bad]
                if kind == "couples" and errs:
                    h.check(r is errs[0], f"error of the couple {k}: {r!r}")
                    continue
                h.eq(tuple(r.names), names, f"names of {k}")
                got = tuple(r.arrays)
                h.eq(len(got), len(names), "number of images")
                h.check(all(g is images[m] for g, m in zip(got, names)), f"images of {k}")
                h.eq(r.serie.get_name_arrays(), names, "serie")
            h.eq(set(waiting), set(todo), "items waiting")
            needed = {m for v in todo.values() for m in v}
            h.eq(set(arrays), there & needed, f"images kept after {j + 1} images")
        h.eq(set(taken), set(items), "items produced at the end")
        h.eq((len(waiting), len(arrays)), (0, 0), "nothing is left")

    rng = h.rng
    first = True
    while h.more() or first:
        kind = rng.choice(["couples", "subsets"])
        m = 2 if kind == "couples" else rng.randint(1, 4)
        nb = rng.randint(1, 6)
        pool = [f"im{i}" for i in range(rng.randint(max(m, 2), nb + 4))]
        style = rng.choice(["random", "chain", "reference", "apart"])
        its = []
        for q in range(nb):
            if style == "chain":
                v = [f"im{q + i}" for i in range(m)]
            elif style == "reference":
                v = ["im0"] + [f"im{q * m + i + 1}" for i in range(m - 1)]
            elif style == "apart":
                v = [f"im{q * m + i}" for i in range(m)]
            else:
                v = rng.sample(pool, m)
            its.append((q * rng.choice([1, 1, 2]) + (its[-1][0] + 1 if its else rng.randint(0, 3)), v))
        order = sorted({n for _, v in its for n in v})
        rng.shuffle(order)
        bad = [n for n in order if rng.random() < rng.choice([0, 0, 0.3])]
        if kind == "subsets":
            bad = []
        kw = dict(kind=kind, items=its, order=order, bad=bad, mask=rng.random() < 0.5, together=rng.choice([0, 0, 2, 3, 100]))
        h.run("make_" + kind, lambda: go(**kw), **kw)
        first = False
