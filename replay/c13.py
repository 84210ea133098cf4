"""interrupted computations completed: real image files, random sets of existing results"""
import contextlib
import io
import random
import shutil
import tempfile
from pathlib import Path


def run(h):
    import numpy as np
    from fluiddyn.io.image import imsave
    from fluidimage.topologies.piv import TopologyPIV
    from fluidimage.topologies.preproc import TopologyPreproc
    from fluidimage.topologies.bos import TopologyBOS
    from fluidimage.topologies.image2image import TopologyImage2Image
    from fluidimage.data_objects.piv import get_name_piv
    from fluidimage import SeriesOfArrays, SerieOfArraysFromFiles

    rng = h.rng
    im = np.random.default_rng(h.seed).integers(0, 200, (24, 24)).astype(np.uint8)

    def images(root, names):
        d = Path(root) / "ims"
        d.mkdir()
        imsave(str(d / names[0]), im)
        for n in names[1:]:
            shutil.copy(d / names[0], d / n)
        return d

    def quiet(f):
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return f()

    def build(kind, d, how, extra):
        cls = dict(piv=TopologyPIV, preproc=TopologyPreproc, bos=TopologyBOS, im2im=TopologyImage2Image)[kind]
        p = cls.create_default_params()
        if kind in ("piv", "preproc"):
            p.series.path = str(d)
            if extra.get("subset"):
                p.series.str_subset = extra["subset"]
        else:
            p.images.path = str(d)
            if extra.get("subset"):
                p.images.str_subset = extra["subset"]
        if kind == "bos":
            p.reference = extra["reference"]
        if kind == "im2im":
            p.im2im = "fluidimage.image2image.im2im_func_example"
        if kind in ("piv", "bos"):
            p.piv0.shape_crop_im0 = 8
            p.piv0.grid.overlap = -2
            p.multipass.number = 1
            p.multipass.use_tps = False
        p.saving.how = how
        if how == "from_path_indices":
            (p.series if kind in ("piv", "preproc") else p.images)._set_attrib("path_indices_file", str(extra["indices"]))
        p.saving.postfix = "res"
        return cls(p, logging_level="info")

    def go(kind, names, remove, extra):
        """all computed, some of the results removed, completed: the missing ones are computed, and they only"""
        with tempfile.TemporaryDirectory() as root:
            d = images(root, names)
            top = quiet(lambda: build(kind, d, "recompute", extra))
            quiet(lambda: top.compute("exec_sequential"))
            out = Path(top.path_dir_result)
            results = lambda: {p.name: p.stat().st_mtime_ns for p in out.iterdir() if p.suffix in (".h5", ".png")}
            first = results()
            if not h.eq(set(first), set(extra["expected"]), "results of the whole computation"):
                return
            groups = extra.get("groups") or [[n] for n in sorted(first)]
            removed, todo = set(), 0
            for g in groups:
                if rng.random() < remove:
                    # a computation which has been stopped while the images of this subset were saved, in order
                    removed |= set(g[rng.randrange(len(g)):])
                    todo += 1
            for n in removed:
                (out / n).unlink()
            top = quiet(lambda: build(kind, d, "complete", extra))
            quiet(lambda: top.compute("exec_sequential"))
            after = results()
            h.eq(set(after), set(first), "results after the completion")
            again = {n for n in after if after[n] != first[n]}
            h.eq(again, {n for g in groups if removed & set(g) for n in g}, "results which were computed again")
            h.eq(len(top.results), todo, "number of computed items")

    def listed(kind, names, indices, extra):
        """an explicit list of indices: these items, and they only"""
        with tempfile.TemporaryDirectory() as root:
            d = images(root, names)
            f = Path(root) / "indices.txt"
            f.write_text("".join(f"{i}\n" for i in indices))
            top = quiet(lambda: build(kind, d, "from_path_indices", dict(extra, indices=f)))
            quiet(lambda: top.compute("exec_sequential"))
            out = Path(top.path_dir_result)
            got = {p.name for p in out.iterdir() if p.suffix in (".h5", ".png")}
            h.eq(got, {extra["expected"][i if isinstance(i, int) else i[0]] for i in indices}, "results of the listed items")

    def name_piv(sub, dims):
        """the name of the result of a series with several indices can be computed, one name per series"""
        with tempfile.TemporaryDirectory() as root:
            ranges = [range(r) for r in dims]
            import itertools
            names = ["im_" + "_".join(map(str, t)) + ".png" for t in itertools.product(*ranges)]
            d = images(root, names)
            sub = "i:i+2" + ",:" * (len(dims) - 1) if len(dims) > 1 else "i:i+2"
            s = SeriesOfArrays(SerieOfArraysFromFiles(str(d)), sub)
            got = [get_name_piv(x) for x in s]
            h.eq(len(set(got)), len(s), "distinct names")
            h.check(all(n.startswith("piv_") and n.endswith(".h5") for n in got), got)

    rounds = 0
    while h.more() and rounds < (4000 if h.tier == "thorough" else 40):
        rounds += 1
        n = rng.randint(2, 5)
        names = [f"im_{i:03d}.png" for i in range(n)]
        r = rng.choice([0, .3, .5, 1])
        piv = [f"piv_{i:03d}-{i+1:03d}.h5" for i in range(n - 1)]
        h.run("complete_piv", lambda: go("piv", names, r, dict(expected=piv)), n=n, removed=r)
        h.run("complete_bos", lambda: go("bos", names, r, dict(
            reference=0, expected=[f"bos_{i:03d}.h5" for i in range(1, n)])), n=n, removed=r)
        other = rng.randrange(n)
        h.run("complete_bos", lambda: go("bos", names, r, dict(
            reference=names[other], expected=[f"bos_{i:03d}.h5" for i in range(n) if i != other])), n=n, removed=r, reference=other)
        h.run("complete_im2im", lambda: go("im2im", names, r, dict(expected=names)), n=n, removed=r)
        h.run("complete_preproc", lambda: go("preproc", names, r, dict(expected=names)), n=n, removed=r)
        if n > 2:
            sets = [names] if n == 3 else [names[:2]] + [[x] for x in names[2:-2]] + [names[-2:]]
            h.run("complete_preproc_subsets", lambda: go("preproc", names, r, dict(
                subset="i:i+3", groups=sets, expected=names)), n=n, removed=r)
            two = [[f"im_{i}_{j}.png" for j in range(2)] for i in range(n)]
            flat = [x for y in two for x in y]
            sets2 = [flat] if n == 3 else [flat[:4]] + two[2:-2] + [flat[-4:]]
            h.run("complete_preproc_two_indices", lambda: go("preproc", flat, r, dict(
                subset="i:i+3,:", groups=sets2, expected=flat)), n=n, removed=r)
        ind = sorted(rng.sample(range(n - 1), rng.randint(1, n - 1)))
        h.run("listed_piv", lambda: listed("piv", names, ind, dict(expected=piv)), n=n, indices=ind)
        ind2 = sorted(rng.sample(range(n), rng.randint(1, n)))
        h.run("listed_preproc", lambda: listed("preproc", names, ind2, dict(expected=names)), n=n, indices=ind2)
        ind3 = [(i,) for i in ind2]
        h.run("listed_im2im", lambda: listed("im2im", names, ind3, dict(expected=names)), n=n, indices=ind3)
        dims = [rng.randint(3, 4)] + [rng.randint(1, 2) for _ in range(rng.randint(0, 2))]
        h.run("names", lambda: name_piv(None, dims), dims=dims)
