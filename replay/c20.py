"""Saved PIV results: random results are saved, read back and compared, and made light"""
import contextlib
import io
import os
import tempfile
from pathlib import Path

CODES = [("Correlation peak touching boundary", 1), ("correl < correl_min", 2), ("delta2 < displacement_max2", 3), ("diff neighbour too large", 4), ("Unknown", 255)]
ARRAYS = ["xs", "ys", "xs_smooth", "ys_smooth", "deltaxs", "deltays", "correls_max", "deltaxs_approx", "deltays_approx", "ixvecs_approx",
          "iyvecs_approx", "deltaxs_final", "deltays_final", "deltaxs_smooth", "deltays_smooth", "ixvecs_final", "iyvecs_final"]


def run(h):
    import h5py
    import numpy as np
    from fluiddyn.util.paramcontainer import ParamContainer
    from fluidimage.data_objects.piv import ArrayCouple, HeavyPIVResults, LightPIVResults, MultipassPIVResults

    rng = h.rng

    def array(n, integers=False, nan=False):
        if integers:
            return np.array([rng.randrange(0, 2000) for _ in range(n)])
        a = np.array([rng.randrange(-4000, 4000) / 64 for _ in range(n)], dtype=rng.choice([np.float32, np.float64]))
        if nan and n:
            a[rng.randrange(n)] = np.nan
        return a

    def same(a, b, what):
        a, b = np.asarray(a), np.asarray(b)
        h.check(a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), f"{what}: {str(b)[:80]} instead of {str(a)[:80]}")

    def heavy(couple, params, n, nsub, last, nerr, missing):
        r = HeavyPIVResults(couple=couple, params=params, indices_no_displacement=None)
        for k in ARRAYS:
            if k in missing or k.endswith("_final") and not last or k.endswith("_approx") and last:
                continue
            setattr(r, k, array(rng.randrange(1, 9) if "smooth" in k else n, integers=k in ("xs", "ys", "ixvecs_final", "iyvecs_approx"), nan=k == "deltaxs"))
        inds = rng.sample(range(3 * n + 330), nerr)
        r.errors = {}
        for i in inds:
            first = rng.randrange(len(CODES))
            texts = [CODES[first][0]] + [c[0] for c in rng.sample(CODES, rng.randrange(0, 3)) if c[0] != CODES[first][0]]
            r.errors[i] = rng.choice(["; ", " + "]).join(texts)
        wrong = {i: rng.randrange(-640, 640) / 64 for i in inds if rng.random() < 0.7}
        if "wrong" not in missing:
            r.deltaxs_wrong = dict(wrong)
            r.deltays_wrong = {i: -2 * v for i, v in wrong.items()}
        if nsub:
            r.deltaxs_tps = [np.array([i + rng.random() for _ in range(rng.randrange(1, 5))]) for i in range(nsub)]
            r.deltays_tps = [-3 * a for a in r.deltaxs_tps]
        return r

    def compare(r, back, what):
        for k in ARRAYS:
            a = getattr(r, k, None)
            if a is None:
                h.check(getattr(back, k, None) is None, f"{what}: {k} appears")
            else:
                same(np.asarray(a), getattr(back, k), f"{what}: {k}")
        for k in ("errors", "deltaxs_wrong", "deltays_wrong"):
            d = getattr(r, k, None)
            if d is None:
                h.check(getattr(back, k, None) is None, f"{what}: {k} appears")
            else:
                got = {int(a): b for a, b in getattr(back, k).items()}
                h.eq(got, d, f"{what}: {k}")
        for k in ("deltaxs_tps", "deltays_tps"):
            if hasattr(r, k):
                h.eq(len(getattr(back, k)), len(getattr(r, k)), f"{what}: number of subdomains")
                for i, a in enumerate(getattr(r, k)):
                    same(a, getattr(back, k)[i], f"{what}: {k} of the subdomain {i}")
            else:
                h.check(not hasattr(back, k), f"{what}: {k} appears")

    def one(nb, n, nsub, nerr, missing, names, single):
        params = ParamContainer(tag="params")
        params._set_attribs({"a": 3, "b": "text"})
        params._set_child("multipass", attribs={"number": nb})
        params._set_child("mask", attribs={"strcrop": None})
        images = (np.zeros((7, 9)), np.ones((7, 9)))
        couple = ArrayCouple(names=names, arrays=images, paths=tuple("/somewhere/" + n for n in names), params_mask=None)
        passes = [heavy(couple, params, n + i, nsub, i == nb - 1, nerr, missing) for i in range(nb)]
        with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()):
            if single:
                path = passes[-1].save(tmp)
                h.eq(Path(path).parent, Path(tmp), "directory of the file")
                back_one = HeavyPIVResults(str_path=path)
                compare(passes[-1], back_one, "single result")
                return
            top = MultipassPIVResults()
            for r in passes:
                top.append(r)
            path = top.save(rng.choice([tmp, str(Path(tmp) / "given_name.h5")]))
            h.eq(Path(path).parent, Path(tmp), "directory of the file")
            back = MultipassPIVResults(path)
            h.eq(len(back.passes), nb, "number of passes")
            h.eq(tuple(back.couple.names), names, "names of the couple")
            h.eq(tuple(back.couple.paths), couple.paths, "paths of the couple")
            h.eq(tuple(back.couple.shape_images), (7, 9), "size of the images")
            h.check(back.params == params, "parameters")
            for i, r in enumerate(passes):
                compare(r, back.passes[i], f"pass {i}")
                h.check(getattr(back, f"piv{i}") is back.passes[i], f"attribute piv{i}")
                with h5py.File(path) as f:
                    g = f[f"piv{i}/errors"]
                    for key, code in zip(g["keys"][...], g["codes"][...]):
                        first = [c for t, c in CODES if r.errors[int(key)].startswith(t)]
                        h.eq(int(code), first[0], f"code of the error {r.errors[int(key)]!r}")
            top.file_name = "result.h5"
            for obj, passes_ in ((top, passes), (back, back.passes)):
                for k in [-1] + list(range(nb - 1)):
                    light = obj.make_light_result(k)
                    kind = "final" if k == -1 else "approx"
                    fields = [v for v in ("deltaxs_", "deltays_", "ixvecs_", "iyvecs_")]
                    for v in fields:
                        same(getattr(passes_[k], v + kind), getattr(light, v + "final"), f"light result of the pass {k}: {v}")
                    d = Path(tmp) / f"light{k}{obj is top}"
                    d.mkdir()
                    light.save(str(d))
                    files = list(d.glob("*"))
                    h.eq(len(files), 1, "number of files of the light result")
                    again = LightPIVResults(str_path=str(files[0]))
                    for v in fields:
                        same(getattr(passes_[k], v + kind), getattr(again, v + "final"), f"light result of the pass {k} read back: {v}")

    def case(nb=None, nsub=None, nerr=None, single=False):
        nb = nb or rng.randrange(1, 4)
        miss = rng.choice([[], [], ["xs_smooth", "wrong"], ["correls_max"]])
        names = rng.choice([("im_0.png", "im_1.png"), ("c060a.png", "c060b.png"), ("it's", 'a "b" é')])
        n = rng.randrange(1, 40)
        nsub = rng.choice([0, 1, 3, 12]) if nsub is None else nsub
        nerr = rng.randrange(0, 12) if nerr is None else nerr
        h.run(f"{nb} passes, {n} vectors, {nsub} subdomains, {nerr} errors{', saved alone' if single else ''}",
              lambda: one(nb, n, nsub, nerr, miss, names, single), nb=nb, n=n, nsub=nsub, nerr=nerr, missing=miss, names=list(names))

    case(nb=2, nsub=23, nerr=5)
    case(nb=12, nsub=2, nerr=3)
    case(nb=1, nsub=11, nerr=300)
    case(nb=1, single=True, nerr=4)
    case(nb=1, nerr=0, nsub=0)
    while h.more():
        case(single=rng.random() < 0.2)
