"""preprocessing tools: random images, sequences of tools and parameters"""


def run(h):
    import contextlib
    import io
    import warnings
    import numpy as np
    import scipy.ndimage as ndi
    from fluidimage.works.preproc import _toolbox_py as tb
    from fluidimage.works.preproc import io as tio
    from fluidimage.works.preproc.toolbox import PreprocToolsPy
    from fluiddyn.util.paramcontainer import ParamContainer

    warnings.simplefilter("ignore")
    rng = h.rng
    r = np.random.default_rng(h.seed)
    types = ["uint8", "uint16", "int32", "float32", "float64"]
    modes = ["reflect", "constant", "nearest", "mirror", "wrap"]

    def image(dtype, shape):
        if dtype.startswith("float"):
            return r.normal(scale=50, size=shape).astype(dtype)
        return r.integers(0, min(np.iinfo(dtype).max, 4000), shape, endpoint=True).astype(dtype)

    def stat(tool, a, kw):
        if "median" in tool:
            return ndi.median_filter(a, **kw)
        if "minima" in tool:
            return ndi.minimum_filter(a, **kw)
        p = kw.pop("percentile")
        return ndi.percentile_filter(a, p, **kw)

    def close(a, b):
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-5, atol=1e-4)

    def sliding(tool, dtype, shape, weight, size, mode, percentile):
        img = image(dtype, shape)
        keep = img.copy()
        kw = dict(weight=weight, window_size=size, boundary_condition=mode)
        skw = dict(size=size, mode=mode)
        if "percentile" in tool:
            kw["percentile"] = skw["percentile"] = percentile
        out = getattr(tb, tool)(img, **kw)
        exp = np.maximum(keep.astype(float) - weight * stat(tool, keep, skw).astype(float), 0)
        h.check(close(out, exp), f"{tool}: not the image minus the weighted statistic")
        h.check(out.min() >= 0, f"{tool}: negative value")
        h.check(np.array_equal(img, keep), f"{tool}: the image is modified")

    def temporal(tool, dtype, shape, weight, window, percentile, as_list):
        imgs = image(dtype, shape)
        keep = imgs.copy()
        given = list(imgs) if as_list else imgs
        kw = dict(weight=weight, window_shape=window)
        nt = shape[0]
        full = (nt, 1, 1) if window is None else (window, 1, 1) if isinstance(window, int) else \
            (nt,) + tuple(window) if len(window) == 2 else tuple(window)
        skw = dict(size=full)
        if "percentile" in tool:
            kw["percentile"] = skw["percentile"] = percentile
        try:
            out = getattr(tb, tool)(given, **kw)
        except ValueError:
            h.check(nt <= 1 or full[0] <= 1, f"{tool}: a window which spans several images is refused")
            return
        h.check(nt > 1 and full[0] > 1, f"{tool}: a window which does not span several images is accepted")
        exp = keep.astype(float) - weight * stat(tool, keep, skw).astype(float)
        h.check(close(np.array(out), exp), f"{tool}: not the images minus the weighted statistic")
        h.check(np.array_equal(imgs, keep), f"{tool}: the images are modified")

    def threshold(dtype, shape, lo, hi, several):
        img = image(dtype, shape)
        keep = img.copy()
        kw = {}
        if lo is not None:
            kw["minima"] = lo
        if hi is not None:
            kw["maxima"] = hi
        out = tb.global_threshold(img, **kw)
        if hi is None:
            hi = 65535 if dtype.startswith("float") else np.iinfo(dtype).max
        h.check(close(out, np.clip(keep, lo or 0, hi)), "global_threshold: not the clipped image")
        h.check(several or out.dtype == keep.dtype, "global_threshold: type of the image")
        h.check(np.array_equal(img, keep), "global_threshold: the image is modified")

    def several(tool, dtype, n, kind, kw):
        imgs = [image(dtype, (7, 6)) for _ in range(n)]
        given = np.array(imgs) if kind == "array" else list(imgs)
        keep = [im.copy() for im in imgs]
        f = getattr(tb, tool)
        out = f(given, **kw) if rng.random() < 0.5 else f(img=given, **kw)
        h.eq(len(out), n, "number of images")
        for a, im, k in zip(out, imgs, keep):
            h.check(np.allclose(a, f(k, **kw)), f"{tool}: an image of several is not processed like alone")
            h.check(np.array_equal(im, k), f"{tool}: the images are modified")

    params = ParamContainer(tag="params")
    PreprocToolsPy.create_default_params(params)
    names = list(tb.__all__)

    def tools(seq, enabled, values):
        """the calls recorded by stand-ins of the tools"""
        p = ParamContainer(tag="params")
        PreprocToolsPy.create_default_params(p)
        h.eq(list(p.tools.available_tools), names, "available tools")
        for t in names:
            h.check(PreprocToolsPy.__dict__[t] is getattr(tb, t), "the tools of the class are not those of the toolbox")
        p.tools.sequence = None if seq is None else list(seq)
        for t, v in values.items():
            setattr(p.tools[t], *v)
        for t in enabled:
            p.tools[t].enable = True
        expected, calls = [], []
        for t in (names if seq is None else seq):
            if t in enabled:
                kw = p.tools[t]._make_dict_attribs()
                kw.pop("enable")
                expected.append((t, len(expected), kw))

        class Tools(PreprocToolsPy):
            pass

        def stand_in(t):
            def f(img, **kw):
                calls.append((t, img, kw))
                return img + 1
            return f
        for t in names:
            setattr(Tools, t, stand_in(t))
        out = Tools(p).apply(0)
        h.eq(calls, expected, "tools applied")
        h.eq(out, len(expected), "result")

    def real(seq, enabled):
        """with the tools themselves"""
        p = ParamContainer(tag="params")
        PreprocToolsPy.create_default_params(p)
        cheap = {"sliding_median": dict(window_size=3), "sliding_minima": dict(window_size=2, weight=0.5), "global_threshold": dict(minima=3, maxima=200),
                 "equalize_hist_global": dict(nbins=32), "sharpen": dict(sigma1=2.0), "rescale_intensity": dict(maxima=100.), "rescale_intensity_tanh": {}}
        img = np.abs(image("float64", (8, 9))) + 1
        exp = img.copy()
        for t, kw in cheap.items():
            p.tools[t].enable = t in enabled
            for k, v in kw.items():
                setattr(p.tools[t], k, v)
        p.tools.sequence = seq
        for t in (names if seq is None else seq):
            if t in enabled:
                exp = getattr(tb, t)(exp, **cheap[t])
        h.check(np.allclose(PreprocToolsPy(p).apply(img), exp), "tools applied one after the other")

    cheap = ["sliding_median", "sliding_minima", "global_threshold", "equalize_hist_global", "sharpen", "rescale_intensity", "rescale_intensity_tanh"]
    while h.more():
        shape = (rng.randint(1, 8), rng.randint(1, 8))
        dtype = rng.choice(types)
        tool = rng.choice(["sliding_median", "sliding_minima", "sliding_percentile"])
        weight = rng.choice([1.0, 0.5, 1, 0.25])
        size = rng.choice([1, 2, 3, 5, (2, 3)])
        mode, q = rng.choice(modes), rng.choice([0., 10., 50., 90.])
        h.run("sliding", lambda: sliding(tool, dtype, shape, weight, size, mode, q), tool=tool, dtype=dtype, shape=shape, weight=weight, size=size, mode=mode, percentile=q)
        tool2 = rng.choice(["temporal_median", "temporal_minima", "temporal_percentile"])
        window = rng.choice([None, 0, 1, 2, 3, (2, 3), [3, 2], (1, 2), (2, 2, 1), [3, 1, 2], (1, 3, 3), [1, 2, 2]])
        as_list = rng.random() < 0.3
        s3 = (rng.randint(1, 5),) + shape
        h.run("temporal", lambda: temporal(tool2, dtype, s3, weight, window, q, as_list), tool=tool2, dtype=dtype, shape=s3, weight=weight, window=window, percentile=q, as_list=as_list)
        lo = rng.choice([None, 0, 3, 50])
        hi = rng.choice([None, 60, 200, 255])
        s = rng.choice([shape, s3])
        h.run("threshold", lambda: threshold(dtype, s, lo, hi, len(s) == 3), dtype=dtype, shape=s, minima=lo, maxima=hi)
        t, kw = rng.choice([("sliding_median", dict(window_size=3)), ("global_threshold", dict(minima=10, maxima=99)), ("gamma_correction", dict(gamma=2.0)),
                            ("sharpen", dict(sigma1=1.0)), ("sliding_percentile", dict(percentile=30., window_size=2))])
        n, kind = rng.randint(1, 4), rng.choice(["array", "list"])
        h.run("several", lambda: several(t, "uint8", n, kind, kw), tool=t, n=n, kind=kind)
        seq = None if rng.random() < 0.4 else rng.sample(names, rng.randint(1, len(names)))
        if seq and rng.random() < 0.3:
            seq = seq + [rng.choice(seq)]
        enabled = {x for x in names if rng.random() < 0.5}
        values = {x: v for x, v in [("sliding_median", ("weight", 0.3)), ("global_threshold", ("minima", 7)), ("sharpen", ("alpha", 3.0))] if rng.random() < 0.5}
        h.run("sequence", lambda: tools(seq, enabled, values), sequence=str(seq), enabled=str(sorted(enabled)))
        seq = None if rng.random() < 0.4 else rng.sample(cheap, rng.randint(1, len(cheap)))
        enabled = {x for x in cheap if rng.random() < 0.5}
        h.run("tools", lambda: real(seq, enabled), sequence=str(seq), enabled=str(sorted(enabled)))
