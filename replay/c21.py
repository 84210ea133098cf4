"""UVmat instructions: random files of instructions and image names; the series obtained is compared with the description"""
import contextlib
import io
import tempfile
from pathlib import Path


def run(h):
    import numpy as np
    from fluiddyn.util.paramcontainer import ParamContainer
    from fluidimage import SeriesOfArrays
    from fluidimage.uvmat import actions_classes, tidy_uvmat_instructions

    rng = h.rng

    def name(style, i, j):
        return {"i": f"im_{i:02d}.png", "ij": f"im_{i:03d}_{j:02d}.png", "letter": f"c{i:03d}{chr(96 + j)}.png"}[style]

    def tag(t, v):
        return f"<{t}>{v}</{t}>"

    def xml(root, ext, base, mode, ir, civ1, box, more):
        pairs = tag("ListPairMode", mode) + (tag("ListPairCiv1", civ1) if civ1 else "")
        act = tag("PairIndices", pairs) + tag("Civ1", tag("SearchBoxSize", f"{box[0]}\t{box[1]}"))
        for t, d in more.items():
            act += tag(t, "".join(tag(k, v) for k, v in d.items()) or tag("Dx", 10))
        return tag("Series", tag("InputTable", " &amp; ".join([str(root), rng.choice(["", "/"]) + "Images", base, "_1", ext]))
                   + tag("OutputDirExt", ".civ") + tag("Action", tag("ActionName", "civ_series"))
                   + tag("IndexRange", "".join(tag(k, v) for k, v in ir.items()) + tag("TimeUnit", "s")) + tag("ActionInput", act))

    def one(style, mode, ni, nj, i0, j0, ir, civ1, box, more):
        with tempfile.TemporaryDirectory() as root:
            d = Path(root) / "Images"
            d.mkdir()
            for i in range(i0, i0 + ni):
                for j in range(j0, j0 + nj):
                    (d / name(style, i, j)).touch()
            f = Path(root) / "instr.xml"
            f.write_text(xml(root, ".png", "c" if style == "letter" else "im", mode, ir, civ1, box, more))
            with contextlib.redirect_stdout(io.StringIO()):
                ins = ParamContainer(path_file=str(f))
                tidy_uvmat_instructions(ins)
                cls = actions_classes[ins.action.action_name]
                try:
                    p = cls.params_from_uvmat_xml(ins)
                except NotImplementedError:
                    ok = mode in ("series(Di)", "series(Dj)", "pair j1-j2") and (mode != "series(Dj)" or ir["first_i"] == ir["last_i"]) and (
                        mode != "pair j1-j2" or civ1.startswith("j= a-b"))
                    h.check(not ok, "a supported mode is refused")
                    return
            h.check(mode in ("series(Di)", "series(Dj)", "pair j1-j2") and (mode != "series(Dj)" or ir["first_i"] == ir["last_i"]) and (
                mode != "pair j1-j2" or civ1.startswith("j= a-b")), "an unsupported mode is accepted")
            s = p.series
            with contextlib.redirect_stdout(io.StringIO()):
                series = SeriesOfArrays(s.path, s.str_subset, ind_start=s.ind_start, ind_stop=s.ind_stop, ind_step=s.ind_step)
                got = [tuple(Path(x).name for x in serie.get_path_files()) for serie in series]
            c = "j" if mode == "series(Dj)" else "i"
            first, step = ir[f"first_{c}"], ir.get(f"incr_{c}", 1)
            end = {"i": i0 + ni, "j": j0 + nj}[c] - (mode != "pair j1-j2")      # the last couple exists
            last = ir.get(f"last_{c}", end - 1)
            if mode == "series(Di)":
                exp = [(name(style, i, j0), name(style, i + 1, j0)) for i in range(first, last + 1, step)]
            elif mode == "series(Dj)":
                exp = [(name(style, ir["first_i"], j), name(style, ir["first_i"], j + 1)) for j in range(first, last + 1, step)]
            else:
                exp = [(name(style, i, 1), name(style, i, 2)) for i in range(first, last + 1, step)]
            h.eq(got, exp, "couples of images")
            h.eq(str(p.saving.path), str(d) + ".civ", "directory of the results")
            h.eq(p.piv0.shape_crop_im0, box[0] - box[0] % 2, "window")
            h.eq(p.multipass.number, 2 if "Civ2" in more else 1, "number of passes")
            h.eq(bool(p.multipass.use_tps), "Patch2" in more, "spline")
            if "Patch2" in more:
                h.eq((p.multipass.subdom_size, p.multipass.smoothing_coef, p.multipass.threshold_tps),
                     tuple(more["Patch2"][k] for k in ("SubDomainSize", "FieldSmooth", "MaxDiff")), "spline")
            h.eq(p.fix.correl_min, more["Fix1"]["MinCorr"], "smallest correlation")
            h.eq(p.fix.displacement_max, more["Fix1"].get("MaxVel"), "largest displacement")

    def rangeof(c, lo, n):
        """indices lo, ..., lo + n - 1 (n >= 1)"""
        first = rng.randint(lo, lo + n - 1)
        d = {f"first_{c}": first}
        if rng.random() < 0.6:
            d[f"incr_{c}"] = rng.randint(1, 3)
        if rng.random() < 0.7:
            d[f"last_{c}"] = rng.randint(first, lo + n - 1)
        return d

    while h.more():
        mode = rng.choice(["series(Di)", "series(Dj)", "pair j1-j2", rng.choice(["series(D)", "displacement", "pair i1-i2"])])
        i0, j0, ni, nj = rng.randint(1, 9), 1, rng.randint(3, 6), rng.randint(3, 5)
        civ1 = None
        if mode == "series(Dj)":
            style = "ij"
            j0 = rng.randint(1, 3)
            ir = rangeof("j", j0, nj - 1)
            i = rng.randint(i0, i0 + ni - 1)
            ir.update(first_i=i, last_i=i if rng.random() < 0.8 else i + 1)
        elif mode == "pair j1-j2":
            style = "letter"
            ir = rangeof("i", i0, ni)
            if rng.random() < 0.5:
                ir.update(first_j=1, last_j=2)
            civ1 = rng.choice(["j= a-b", "j= a-b", "j= a-b 2", "j= a-c", "j= b-c"])
        else:
            style, nj = "i", 1
            ir = rangeof("i", i0, ni - 1)
        box = (rng.randint(8, 70), rng.randint(8, 70))
        more = {"Fix1": {"MinCorr": rng.choice([0.2, 0.5])}}
        if rng.random() < 0.5:
            more["Fix1"]["MaxVel"] = rng.choice([3, 5.5])
        if rng.random() < 0.5:
            more["Patch2"] = {"FieldSmooth": rng.choice([2, 10]), "MaxDiff": 1.5, "SubDomainSize": rng.choice([200, 500])}
        if rng.random() < 0.5:
            more["Civ2"] = {}
        h.run("instructions", lambda: one(style, mode, ni, nj, i0, j0, ir, civ1, box, more), style=style, mode=mode, ni=ni, nj=nj, i0=i0, j0=j0, ir=ir, civ1=civ1, box=box,
              more=more)
