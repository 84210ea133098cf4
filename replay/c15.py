"""mean images: random numbers of images, orders of arrival, groupings and processes"""
import contextlib
import io
import tempfile
from pathlib import Path
from types import SimpleNamespace as NS


def run(h):
    import numpy as np
    import h5py
    from fluiddyn.io.image import imsave
    from fluidimage.topologies.base import Queue
    from fluidimage.topologies.mean import TopologyMeanImage

    rng = h.rng
    r = np.random.default_rng(h.seed)

    def images(n, dtype):
        return [r.integers(0, np.iinfo(dtype).max, (3, 4), endpoint=True).astype(dtype) for _ in range(n)]

    def simulated(n, procs, dtype):
        """the images arrive one by one or in groups, the work `main` being called in between"""
        with tempfile.TemporaryDirectory() as root:
            job = Path(root) / "job"
            job.mkdir()
            ims = images(n, dtype)
            owner = [rng.randrange(procs) for _ in range(n)]
            recorded, n_sums = 0, 0
            tops = []
            for p in range(procs):
                top = object.__new__(TopologyMeanImage)
                top.results = []
                top.executor = NS(path_job_data=job, index_process=p, nb_working_workers_io=0)
                mine = [i for i in range(n) if owner[i] == p]
                n_sums += bool(mine)
                rng.shuffle(mine)
                paths, arrays, tmp = Queue("paths"), Queue("arrays"), []
                for i in mine:
                    paths[f"im{i}"] = f"im{i}"
                working = []
                for _ in range(10000):
                    # an image is being read, an image has been read, or the work is called
                    what = rng.randrange(3)
                    if what == 0 and paths:
                        k, _ = paths.pop_first_item()
                        working.append(k)
                    elif what == 1 and working:
                        k = working.pop(rng.randrange(len(working)))
                        arrays[k] = ims[int(k[2:])].copy()
                    elif what == 2:
                        top.executor.nb_working_workers_io = len(working)
                        top.main((paths, arrays, tmp), None)
                    if not (paths or working or arrays):
                        break
                top.executor.nb_working_workers_io = 0
                top.main((paths, arrays, tmp), None)
                h.eq(len(top.results), max(len(mine) - 1, 0), "results of a process")
                tops.append(top)
            h.eq(len(list(job.glob("tmp_sum*.h5"))), n_sums, "files of partial sums")
            top = tops[0]
            top.original_dtype = np.dtype(dtype)
            top.path_dir_result = Path(root) / "images.mean"
            before = len(top.results)
            with contextlib.redirect_stdout(io.StringIO()):
                top.final_seq_work()
            total = sum(im.astype(object) for im in ims)
            h.check(np.array_equal(top.result, (total // n).astype(dtype)), lambda: f"mean {top.result.tolist()}, total {total.tolist()}")
            h.eq(int(top.results[-1]), n, "number of images")
            h.eq(top.result.dtype, np.dtype(dtype), "type of the mean")

    def computed(n, executor, dtype):
        with tempfile.TemporaryDirectory() as root:
            d = Path(root) / "ims"
            d.mkdir()
            from PIL import Image
            ims = images(n, dtype)
            for i, im in enumerate(ims):
                Image.fromarray(im).save(d / f"im{i:03d}.png")
            p = TopologyMeanImage.create_default_params()
            p.images.path = str(d)
            p.saving.postfix = "mean"
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                top = TopologyMeanImage(p)
                top.compute(executor, nb_max_workers=2)
            total = sum(im.astype(object) for im in ims)
            h.check(np.array_equal(top.result, (total // n).astype(dtype)), lambda: f"mean {top.result.tolist()}, total {total.tolist()}")
            h.eq(len(top.results), n, "number of results")

    end = h.share(.5)
    import time
    rounds = 0
    while h.more() and rounds < 400 and time.time() < end or rounds < 3:
        rounds += 1
        n, procs, dt = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 40]), rng.randint(1, 3), rng.choice(["uint8", "uint16"])
        h.run("simulated", lambda: simulated(n, procs, dt), n=n, processes=procs, dtype=dt)
    rounds = 0
    executors = ["exec_sequential", "exec_async_sequential", "exec_async", "multi_exec_async", "multi_exec_subproc"]
    while h.more() and rounds < (100 if h.tier == "thorough" else 15) or rounds < 2:
        ex = executors[rounds % len(executors)]
        rounds += 1
        n, dt = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 13]), rng.choice(["uint8", "uint16"])
        h.run("computed", lambda: computed(n, ex, dt), n=n, executor=ex, dtype=dt)
