"""recording of results: histories of productions and recordings, results produced while recording"""
import contextlib
import io
import os
import sys
import tempfile
from pathlib import Path
from types import SimpleNamespace as NS


class Growing(list):
    """list which grows (by what another thread appends) after each access"""
    pending = ()

    def grow(self):
        if self.pending:
            self.append(self.pending.pop(0))

    def __getitem__(self, i):
        r = super().__getitem__(i)
        self.grow()
        return r

    def __len__(self):
        r = super().__len__()
        self.grow()
        return r

    def __iter__(self):
        r = iter(list(super().__iter__()))
        self.grow()
        return r


def run(h):
    from fluidimage.executors import base
    from fluidimage.executors.exec_async_seq_for_multi import ExecutorAsyncSeqForMulti
    from fluidimage.executors.exec_seq_for_multi import ExecutorSeqForMulti
    from fluidimage.executors.exec_sequential import ExecutorSequential

    def item(kind, i):
        if kind == "str":
            return f"/some/where/res_{i}.h5", f"res_{i}.h5"
        if kind == "path":
            return Path(f"/some/where/res_{i}.h5"), f"res_{i}.h5"
        if kind == "named":
            return NS(name=f"res{i}.png"), f"res{i}.png"
        return 7 * i, str(7 * i)

    def make(cls, root, results):
        ex = cls.__new__(cls)
        ex.topology = NS(results=results)
        ex._log_file = open(os.path.join(root, "log"), "w")
        return ex

    def names(ex):
        p = Path(ex._path_results)
        return p.read_text(encoding="utf-8").splitlines() if p.exists() else []

    def history(kind, steps, index):
        """steps: (produced before the recording, produced during the recording)"""
        with tempfile.TemporaryDirectory() as root:
            results = Growing()
            ex = make(ExecutorSequential, root, results)
            if index is not None:
                ex.index_process = index
            ex._init_results_log(Path(root))
            expected, done = [], 0
            for before, during in steps:
                for _ in range(before):
                    r, n = item(kind, len(expected))
                    results.append(r)
                    expected.append(n)
                sure = len(expected)
                extra = [item(kind, len(expected) + j) for j in range(during)]
                results.pending = [e[0] for e in extra]
                expected += [e[1] for e in extra]
                ex._save_results_names()
                left = len(results.pending)
                expected = expected[:len(expected) - left] if left else expected
                results.pending = []
                got = names(ex)
                h.eq(got, expected[:len(got)], "names recorded")
                h.check(len(got) >= sure, f"{len(got)} names recorded, {sure} results produced before")
                h.eq(int(Path(ex._path_num_results).read_text()), len(got), "number of results recorded")
            ex._save_results_names()
            h.eq(names(ex), expected, "names recorded at the end")
            h.eq(int(Path(ex._path_num_results).read_text()), len(expected), "number of results at the end")
            texts = [Path(p).read_text() for p in (ex._path_results, ex._path_num_results) if Path(p).exists()]
            ex._save_results_names()
            h.eq([Path(p).read_text() for p in (ex._path_results, ex._path_num_results) if Path(p).exists()], texts, "recorded again")
            ex._log_file.close()

    def sequential(expected, nb):
        """whole sequential computation with nb items, expected results"""
        from fluidimage.topologies.base import TopologyBase
        with tempfile.TemporaryDirectory() as root, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            results = []
            ex = make(ExecutorSequential, root, results)
            class Q(dict):
                def pop_first_item(self):
                    k = next(iter(self))
                    return k, self.pop(k)
            q = Q({i: i for i in range(nb)})
            def func(i):
                results.append(f"/x/r{i}.h5")
            work = NS(kind=None, input_queue=q, output_queue=None, func_or_cls=func, check_exception=lambda k, o: False,
                      prepare_argument=lambda k, o: o, name_no_space="w", name="w")
            ex.topology.queues = [q]
            ex.topology.works = ex.works = [work]
            ex.topology.print_at_exit = lambda t: None
            ex.topology.final_seq_work = lambda: results.append("/x/final.h5") if nb else None
            ex.stop_if_error = True
            ex.nb_items_queue_max = 8
            ex.nb_max_workers = 1
            ex.path_job_data = Path(root, "job")
            ex._init_num_expected_results = lambda: setattr(ex, "num_expected_results", expected)
            ex._init_compute_log = lambda: None
            ex._unique_postfix = "x"
            ex.path_dir_result = Path(root)
            ex.info_job = {}
            ex.topology.params = NS(_save_as_xml=lambda p: None)
            base.ParamContainer = lambda *a, **k: NS(_save_as_xml=lambda p: None)
            ex._save_lock_file = ex._release_lock = ex._reset_std_as_default = lambda: None
            ex.compute()
            if expected:
                h.eq(names(ex), [f"r{i}.h5" for i in range(nb)] + ["final.h5"] * bool(nb), "names recorded by the computation")
                h.eq(int(Path(ex._path_num_results).read_text()), nb + bool(nb), "number of results")

    def merged(counts):
        """results of the processes of a multi executor"""
        with tempfile.TemporaryDirectory() as root, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            old_sleep, base.sleep = base.sleep, lambda t: None
            try:
                class M(base.MultiExecutorBase):
                    def _start_processes(self):
                        for i, n in enumerate(counts):
                            sub = make(ExecutorAsyncSeqForMulti, root, [])
                            sub.index_process = i
                            sub._init_results_log(Path(root))
                            sub._path_results.touch()
                            for j in range(n):
                                sub.topology.results.append(f"/x/p{i}_{j}.h5")
                                if j % 2:
                                    sub._save_results_names()
                            sub._save_results_names()
                            sub._log_file.close()
                            self.processes.append(NS(poll=lambda: 0))
                ex = make(M, root, None)
                ex.processes = []
                ex.num_expected_results = sum(counts) or None
                ex.path_job_data = Path(root)
                ex._init_compute = lambda: None
                seen = []
                ex.topology.final_seq_work = lambda: seen.extend(ex.topology.results)
                ex._final_seq_work_run = False
                ex._finalize_compute = lambda: None
                ex.compute()
                want = sorted(f"p{i}_{j}.h5" for i, n in enumerate(counts) for j in range(n))
                h.eq(sorted(ex.topology.results), want, "results of all the processes")
                h.eq(sorted(seen), want, "results known by the final work")
                for i, n in enumerate(counts):
                    h.eq([r for r in ex.topology.results if r.startswith(f"p{i}_")], [f"p{i}_{j}.h5" for j in range(n)], "order")
            finally:
                base.sleep = old_sleep

    def go(f, **kw):
        h.run(f.__name__, lambda: f(**kw), **kw)

    rng = h.rng
    for kind in ("str", "path", "named", "int"):
        go(history, kind=kind, steps=[(2, 0), (0, 0), (1, 1), (3, 2), (0, 1)], index=None)
        go(history, kind=kind, steps=[(0, 0), (1, 0), (0, 3)], index=4)
    for expected, nb in ((0, 0), (3, 3), (1, 1), (None, 2)):
        go(sequential, expected=expected, nb=nb)
    for counts in ([2], [1, 0, 3], [0, 0], [5] * 12):
        go(merged, counts=counts)
    while h.more():
        go(history, kind=rng.choice(("str", "path", "named", "int")),
              steps=[(rng.randrange(4), rng.choice((0, 0, 1, 2))) for _ in range(rng.randrange(1, 8))], index=rng.choice((None, 0, 12)))
        if rng.random() < .05:
            go(merged, counts=[rng.randrange(6) for _ in range(rng.randrange(1, 6))])
        if h.tier == "quick" and h.cases > 300:
            break
