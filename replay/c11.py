"""executors on random topologies of real works (failing or not), several schedules of the threads"""
import contextlib
import io
import random
import time
from types import SimpleNamespace as NS


class Log:
    def write(self, t):
        pass

    def flush(self):
        pass


def run(h):
    import trio
    from fluidimage.executors import base, exec_async, exec_async_sequential, exec_async_servers, exec_sequential, servers
    from fluidimage.topologies.base import Queue, Work
    base.log_error = lambda *a, **k: None

    class Topology:
        pass

    class Sink:
        """queue emptied by the outside"""
        def __init__(self):
            self.d = {}

        def __setitem__(self, k, v):
            h.check(k not in self.d, f"two results for the item {k}")
            self.d[k] = v

        def __len__(self):
            return 0

    def build(nb, stages, fail, bad_items, io, eat):
        """a chain of works; the work s fails on the items of fail[s]"""
        top = Topology()
        qs = [Queue(f"q{i}") for i in range(stages)] + [Sink()]
        calls = []
        works = []
        for s in range(stages):
            def func(arg, s=s):
                key, v = arg if eat[s] else (None, arg)
                if not isinstance(v, tuple):
                    raise AssertionError("argument")
                calls.append((s, v[0]))
                if eat[s] and key != v[0]:
                    raise AssertionError("key")
                if v[0] in fail[s]:
                    raise ValueError(f"stage {s} item {v[0]}")
                return v + (s,)
            kind = ("io",) * io[s] + ("eat key value",) * eat[s] or None
            works.append(Work(f"work {s}", func, input_queue=qs[s], output_queue=qs[s + 1], kind=kind))
        for i in range(nb):
            qs[0][i] = RuntimeError(f"bad {i}") if i in bad_items else (i,)
        top.queues = qs[:-1]
        top.last = qs[-1].d
        top.works = works
        return top, calls, works

    def expected(nb, stages, fail, bad_items):
        res, calls = {}, []
        for i in range(nb):
            if i in bad_items:
                res[i] = f"bad {i}"
                continue
            v = (i,)
            for s in range(stages):
                calls.append((s, i))
                if i in fail[s]:
                    v = f"stage {s} item {i}"
                    break
                v = v + (s,)
            res[i] = v
        return res, calls

    def make(cls, top, works, nb_workers, max_items):
        ex = cls.__new__(cls)
        ex.topology = top
        ex.works = works
        ex._log_file = Log()
        ex.t_start = time.time()
        ex.stop_if_error = False
        ex.nb_items_queue_max = max_items
        ex.nb_max_workers = nb_workers
        ex.logged = []
        ex.log_exception = lambda error, name, key: ex.logged.append((str(error), key))
        ex.nb_working_workers_cpu = ex.nb_working_workers_io = 0
        ex.sleep_time = 0.0003
        ex.logging_level = "info"
        ex._has_to_stop = False
        return ex

    def verify(top, calls, ex, nb, stages, fail, bad_items, ordered):
        res, want = expected(nb, stages, fail, bad_items)
        h.eq(sorted(calls), sorted(want), "items processed")
        if ordered:
            for s in range(stages):
                h.eq([i for t, i in calls if t == s], [i for t, i in want if t == s], f"order of the items in the work {s}")
        got = {k: str(v) if isinstance(v, Exception) else v for k, v in top.last.items()}
        h.eq(got, res, "results")
        if ordered:
            h.eq(list(top.last), sorted(res), "order of the results")
        h.eq([len(q) for q in top.queues], [0] * stages, "items left in the queues")
        h.eq(sorted(k for t, k in ex.logged), sorted(i for i in range(nb) if i not in bad_items and any(i in fail[s] for s in range(stages))), "exceptions logged")

    def sequential(nb, stages, fail, bad_items, io, eat):
        top, calls, works = build(nb, stages, fail, bad_items, io, eat)
        ex = make(exec_sequential.ExecutorSequential, top, works, 1, 1 + nb)
        ex._run_works()
        verify(top, calls, ex, nb, stages, fail, bad_items, True)

    def threads(seed):
        """trio.to_thread.run_sync with arbitrary delays before and after the function"""
        rng = random.Random(seed)
        async def run_sync(f, *a, **k):
            for _ in range(rng.choice((0, 0, 1, 4))):
                await trio.sleep(0.0003)
            try:
                return f(*a)
            finally:
                for _ in range(rng.choice((0, 0, 1, 4))):
                    await trio.sleep(0.0003)
        return NS(to_thread=NS(run_sync=run_sync), sleep=trio.sleep, open_nursery=trio.open_nursery)

    def asynchronous(cls, nb, stages, fail, bad_items, io, eat, nb_workers, max_items, seed):
        mod, name = {"async": (exec_async, "ExecutorAsync"), "sequential": (exec_async_sequential, "ExecutorAsyncSequential")}[cls]
        top, calls, works = build(nb, stages, fail, bad_items, io, eat)
        ex = make(getattr(mod, name), top, works, nb_workers, max_items)
        ex.async_funcs, ex.funcs = {}, {}
        old = exec_async.trio
        exec_async.trio = threads(seed)
        most = [0, 0]
        try:
            ex.define_functions()
            async def main():
                with trio.fail_after(20):
                    await ex.start_async_works()
            trio.run(main)
        finally:
            exec_async.trio = old
        verify(top, calls, ex, nb, stages, fail, bad_items, False)
        h.eq((ex.nb_working_workers_cpu, ex.nb_working_workers_io), (0, 0), "running workers at the end")

    def with_servers(nb, stages, fail, bad_items, io, eat, nb_workers, max_items, seed):
        rng = random.Random(seed)
        top, calls, works = build(nb, stages, fail, bad_items, io, eat)
        ex = make(exec_async_servers.ExecutorAsyncServers, top, works, nb_workers, max_items)
        ex.async_funcs, ex.funcs = {}, {}
        by_name = {w.name: w for w in works}
        class Conn:
            """a server which executes its jobs when it receives them and answers on the pipe of the job"""
            def send(self, job):
                name, key, obj, child = job
                w = by_name[name]
                try:
                    r = w.func_or_cls(w.prepare_argument(key, obj))
                except Exception as e:
                    r = e
                    ex.logged.append((str(e), key))
                child.append((name, key, r))
        ex.workers = []
        for _ in range(nb_workers):
            w = servers.WorkerMultiprocessing(Conn(), NS(set=lambda: None), NS())
            def new_pipe():
                box = []
                return NS(recv=lambda: box.pop(0)), box
            w.new_pipe = new_pipe
            ex.workers.append(w)
        old = exec_async.trio, exec_async_servers.trio
        exec_async.trio = exec_async_servers.trio = threads(seed)
        try:
            ex.define_functions()
            async def main():
                with trio.fail_after(20):
                    await ex.start_async_works()
            trio.run(main)
        finally:
            exec_async.trio, exec_async_servers.trio = old
        ex.logged = sorted(set(ex.logged))
        verify(top, calls, ex, nb, stages, fail, bad_items, False)
        h.eq([w.nb_items_to_process for w in ex.workers], [0] * nb_workers, "items of the servers at the end")

    def queue_history(steps):
        q, model = Queue("q"), []
        for what, k in steps:
            if what == "put":
                q[k] = (k,)
                if k not in model:
                    model.append(k)
            elif model:
                h.eq(q.pop_first_item(), (model[0], (model[0],)), "oldest item")
                model.pop(0)
            else:
                try:
                    q.pop_first_item()
                    h.check(False, "item of an empty queue")
                except KeyError:
                    pass
            h.eq(list(q), model, "items of the queue")

    def go(f, **kw):
        def call():
            with contextlib.redirect_stdout(io_.StringIO()), contextlib.redirect_stderr(io_.StringIO()):
                f(**kw)
        h.run(f.__name__, call, **kw)

    io_ = io
    rng = h.rng

    def topology(nb, stages, p):
        return dict(nb=nb, stages=stages, fail={s: {i for i in range(nb) if rng.random() < p} for s in range(stages)},
                    bad_items={i for i in range(nb) if rng.random() < p / 2}, io=[rng.random() < .5 for _ in range(stages)],
                    eat=[rng.random() < .5 for _ in range(stages)])

    first = dict(nb=3, stages=2, fail={0: {1}, 1: {2}}, bad_items={0}, io=[False, False], eat=[False, True])
    go(sequential, **first)
    for cls in ("async", "sequential"):
        go(asynchronous, cls=cls, nb_workers=2, max_items=2, seed=1, **first)
    go(with_servers, nb_workers=2, max_items=2, seed=1, **first)
    go(with_servers, nb_workers=1, max_items=8, seed=2, nb=1, stages=2, fail={0: set(), 1: set()}, bad_items=set(), io=[False, False], eat=[False, False])
    n = 0
    while h.more():
        n += 1
        for _ in range(5):
            go(queue_history, steps=[(rng.choice(("put", "put", "take")), rng.randrange(5)) for _ in range(12)])
            go(sequential, **topology(rng.randrange(6), rng.randrange(1, 5), rng.choice((0, .2, .6))))
        t = topology(rng.randrange(1, 7), rng.randrange(1, 4), rng.choice((0, .3)))
        go(asynchronous, cls=rng.choice(("async", "sequential")), nb_workers=rng.randrange(1, 4), max_items=rng.randrange(1, 4), seed=rng.randrange(10 ** 6), **t)
        t = topology(rng.randrange(1, 7), rng.randrange(1, 4), rng.choice((0, .3)))
        go(with_servers, nb_workers=rng.randrange(1, 4), max_items=rng.randrange(1, 4), seed=rng.randrange(10 ** 6), **t)
        if h.tier == "quick" and n > 150:
            break
