"""C11: each queued item is processed once, in order, and failures stay isolated.

Contracts of the queues, of the works, and of each step of the executors, from every state of the
queues. A coroutine is interrupted only where it awaits: there, the other tasks may change the queues
and the counters in any way (rely condition: an arbitrary state)."""
from pyvc.spec import *
from pyvc import odict
from z3 import If

BASE = "topologies.base"
EX = "executors.base:ExecutorBase"
SEQ = "executors.exec_sequential:ExecutorSequential"
ASYNC = "executors.exec_async:ExecutorAsync"
AMULTI = "executors.exec_async_multiproc:ExecutorAsyncMultiproc"
ASEQ = "executors.exec_async_sequential:ExecutorAsyncSequential"


def queue(S, name, n=None, first=None):
    """a queue in an arbitrary state; first: value of its first item"""
    q = S.new(BASE + ":Queue", name=name, kind=None)
    s = odict.fresh(S, name, n)
    if first is not None:
        g, k0 = s.get, s.key(0)
        s.get = lambda x: odict.pick(odict.eqk(S.I, x, k0), lambda: first, lambda: g(x))
    q.attrs["__od__"] = s
    return q


def st(q):
    return q.attrs["__od__"]


def same_queue(S, what, q, s0):
    """unchanged content"""
    s = st(q)
    i = S.idx("i", s0.n)
    S.ens(what + ": same items", And(ze(s.n) == ze(s0.n), S.eq(s.key(i), s0.key(i)), S.eq(s.get(s0.key(i)), s0.get(s0.key(i)))))


def is_failed(S, obj):
    """the item is a previously raised exception"""
    return S.when(zb(S.call_builtin("isinstance", obj, Exception)))


def first_taken(S, q, s0):
    s = st(q)
    S.ens("one item is taken", ze(s.n) == ze(s0.n) - 1)
    i = S.idx("i", s.n)
    k = s0.key(Sv(ze(i) + 1, "int"))
    S.ens("the other ones stay, in order", And(S.eq(s.key(i), k), S.eq(s.get(k), s0.get(k))))
    S.ens("the first one is taken", Not(zb(s.has(s0.key(0)))))


def stored(S, q, s0, k, v):
    """the content is s0 with k: v"""
    s = st(q)
    S.ens("the result is stored under the same key", And(zb(s.has(k)), S.eq(s.get(k), v)))
    i = S.idx("i", s0.n)
    ki = s0.key(i)
    S.ens("nothing else is added", ze(s.n) == ze(s0.n) + If(zb(s0.has(k)), 0, 1))
    S.ens("the order is kept", S.eq(s.key(i), ki))
    S.req(Not(S.eq(ki, k)))
    S.ens("the other results stay", And(zb(s.has(ki)), S.eq(s.get(ki), s0.get(ki))))


# ------------------------------------------------------------------ queues and works

@contract("C11")
def queues(S):
    """queue: items leave in the order they entered, each once"""
    q = S.call(BASE + ":Queue", "name")
    S.ens("a new queue is empty", S.eq(S.len(q), 0))
    r, exc = S.attempt(lambda: S.meth(q, "pop_first_item"))
    S.ens("nothing to take in an empty queue", z3.BoolVal(exc is not None and S.exc_is(exc, KeyError)))
    q = queue(S, "q")
    s0 = st(q)
    k, v = S.str("k"), S.obj("v")
    S.I.setitem(q, k, v)
    stored(S, q, s0, k, v)
    q.attrs["__od__"] = s0
    S.req(ze(s0.n) > 0)
    S.cover("requires")
    r = S.meth(q, "pop_first_item")
    S.ens("oldest item", And(S.eq(r[0], s0.key(0)), S.eq(r[1], s0.get(s0.key(0)))))
    first_taken(S, q, s0)


KINDS = [None, "io", "eat key value", ("io", "eat key value"), ("other",)]


def make_work(S, inq, outq, kind, calls, raises, name="my work"):
    """a work whose function returns or raises"""
    error = ops.BExc(ValueError, ("error",))
    def f(I, *a):
        calls.append(a)
        if raises:
            raise PyRaise(error)
        return result
    result = S.obj("result")
    S.req(Not(zb(S.call_builtin("isinstance", result, Exception))))
    w = S.call(BASE + ":Work", name, f, input_queue=inq, output_queue=outq, kind=kind)
    return w, error if raises else result


@contract("C11")
def works(S):
    """Work: argument given to the function, treatment of previous exceptions"""
    kind = KINDS[S.choose(len(KINDS), "kind")]
    has_out = S.choose(2, "output queue")
    outq = queue(S, "out") if has_out else None
    calls = []
    w, _ = make_work(S, None, outq, kind, calls, False)
    key = S.str("key")
    obj = S.obj("obj")
    failed = is_failed(S, obj)
    s0 = st(outq) if has_out else None
    r = S.meth(w, "check_exception", key, obj)
    S.cover("requires")
    S.ens("recognised exceptions", S.eq(r, failed))
    if has_out:
        if failed:
            stored(S, outq, s0, key, obj)
        else:
            same_queue(S, "no exception", outq, s0)
    a = S.meth(w, "prepare_argument", key, obj)
    if kind is not None and "eat key value" in kind:
        S.ens("key and value", z3.BoolVal(isinstance(a, tuple) and len(a) == 2 and a[0] is key and a[1] is obj))
    else:
        S.ens("value", z3.BoolVal(a is obj))
    S.ens("not computed", z3.BoolVal(not calls))


# ------------------------------------------------------------------ executors

class LoopHead(Exception):
    """the executor is again at the start of its main loop"""


def executor(S, cls, queues, works, **attrs):
    S.model("time.time", lambda I: S.real("time"))
    S.model("fluiddyn.util.get_memory_usage", lambda I: S.real("memory"))
    S.model("IPython.lib.pretty.pretty", lambda I, *a: S.str("pretty"))
    ex = S.new(cls, works=VList(works), _log_file=S.ns("log file", write=lambda I, t: None), t_start=S.real("t_start"),
               stop_if_error=False, nb_items_queue_max=S.int("max_items", 1), _has_to_stop=False, logging_level="info",
               nb_max_workers=S.int("max_workers", 1), sleep_time=S.real("sleep_time"), **attrs)
    top = S.ns("topology", queues=queues, works=VList(works))
    ex.attrs["topology"] = top
    errors = []
    S.stub(EX + ".log_exception", lambda I, self, error, name, key: errors.append((error, name, key)))
    S.stub(EX + "._save_results_names", lambda I, self: None)
    return ex, errors


class HeadQueues:
    """the queues of the topology; the second time the loop looks at them, its iteration is over"""
    def __init__(self, S, queues):
        self.S, self.queues, self.count = S, queues, 0

    def pyvc_iter(self, I):
        self.count += 1
        if self.count > 1:
            raise PyRaise(ops.BExc(LoopHead, ()))
        return VList(list(self.queues))


def argument(kind, key, obj, a):
    """the argument given to the work is the item (with its key if the work eats keys)"""
    if kind is not None and "eat key value" in kind:
        return len(a) == 1 and isinstance(a[0], tuple) and len(a[0]) == 2 and a[0][0] is key and a[0][1] is obj
    return len(a) == 1 and a[0] is obj


def processed(S, w, kind, key, obj, inq, s_in, outq, s_out, calls, raises, ret, errors):
    """the first item of the queue was processed once; its result is under its key, nothing else changed"""
    first_taken(S, inq, s_in)
    if is_failed(S, obj):
        S.cover("failed before")
        S.ens("not computed", z3.BoolVal(not calls and not errors))
        if outq is not None:
            stored(S, outq, s_out, key, obj)
        return
    S.ens("processed once", z3.BoolVal(len(calls) == 1))
    a = calls[0]
    if kind is not None and "eat key value" in kind:
        S.ens("processed item", And(z3.BoolVal(len(a) == 1), S.eq(a[0], (key, obj))))
    else:
        S.ens("processed item", And(z3.BoolVal(len(a) == 1), S.eq(a[0], obj)))
    S.ens("errors logged", z3.BoolVal(len(errors) == int(raises)))
    if outq is not None:
        if raises:
            # an exception of the work: is stored itself
            got = S.I.getitem(outq, key)
            S.ens("the exception is stored under the key of the item", z3.BoolVal(got is ret))
            i = S.idx("i", s_out.n)
            ki = s_out.key(i)
            s = st(outq)
            S.ens("only this item changes", And(ze(s.n) == ze(s_out.n) + If(zb(s_out.has(key)), 0, 1), S.eq(s.key(i), ki)))
            S.req(Not(S.eq(ki, key)))
            S.ens("the other results stay", And(zb(s.has(ki)), S.eq(s.get(ki), s_out.get(ki))))
        else:
            stored(S, outq, s_out, key, ret)


@contract("C11")
def sequential_step(S):
    """one iteration of the sequential executor for one work, from every state"""
    kind = KINDS[S.choose(len(KINDS), "kind")]
    raises = S.choose(2, "the work raises")
    outq = queue(S, "out") if S.choose(2, "output queue") else None
    inq, other = queue(S, "in"), queue(S, "other")
    calls = []
    w, ret = make_work(S, inq, outq, kind, calls, raises)
    ex, errors = executor(S, SEQ, HeadQueues(S, [q for q in (inq, outq, other) if q is not None]), [w])
    s_in, s_out, s_other = st(inq), st(outq) if outq else None, st(other)
    S.req(Or(*[ze(s.n) > 0 for s in (s_in, s_out, s_other) if s is not None]))
    key, obj = s_in.key(0), s_in.get(s_in.key(0))
    r, exc = S.attempt(lambda: S.meth(ex, "_run_works"))
    S.cover("requires")
    S.ens("the loop goes on", z3.BoolVal(exc is not None and S.exc_is(exc, LoopHead)))
    same_queue(S, "other queue", other, s_other)
    if S.when(ze(s_in.n) == 0):
        S.ens("nothing to process", z3.BoolVal(not calls and not errors))
        same_queue(S, "input", inq, s_in)
        if outq is not None:
            same_queue(S, "output", outq, s_out)
        return
    processed(S, w, kind, key, obj, inq, s_in, outq, s_out, calls, raises, ret, errors)


@contract("C11")
def sequential_stop_if_error(S):
    """with stop_if_error, the exception of a work stops the computation after it was logged"""
    inq, outq = queue(S, "in"), queue(S, "out")
    calls = []
    w, error = make_work(S, inq, outq, None, calls, True)
    ex, errors = executor(S, SEQ, HeadQueues(S, [inq, outq]), [w])
    ex.attrs["stop_if_error"] = True
    s_in = st(inq)
    S.req(ze(s_in.n) > 0)
    if is_failed(S, s_in.get(s_in.key(0))):
        return
    r, exc = S.attempt(lambda: S.meth(ex, "_run_works"))
    S.cover("requires")
    S.ens("the exception is raised", z3.BoolVal(exc is error))
    S.ens("and logged", z3.BoolVal(len(errors) == 1))


@contract("C11")
def sequential_global(S):
    """a global work is called once per iteration with its queues, unless its output queue is full"""
    outq = queue(S, "out") if S.choose(2, "output queue") else None
    inq = queue(S, "in")
    calls = []
    def f(I, i, o):
        calls.append((i, o))
    w = S.call(BASE + ":Work", "w", f, input_queue=inq, output_queue=outq, kind=("global", ["global"], "global")[0])
    ex, errors = executor(S, SEQ, HeadQueues(S, [q for q in (inq, outq) if q is not None]), [w])
    s_in, s_out = st(inq), st(outq) if outq else None
    S.req(Or(*[ze(s.n) > 0 for s in (s_in, s_out) if s is not None]))
    r, exc = S.attempt(lambda: S.meth(ex, "_run_works"))
    S.cover("requires")
    S.ens("the loop goes on", z3.BoolVal(exc is not None and S.exc_is(exc, LoopHead)))
    S.ens("at most once, with its queues", z3.BoolVal(len(calls) <= 1 and all(a[0] is inq and a[1] is outq for a in calls)))
    same_queue(S, "input", inq, s_in)
    if outq is None:
        S.ens("called", z3.BoolVal(len(calls) == 1))
    else:
        same_queue(S, "output", outq, s_out)
        full = ze(s_out.n) > ze(ex.attrs["nb_items_queue_max"])
        S.ens("called if and only if the output queue is not full", full == z3.BoolVal(not calls))


@contract("C11")
def sequential_two_works(S):
    """two works in a row: each one processes one item, in the order of the works"""
    a, b, c = queue(S, "a"), queue(S, "b"), queue(S, "c")
    calls1, calls2 = [], []
    raises = S.choose(2, "the first work raises")
    w1, r1 = make_work(S, a, b, None, calls1, raises, "one")
    w2, r2 = make_work(S, b, c, None, calls2, False, "two")
    ex, errors = executor(S, SEQ, HeadQueues(S, [a, b, c]), [w1, w2])
    sa, sb, sc = st(a), st(b), st(c)
    S.req(And(ze(sa.n) > 0, ze(sb.n) > 0))
    ka, kb = sa.key(0), sb.key(0)
    oa, ob = sa.get(ka), sb.get(kb)
    S.req(Not(S.eq(ka, kb)))
    fa, fb = is_failed(S, oa), is_failed(S, ob)
    r, exc = S.attempt(lambda: S.meth(ex, "_run_works"))
    S.cover("requires")
    first_taken(S, a, sa)
    S.ens("the oldest item of each queue", And(z3.BoolVal(len(calls1) == 1 - fa and len(calls2) == 1 - fb),
                                               S.eq(calls1[0][0], oa) if calls1 else True, S.eq(calls2[0][0], ob) if calls2 else True))
    if not fb:
        stored(S, c, sc, kb, r2)
    S.ens("the item of the second work left its queue", Not(zb(st(b).has(kb))))
    S.ens("the result of the first work waits", zb(st(b).has(ka)))


@contract("C11")
def sequential_end(S):
    """the loop ends exactly when all the queues are empty, whatever their number"""
    m = S.int("m", 0)
    lens = S.E.fresh_fun("len", "int", "int")
    j = z3.Int("j")
    S.req(z3.ForAll([j], lens(j) >= 0))
    queues = VList(n=m, get=lambda i: S.ns("queue", __len__=lambda I: Sv(lens(ze(i)), "int")))
    def f(I, i, o):
        raise PyRaise(ops.BExc(LoopHead, ()))
    w = S.call(BASE + ":Work", "w", f, input_queue=None, output_queue=None, kind="global")
    ex, errors = executor(S, SEQ, queues, [w])
    empty = S.when(z3.ForAll([j], Implies(And(j >= 0, j < ze(m)), lens(j) == 0)))
    r, exc = S.attempt(lambda: S.meth(ex, "_run_works"))
    S.cover("requires")
    S.ens("ends if and only if all the queues are empty", z3.BoolVal((exc is None) == empty))
    if exc is not None:
        S.ens("goes on", z3.BoolVal(S.exc_is(exc, LoopHead)))


@contract("C11")
def one_shot(S):
    """one shot works are executed once, in order, with their queues, and the other ones are not"""
    kinds = [None, "one shot", ("one shot", "global"), "io"]
    k1, k2 = kinds[S.choose(4, "kind 1")], kinds[S.choose(4, "kind 2")]
    calls = []
    ws = []
    for n, k in enumerate((k1, k2)):
        q1, q2 = queue(S, "i"), queue(S, "o")
        f = S.ns("function", __func__=S.ns("f", __name__="f"), __call__=lambda I, i, o, n=n: calls.append((n, i, o)))
        ws.append(S.call(BASE + ":Work", "w", f, input_queue=q1, output_queue=q2, kind=k))
    ex, errors = executor(S, SEQ, VList([]), ws)
    S.meth(ex, "exec_one_shot_works")
    S.cover("requires")
    want = [n for n, k in enumerate((k1, k2)) if k is not None and "one shot" in k]
    S.ens("calls", z3.BoolVal([c[0] for c in calls] == want and all(c[1] is ws[c[0]].attrs["input_queue"] and
                                                                      c[2] is ws[c[0]].attrs["output_queue"] for c in calls)))


class Environment:
    """what the other tasks do while a coroutine awaits: arbitrary queues, counters changed by what the
    other workers add and remove"""
    def __init__(self, S, ex, queues):
        self.S, self.ex, self.queues = S, ex, queues
        self.n, self.deltas, self.last = 0, {}, {}

    def step(self, I):
        S = self.S
        self.n += 1
        for q in self.queues:
            s = odict.fresh(S, f"{q.attrs['name']}{self.n}")
            self.last[q.attrs["name"]] = s
            I.setattr(q, "__od__", s)
        for c in ("nb_working_workers_cpu", "nb_working_workers_io"):
            d = I.E.fresh("int", "delta")
            self.deltas.setdefault(c, []).append(d)
            I.setattr(self.ex, c, Sv(ze(self.ex.attrs[c]) + ze(d), "int"))

    def after(self, c, v0):
        return ze(v0) + sum([ze(d) for d in self.deltas.get(c, [])], z3.IntVal(0))


WORKERS = [(ASYNC, "async_run_work_io", "nb_working_workers_io"), (ASYNC, "async_run_work_cpu", "nb_working_workers_cpu"),
           (ASEQ, "async_run_work_cpu", "nb_working_workers_cpu"), (ASEQ, "async_run_work_io", "nb_working_workers_io"),
           (AMULTI, "async_run_work_cpu", "nb_working_workers_cpu")]


def processes(S):
    """assumed contract of multiprocessing: a process which starts runs its target once; one which does not
    signal that it started within the given time never runs it; a pipe transmits what is sent, in order"""
    late = S.choose(2, "attempts to start the process before it starts")
    count = []
    def pipe(I):
        sent = []
        return (S.ns("connection", recv=lambda I: sent.pop(0)), S.ns("connection", send=lambda I, x: sent.append(x)))
    def event(I):
        flag = []
        return S.ns("event", set=lambda I: flag.append(1), wait=lambda I, t=None: bool(flag))
    def process(I, target=None, args=()):
        count.append(0)
        me = len(count)
        def start(I):
            if me > late:
                I.call(target, as_args(args), {})
        return S.ns("process", start=start, terminate=lambda I: None, join=lambda I, t=None: None, exitcode=0)
    S.model("multiprocessing.Pipe", pipe)
    S.model("multiprocessing.Event", event)
    S.model("multiprocessing.Process", process)


def as_args(a):
    return a if isinstance(a, tuple) else tuple(a.items)


@contract("C11")
def worker(S):
    """asynchronous worker: every state of the queues, every interleaving where it awaits"""
    cls, method, counter = WORKERS[S.choose(len(WORKERS), "worker")]
    kind = [None, "eat key value"][S.choose(2, "kind")]
    raises = S.choose(2, "the work raises")
    outq = queue(S, "out") if S.choose(2, "output queue") else None
    inq, other = queue(S, "in"), queue(S, "other")
    calls = []
    w, ret = make_work(S, inq, outq, kind, calls, raises)
    n_cpu, n_io = S.int("n_cpu", 0), S.int("n_io", 0)
    ex, errors = executor(S, cls, VList([q for q in (inq, outq, other) if q is not None]), [w],
                          nb_working_workers_cpu=n_cpu, nb_working_workers_io=n_io)
    start = {"nb_working_workers_cpu": n_cpu, "nb_working_workers_io": n_io}
    env = Environment(S, ex, [q for q in (outq, other) if q is not None])
    if cls == AMULTI:
        processes(S)
    during = []
    def run_sync(I, f, *a, **k):
        # the input queue was read before: its state now is what the worker leaves
        env.step(I)
        during.append((ex.attrs[counter], list(env.deltas[counter]), len(calls)))
        return I.call(f, a, k)
    S.model("trio.to_thread.run_sync", run_sync)
    s_in = st(inq)
    out0 = st(outq) if outq else None
    key, obj = s_in.key(0), s_in.get(s_in.key(0)) if S.when(ze(s_in.n) > 0) else None
    r, exc = S.attempt(lambda: S.meth(ex, method, w))
    S.cover("requires")
    S.ens("no exception", z3.BoolVal(exc is None))
    for c, v in start.items():
        S.ens("the number of workers is back", ze(ex.attrs[c]) == env.after(c, v))
    if obj is None:
        S.ens("nothing to process", z3.BoolVal(not calls and not errors))
        same_queue(S, "input", inq, s_in)
        if outq is not None:
            same_queue(S, "output", outq, out0)
        return
    if not env.n:
        s_out = out0
    elif outq is not None:
        s_out = env.last["out"]      # when the worker resumes
    else:
        s_out = None
    if during:
        v, ds, nc = during[0]
        S.ens("counted while it works", ze(v) == ze(start[counter]) + 1 + sum([ze(d) for d in ds], z3.IntVal(0)))
        S.ens("started once", z3.BoolVal(len(during) == 1 and nc == 0))
    processed(S, w, kind, key, obj, inq, s_in, outq, s_out if outq is not None else None, calls, raises, ret, errors)



@contract("C11")
def launching(S):
    """a task which launches workers starts one only if there is an item, a free worker and room for the result"""
    io = S.choose(2, "kind of the work")
    outq = queue(S, "out") if S.choose(2, "output queue") else None
    inq = queue(S, "in")
    w, _ = make_work(S, inq, outq, None, [], False)
    ex, errors = executor(S, ASYNC, VList([]), [w], nb_working_workers_cpu=S.int("n_cpu", 0), nb_working_workers_io=S.int("n_io", 0))
    counter = "nb_working_workers_io" if io else "nb_working_workers_cpu"
    started, sleeps = [], []
    def start(I, f, *a):
        started.append((f, a))
        raise PyRaise(ops.BExc(LoopHead, ()))
    ex.attrs["nursery"] = S.ns("nursery", start_soon=start)
    def sleep(I, t):
        raise PyRaise(ops.BExc(LoopHead, ()))
    S.model("trio.sleep", sleep)
    f = S.meth(ex, "def_async_func_work_io" if io else "def_async_func_work_cpu", w)
    stop = S.choose(2, "has to stop")
    ex.attrs["_has_to_stop"] = bool(stop)
    ready = And(ze(st(inq).n) > 0, ze(ex.attrs[counter]) < ze(ex.attrs["nb_max_workers"]),
                z3.BoolVal(True) if outq is None else ze(st(outq).n) < ze(ex.attrs["nb_items_queue_max"]))
    ready = S.when(ready)
    r, exc = S.attempt(lambda: S.I.call(f, (), {}))
    S.cover("requires")
    S.ens("a worker is started if and only if it can work", z3.BoolVal(len(started) == int(ready)))
    if started:
        g, a = started[0]
        S.ens("worker of this work", z3.BoolVal(len(a) == 1 and a[0] is w and g.fn.name == ("async_run_work_io" if io else "async_run_work_cpu")))
    else:
        S.ens("stops only when asked", z3.BoolVal((exc is None) == bool(stop)))


@contract("C11")
def stopping(S):
    """the executor stops exactly when all the queues are empty and no worker runs"""
    inq, outq = queue(S, "in"), queue(S, "out")
    ex, errors = executor(S, ASYNC, VList([inq, outq]), [], nb_working_workers_cpu=S.int("n_cpu", 0), nb_working_workers_io=S.int("n_io", 0))
    def sleep(I, t):
        raise PyRaise(ops.BExc(LoopHead, ()))
    S.model("trio.sleep", sleep)
    done = S.when(And(ze(st(inq).n) == 0, ze(st(outq).n) == 0, ze(ex.attrs["nb_working_workers_cpu"]) == 0,
                      ze(ex.attrs["nb_working_workers_io"]) == 0))
    r, exc = S.attempt(lambda: S.meth(ex, "update_has_to_stop"))
    S.cover("requires")
    S.ens("stops if and only if everything is done", S.eq(ex.attrs["_has_to_stop"], done))


@contract("C11")
def stopping_any_number(S):
    """the same with any number of queues"""
    m = S.int("m", 0)
    lens = S.E.fresh_fun("len", "int", "int")
    j = z3.Int("j")
    S.req(z3.ForAll([j], lens(j) >= 0))
    queues = VList(n=m, get=lambda i: S.ns("queue", __len__=lambda I: Sv(lens(ze(i)), "int")))
    ex, errors = executor(S, ASYNC, queues, [], nb_working_workers_cpu=S.int("n_cpu", 0), nb_working_workers_io=S.int("n_io", 0))
    def sleep(I, t):
        raise PyRaise(ops.BExc(LoopHead, ()))
    S.model("trio.sleep", sleep)
    done = S.when(And(z3.ForAll([j], Implies(And(j >= 0, j < ze(m)), lens(j) == 0)), ze(ex.attrs["nb_working_workers_cpu"]) == 0,
                      ze(ex.attrs["nb_working_workers_io"]) == 0))
    r, exc = S.attempt(lambda: S.meth(ex, "update_has_to_stop"))
    S.cover("requires")
    S.ens("stops if and only if everything is done", S.eq(ex.attrs["_has_to_stop"], done))


SERVERS = "executors.exec_async_servers:ExecutorAsyncServers"


@contract("C11")
def server_worker(S):
    """worker using a server: from the moment the item leaves the queue until its result is stored, the server
    is occupied (so that the executor does not stop)"""
    outq = queue(S, "out") if S.choose(2, "output queue") else None
    inq = queue(S, "in")
    w, _ = make_work(S, inq, outq, None, [], False)
    ex, errors = executor(S, SERVERS, VList([q for q in (inq, outq) if q is not None]), [w])
    n0 = S.int("n_items", 0)
    sent, result = [], S.obj("answer")
    conn = S.ns("connection", send=lambda I, x: sent.append(x))
    worker = S.new("executors.servers:WorkerMultiprocessing", conn=conn, nb_items_to_process=n0, is_available=False,
                   is_unoccupied=Sv(ze(n0) == 0, "bool"))
    failure = S.choose(2, "the work failed in the server")
    error = ops.BExc(ValueError, ("error",))
    ret = error if failure else result
    def pipe(I):
        return (S.ns("connection", recv=lambda I: (sent[0][0], sent[0][1], ret)), S.ns("child"))
    S.model("multiprocessing.Pipe", pipe)
    env, seen = [], []
    def others(I):
        """other items are sent to the server, other results come back"""
        seen.append((worker.attrs["is_unoccupied"], worker.attrs["nb_items_to_process"]))
        n = worker.attrs["nb_items_to_process"]
        d = I.E.fresh("int", "delta")
        # they change the counter by what they own (the item of this task is not theirs)
        I.E.assume(ze(n) + ze(d) >= 1)
        env.append(d)
        n2 = Sv(ze(n) + ze(d), "int")
        I.setattr(worker, "nb_items_to_process", n2)
        I.setattr(worker, "is_unoccupied", Sv(ze(n2) == 0, "bool"))
        if outq is not None:
            I.setattr(outq, "__od__", odict.fresh(S, "out_later"))
            env.append(outq.attrs["__od__"])
    def run_sync(I, f, *a, **k):
        seen.append((worker.attrs["is_unoccupied"], worker.attrs["nb_items_to_process"]))
        r = I.call(f, a, k)
        others(I)
        return r
    S.model("trio.to_thread.run_sync", run_sync)
    s_in, out0 = st(inq), st(outq) if outq else None
    key, obj = s_in.key(0), s_in.get(s_in.key(0)) if S.when(ze(s_in.n) > 0) else None
    r, exc = S.attempt(lambda: S.meth(ex, "async_run_work_cpu", w, worker))
    S.cover("requires")
    S.ens("no exception", z3.BoolVal(exc is None))
    S.ens("the server is available again", z3.BoolVal(worker.attrs["is_available"] is True))
    if obj is None:
        same_queue(S, "input", inq, s_in)
        S.ens("nothing is sent", And(z3.BoolVal(not sent), S.eq(worker.attrs["nb_items_to_process"], n0)))
        if outq is not None:
            same_queue(S, "output", outq, out0)
        return
    first_taken(S, inq, s_in)
    if is_failed(S, obj):
        S.ens("nothing is sent", And(z3.BoolVal(not sent), S.eq(worker.attrs["nb_items_to_process"], n0)))
        if outq is not None:
            stored(S, outq, out0, key, obj)
        return
    S.ens("sent once", z3.BoolVal(len(sent) == 1))
    S.ens("the item is sent", And(S.eq(sent[0][0], "my work"), S.eq(sent[0][1], key), S.eq(sent[0][2], obj)))
    for u, n in seen:
        S.ens("the server is occupied as long as the item is neither in a queue nor processed", Not(zb(u)))
    S.ens("the number of items of the server is back", ze(worker.attrs["nb_items_to_process"]) == ze(n0) + ze(env[0]))
    S.ens("unoccupied exactly when it has no item", zb(worker.attrs["is_unoccupied"]) == (ze(worker.attrs["nb_items_to_process"]) == 0))
    if outq is not None:
        s_out = env[1]
        if failure:
            S.ens("the exception is stored under the key of the item", z3.BoolVal(S.I.getitem(outq, key) is error))
        else:
            stored(S, outq, s_out, key, result)


@contract("C11")
def stopping_servers(S):
    """the executor using servers stops exactly when all the queues are empty and nothing is being processed"""
    inq, outq = queue(S, "in"), queue(S, "out")
    ns = [S.int("n1", 0), S.int("n2", 0)]
    workers = [S.new("executors.servers:WorkerMultiprocessing", nb_items_to_process=n, is_available=S.bool("available"),
                     is_unoccupied=Sv(ze(n) == 0, "bool")) for n in ns]
    ex, errors = executor(S, SERVERS, VList([inq, outq]), [], workers=VList(workers), nb_working_workers_io=S.int("n_io", 0))
    def sleep(I, t):
        raise PyRaise(ops.BExc(LoopHead, ()))
    S.model("trio.sleep", sleep)
    done = S.when(And(ze(st(inq).n) == 0, ze(st(outq).n) == 0, ze(ns[0]) == 0, ze(ns[1]) == 0,
                      ze(ex.attrs["nb_working_workers_io"]) == 0))
    r, exc = S.attempt(lambda: S.meth(ex, "update_has_to_stop"))
    S.cover("requires")
    S.ens("stops if and only if everything is done", S.eq(ex.attrs["_has_to_stop"], done))


@contract("C11")
def server(S):
    """server: the oldest job received is executed once; its answer has its name, its key and its result or error"""
    raises = S.choose(2, "the work raises")
    kind = [None, "eat key value"][S.choose(2, "kind")]
    calls = []
    w, ret = make_work(S, None, None, kind, calls, raises)
    ex, errors = executor(S, SEQ, VList([]), [])
    key, obj, conn = S.str("key"), S.obj("obj"), S.ns("connection")
    srv = S.new("executors.servers:WorkerServerMultiprocessing", _has_to_continue=True, sleep_time=S.real("sleep_time"),
                to_be_processed=VList([("my work", key, obj, conn)]), to_be_resent=VList([]), t_start=S.real("t_start"),
                topology=S.ns("topology", works_dict=VDict({"my work": w})), _log_file=S.ns("log", write=lambda I, t: None, flush=lambda I: None))
    def sleep(I, t):
        raise PyRaise(ops.BExc(LoopHead, ()))
    S.model("trio.sleep", sleep)
    S.model("trio.to_thread.run_sync", lambda I, f, *a, **k: I.call(f, a, k))
    r, exc = S.attempt(lambda: S.meth(srv, "launch_works"))
    S.cover("requires")
    S.ens("waits for other jobs", z3.BoolVal(exc is not None and S.exc_is(exc, LoopHead)))
    S.ens("executed once", z3.BoolVal(len(calls) == 1))
    S.ens("with its argument", And(z3.BoolVal(len(calls[0]) == 1), S.eq(calls[0][0], (key, obj) if kind else obj)))
    out = srv.attrs["to_be_resent"].items
    S.ens("one answer", z3.BoolVal(len(out) == 1 and len(srv.attrs["to_be_processed"].items) == 0))
    a = out[0]
    S.ens("answer", And(S.eq(a[0], "my work"), S.eq(a[1], key), z3.BoolVal(a[3] is conn and a[2] is ret)))
    sent = []
    conn.attrs["send"] = lambda I, x: sent.append(x)
    r, exc = S.attempt(lambda: S.meth(srv, "send"))
    S.ens("sent once", z3.BoolVal(len(sent) == 1 and len(srv.attrs["to_be_resent"].items) == 0))
    S.ens("what is sent", And(S.eq(sent[0][0], "my work"), S.eq(sent[0][1], key), z3.BoolVal(sent[0][2] is ret)))
