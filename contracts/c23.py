"""C23: every result is recorded once, and progress counts are exact.

The list of results is shared with the threads which produce them: each time the executor looks at
it, it may have grown (rely condition: it only grows at its end)."""
from pyvc.spec import *
from pyvc import textfs
from pyvc.models import str_concat

EX = "executors.base:ExecutorBase"
SEQ = "executors.exec_sequential:ExecutorSequential"
MULTI = "executors.exec_async_seq_for_multi:ExecutorAsyncSeqForMulti"


class Growing:
    """results of a topology, produced by other threads"""
    def __init__(self, S, n0, get, grows):
        self.S, self.get, self.grows = S, get, grows
        S.I.ghosts.attrs["produced"] = n0

    def now(self, I):
        n = I.ghosts.attrs["produced"]
        if self.grows:
            k = I.E.fresh("int", "produced_meanwhile")
            I.E.assume(ze(k) >= 0)
            n = Sv(ze(n) + ze(k), "int")
            I.setattr(I.ghosts, "produced", n)
        return VList(n=n, get=self.get)

    def pyvc_getitem(self, I, i):
        from pyvc import models
        return models.getitem(I, self.now(I), i)

    def pyvc_len(self, I):
        return self.now(I).length()

    def pyvc_iter(self, I):
        return self.now(I)

    def pyvc_truth(self, I):
        return I.truth(self.now(I).length())


def scene(S, cls=SEQ, grows=True):
    kind = S.choose(3, "kind of the results")
    n0 = S.int("produced", 0)
    if kind == 0:
        f = S.list("r", S.int("big", 0), "str").get
        name = lambda i: textfs.pstr(S.I, S.I.getattr(textfs.mkpath(f(i)), "name"))
        get = f
    elif kind == 1:
        f = S.list("r", S.int("big", 0), "str").get
        get = lambda i: S.ns("result", name=f(i))
        name = f
    else:
        get = S.list("r", S.int("big", 0), "int").get
        name = lambda i: S.fmt(get(i))
    results = Growing(S, n0, get, grows)
    S.fs()
    top = S.ns("topology", results=results)
    log = S.ns("log", closed=S.bool("closed"), flush=lambda I: None)

    ex = S.new(cls, topology=top, _log_file=log)
    return ex, results, name


def recorded(S, old, new, a, b, name, what):
    """the content new is old followed by the names a, ..., b - 1, one per line"""
    i = S.idx("i", Sv(ze(b) - ze(a), "int"))
    if isinstance(new, textfs.AppendLog):
        assert old is not None
        S.ens(what + ": what was recorded is kept", z3.BoolVal(new.pieces[0] is old))
        new = new.pieces[1:]
    else:
        S.ens(what + ": nothing was recorded", z3.BoolVal(old is None))
        new = [new]
    S.ens(what + ": one text", z3.BoolVal(len(new) <= 1))
    if len(new) == 0 or isinstance(new[0], (str, Sv)):
        S.ens(what + ": no new result", And(ze(a) == ze(b), S.eq(new[0], "") if new else z3.BoolVal(True)))
        return
    t = new[0]
    S.ens(what + ": lines ended", z3.BoolVal(t.ended))
    S.ens(what + ": as many lines as new results", ze(t.seq.length()) == ze(b) - ze(a))
    S.ens(what + ": the names, in order", S.eq(t.seq.get(i), name(Sv(ze(i) + ze(a), "int"))))


@contract("C23")
def recording(S):
    """every number of results recorded, produced before and produced meanwhile"""
    ex, results, name = scene(S)
    S.meth(ex, "_init_results_log", S.path("job"))
    S.ens("initially nothing is recorded", S.eq(S.attr(ex, "_len_saved_results"), 0))
    res, cnt = (textfs.pstr(S.I, S.attr(ex, n)) for n in ("_path_results", "_path_num_results"))
    S.ens("two files", Not(S.eq(res, cnt)))
    fs = S.fs()
    m = S.int("m", 0)
    S.req(ze(m) <= ze(S.I.ghosts.attrs["produced"]))
    ex.attrs["_len_saved_results"] = m
    if S.when(ze(m) == 0):
        old = None
        S.req(Not(zb(fs.has(res))))
    else:
        old = Sv(z3.Const("recorded", z3.StringSort()), "str")
        fs.set(res, textfs.AppendLog([old]))
    before = S.I.ghosts.attrs["produced"]
    S.meth(ex, "_save_results_names")
    S.cover("requires")
    m2 = S.attr(ex, "_len_saved_results")
    S.ens("all the results produced before are recorded", ze(m2) >= ze(before))
    S.ens("only results produced are recorded", And(ze(m2) <= ze(S.I.ghosts.attrs["produced"]), ze(m2) >= ze(m)))
    S.ens("the count is written", S.eq(fs.get(cnt), str_concat([S.fmt(m2), "\n"])))
    if not S.when(zb(fs.has(res))):
        S.ens("no file: no result", And(ze(m2) == 0, z3.BoolVal(old is None)))
    else:
        recorded(S, old, fs.get(res), m, m2, name, "recorded")


@contract("C23")
def again(S):
    """recording again without new results changes nothing"""
    ex, results, name = scene(S, grows=False)
    S.meth(ex, "_init_results_log", S.path("job"))
    res, cnt = (textfs.pstr(S.I, S.attr(ex, n)) for n in ("_path_results", "_path_num_results"))
    fs = S.fs()
    m = S.attr(ex, "topology").attrs["results"].now(S.I).length()
    ex.attrs["_len_saved_results"] = m
    old = Sv(z3.Const("recorded", z3.StringSort()), "str")
    fs.set(res, textfs.AppendLog([old]))
    S.meth(ex, "_save_results_names")
    S.cover("requires")
    S.ens("same count", And(S.eq(S.attr(ex, "_len_saved_results"), m), S.eq(fs.get(cnt), str_concat([S.fmt(m), "\n"]))))
    S.ens("same names", z3.BoolVal(isinstance(fs.get(res), textfs.AppendLog) and len(fs.get(res).pieces) == 1 and fs.get(res).pieces[0] is old))


def produce(S, results):
    """results are produced by a step of the computation"""
    def f(I, *a, **k):
        results.now(I)
    return f


@contract("C23")
def whole_computation(S):
    """sequential execution, whatever is produced by each step: at the end everything is recorded"""
    ex, results, name = scene(S)
    S.req(S.I.ghosts.attrs["produced"] == 0)
    S.I.ghosts.attrs["produced"] = 0
    expected = S.int("expected", 0)
    ex.attrs["path_dir_result"] = S.path("result")
    ex.attrs["_unique_postfix"] = S.str("postfix")
    S.stub(EX + "._init_num_expected_results", lambda I, self: I.setattr(self, "num_expected_results", expected))
    S.stub(EX + "._init_compute_log", lambda I, self: None)
    job = S.path("job")
    S.stub(EX + "._save_job_data", lambda I, self: I.setattr(self, "path_job_data", job))
    # the job directory is new (C24): it contains no file
    S.req(Not(zb(S.fs().has(textfs.pstr(S.I, textfs.p_div(S.I, job, "results.txt"))))))
    S.stub(EX + ".exec_one_shot_works", produce(S, results))
    S.stub(EX + "._finalize_compute", produce(S, results))
    results.grows = False
    grow = produce(S, results)
    def works(I, self):
        results.grows = True
        grow(I)
        results.grows = False
    S.stub(SEQ + "._run_works", works)
    r, exc = S.attempt(lambda: S.meth(ex, "compute"))
    S.cover("requires")
    S.ens("no exception", z3.BoolVal(exc is None))
    if exc is None and S.when(expected > 0):
        S.cover("computed")
        S.ens("everything is recorded", S.eq(S.attr(ex, "_len_saved_results"), results.now(S.I).length()))
        fs = S.fs()
        res = textfs.pstr(S.I, S.attr(ex, "_path_results"))
        n = results.now(S.I).length()
        if not S.when(zb(fs.has(res))):
            return
        if not isinstance(fs.get(res), textfs.InitialFile):
            recorded(S, None, fs.get(res), 0, n, name, "computed")


@contract("C23")
def subprocess(S):
    """executor of a process of a multi executor: initial files, and everything is recorded at the end"""
    ex, results, name = scene(S, MULTI, grows=False)
    ex.attrs["index_process"] = S.int("index", 0)
    ex.attrs["t_start"] = S.real("t_start")
    log = textfs.p_div(S.I, S.path("logs"), "process.txt")
    ex.attrs["_log_path"] = log
    ex.attrs["topology"].attrs["make_text_at_exit"] = lambda I, t: S.str("text")
    S.model("fluiddyn.time_as_str", lambda I, *a, **k: S.str("time"))
    S.model("time.time", lambda I: S.real("time"))
    S.stub(EX + "._init_compute_log", lambda I, self: None)
    S.stub(EX + "._reset_std_as_default", lambda I, self: None)
    S.meth(ex, "_init_results_log", S.path("job"))
    fs = S.fs()
    res, cnt = (textfs.pstr(S.I, S.attr(ex, n)) for n in ("_path_results", "_path_num_results"))
    S.req(Not(zb(fs.has(res))))
    S.meth(ex, "_init_compute")
    S.cover("requires")
    S.ens("no name", And(zb(fs.has(res)), z3.BoolVal(fs.get(res) == "")))
    S.ens("no result counted", S.eq(fs.get(cnt), "0\n"))
    S.req(Not(S.eq(textfs.pstr(S.I, log), res)))
    S.req(Not(S.eq(textfs.pstr(S.I, log), cnt)))
    S.meth(ex, "_finalize_compute")
    n = results.now(S.I).length()
    S.ens("everything is recorded", S.eq(S.attr(ex, "_len_saved_results"), n))
    S.ens("the count is written", S.eq(fs.get(cnt), str_concat([S.fmt(n), "\n"])))
    recorded(S, None, fs.get(res), 0, n, name, "computed")
