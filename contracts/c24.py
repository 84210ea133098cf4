"""C24: job directories and locks of concurrent computations never collide."""
from pyvc.spec import *
from pyvc import textfs

EX = "executors.base:ExecutorBase"
KINDS = {"base": "executors.exec_sequential:ExecutorSequential", "servers": "executors.exec_async_servers:ExecutorAsyncServers"}


def executor(S, cls=KINDS["base"]):
    S.model("fluiddyn.time_as_str", lambda I, *a, **k: S.str("time"))
    pid = S.int("pid", 0)
    S.model("os.getpid", lambda I: pid)
    S.fs()
    registered = []
    S.model("atexit.register", lambda I, f, *a, **k: registered.append(f))
    saved = []
    def save(I, p, *a, **k):
        saved.append(p)
    S.model("fluiddyn.util.paramcontainer.ParamContainer", lambda I, *a, **k: S.ns("param container", _save_as_xml=save))
    top = S.ns("topology", params=S.ns("params", _save_as_xml=save))
    ex = S.new(cls, topology=top, path_dir_result=S.path("result"), info_job=VDict({}))
    return ex, registered


def inside(S, p, d):
    """the parent directory of p is d"""
    return S.eq(textfs.pstr(S.I, S.I.getattr(p, "parent")), textfs.pstr(S.I, d))


@contract("C24")
def job_directory(S):
    """every content of the result directory, every time, every process"""
    servers = S.choose(2, "executor")
    ex, registered = executor(S, KINDS["servers" if servers else "base"])
    exists0 = S.fs().has_
    S.meth(ex, "_init_log_path")
    S.cover("requires")
    job, lock = S.attr(ex, "path_job_data"), S.attr(ex, "_path_lockfile")
    S.ens("the job directory does not exist", Not(zb(exists0(textfs.pstr(S.I, job)))))
    S.ens("the job directory is in the result directory", inside(S, job, ex.attrs["path_dir_result"]))
    S.ens("the lock is in the job directory", inside(S, lock, job))
    if not servers:
        S.ens("nothing is created", z3.BoolVal(len(S.I.ghosts.attrs["fslog"].items) == 0))
    # the computation starts (a file exists only in a directory which exists)
    S.req(Implies(zb(exists0(textfs.pstr(S.I, lock))), zb(exists0(textfs.pstr(S.I, job)))))
    S.meth(ex, "_save_job_data")
    job2, lock2 = S.attr(ex, "path_job_data"), S.attr(ex, "_path_lockfile")
    S.ens("the directory created is the one announced", S.eq(textfs.pstr(S.I, job2), textfs.pstr(S.I, job)))
    S.ens("the directory exists", S.fs().has(textfs.pstr(S.I, job)))
    S.ens("the lock is taken", And(S.eq(textfs.pstr(S.I, lock2), textfs.pstr(S.I, lock)), S.fs().has(textfs.pstr(S.I, lock))))
    S.ens("the lock will be released at exit", z3.BoolVal(len(registered) == 1))


@contract("C24")
def taken_meanwhile(S):
    """a job directory created by another process after the choice is never reused"""
    ex, registered = executor(S)
    S.meth(ex, "_init_log_path")
    job = textfs.pstr(S.I, S.attr(ex, "path_job_data"))
    S.fs().set(job, textfs.DIRECTORY)
    before = S.fs().has_
    r, exc = S.attempt(lambda: S.meth(ex, "_save_job_data"))
    S.cover("requires")
    S.ens("refused", z3.BoolVal(exc is not None and S.exc_is(exc, FileExistsError)))
    q = S.str("q")
    S.ens("nothing is created", zb(before(q)) == zb(S.fs().has(q)))


@contract("C24")
def take(S):
    """every state: the lock is taken if and only if it was free"""
    ex, registered = executor(S)
    p = S.path("job")
    ex.attrs["_path_lockfile"] = textfs.p_div(S.I, p, "is_running.lock")
    s = textfs.pstr(S.I, ex.attrs["_path_lockfile"])
    before = S.fs().has_
    held = zb(before(s))
    r, exc = S.attempt(lambda: S.meth(ex, "_save_lock_file"))
    S.cover("requires")
    q = S.str("q")
    S.req(Not(S.eq(q, s)))
    S.ens("no other file is created or removed", zb(before(q)) == zb(S.fs().has(q)))
    if exc is not None:
        S.ens("fails only when taken", held)
        S.ens("RuntimeError", z3.BoolVal(S.exc_is(exc, RuntimeError)))
        S.ens("the lock of the other one is kept", And(S.fs().has(s), z3.BoolVal(not registered)))
        S.ens("the file of the other one is not written", z3.BoolVal(len(S.I.ghosts.attrs["fslog"].items) == 0))
        return
    S.cover("taken")
    S.ens("taken only when free", Not(held))
    S.ens("the lock exists", S.fs().has(s))
    S.ens("released at exit", z3.BoolVal(len(registered) == 1))
    r, exc = S.attempt(lambda: S.meth(ex, "_save_lock_file"))
    S.ens("a second time: refused", z3.BoolVal(exc is not None))
    S.I.call(registered[0], (), {})
    S.ens("what is done at exit releases the lock", Not(S.fs().has(s)))


@contract("C24")
def release(S):
    """every state: the end time is written exactly when the lock was held; twice is harmless"""
    ex, registered = executor(S)
    p = S.path("job")
    ex.attrs["_path_lockfile"] = textfs.p_div(S.I, p, "is_running.lock")
    s = textfs.pstr(S.I, ex.attrs["_path_lockfile"])
    end = textfs.pstr(S.I, textfs.p_div(S.I, p, "time_end.txt"))
    before = S.fs().has_
    held = zb(before(s))
    S.meth(ex, "_release_lock")
    S.cover("requires")
    q = S.str("q")
    after = S.fs().has_
    S.ens("the lock is free", Not(zb(after(s))))
    S.ens("end time", Implies(Not(zb(before(end))), zb(after(end)) == held))
    S.ens("nothing else", Implies(And(Not(S.eq(q, s)), Not(S.eq(q, end))), zb(after(q)) == zb(before(q))))
    log = S.I.ghosts.attrs["fslog"]
    n = len(log.items)
    S.ens("nothing is written when the lock was not held", Implies(Not(held), z3.BoolVal(n == 0)))
    S.ens("the end time is written when the lock was held", Implies(held, z3.BoolVal(n >= 2)))
    S.meth(ex, "_release_lock")
    S.ens("twice: nothing more", z3.BoolVal(len(log.items) == n))
