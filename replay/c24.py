"""job directories and locks on real (scratch) directories with colliding names"""
import contextlib
import io
import os
import tempfile
from pathlib import Path
from types import SimpleNamespace as NS


class Params:
    def _save_as_xml(self, p):
        Path(p).write_text("x")


def run(h):
    from fluidimage.executors import base
    from fluidimage.executors.exec_async_servers import ExecutorAsyncServers
    from fluidimage.executors.exec_sequential import ExecutorSequential
    base.time_as_str = lambda *a, **k: "2020-01-01_00-00-00"
    registered = []
    base.atexit = NS(register=lambda f, *a, **k: registered.append(f))

    def make(cls, root):
        ex = cls.__new__(cls)
        ex.path_dir_result = Path(root)
        ex.topology = NS(params=Params())
        ex.info_job = {}
        return ex

    def job(cls, taken, held):
        with tempfile.TemporaryDirectory() as root:
            name = f"job_2020-01-01_00-00-00_{os.getpid()}"
            for t in taken:
                Path(root, name + t).mkdir()
                Path(root, name + t, "is_running.lock").write_text("other")
            for t in held:
                Path(root, name.replace("job_", "log_") + t).mkdir()
            before = {str(p) for p in Path(root).rglob("*")}
            ex = make(cls, root)
            ex._init_log_path()
            h.check(not ex.path_job_data.exists(), "the job directory exists already")
            h.eq(str(ex._path_lockfile.parent), str(ex.path_job_data), "directory of the lock")
            h.eq(str(ex.path_job_data.parent), root, "parent of the job directory")
            p = ex.path_job_data
            ex._save_job_data()
            h.eq(str(ex.path_job_data), str(p), "job directory")
            h.check(p.is_dir() and ex._path_lockfile.exists() and ex._path_lockfile.parent == p, "lock taken in the job directory")
            for t in taken:
                h.eq(Path(root, name + t, "is_running.lock").read_text(), "other", "lock of another job")
            try:
                ex._save_lock_file()
                h.check(False, "lock taken twice")
            except RuntimeError:
                pass
            ex._release_lock()
            end = p / "time_end.txt"
            h.check(not ex._path_lockfile.exists() and end.exists(), "released")
            end.unlink()
            ex._release_lock()
            h.check(not end.exists() and not ex._path_lockfile.exists(), "released twice")
            h.check(before <= {str(p) for p in Path(root).rglob("*")}, "files of others are kept")
            # at exit
            ex._save_lock_file()
            registered[-1]()
            h.check(not ex._path_lockfile.exists() and end.exists(), "released at exit")

    for cls in (ExecutorSequential, ExecutorAsyncServers):
        for taken in ([], [""], ["", "1"], ["", "1", "2", "4"], ["1"], ["", *map(str, range(1, 12))]):
            for held in ([], [""], ["1"], ["", "1", "2"]):
                h.run(cls.__name__, lambda: job(cls, taken, held), taken=taken, held=held)

    def lock(state):
        with tempfile.TemporaryDirectory() as root:
            ex = make(ExecutorSequential, root)
            ex._path_lockfile = Path(root) / "is_running.lock"
            if state:
                ex._path_lockfile.write_text("other")
            n = len(registered)
            try:
                ex._save_lock_file()
                taken = True
            except RuntimeError:
                taken = False
            h.eq(taken, not state, "lock taken")
            if state:
                h.eq(ex._path_lockfile.read_text(), "other", "lock of the other one")
                h.eq(len(registered), n, "registered at exit")
            else:
                ex._release_lock()
                h.check((Path(root) / "time_end.txt").exists(), "end time")
        with tempfile.TemporaryDirectory() as root:
            ex = make(ExecutorSequential, root)
            ex._path_lockfile = Path(root) / "is_running.lock"
            ex._release_lock()
            h.eq(os.listdir(root), [], "release of a lock which is not held")

    for state in (False, True):
        h.run("lock", lambda: lock(state), state=state)
