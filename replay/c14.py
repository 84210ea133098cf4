"""prepare_path_dir_result on real (scratch) directories, with all modes and answers"""
import contextlib
import io
import itertools
import os
import tempfile
from pathlib import Path

MODES = ("ask", "new_dir", "complete", "recompute", "from_path_indices")


def run(h):
    from fluidimage.topologies import base

    def one(existing, mode, answers, given, as_path):
        with tempfile.TemporaryDirectory() as root:
            target = os.path.join(root, "data.piv")
            for e in existing:
                os.mkdir(target + e)
                Path(target + e, "content").write_text(e)
            asked, left = [], list(answers)
            old, base.query = base.query, lambda *a, **k: (asked.append(1), left.pop(0))[1]
            inp = os.path.join(root, "data")
            saving = None if not given else Path(target) if as_path else target
            stop = False
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    r, how = base.prepare_path_dir_result(Path(inp) if as_path else inp, saving, "piv", mode)
            except SystemExit:
                stop = True
            finally:
                base.query = old
            exists = "" in existing
            h.eq(bool(asked), exists and mode == "ask", "question asked")
            h.eq(left, [], "answers not used")
            last = answers[-1].lower() if answers else None
            h.eq(stop, last == "s", "stopped")
            found = sorted(os.listdir(root))
            old = sorted("data.piv" + e for e in existing)
            for e in existing:
                h.eq(Path(target + e, "content").read_text(), e, "content of an existing directory")
            if stop:
                h.eq(found, old, "directories after a stop")
                return
            want = mode if mode != "ask" else "recompute" if not exists else dict(n="new_dir", c="complete", r="recompute")[last]
            h.eq(how, want, "mode")
            name = "data.piv"
            if want == "new_dir" and exists:
                i = 0
                while str(i) in existing:
                    i += 1
                name += str(i)
            h.eq(str(r), os.path.join(root, name), "directory")
            h.eq(found, sorted(set(old) | {name}), "directories")

    seqs = [["n"], ["c"], ["r"], ["s"], ["N"], ["C"], ["R"], ["S"], ["", "x", "n"], ["no", "New", "S"], ["q", "R"]]
    for ex in ([], [""], ["", "0"], ["", "0", "1", "3"], ["", "1"], ["0"], ["", *map(str, range(12))]):
        for mode, given, as_path in itertools.product(MODES, (0, 1), (0, 1)):
            for answers in (seqs if mode == "ask" and "" in ex else [[]]):
                inp = dict(existing=ex, mode=mode, answers=answers, given=given, as_path=as_path)
                h.run("prepare_path_dir_result", lambda: one(**inp), **inp)
    for bad in ("", "Ask", "new", "stop", "ask ", None):
        def refused():
            try:
                base.prepare_path_dir_result("/nonexistent/x", None, "piv", bad)
            except ValueError:
                return h.check(True)
            h.check(False, f"mode {bad!r} accepted")
        h.run("unknown mode", refused, mode=bad)
