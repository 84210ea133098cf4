"""Run-time evaluation of the contracts of one property on the real code (Python source of the
repository's working tree, not the compiled extensions)."""
import argparse
import importlib
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

os.environ.setdefault("TRANSONIC_NO_REPLACE", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "agg")
sys.dont_write_bytecode = True


class H:
    def __init__(self, seed, tier, budget, strong):
        self.rng = random.Random(seed)
        self.seed, self.tier, self.strong = seed, tier, strong
        self.t_end = time.time() + budget
        self.cases = 0
        self.evaluations = 0
        self.failures = []
        self.seen = {}
        self.what = ""
        self.current = None

    def more(self):
        return time.time() < self.t_end and len(self.failures) < 20

    def share(self, f):
        """a deadline for a part of the harness: fraction f of the time left"""
        return time.time() + (self.t_end - time.time()) * f

    def case(self, name, **inp):
        self.cases += 1
        self.current = (name, inp)

    def fail(self, message):
        name, inp = self.current or ("?", {})
        n = self.seen.get(name, 0)
        self.seen[name] = n + 1
        if n < 3:
            self.failures.append(dict(check=name, input={k: short(v) for k, v in inp.items()},
                                      message=str(message)[:1000], key=name))

    def check(self, cond, message=""):
        self.evaluations += 1
        if not cond:
            self.fail(message() if callable(message) else message)
        return bool(cond)

    def eq(self, got, want, what=""):
        self.evaluations += 1
        if not (got == want):
            self.fail(f"{what}: got {got!r}, expected {want!r}")
            return False
        return True

    def run(self, name, f, **inp):
        """one case: exceptions of the code are failures"""
        self.case(name, **inp)
        try:
            return f()
        except Exception:
            self.fail("exception: " + traceback.format_exc()[-900:])
            return None


def short(v):
    r = repr(v)
    return r if len(r) < 600 else r[:600] + "..."


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--strong", action="store_true")
    ap.add_argument("--out", default=None)
    a = ap.parse_args()
    repo = os.environ.get("PYVC_REPO", "/repo")
    sys.meta_path[:] = [f for f in sys.meta_path if type(f).__name__ != "MesonpyMetaFinder"
                        and "editable" not in type(f).__module__.lower()]
    sys.path.insert(0, os.path.join(repo, "src"))
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    scratch = tempfile.mkdtemp(prefix="verif_")
    home = os.path.join(scratch, "home")
    os.mkdir(home)
    os.environ["HOME"] = home
    os.chdir(scratch)
    h = H(a.seed, a.tier, a.budget, a.strong)
    h.scratch = scratch
    err = None
    try:
        try:
            m = importlib.import_module(a.prop.lower())
            h.what = (m.__doc__ or "").strip()
            m.run(h)
        except Exception:
            if h.current is not None:
                h.fail("exception: " + traceback.format_exc()[-1500:])
            else:
                err = traceback.format_exc()[-3000:]
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    res = dict(cases=h.cases, evaluations=h.evaluations, failures=h.failures, error=err, what=h.what)
    if err is None and not h.failures and h.evaluations == 0:
        res["error"] = "no contract was evaluated"
    if a.out:
        with open(a.out + ".tmp", "w") as f:
            json.dump(res, f, default=str)
        os.replace(a.out + ".tmp", a.out)
    else:
        print(json.dumps(res, indent=1, default=str))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
