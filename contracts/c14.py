"""C14: the result directory follows the saving mode and never replaces another."""
from pyvc.spec import *
from pyvc import textfs

PREP = "topologies.base:prepare_path_dir_result"
MODES = ("ask", "new_dir", "complete", "recompute", "from_path_indices")


@contract("C14")
def result_directory(S):
    """every state of the file system, every path, every mode, every sequence of answers"""
    how = MODES[S.choose(len(MODES), "mode")]
    kind_ = S.choose(3, "path given: none, text, Path")
    inp, post = S.str("path_input"), S.str("postfix")
    given = None if kind_ == 0 else S.path("path_saving") if kind_ == 2 else S.str("path_saving")
    inp_arg = textfs.mkpath(inp) if S.choose(2, "input is a Path") else inp
    text = given if kind_ == 1 else textfs.pstr(S.I, given) if kind_ == 2 else inp + "." + post
    S.I.ghosts.attrs.update(asked=False, last="")
    fs0 = S.fs()
    exists0 = fs0.has_
    def query(I, message, *a, **k):
        a = S.str("answer")
        I.setattr(I.ghosts, "asked", True)
        I.setattr(I.ghosts, "last", a)
        return a
    S.model("fluiddyn.io.query.query", query)
    r, exc = S.attempt(lambda: S.call(PREP, inp_arg, given, post, how))
    S.cover("requires")
    asked, last = S.I.ghosts.attrs["asked"], ze(S.I.ghosts.attrs["last"])
    was = zb(exists0(text))
    if not S.when(was):
        S.ens("directory which does not exist: no question", Not(zb(asked)))
    if exc is not None:
        S.ens("only 'stop' stops", z3.BoolVal(S.exc_is(exc, SystemExit)))
        S.ens("nothing is created when stopped", Not(z3.BoolVal(len(S.I.ghosts.attrs["fslog"].items) > 0)))
        S.cover("stopped")
        if S.when(zb(asked)):
            S.ens("stopped by the answer", Or(last == z3.StringVal("s"), last == z3.StringVal("S")))
        else:
            S.ens("stopped without question", z3.BoolVal(False))
        return
    path, mode = S.get(r, 0), S.get(r, 1)
    p = textfs.pstr(S.I, path)
    S.ens("the mode is one of the modes, never 'ask'", Or(*[S.eq(mode, m) for m in MODES[1:]]))
    for m in MODES[1:]:
        if S.when(S.eq(mode, m)):
            mode = m
            break
    else:
        return
    S.ens("the directory exists", S.fs().has(p))
    if how != "ask":
        S.ens("the mode asked is kept", z3.BoolVal(mode == how))
        S.ens("no question", Not(zb(asked)))
    elif not S.when(zb(asked)):
        S.ens("without question: recompute", And(Not(was), z3.BoolVal(mode == "recompute")))
    else:
        a = last
        letter = {"new_dir": "n", "complete": "c", "recompute": "r"}[mode]
        S.ens("the answer selects the mode", Or(a == z3.StringVal(letter), a == z3.StringVal(letter.upper())))
    if mode != "new_dir" or not S.when(was):
        S.ens("the requested directory", S.eq(p, text))
        return
    S.cover("new directory")
    S.ens("an existing directory is not reused", Not(exists0(p)))
    n = z3.Int("n!appended")
    S.ens("a number is appended", z3.Exists([n], And(n >= 0, ze(p) == ze(text + S.fmt(Sv(n, "int"))))))
    j = S.int("j", 0)
    i = S.int("i", 0)
    S.ens("the smallest free number", Implies(And(S.eq(p, text + S.fmt(i)), j < i), zb(exists0(text + S.fmt(j)))))


@contract("C14")
def unknown_mode(S):
    """every other mode is refused and nothing is created"""
    how = S.str("how")
    for m in MODES:
        S.req(Not(S.eq(how, m)))
    S.fs()
    r, exc = S.attempt(lambda: S.call(PREP, S.str("path_input"), S.str("path_saving"), S.str("postfix"), how))
    S.cover("requires")
    S.ens("ValueError", z3.BoolVal(exc is not None and S.exc_is(exc, ValueError)))
    S.ens("nothing is created", z3.BoolVal(len(S.I.ghosts.attrs["fslog"].items) == 0))
