"""Texts made of known and unknown pieces, paths and the file system."""
import re

import z3

from . import models, ops
from .core import Sv, Unsupported, mk, ze, zb, And, Or, Not, Implies, kind, SORTS
from .models import MODELS, model, builtin, BUILTINS, str_concat, as_seq
from .ops import raise_py, PARSEINT
from .values import Obj, VList, VMap, VDict, ExtRef, vite

S = z3.StringSort()
ISTR = ops.ufun("str_of_int", z3.IntSort(), S)
INTSPEC = re.compile(r"^0?\d*d?$")


def int_text(e, spec=""):
    """text of an integer in decimal (possibly padded): a clean atom"""
    if spec in ("", "!r", "d"):
        return ISTR(e)
    spec = spec.rstrip("d")
    return ops.ufun(f"format_int[{spec}]", z3.IntSort(), S)(e)


def is_int_atom(t):
    return z3.is_app(t) and t.num_args() == 1 and (
        t.decl().name() == "str_of_int" or t.decl().name().startswith("format_int["))


def int_axioms(terms):
    """int(str(x)) == x for the integer texts of a query"""
    out, seen = [], set()
    for f in terms:
        for a in int_axioms1(f):
            if a.get_id() not in seen:
                seen.add(a.get_id())
                out.append(a)
    return out


_AX = {}


def int_axioms1(f):
    k = f.get_id()
    r = _AX.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    if len(_AX) > 50000:
        _AX.clear()
    r = int_axioms_all([f])
    _AX[k] = (f, r)
    return r


def int_axioms_all(terms):
    out, seen, todo = [], set(), list(terms)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if is_int_atom(t) and not has_var(t):
            x = t.arg(0)
            padded = t.decl().name() != "str_of_int"
            ax = PARSEINT(t) == x
            out.append(Implies(x >= 0, ax) if padded else ax)
            out.append(z3.Length(t) >= 1)
        if z3.is_app(t) and t.num_args() == 1 and t.decl().name() == "str.lower" and not has_var(t):
            # the texts whose lower case is a given ASCII letter (not k nor i: other characters have these as lower case)
            for c in "acdenrsty":
                out.append((t == z3.StringVal(c)) == Or(t.arg(0) == z3.StringVal(c), t.arg(0) == z3.StringVal(c.upper())))
        todo.extend(t.children())
    return out


def has_var(t):
    if z3.is_var(t):
        return True
    return any(has_var(c) for c in t.children())


def flatten(v):
    """pieces of a text: Python strings and z3 terms"""
    if isinstance(v, str):
        return [v] if v else []
    out = []

    def rec(t):
        if z3.is_string_value(t):
            out.append(t.as_string())
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in t.children():
                rec(c)
        else:
            out.append(t)
    rec(ze(v))
    res = []
    for p in out:
        if isinstance(p, str) and res and isinstance(res[-1], str):
            res[-1] += p
        else:
            res.append(p)
    return res


def clean(p):
    """a piece without separators nor white space"""
    return is_int_atom(p)


def join_pieces(ps):
    return str_concat([p if isinstance(p, str) else Sv(p, "str") for p in ps])


def known(v):
    """pieces when the text is made of literals and clean atoms only, else None"""
    ps = flatten(v)
    return ps if all(isinstance(p, str) or clean(p) for p in ps) else None


def text_split(v, sep):
    ps = known(v)
    if ps is None:
        return None
    words, cur = [], []
    for p in ps:
        if isinstance(p, str):
            bits = p.split(sep)
            cur.append(bits[0])
            for b in bits[1:]:
                words.append(cur)
                cur = [b]
        else:
            cur.append(p)
    words.append(cur)
    return VList([join_pieces([x for x in w if not (isinstance(x, str) and x == "")]) for w in words])


def text_strip(v, chars, left=True, right=True):
    ps = known(v)
    if ps is None:
        return None
    if chars is not None and not isinstance(chars, str):
        return None
    if chars is not None and re.search(r"[0-9-]", chars):
        return None
    ps = list(ps)
    if left and ps and isinstance(ps[0], str):
        ps[0] = ps[0].lstrip(chars)
        if not ps[0] and len(ps) > 1 and isinstance(ps[1], str):
            return None
    if right and ps and isinstance(ps[-1], str):
        ps[-1] = ps[-1].rstrip(chars)
    return join_pieces([p for p in ps if not (isinstance(p, str) and p == "")])


def text_slice(v, i):
    """slice of a text when its ends are inside literal pieces"""
    ps = known(v)
    if ps is None or i.step is not None:
        return None
    ps = list(ps)
    a = i.start or 0
    b = i.stop
    if not isinstance(a, int) or a < 0 or not (b is None or isinstance(b, int) and b < 0):
        return None
    if a:
        if not ps or not isinstance(ps[0], str) or len(ps[0]) < a:
            return None
        ps[0] = ps[0][a:]
    if b is not None:
        if not ps or not isinstance(ps[-1], str) or len(ps[-1]) < -b:
            return None
        ps[-1] = ps[-1][:b]
    return join_pieces([p for p in ps if p is not None and not (isinstance(p, str) and p == "")])


# ---------------------------------------------------------------- texts of lines

class Lines:
    """text made of one line per item of a sequence, each ended by a new line"""
    def __init__(self, seq, ended):
        self.seq, self.ended = seq, ended

    def pyvc_add(self, I, other, right):
        if not right and other == "\n" and not self.ended:
            return Lines(self.seq, True)
        raise Unsupported("text of lines: concatenation")

    def pyvc_iter(self, I):
        n = self.seq.length()
        if not I.E.valid(ze(n) >= 1):
            if not I.E.branch(ze(n) >= 1):
                return VList(["\n"] if self.ended else [])
        g = self.seq.get
        def get(i):
            x = g(i)
            if not ended_at(i):
                return x
            return str_concat([x, "\n"])
        ended = self.ended
        def ended_at(i):
            if ended:
                return True
            return not I.E.valid(ze(i) == ze(n) - 1)
        if not ended:
            raise Unsupported("last line without end of line")
        return VList(n=n, get=get)


# ---------------------------------------------------------------- paths

def pstr(I, p):
    """text of a path or of a string"""
    if isinstance(p, Obj) and p.cls == "Path":
        return p.attrs["s"]
    if kind(p) == "str":
        return p
    raise Unsupported(f"path {p!r}")


def mkpath(s, parent=None, name=None):
    return Obj("Path", dict(s=s, parent_=parent, name_=name))


def join(I, a, b):
    s, n = pstr(I, a), pstr(I, b)
    return mkpath(str_concat([s, "/", n]), a if isinstance(a, Obj) else mkpath(a), n)


@model("pathlib.Path")
def m_Path(I, *a):
    if not a:
        return mkpath(".")
    p = a[0]
    if not (isinstance(p, Obj) and p.cls == "Path"):
        if not (kind(p) == "str"):
            raise_py(TypeError, "argument should be a str or an os.PathLike object")
        I.E.note_assumed("paths are compared as texts (no normalisation of //, ./, .. nor links)")
        p = mkpath(p)
    for x in a[1:]:
        p = join(I, p, x)
    return p


@model("Path.__truediv__")
def p_div(I, p, o):
    return join(I, p, o)


@model("Path.__rtruediv__")
def p_rdiv(I, p, o):
    return join(I, o, p)


@model("Path.__str__", "os.fspath", "Path.__fspath__", "Path.as_posix")
def p_str(I, p):
    return pstr(I, p)


@model("Path.joinpath")
def p_joinpath(I, p, *a):
    for x in a:
        p = join(I, p, x)
    return p


@model("os.path.join")
def os_join(I, a, *bs):
    for b in bs:
        a = str_concat([pstr(I, a), "/", pstr(I, b)])
    return a


PARENT = ops.ufun("path_parent", S, S)
NAME = ops.ufun("path_name", S, S)
ABS = ops.ufun("path_absolute", S, S)


def p_getattr(I, p, name):
    a = p.attrs
    if name == "name":
        if a["name_"] is not None:
            return a["name_"]
        return mk(NAME(ze(a["s"])), "str")
    if name == "parent":
        if a["parent_"] is not None:
            return a["parent_"]
        return mkpath(mk(PARENT(ze(a["s"])), "str"))
    if name in ("stem", "suffix"):
        return mk(ops.ufun("path_" + name, S, S)(ze(p_getattr(I, p, "name"))), "str")
    return None


def split_path(I, s):
    s = pstr(I, s)
    ps = flatten(s)
    for q in range(len(ps) - 1, -1, -1):
        if isinstance(ps[q], str) and "/" in ps[q]:
            h, _, t = ps[q].rpartition("/")
            if all(isinstance(x, str) or clean(x) for x in ps[q + 1:]):
                return join_pieces([x for x in ps[:q] + [h] if x != ""]), join_pieces([x for x in [t] + ps[q + 1:] if not isinstance(x, str) or x])
    return mk(PARENT(ze(s)), "str"), mk(NAME(ze(s)), "str")


@model("os.path.dirname")
def os_dirname(I, s):
    return split_path(I, s)[0]


@model("os.path.basename")
def os_basename(I, s):
    return split_path(I, s)[1]


@model("os.path.abspath", "os.path.realpath")
def os_abspath(I, s):
    return mk(ABS(ze(pstr(I, s))), "str")


@model("Path.is_relative_to")
def p_is_relative_to(I, p, other):
    return mk(ops.ufun("path_is_relative_to", S, S, z3.BoolSort())(ze(pstr(I, p)), ze(pstr(I, other))), "bool")


@model("Path.absolute", "Path.resolve", "Path.expanduser")
def p_abs(I, p):
    return p


@model("os.path.expanduser")
def os_expanduser(I, p):
    return p


@model("Path.with_name")
def p_with_name(I, p, n):
    return join(I, p_getattr(I, p, "parent"), n)


# ---------------------------------------------------------------- file system

def fs(I):
    g = I.ghosts.attrs
    if "fs" not in g:
        ex = ops.ufun("fs_exists0", S, z3.BoolSort())
        m = VMap("str", lambda q: ex(ze(q)), lambda q: InitialFile())
        g["fs"] = m
        g["fslog"] = VList([])
    return g["fs"]


class InitialFile:
    def __repr__(self):
        return "InitialFile"


class Directory:
    def __repr__(self):
        return "Directory"


INITIAL, DIRECTORY = InitialFile(), Directory()


def fs_log(I, what, s):
    fs(I)
    I.ghosts.attrs["fslog"].append((what, s))


@model("os.path.exists", "Path.exists", "os.path.isfile", "Path.is_file", "os.path.isdir", "Path.is_dir",
       "os.path.lexists")
def fs_exists(I, p):
    s = pstr(I, p)
    return mk(z3.simplify(zb(fs(I).has(s))), "bool")


@model("Path.mkdir", "os.mkdir", "os.makedirs")
def fs_mkdir(I, p, mode=None, parents=False, exist_ok=False):
    s = pstr(I, p)
    e = zb(fs(I).has(s))
    if I.E.branch(e):
        if not I.truth(exist_ok):
            raise_py(FileExistsError, s)
        return
    fs(I).set(s, DIRECTORY)
    fs_log(I, "mkdir", s)


@model("Path.touch")
def fs_touch(I, p, mode=None, exist_ok=True):
    s = pstr(I, p)
    if not I.truth(exist_ok) and I.E.branch(zb(fs(I).has(s))):
        raise_py(FileExistsError, s)
    if not I.E.branch(zb(fs(I).has(s))):
        fs(I).set(s, "")
        fs_log(I, "create", s)


@model("Path.write_text")
def fs_write_text(I, p, text, encoding=None, **k):
    s = pstr(I, p)
    fs(I).set(s, text)
    fs_log(I, "write", s)
    return I.E.fresh("int", "nwritten")


def fs_content(I, s):
    m = fs(I)
    if not I.E.branch(zb(m.has(s))):
        raise_py(FileNotFoundError, s)
    c = m.get(s)
    if isinstance(c, InitialFile):
        raise Unsupported("content of a file which exists initially")
    return c


@model("Path.read_text")
def fs_read_text(I, p, encoding=None):
    return fs_content(I, pstr(I, p))


@model("Path.unlink", "os.remove", "os.unlink")
def fs_unlink(I, p, missing_ok=False):
    s = pstr(I, p)
    m = fs(I)
    if not I.E.branch(zb(m.has(s))):
        if I.truth(missing_ok):
            return
        raise_py(FileNotFoundError, s)
    m.delete(s)
    fs_log(I, "unlink", s)


class FileV:
    """an open text file"""
    def __init__(self, s, mode):
        self.s, self.mode = s, mode

    def pyvc_getattr(self, I, name):
        from .interp import Model
        if name == "write":
            return Model(lambda I, t: file_write(I, self, t), "file.write")
        if name == "read":
            return Model(lambda I: fs_content(I, self.s), "file.read")
        if name == "close":
            return Model(lambda I: None, "file.close")
        if name == "readlines":
            return Model(lambda I: self.pyvc_iter(I), "file.readlines")
        if name == "flush":
            return Model(lambda I: None, "file.flush")
        raise Unsupported(f"file.{name}")

    def pyvc_iter(self, I):
        c = fs_content(I, self.s)
        if isinstance(c, Lines):
            return c.pyvc_iter(I)
        if isinstance(c, str):
            return VList(c.splitlines(True))
        ps = known(c)
        if ps is None:
            raise Unsupported("lines of an unknown text")
        ls = text_split(c, "\n").items
        out = [str_concat([x, "\n"]) for x in ls[:-1]]
        if not (isinstance(ls[-1], str) and ls[-1] == ""):
            out.append(ls[-1])
        return VList(out)


def file_write(I, f, t):
    m = fs(I)
    c = m.get(f.s)
    while isinstance(c, Sv) and z3.is_app_of(c.e, z3.Z3_OP_ITE):
        # content of the file of that name: decided with what is known of the names
        b, x, y = c.e.children()
        if I.E.valid(b):
            c = Sv(x, "str")
        elif I.E.valid(z3.Not(b)):
            c = Sv(y, "str")
        else:
            break
        if z3.is_string_value(c.e):
            c = c.e.as_string()
    if isinstance(c, InitialFile):
        c = Sv(ops.ufun("fs_content0", S, S)(ze(f.s)), "str")
    if isinstance(c, str) and c == "":
        new = t
    elif isinstance(c, AppendLog):
        new = c.plus(t)
    elif kind(c) == "str" and kind(t) == "str":
        new = str_concat([c, t])
    else:
        raise Unsupported(f"writing in a file {type(c)} {c} {type(t)}"[:300])
    m.set(f.s, new)
    fs_log(I, "write", f.s)


class AppendLog:
    """content of a file to which texts are appended one after the other"""
    def __init__(self, pieces):
        self.pieces = pieces

    def plus(self, t):
        return AppendLog(self.pieces + [t])


@model("builtins.open", "Path.open", "io.open")
def fs_open(I, p, mode="r", buffering=-1, encoding=None, **k):
    s = pstr(I, p)
    m = fs(I)
    if mode.startswith("r"):
        if not I.E.branch(zb(m.has(s))):
            raise_py(FileNotFoundError, s)
    elif mode.startswith("x"):
        if I.E.branch(zb(m.has(s))):
            raise_py(FileExistsError, s)
        m.set(s, "")
        fs_log(I, "create", s)
    elif mode.startswith("w"):
        m.set(s, "")
        fs_log(I, "create", s)
    elif mode.startswith("a"):
        if not I.E.branch(zb(m.has(s))):
            m.set(s, "")
            fs_log(I, "create", s)
    return FileV(s, mode)
