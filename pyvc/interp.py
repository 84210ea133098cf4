"""Symbolic interpreter of the extracted Python functions."""
import ast
import builtins as _b
from fractions import Fraction

import z3

from . import ops
from . import values as V
from .core import (Sv, Unsupported, Undischarged, PathEnd, mk, ze, zb, And, Or, Not, kind,
                   is_scalar, nanof, has_nan, NAN, Implies)
from .ops import PyRaise, BExc, raise_py
from .source import FuncV, ClassV, Module, Loader
from .values import (Arr, ExtRef, Frame, Obj, Poison, RangeV, SliceV, Store, VDict, VList, VMap,
                     VSet, new_arr, vite, same)


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, value):
        self.value = value


class BoundV:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn

    def pyvc_clone(self, memo):
        r = BoundV(None, None)
        memo[id(self)] = (r, self)
        r.self_, r.fn = V.clone(self.self_, memo), V.clone(self.fn, memo)
        return r

    def pyvc_back(self, rev, seen):
        self.self_ = V.clone_back(self.self_, rev, seen)
        self.fn = V.clone_back(self.fn, rev, seen)


class SuperV:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Model:
    """a Python function used as the meaning of a callable: f(interp, *args, **kwargs)"""
    def __init__(self, f, name=""):
        self.f, self.name = f, name

    def __repr__(self):
        return f"Model({self.name})"


DROPPED_CALLS = {"print", "logger.info", "logger.debug", "logger.warning", "logger.error",
                 "logger.exception", "warnings.warn", "warn", "log_memory_usage", "log_debug"}

PYTYPES = {n: getattr(_b, n) for n in ("int", "float", "str", "bool", "list", "tuple", "dict", "set",
                                       "frozenset", "bytes", "type", "object", "complex", "slice")}


class Interp:
    def __init__(self, E, models, loader=None):
        self.E = E
        ops.E[0] = E
        V.FORK[0] = E.branch
        self.loader = loader or Loader()
        self.models = models             # dotted name -> python function(interp, *args, **kwargs)
        self.stubs = {}                  # qualname -> python function(interp, *args, **kwargs)
        self.frames = []
        self.ghosts = Obj("ghosts")
        self.depth = 0
        self.invariants = {}             # function qualname -> list of invariant templates
        self.touched = {}
        self.opaque_attrs = {}
        self.unroll_limit = 40

    # ------------------------------------------------------------ names
    @property
    def frame(self):
        return self.frames[-1]

    def note_fn(self, fn):
        if fn.qual not in self.E.functions:
            self.E.functions[fn.qual] = fn.sha()

    def lookup(self, name, frame=None):
        f = frame or self.frame
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison):
                    if hasattr(v, "force"):
                        v = f.vars[name] = v.force()
                        return v
                    raise Undischarged(f"variable `{name}` read while undefined: {v.why}")
                return v
            if f.parent is None:
                break
            f = f.parent
        fr = frame or self.frame
        if fr.fn is not None and fr.fn.__class__ is FuncV and name in local_names(fr.fn.node) \
                and name not in fr.globals and name not in fr.nonlocals:
            raise_py(UnboundLocalError, f"local variable '{name}'")
        return self.module_name(f.module, name)

    def module_name(self, mod, name):
        if name in mod.values:
            return mod.values[name]
        if name in mod.defs:
            d = mod.defs[name]
            if d[0] == "def":
                st = d[1]
                v = ClassV(mod, st) if isinstance(st, ast.ClassDef) else FuncV(mod, st)
            elif d[0] == "import":
                v = self.loader.import_(d[1])
            elif d[0] == "from":
                v = self.import_from(d[1], d[2])
            elif d[0] == "item":
                self.push(Frame(None, mod))
                try:
                    v = self.getitem(self.ev(d[1]), d[2])
                finally:
                    self.frames.pop()
            else:
                self.push(Frame(None, mod))
                try:
                    v = self.ev(d[1])
                finally:
                    self.frames.pop()
            if not isinstance(v, (VList, VDict, VMap, Obj, Arr)):
                mod.values[name] = v
            return v
        if name in PYTYPES:
            return PYTYPES[name]
        if name in self.models_builtin():
            return Model(self.models_builtin()[name], name)
        b = getattr(_b, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return b
        if name == "__file__":
            return mod.path
        if name == "__name__":
            return mod.name
        if name == "__package__":
            return mod.name if mod.is_pkg else mod.name.rpartition(".")[0]
        if name == "NotImplemented":
            return NotImplemented
        if name == "Ellipsis":
            return Ellipsis
        if b is not None:
            raise Unsupported(f"builtin {name}")
        raise_py(NameError, f"name '{name}' is not defined")

    def models_builtin(self):
        return self.models["__builtins__"]

    def import_from(self, base, name):
        m = self.loader.import_(base)
        if isinstance(m, Module):
            sub = self.loader.import_(base + "." + name)
            if name in m.defs or name in m.values:
                return self.module_name(m, name)
            return sub
        return ExtRef(base + "." + name)

    def push(self, fr):
        self.frames.append(fr)

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, BoundV):
            return self.call(f.fn, [f.self_] + args, kwargs)
        if isinstance(f, FuncV):
            if f.qual in self.stubs:
                return self.stubs[f.qual](self, *args, **kwargs)
            return self.call_func(f, args, kwargs)
        if isinstance(f, Model):
            return f.f(self, *args, **kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return BExc(f, args)
        if isinstance(f, type) and f.__name__ in PYTYPES:
            return self.models_builtin()[f.__name__](self, *args, **kwargs)
        if isinstance(f, ExtRef):
            m = self.models.get(f.name)
            if m is None:
                raise Unsupported(f"call of the external function {f.name}")
            return m(self, *args, **kwargs)
        if isinstance(f, Obj):
            return self.call(self.getattr(f, "__call__"), args, kwargs)
        if callable(f):
            return f(self, *args, **kwargs)
        raise Unsupported(f"call of {f!r}")

    def bind(self, fn, args, kwargs):
        a = fn.node.args
        out = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        for n in pos:
            if args:
                out[n] = args.pop(0)
                if n in kwargs:
                    raise_py(TypeError, f"multiple values for argument {n}")
            elif n in kwargs:
                out[n] = kwargs.pop(n)
        if a.vararg:
            out[a.vararg.arg] = tuple(args)
        elif args:
            raise_py(TypeError, f"{fn.name}() takes {len(pos)} positional arguments")
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                out[x.arg] = kwargs.pop(x.arg)
        if a.kwarg:
            out[a.kwarg.arg] = VDict(kwargs)
        elif kwargs:
            raise_py(TypeError, f"{fn.name}() got an unexpected keyword argument {list(kwargs)[0]}")
        nd = len(a.defaults)
        for n, d in zip(pos[len(pos) - nd:], a.defaults):
            if n not in out:
                out[n] = self.default(fn, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self.default(fn, d)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                raise_py(TypeError, f"{fn.name}() missing argument {n}")
        return out

    def default(self, fn, d):
        self.push(Frame(None, fn.module, fn.closure))
        try:
            return self.ev(d)
        finally:
            self.frames.pop()

    def call_func(self, fn, args, kwargs):
        decs = [d for d in fn.decorators if not d.startswith(("boost", "abstractmethod", "staticmethod",
                                                              "classmethod", "property", "wraps",
                                                              "functools.wraps", "override"))]
        if decs and isinstance(fn.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            caller = self.caller_of_decorator(fn, decs)
            if caller is not None:
                bound = self.bind(fn, args, kwargs)
                plain = FuncV(fn.module, fn.node, fn.cls, fn.closure, fn.qual)
                plain.decorators = []
                a = fn.node.args
                return self.call(caller, [plain] + [bound[x.arg] for x in a.posonlyargs + a.args], {})
            raise Unsupported(f"decorator {decs[0]} of {fn.qual}")
        if any(d.startswith("boost") for d in fn.decorators):
            self.E.dropped.add("@boost decorators (the Python source is verified, compiled "
                               "transonic extensions are trusted to implement it)")
        self.note_fn(fn)
        self.E.check_time()
        self.depth += 1
        if self.depth > 40:
            self.depth = 0
            raise Undischarged(f"recursion deeper than 40 in {fn.qual}")
        fr = Frame(fn, fn.module, fn.closure)
        fr.vars.update(self.bind(fn, args, kwargs))
        nf, dp = len(self.frames), self.depth
        self.push(fr)
        gen = is_generator(fn.node)
        if gen:
            fr.yields = VList([])
            self.E.dropped.add("generators are evaluated eagerly (collected in a list)")
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body)
            try:
                self.exec_block(fn.node.body)
            except ReturnX as r:
                if gen:
                    return self.frames[nf].yields
                return r.value
            if gen:
                return self.frames[nf].yields
            return None
        finally:
            del self.frames[nf:]
            self.depth = dp - 1

    def caller_of_decorator(self, fn, decs):
        """the function decorated with decorator.decorator which decorates fn: tool(...) is
        caller(tool, *args), with all the arguments positional"""
        a = fn.node.args
        if len(decs) != 1 or not decs[0].isidentifier() or a.vararg or a.kwarg or a.kwonlyargs:
            return None
        c = self.module_name(fn.module, decs[0])
        if not isinstance(c, FuncV) or len(c.decorators) != 1 or not c.decorators[0].isidentifier():
            return None
        d = self.module_name(c.module, c.decorators[0])
        if not isinstance(d, ExtRef) or d.name != "decorator.decorator":
            return None
        self.E.dropped.add("decorator.decorator: a call of the decorated function is a call of the decorator "
                           "with the function and all its arguments, by position")
        self.note_fn(c)
        plain = FuncV(c.module, c.node, c.cls, c.closure, c.qual)
        plain.decorators = []
        return plain

    def instantiate(self, cls, args, kwargs):
        if cls in getattr(self, "class_stubs", {}):
            return self.class_stubs[cls](self, *args, **kwargs)
        st = self.stubs.get(f"{cls.module.name}:{cls.name}")
        if st is not None:
            return st(self, *args, **kwargs)
        o = Obj(cls)
        init = self.find_member(cls, "__init__")
        if init is not None:
            self.call(init[1], [o] + list(args), kwargs)
        elif self.is_exc_class(cls):
            o.attrs["args"] = tuple(args)
        elif args or kwargs:
            if self.has_ext_base(cls):
                raise Unsupported(f"constructor of {cls.name} (external base class)")
            raise_py(TypeError, f"{cls.name}() takes no arguments")
        elif self.has_ext_base(cls):
            ext = [b for b in self.mro(cls) if isinstance(b, ExtRef)]
            raise Unsupported(f"constructor of {cls.name} (external base class {ext})")
        return o

    def is_exc_class(self, cls):
        return any(isinstance(b, type) and issubclass(b, BaseException) for b in self.mro(cls))

    def has_ext_base(self, cls):
        return any(isinstance(b, ExtRef) and b.name not in ("abc.ABC",) for b in self.mro(cls))

    # ------------------------------------------------------------ classes
    def bases(self, cls):
        if not hasattr(cls, "_bases"):
            self.push(Frame(None, cls.module, cls.frame))
            try:
                cls._bases = [self.ev(b) for b in cls.node.bases]
            finally:
                self.frames.pop()
        return cls._bases

    def mro(self, cls):
        if not isinstance(cls, ClassV):
            if isinstance(cls, type):
                return [c for c in cls.__mro__ if c is not object]
            return [cls]
        if hasattr(cls, "_mro"):
            return cls._mro
        bases = self.bases(cls)
        seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
        out = [cls]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(any(h is x or h == x for x in t[1:]) for t in seqs):
                    break
            else:
                raise Unsupported(f"inconsistent MRO of {cls.name}")
            out.append(h)
            seqs = [[x for x in s if not (x is h or x == h)] for s in seqs]
            seqs = [s for s in seqs if s]
        cls._mro = out
        return out

    def find_member(self, cls, name, after=None):
        """(owner, value) of a class member along the MRO"""
        mro = self.mro(cls)
        if after is not None:
            i = next((j for j, c in enumerate(mro) if c is after), -1)
            mro = mro[i + 1:]
        for c in mro:
            if isinstance(c, ClassV):
                if name in c.attrs:
                    return c, c.attrs[name]
                if name in c.members:
                    m = c.members[name]
                    if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        return c, FuncV(c.module, m, c, c.frame)
                    fr = Frame(None, c.module, c.frame)
                    # names of the class body defined before are visible
                    for k, mm in c.members.items():
                        if mm is m:
                            break
                        if not isinstance(mm, (ast.FunctionDef, ast.AsyncFunctionDef)) and used_in(k, m):
                            fr.vars[k] = self.find_member(c, k)[1]
                    self.push(fr)
                    try:
                        v = self.ev(m)
                    finally:
                        self.frames.pop()
                    return c, v
        return None

    def isinstance(self, v, cls):
        if isinstance(cls, tuple):
            rs = [self.isinstance(v, c) for c in cls]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            if not rs:
                return False
            return mk(Or(*rs), "bool")
        hook = getattr(v, "pyvc_isinstance", None)
        if hook is not None:
            return hook(self, cls)
        if isinstance(v, Sv) and v.kind == "obj":
            n = cls.__name__ if isinstance(cls, type) else getattr(cls, "name", None)
            return mk(ops.ufun(f"is_{n}", v.e.sort(), z3.BoolSort())(v.e), "bool")
        if isinstance(v, BExc):
            return isinstance(cls, type) and issubclass(v.cls, cls)
        if isinstance(v, Obj):
            if isinstance(v.cls, ClassV):
                return any(c is cls or (isinstance(c, ClassV) and isinstance(cls, ClassV)
                                        and c.node is cls.node) or c == cls for c in self.mro(v.cls)) \
                    or (isinstance(cls, type) and any(isinstance(c, type) and issubclass(c, cls)
                                                      for c in self.mro(v.cls))) or cls is object
            if isinstance(v.cls, str):
                n = cls.__name__ if isinstance(cls, type) else getattr(cls, "name", None)
                if v.cls == n or n in v.attrs.get("__isa__", ()):
                    return True
                if cls in (str, int, float, list, tuple, dict, bool) or isinstance(cls, (type, ClassV, ExtRef)):
                    return False
            raise Unsupported(f"isinstance of {v!r}")
        if isinstance(cls, ExtRef):
            n = cls.name
            if n in ("numpy.ndarray",):
                return isinstance(v, Arr)
            if n in ("pathlib.Path", "numbers.Number", "numpy.integer", "numbers.Integral",
                     "collections.abc.Iterable"):
                if n == "numbers.Number":
                    return ops.num(v)
                if n in ("numpy.integer",):
                    return False
                if n == "numbers.Integral":
                    return kind(v) in ("int", "bool")
                if n == "collections.abc.Iterable":
                    return isinstance(v, (VList, tuple, VDict, Arr, str, RangeV)) or kind(v) == "str"
                return False
            if v is None or is_scalar(v) or isinstance(v, (tuple, VList, VDict, Arr, VMap)):
                return False
            raise Unsupported(f"isinstance(…, {n})")
        if isinstance(cls, ClassV):
            return False
        if cls is object:
            return True
        if cls is str:
            return kind(v) == "str"
        if cls is bool:
            return kind(v) == "bool"
        if cls is int:
            return kind(v) in ("int", "bool")
        if cls is float:
            return kind(v) == "real"
        if cls is list:
            return isinstance(v, VList)
        if cls is tuple:
            return isinstance(v, tuple)
        if cls is dict:
            return isinstance(v, (VDict, VMap))
        if cls is set:
            return isinstance(v, VSet)
        if cls is slice:
            return isinstance(v, SliceV)
        if isinstance(cls, type) and issubclass(cls, BaseException):
            return False
        if isinstance(cls, type):
            return False
        raise Unsupported(f"isinstance(…, {cls!r})")

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        E = self.E
        if isinstance(o, Poison):
            raise Undischarged(f"attribute of an undefined value: {o.why}")
        if isinstance(o, Obj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    if hasattr(v, "force"):
                        v = o.attrs[name] = v.force()
                        return v
                    raise Undischarged(f"attribute `{name}` read while undefined: {v.why}")
                return v
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                d = VDict({})
                d.d = o.attrs
                return d
            if name == "__module__" and isinstance(o.cls, ClassV):
                return o.cls.module.name
            if isinstance(o.cls, ClassV):
                return self.class_attr(o.cls, name, o)
            m = self.models.get(f"{o.cls}.{name}")
            if m is not None:
                return BoundV(o, Model(m, f"{o.cls}.{name}"))
            if o.cls == "Path":
                from .textfs import p_getattr
                v = p_getattr(self, o, name)
                if v is not None:
                    return v
                raise Unsupported(f"Path.{name}")
            m = self.models.get(f"getattr:{o.cls}")
            if m is not None:
                return m(self, o, name)
            raise_py(AttributeError, name)
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            if name in ("__new__", "__subclasses__"):
                raise Unsupported(name)
            r = self.find_member(o, name)
            if r is None:
                raise_py(AttributeError, name)
            v = r[1]
            if isinstance(v, FuncV) and "classmethod" in v.decorators:
                return BoundV(o, v)
            return v
        if isinstance(o, Module):
            if name in o.defs or name in o.values:
                return self.module_name(o, name)
            m = self.loader.import_(o.name + "." + name)
            if isinstance(m, Module):
                return m
            raise_py(AttributeError, name)
        if isinstance(o, ExtRef):
            full = f"{o.name}.{name}"
            c = self.models.get("=" + full)
            if c is not None:
                return c() if callable(c) else c
            return ExtRef(full)
        if isinstance(o, SuperV):
            r = self.find_member(o.obj.cls if isinstance(o.obj, Obj) else o.obj, name, after=o.cls)
            if r is None:
                ext = [b for b in self.mro(o.obj.cls if isinstance(o.obj, Obj) else o.obj) if isinstance(b, ExtRef)]
                if name == "__init__" and not (ext and f"{ext[0].name}.{name}" in self.models):
                    return Model(lambda I, *a, **k: None, "object.__init__")
                ext = [b for b in self.mro(o.obj.cls if isinstance(o.obj, Obj) else o.obj) if isinstance(b, ExtRef)]
                if ext:
                    m = self.models.get(f"{ext[0].name}.{name}")
                    if m is not None:
                        return BoundV(o.obj, Model(m, name))
                raise Unsupported(f"super().{name}")
            v = r[1]
            if isinstance(v, FuncV):
                if "staticmethod" in v.decorators:
                    return v
                return BoundV(o.obj, v)
            return v
        if isinstance(o, BExc):
            if name == "args":
                return o.args
            if name == "__class__":
                return o.cls
            if name == "__traceback__":
                return None
            if name in o.attrs:
                return o.attrs[name]
            raise_py(AttributeError, name)
        if isinstance(o, FuncV):
            if name == "__name__":
                return o.name
            if name == "__doc__":
                return ""
            raise Unsupported(f"attribute {name} of a function")
        if isinstance(o, type):
            if name == "__name__":
                return o.__name__
            m = self.models.get(f"{o.__name__}.{name}")
            if m is not None:
                return Model(m, name)
            raise Unsupported(f"attribute {name} of type {o.__name__}")
        if isinstance(o, Sv) and o.kind == "obj":
            key = name
            if key in self.opaque_attrs:
                return self.opaque_attrs[key](o)
            raise Unsupported(f"attribute {name} of an opaque object")
        g = getattr(o, "pyvc_getattr", None)
        if g is not None:
            return g(self, name)
        from . import models
        return models.value_attr(self, o, name)

    def class_attr(self, cls, name, o):
        r = self.find_member(cls, name)
        if r is None:
            g = self.find_member(cls, "__getattr__")
            if g is not None:
                return self.call(g[1], [o, name])
            if self.is_exc_class(cls) and name == "args":
                return ()
            ext = [b for b in self.mro(cls) if isinstance(b, ExtRef)]
            for b in ext:
                m = self.models.get(f"{b.name}.{name}")
                if m is not None:
                    return BoundV(o, Model(m, name))
            if any(b.name not in ("abc.ABC",) for b in ext):
                raise Unsupported(f"attribute {name} of {cls.name} with external base {ext}")
            raise_py(AttributeError, name)
        owner, v = r
        if isinstance(v, FuncV):
            if "property" in v.decorators:
                return self.call(v, [o])
            if "staticmethod" in v.decorators:
                return v
            if "classmethod" in v.decorators:
                return BoundV(cls, v)
            return BoundV(o, v)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if isinstance(o.cls, ClassV) and self.has_setter(o.cls, name):
                raise Unsupported(f"property setter {name}")
            hook = self.models.get(f"setattr:{o.cls}")
            if hook is not None and hook(self, o, name, v):
                return
            o.attrs[name] = v
            return
        if isinstance(o, BExc):
            o.attrs[name] = v
            return
        if isinstance(o, ClassV):
            o.attrs[name] = v
            return
        g = getattr(o, "pyvc_setattr", None)
        if g is not None:
            return g(self, name, v)
        raise Unsupported(f"attribute assignment on {o!r}")

    def has_setter(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, ClassV):
                for st in c.node.body:
                    if isinstance(st, ast.FunctionDef) and st.name == name and any(
                            isinstance(d, ast.Attribute) and d.attr == "setter" for d in st.decorator_list):
                        return True
        return False

    def hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except PyRaise as e:
            if isinstance(e.exc, BExc) and issubclass(e.exc.cls, AttributeError):
                return False
            raise

    # ------------------------------------------------------------ truth
    def truth(self, v):
        E = self.E
        if v is None:
            return False
        if isinstance(v, Sv):
            if v.kind == "obj":
                raise Unsupported("truth value of an opaque object")
            if v.kind == "str":
                from .textfs import flatten, clean
                if any(isinstance(p, str) or clean(p) for p in flatten(v)):
                    return True
            return E.truth(v)
        if is_scalar(v):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, VList):
            n = v.length()
            return n > 0 if isinstance(n, int) else E.branch(ze(n) > 0)
        if isinstance(v, VDict):
            return len(v.d) > 0
        if isinstance(v, VSet) and v.items is not None:
            return len(v.items) > 0
        if isinstance(v, RangeV):
            n = self.models_builtin()["len"](self, v)
            return E.truth(n) if isinstance(n, Sv) else bool(n)
        if isinstance(v, Arr):
            if v.ndim == 0:
                return self.truth(v.at(()))
            tot = 1
            for s in v.shape:
                tot = ops.mul(tot, s)
            c = ops.compare("==", tot, 1)
            if self.truth(c):
                return self.truth(v.at((0,) * v.ndim))
            raise_py(ValueError, "The truth value of an array is ambiguous")
        if isinstance(v, Obj):
            if isinstance(v.cls, ClassV):
                m = self.find_member(v.cls, "__bool__")
                if m:
                    return self.truth(self.call(m[1], [v]))
                m = self.find_member(v.cls, "__len__")
                if m:
                    return self.truth(ops.compare(">", self.call(m[1], [v]), 0))
                for b in self.mro(v.cls):
                    if isinstance(b, ExtRef) and f"{b.name}.__len__" in self.models:
                        return self.truth(ops.compare(">", self.models[f"{b.name}.__len__"](self, v), 0))
            elif isinstance(v.cls, str):
                from . import models
                m = models.special(v, "__len__")
                if m:
                    return self.truth(ops.compare(">", m(self, v), 0))
            return True
        g = getattr(v, "pyvc_truth", None)
        if g is not None:
            return g(self)
        if isinstance(v, VMap):
            raise Unsupported("truth value of a symbolic dictionary")
        return True

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for st in body:
            self.exec(st)

    def exec(self, st):
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__} (line {st.lineno})")
        return m(st)

    def x_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Call):
            name = ast.unparse(st.value.func)
            if name in DROPPED_CALLS:
                self.E.dropped.add(f"calls of {name}")
                return
        self.ev(st.value)

    def x_Pass(self, st):
        pass

    def x_Import(self, st):
        for a in st.names:
            if a.asname:
                self.frame.vars[a.asname] = self.loader.import_(a.name)
            else:
                self.frame.vars[a.name.split(".")[0]] = self.loader.import_(a.name.split(".")[0])

    def x_ImportFrom(self, st):
        tmp = Module.__new__(Module)
        tmp.name, tmp.is_pkg, tmp.defs = self.frame.module.name, self.frame.module.is_pkg, {}
        Module.scan(tmp, [st])
        for k, d in tmp.defs.items():
            self.frame.vars[k] = self.import_from(d[1], d[2])

    def x_Global(self, st):
        raise Unsupported("global statement")

    def x_Nonlocal(self, st):
        self.frame.nonlocals = set(self.frame.nonlocals) | set(st.names)

    def x_FunctionDef(self, st):
        self.frame.vars[st.name] = FuncV(self.frame.module, st, None, self.frame,
                                         qual=self.qual_of_frame() + ".<locals>." + st.name)

    x_AsyncFunctionDef = x_FunctionDef

    def qual_of_frame(self):
        f = self.frame.fn
        return f.qual if f is not None else self.frame.module.name

    def x_ClassDef(self, st):
        self.frame.vars[st.name] = ClassV(self.frame.module, st, self.frame)

    def x_Return(self, st):
        raise ReturnX(None if st.value is None else self.ev(st.value))

    def x_Break(self, st):
        raise BreakX()

    def x_Continue(self, st):
        raise ContinueX()

    def x_Assert(self, st):
        if not self.truth(self.ev(st.test)):
            raise_py(AssertionError)

    def x_Raise(self, st):
        if st.exc is None:
            cur = getattr(self, "handling", None)
            if not cur:
                raise Unsupported("bare raise outside of a handler")
            raise PyRaise(cur[-1])
        e = self.ev(st.exc)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = BExc(e)
        elif isinstance(e, ClassV):
            e = self.instantiate(e, [], {})
        raise PyRaise(e)

    def x_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id not in self.frame.vars:
                    raise_py(UnboundLocalError, t.id)
                del self.frame.vars[t.id]
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value), self.ev_index(t.slice))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if isinstance(o, Obj):
                    if t.attr not in o.attrs:
                        raise_py(AttributeError, t.attr)
                    del o.attrs[t.attr]
                else:
                    raise Unsupported("del attribute")
            elif isinstance(t, ast.Tuple):
                for x in t.elts:
                    self.x_Delete(ast.Delete([x]))
            else:
                raise Unsupported("del")

    def x_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v)

    def x_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))

    def x_AugAssign(self, st):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            self.assign(t, self.inplace(op, cur, self.ev(st.value)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setattr(o, t.attr, self.inplace(op, self.getattr(o, t.attr), self.ev(st.value)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev_index(t.slice)
            self.setitem(o, i, self.inplace(op, self.getitem(o, i), self.ev(st.value)))
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, a, b):
        from . import models
        if isinstance(a, VList) and op == "Add":
            models.list_extend(self, a, b)
            return a
        if isinstance(a, Arr):
            r = self.binop(op, a, b)
            models.arr_setitem(self, a, (Ellipsis,), r)
            return a
        if isinstance(a, VSet) and op == "BitOr":
            r = self.binop(op, a, b)
            a.items, a.has = r.items, r.has
            return a
        if isinstance(a, Obj) and isinstance(a.cls, ClassV):
            m = self.find_member(a.cls, {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__",
                                         "Div": "__itruediv__"}.get(op, "__i?__"))
            if m:
                return self.call(m[1], [a, b])
        return self.binop(op, a, b)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            f = self.frame
            if t.id in f.nonlocals:
                p = f.parent
                while p is not None and t.id not in p.vars:
                    p = p.parent
                if p is None:
                    raise Unsupported("nonlocal")
                p.vars[t.id] = v
            else:
                f.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.ev_index(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                items = self.concrete_items(v, "starred assignment")
                s = stars[0]
                after = len(t.elts) - s - 1
                if len(items) < len(t.elts) - 1:
                    raise_py(ValueError, "not enough values to unpack")
                for x, y in zip(t.elts[:s], items[:s]):
                    self.assign(x, y)
                self.assign(t.elts[s].value, VList(items[s: len(items) - after]))
                for x, y in zip(t.elts[s + 1:], items[len(items) - after:]):
                    self.assign(x, y)
                return
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, VList):
            ln = v.length()
            if not isinstance(ln, int):
                if not self.truth(ops.compare("==", ln, n)):
                    raise_py(ValueError, "unpacking: wrong number of values")
                ln = n
            items = [v.get(i) for i in range(ln)]
        elif isinstance(v, Arr):
            ln = v.shape[0]
            if not self.truth(ops.compare("==", ln, n)):
                raise_py(ValueError, "unpacking: wrong number of values")
            items = [self.getitem(v, i) for i in range(n)]
        elif isinstance(v, (VDict, VSet, RangeV, str)):
            items = self.concrete_items(v)
        elif hasattr(v, "pyvc_unpack"):
            items = v.pyvc_unpack(self, n)
        else:
            it = self.concrete_items(v)
            items = it
        if len(items) != n:
            raise_py(ValueError, f"unpacking: expected {n} values, got {len(items)}")
        return items

    def concrete_items(self, v, what="iteration"):
        """Python list of the items of an iterable of known length"""
        from . import models
        seq = models.as_seq(self, v)
        n = seq.length()
        if not isinstance(n, int):
            raise Unsupported(f"{what} over an iterable of symbolic length")
        return [seq.get(i) for i in range(n)]

    def x_If(self, st):
        from . import loops
        c = self.ev(st.test)
        if isinstance(c, Sv) and c.kind == "bool" and loops.mergeable_if(st):
            if loops.merge_if(self, st, c):
                return
        if self.truth(c):
            self.exec_block(st.body)
        else:
            self.exec_block(st.orelse)

    def x_For(self, st):
        from . import loops
        loops.exec_for(self, st)

    x_AsyncFor = x_For

    def x_While(self, st):
        from . import loops
        loops.exec_while(self, st)

    def x_With(self, st):
        self.with_items(st.items, st.body)

    x_AsyncWith = x_With

    def with_items(self, items, body):
        if not items:
            self.exec_block(body)
            return
        it = items[0]
        cm = self.ev(it.context_expr)
        ent, ext = self.context(cm)
        v = ent()
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        try:
            self.with_items(items[1:], body)
        except PyRaise as e:
            if ext(e.exc):
                return
            raise
        except (BreakX, ContinueX, ReturnX):
            ext(None)
            raise
        else:
            ext(None)

    def context(self, cm):
        if isinstance(cm, Obj) and isinstance(cm.cls, str) and f"{cm.cls}.__enter__" in self.models:
            return (lambda: self.models[f"{cm.cls}.__enter__"](self, cm),
                    lambda e: self.models[f"{cm.cls}.__exit__"](self, cm, e))
        if isinstance(cm, Obj):
            en = self.getattr(cm, "__enter__")
            ex = self.getattr(cm, "__exit__")
            def leave(e):
                r = self.call(ex, [None if e is None else self.type_of(e), e, None])
                return r is not None and self.truth(r)
            return lambda: self.call(en, []), leave
        if cm.__class__.__name__ == "FileV":
            return lambda: cm, lambda e: False
        if cm is None or isinstance(cm, str) and cm == "nullcontext":
            return lambda: None, lambda e: False
        raise Unsupported(f"context manager {cm!r}")

    def type_of(self, v):
        if isinstance(v, BExc):
            return v.cls
        if isinstance(v, Obj):
            return v.cls
        return {"int": int, "real": float, "str": str, "bool": bool}.get(kind(v)) or (
            list if isinstance(v, VList) else tuple if isinstance(v, tuple) else
            dict if isinstance(v, (VDict, VMap)) else ExtRef("type"))

    def exc_match(self, exc, cls):
        r = self.isinstance(exc, cls) if not isinstance(cls, tuple) else None
        if isinstance(cls, tuple):
            for c in cls:
                if self.exc_match(exc, c):
                    return True
            return False
        return self.truth(r)

    def x_Try(self, st):
        nf = len(self.frames)
        dp = self.depth
        def cleanup():
            pass
        try:
            try:
                self.exec_block(st.body)
            except PyRaise as e:
                del self.frames[nf:]
                self.depth = dp
                for h in st.handlers:
                    ok = h.type is None or self.exc_match(e.exc, self.ev(h.type))
                    if ok:
                        if h.name:
                            self.frame.vars[h.name] = e.exc
                        if not hasattr(self, "handling"):
                            self.handling = []
                        self.handling.append(e.exc)
                        try:
                            self.exec_block(h.body)
                        finally:
                            self.handling.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse)
        except (PyRaise, BreakX, ContinueX, ReturnX):
            self.exec_block(st.finalbody)
            raise
        self.exec_block(st.finalbody)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            s = repr(v)
            return Fraction(s) if "inf" not in s and "nan" not in s else v
        if isinstance(v, (int, str, bool)) or v is None or v is Ellipsis:
            return v
        if isinstance(v, bytes):
            return v.decode("latin1")
        raise Unsupported(f"constant {v!r}")

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def e_Tuple(self, e):
        return tuple(self.seq_elts(e.elts))

    def e_List(self, e):
        return VList(self.seq_elts(e.elts))

    def e_Set(self, e):
        from . import models
        return models.make_set(self, self.seq_elts(e.elts))

    def seq_elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_items(self.ev(x.value), "star"))
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        d = VDict()
        r = d
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                if not isinstance(o, VDict):
                    raise Unsupported("** of a symbolic dictionary")
                r.d.update(o.d)
            else:
                kk = self.ev(k)
                self.setitem(r, kk, self.ev(v))
        return r

    def e_JoinedStr(self, e):
        from . import models
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value)
                spec = "" if x.format_spec is None else self.ev(x.format_spec)
                if x.conversion == 114:
                    parts.append(models.fmt_value(self, v, "!r"))
                else:
                    parts.append(models.fmt_value(self, v, spec))
        return models.str_concat(parts)

    def e_FormattedValue(self, e):
        return self.e_JoinedStr(ast.JoinedStr([e]))

    def e_Lambda(self, e):
        return FuncV(self.frame.module, e, None, self.frame, qual=self.qual_of_frame() + ".<lambda>")

    def e_IfExp(self, e):
        c = self.ev(e.test)
        if isinstance(c, Sv) and c.kind == "bool" and simple_expr(e.body) and simple_expr(e.orelse):
            t = ops.truth_term(c)
            if not self.E.feasible(t):
                return self.ev(e.orelse)
            if not self.E.feasible(z3.Not(t)):
                return self.ev(e.body)
            a, b = self.ev(e.body), self.ev(e.orelse)
            try:
                return vite(t, a, b, fork=False)
            except V.NoMerge:
                return a if self.E.branch(t) else b
        return self.ev(e.body) if self.truth(c) else self.ev(e.orelse)

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        vals = e.values
        # all operands simple comparisons on symbolic values: one formula, no fork
        out = None
        for i, x in enumerate(vals):
            v = self.ev(x)
            if i == len(vals) - 1:
                last = v
            else:
                if isinstance(v, Sv) and v.kind == "bool" and all(pure_cmp(y) for y in vals[i + 1:]):
                    try:
                        rest = []
                        ok = True
                        for y in vals[i + 1:]:
                            w = self.ev(y)
                            if not (isinstance(w, bool) or isinstance(w, Sv) and w.kind == "bool"):
                                ok = False
                                break
                            rest.append(w)
                        if ok:
                            f = And if is_and else Or
                            return mk(z3.simplify(f(v, *rest)), "bool")
                    except (PyRaise,):
                        raise Unsupported("short-circuit evaluation")
                t = self.truth(v)
                if is_and and not t:
                    return v if not isinstance(v, Sv) or v.kind != "bool" else False
                if not is_and and t:
                    return v if not isinstance(v, Sv) or v.kind != "bool" else True
        return last

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        op = type(e.op).__name__
        if op == "Not":
            if isinstance(v, Sv) and v.kind in ("bool", "int", "real", "str"):
                return mk(z3.simplify(Not(ops.truth_term(v))), "bool")
            return not self.truth(v)
        if isinstance(v, Arr):
            from . import models
            return models.arr_unary(self, op, v)
        if op == "USub":
            if v == float("inf") if isinstance(v, float) else False:
                return -v
            return ops.neg(v)
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, bool):
                return -1 - int(v)
            if isinstance(v, Sv) and v.kind == "bool":
                if v.np:
                    return mk(Not(v.e), "bool", None, True)
            if kind(v) == "int":
                return ops.sub(-1, v)
        raise Unsupported(f"unary {op}")

    def e_BinOp(self, e):
        return self.binop(type(e.op).__name__, self.ev(e.left), self.ev(e.right))

    def binop(self, op, a, b):
        from . import models
        return models.binop(self, op, a, b)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r)
            c = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            if isinstance(c, (bool, Sv)) and (res is None or isinstance(res, (bool, Sv))):
                res = c if res is None else mk(z3.simplify(And(res, c)), "bool")
            else:
                raise Unsupported("chained comparison of arrays")
            if res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        from . import models
        return models.compare(self, op, a, b)

    def e_Call(self, e):
        name = ast.unparse(e.func)
        if name == "super" and not e.args:
            fr = self.frame
            return SuperV(fr.vars[fr.fn.node.args.args[0].arg], fr.fn.cls)
        if name in DROPPED_CALLS and name != "warn":
            self.E.dropped.add(f"calls of {name}")
            return None
        if name == "locals" or name == "eval" or name == "exec":
            raise Unsupported(name)
        f = self.ev(e.func)
        if isinstance(f, Model) and f.name in ("any", "all", "sum", "list", "tuple", "max", "min", "sorted") \
                or f in (list, tuple):
            pass
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.concrete_items(self.ev(x.value), "star argument"))
            else:
                args.append(self.ev(x))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if not isinstance(d, VDict):
                    raise Unsupported("** argument")
                kwargs.update(d.d)
            else:
                kwargs[k.arg] = self.ev(k.value)
        return self.call(f, args, kwargs)

    def e_Await(self, e):
        self.E.dropped.add("await (coroutines are executed at the await)")
        return self.ev(e.value)

    def e_Yield(self, e):
        v = None if e.value is None else self.ev(e.value)
        self.yield_frame().yields.append(v)
        return None

    def yield_frame(self):
        f = self.frame
        while f is not None and f.yields is None:
            f = f.parent
        return f

    def e_YieldFrom(self, e):
        from . import models
        models.list_extend(self, self.yield_frame().yields, self.ev(e.value))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        raise Unsupported("starred expression")

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return SliceV(*[None if x is None else self.ev(x) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x) for x in s.elts)
        return self.ev(s)

    def e_Slice(self, s):
        return self.ev_index(s)

    def e_Subscript(self, e):
        return self.getitem(self.ev(e.value), self.ev_index(e.slice))

    def getitem(self, o, i):
        from . import models
        return models.getitem(self, o, i)

    def setitem(self, o, i, v):
        from . import models
        return models.setitem(self, o, i, v)

    def delitem(self, o, i):
        from . import models
        return models.delitem(self, o, i)

    def e_ListComp(self, e):
        from . import loops
        return loops.comprehension(self, e, "list")

    def e_GeneratorExp(self, e):
        from . import loops
        return loops.comprehension(self, e, "gen")

    def e_SetComp(self, e):
        from . import loops, models
        return models.make_set(self, self.concrete_items(loops.comprehension(self, e, "set")))

    def e_DictComp(self, e):
        from . import loops
        return loops.comprehension(self, e, "dict")


# ---------------------------------------------------------------- syntax helpers

_gen_cache = {}


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    r = _gen_cache.get(id(node))
    if r is None:
        r = False
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        _gen_cache[id(node)] = (r, node)
        return r
    return r[0]


_loc_cache = {}


def local_names(node):
    r = _loc_cache.get(id(node))
    if r is None:
        s = set()
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo = list(node.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    s.add(n.name)
                    continue
                if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.id)
                if isinstance(n, ast.ExceptHandler) and n.name:
                    s.add(n.name)
                todo.extend(ast.iter_child_nodes(n))
        r = (s, node)
        _loc_cache[id(node)] = r
    return r[0]


def used_in(name, node):
    return any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(node))


def simple_expr(e):
    """evaluation cannot raise nor have effects"""
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    if isinstance(e, ast.UnaryOp):
        return simple_expr(e.operand)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
        return simple_expr(e.left) and simple_expr(e.right)
    if isinstance(e, ast.Attribute):
        return simple_expr(e.value)
    if isinstance(e, ast.Tuple):
        return all(simple_expr(x) for x in e.elts)
    return False


def pure_cmp(e):
    """a boolean expression whose evaluation cannot raise nor have effects"""
    if isinstance(e, ast.Compare):
        return all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in e.ops) and \
            simple_expr(e.left) and all(simple_expr(x) for x in e.comparators)
    if isinstance(e, ast.BoolOp):
        return all(pure_cmp(x) for x in e.values)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return pure_cmp(e.operand) or simple_expr(e.operand)
    return isinstance(e, (ast.Name,))
