"""Mechanical extraction of the verified text: the modules of the repository, parsed on each run."""
import ast
import hashlib
import os

from .values import ExtRef

REPO = os.environ.get("PYVC_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class FuncV:
    def __init__(self, module, node, cls=None, closure=None, qual=None):
        self.module, self.node, self.cls, self.closure = module, node, cls, closure
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual or f"{module.name}:{(cls.name + '.') if cls else ''}{self.name}"
        self.decorators = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]

    def pyvc_clone(self, memo):
        if self.closure is None:
            return self
        from .values import clone
        r = FuncV(self.module, self.node, self.cls, None, self.qual)
        memo[id(self)] = (r, self)
        r.closure = clone(self.closure, memo)
        return r

    def pyvc_back(self, rev, seen):
        from .values import clone_back
        if self.closure is not None:
            self.closure = clone_back(self.closure, rev, seen)

    def sha(self):
        return sha_of(self.node)

    def __repr__(self):
        return f"FuncV({self.qual})"


def sha_of(node):
    n = ast.parse(ast.unparse(node)).body[0] if not isinstance(node, ast.Lambda) else node
    if getattr(n, "body", None) and isinstance(n.body, list) and n.body and isinstance(n.body[0], ast.Expr) \
            and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
        n.body = n.body[1:] or [ast.Pass()]
    return hashlib.sha256(ast.dump(n).encode()).hexdigest()[:16]


class ClassV:
    def __init__(self, module, node, frame=None):
        self.module, self.node, self.frame = module, node, frame
        self.name = node.name
        self.attrs = {}      # evaluated class attributes
        self.members = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter")
                       for d in st.decorator_list):
                    continue
                self.members[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.members[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.members[st.target.id] = st.value

    def __repr__(self):
        return f"ClassV({self.name})"


class Module:
    def __init__(self, name, path, loader):
        self.name, self.path, self.loader = name, path, loader
        self.is_pkg = os.path.basename(path) == "__init__.py"
        with open(path) as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.defs = {}
        self.values = {}
        self.scan(self.tree.body)

    def scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.defs[st.name] = ("def", st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.defs[a.asname] = ("import", a.name)
                    else:
                        self.defs[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    pkg = self.name.split(".")
                    if not self.is_pkg:
                        pkg = pkg[:-1]
                    if st.level > 1:
                        pkg = pkg[: -(st.level - 1)]
                    base = ".".join(pkg + ([base] if base else []))
                for a in st.names:
                    self.defs[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("expr", st.value)
                    elif isinstance(t, ast.Tuple):
                        for j, tt in enumerate(t.elts):
                            if isinstance(tt, ast.Name):
                                self.defs[tt.id] = ("item", st.value, j)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.defs[st.target.id] = ("expr", st.value)
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    self.scan(h.body)
                self.scan(st.body)
                self.scan(st.orelse)
            elif isinstance(st, ast.If):
                self.scan(st.orelse)
                self.scan(st.body)
            elif isinstance(st, ast.With):
                self.scan(st.body)

    def __repr__(self):
        return f"Module({self.name})"


class Loader:
    def __init__(self):
        self.modules = {}

    def find(self, name):
        p = os.path.join(SRC, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        return None

    def module(self, name):
        if name not in self.modules:
            p = self.find(name)
            if p is None:
                return None
            self.modules[name] = Module(name, p, self)
        return self.modules[name]

    def import_(self, name):
        if name == "fluidimage" or name.startswith("fluidimage."):
            m = self.module(name)
            if m is not None:
                return m
        return ExtRef(name)
