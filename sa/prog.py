"""Loading the analysed program: syntax trees, functions, classes."""
import ast
import os


class AnchorError(Exception):
    """Something the analysis is anchored on is not there."""


class FnInfo:
    __slots__ = ("node", "qual", "mod", "file", "params", "locals", "globals", "nonlocals", "is_async", "is_gen",
                 "name", "user", "doc", "owner")

    def __init__(self, node, qual, mod, file):
        self.node, self.qual, self.mod, self.file = node, qual, mod, file
        self.user = False
        self.owner = None
        self.name = getattr(node, "name", "<lambda>")
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.globals, self.nonlocals, self.locals = set(), set(), set()
        self.is_gen = False
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for x in (a.vararg, a.kwarg):
            if x:
                self.params.append(x.arg)
        self.locals.update(self.params)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            self._scan(s)
        self.locals -= self.globals | self.nonlocals

    def _scan(self, n):
        t = type(n)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
            self.locals.add(n.name)
            return
        if t is ast.Lambda:
            return
        if t in (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp):
            # walrus targets only
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.locals.add(x.target.id)
            return
        if t in (ast.Yield, ast.YieldFrom):
            self.is_gen = True
        if t is ast.Global:
            self.globals.update(n.names)
        elif t is ast.Nonlocal:
            self.nonlocals.update(n.names)
        elif t is ast.Name and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        elif t in (ast.Import, ast.ImportFrom):
            for a in n.names:
                self.locals.add((a.asname or a.name).split(".")[0])
        elif t is ast.ExceptHandler and n.name:
            self.locals.add(n.name)
        elif t in (ast.MatchAs, ast.MatchStar) and n.name:
            self.locals.add(n.name)
        for c in ast.iter_child_nodes(n):
            self._scan(c)


class ClassInfo:
    __slots__ = ("name", "qual", "mod", "bases", "oid", "enum", "node", "mro", "exc", "meta")

    def __init__(self, name, qual, mod, node):
        self.name, self.qual, self.mod, self.node = name, qual, mod, node
        self.bases, self.oid, self.enum, self.mro, self.exc = [], None, None, [], False
        self.meta = False


class Program:
    def __init__(self, root="/repo", package="booktest"):
        self.root, self.package = root, package
        self.trees = {}
        self.files = {}
        d = os.path.join(root, package)
        if not os.path.isdir(d):
            raise AnchorError(f"no package directory {d}")
        for dirpath, dirs, files in os.walk(d):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(dirpath, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-len(".__init__")]
                    with open(p, encoding="utf-8") as h:
                        src = h.read()
                    self.trees[rel] = ast.parse(src, p)
                    self.files[rel] = os.path.relpath(p, root)
        self.fninfo = {}

    def info(self, node, qual, mod):
        r = self.fninfo.get(node)
        if r is None:
            r = self.fninfo[node] = FnInfo(node, qual, mod, self.files.get(mod, mod))
        return r
