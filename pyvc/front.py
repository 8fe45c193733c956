"""Loads the real source text (from /repo, and the pure-Python stdlib mixins it inherits) as AST."""
from __future__ import annotations

import ast
import hashlib
import os
import sysconfig

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")

STDLIB_SOURCES = {"collections.abc": "_collections_abc.py", "_collections_abc": "_collections_abc.py"}


class ClassInfo:
    def __init__(self, name, qual, mod, node):
        self.name, self.qual, self.mod, self.node = name, qual, mod, node
        self.attrs = {}          # name -> ast node or ("assign", node) / evaluated overrides
        self.bases = []          # ClassInfo or Ext-name strings, filled by resolve
        self._mro = None
        for b in node.body:
            self._collect(b)

    def _collect(self, b):
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if any(isinstance(d, ast.Name) and d.id == "overload" for d in b.decorator_list):
                return
            # keep property setters next to their getter
            for d in b.decorator_list:
                if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter"):
                    self.attrs[b.name + "@" + d.attr] = b
                    return
            self.attrs[b.name] = b
        elif isinstance(b, ast.Assign):
            for t in b.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = ("assign", b.value)
        elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
            if b.value is not None:
                self.attrs[b.target.id] = ("assign", b.value)
        elif isinstance(b, ast.ClassDef):
            self.attrs[b.name] = ("class", b)
        elif isinstance(b, ast.If):
            t = b.test
            if isinstance(t, ast.Name) and t.id == "TYPE_CHECKING":
                for x in b.orelse:
                    self._collect(x)
            elif isinstance(t, ast.Name) and t.id == "PYDANTIC_V1":
                for x in b.orelse:
                    self._collect(x)
            else:
                for x in b.body:
                    self._collect(x)

    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def __repr__(self):
        return f"<class {self.qual}>"


def _c3(c):
    seqs = []
    for b in c.bases:
        seqs.append(list(b.mro()) if isinstance(b, ClassInfo) else [b])
    seqs.append(list(c.bases))
    out = [c]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:
            raise TypeError("mro")
        out.append(cand)
        for s in seqs:
            if s and s[0] == cand:
                del s[0]


class Module:
    def __init__(self, name, path, loader):
        self.name, self.path, self.loader = name, path, loader
        with open(path, encoding="utf-8") as fh:
            self.text = fh.read()
        self.tree = ast.parse(self.text, path)
        self.names = {}          # name -> ("func", node) | ("class", ClassInfo) | ("import", mod, attr) | ("expr", node)
        self._scan(self.tree.body)
        self.cache = {}
        for c in [v[1] for v in self.names.values() if v[0] == "class"]:
            c.bases = [self._base(b) for b in c.node.bases]
            c.bases = [b for b in c.bases if b is not None]

    def _scan(self, body):
        for b in body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(isinstance(d, ast.Name) and d.id == "overload" for d in b.decorator_list):
                    continue
                self.names[b.name] = ("func", b)
            elif isinstance(b, ast.ClassDef):
                self.names[b.name] = ("class", ClassInfo(b.name, f"{self.name}:{b.name}", self, b))
            elif isinstance(b, ast.ImportFrom):
                m = self._absmod(b.module, b.level)
                for a in b.names:
                    self.names[a.asname or a.name] = ("import", m, a.name)
            elif isinstance(b, ast.Import):
                for a in b.names:
                    self.names[(a.asname or a.name).split(".")[0]] = ("module", a.name)
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("expr", b.value)
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                if b.value is not None:
                    self.names[b.target.id] = ("expr", b.value)
            elif isinstance(b, ast.If):
                t = b.test
                if isinstance(t, ast.Name) and t.id == "TYPE_CHECKING":
                    self._scan(b.body)       # only for names in annotations / casts
                    self._scan(b.orelse)
                elif isinstance(t, ast.UnaryOp) and isinstance(t.operand, ast.Name) \
                        and t.operand.id == "PYDANTIC_V1":
                    self._scan(b.body)
                elif isinstance(t, ast.Name) and t.id == "PYDANTIC_V1":
                    self._scan(b.orelse)
                else:
                    self._scan(b.body)
                    if not (isinstance(t, ast.Compare)):
                        self._scan(b.orelse)
            elif isinstance(b, ast.Try):
                self._scan(b.body)

    def _absmod(self, module, level):
        if level == 0:
            return module
        parts = self.name.split(".")
        pkg = parts if self.path.endswith("__init__.py") else parts[:-1]
        pkg = pkg[: len(pkg) - (level - 1)]
        return ".".join(pkg + ([module] if module else []))

    def _base(self, b):
        if isinstance(b, ast.Subscript):
            b = b.value
        if isinstance(b, ast.Attribute):
            return ast.unparse(b)
        if isinstance(b, ast.Name):
            return self.class_named(b.id)
        if isinstance(b, ast.Call):
            return None
        return ast.unparse(b)

    def class_named(self, name):
        e = self.names.get(name)
        if e is None:
            return "builtins." + name
        if e[0] == "class":
            return e[1]
        if e[0] == "import":
            m = self.loader.module(e[1])
            if m is not None:
                return m.class_named(e[2])
            return f"{e[1]}.{e[2]}"
        return name


class Loader:
    def __init__(self, src=None):
        self.src = src or REPO_SRC
        self.mods = {}
        self.used = {}

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        self.mods[name] = None
        path = None
        if name.split(".")[0] == "psygnal":
            rel = name.replace(".", "/")
            for cand in (f"{self.src}/{rel}.py", f"{self.src}/{rel}/__init__.py"):
                if os.path.exists(cand):
                    path = cand
                    break
        elif name in STDLIB_SOURCES:
            path = os.path.join(sysconfig.get_paths()["stdlib"], STDLIB_SOURCES[name])
            if name != "_collections_abc":
                m = self.module("_collections_abc")
                self.mods[name] = m
                return m
        if path is None:
            return None
        m = Module(name, path, self)
        self.mods[name] = m
        return m

    def cls(self, mod, name) -> ClassInfo:
        c = self.module(mod).class_named(name)
        if not isinstance(c, ClassInfo):
            raise KeyError(f"{mod}:{name}")
        return c

    def source_digest(self, mod, node):
        seg = ast.get_source_segment(self.module(mod).text, node) or ""
        return hashlib.sha256(seg.encode()).hexdigest()[:16]
