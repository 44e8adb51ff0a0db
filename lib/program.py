"""Loads the source tree under analysis: modules, imports, classes, functions."""
from __future__ import annotations

import ast
import os


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.defs = {}      # name -> ast node / ("import", target)
        self.cache = {}     # name -> Value
        self._collect(tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.defs[a.asname] = ("import", a.name, None)
                    else:
                        top = a.name.split(".")[0]
                        self.defs[top] = ("import", top, None)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    pk = self.name.split(".")
                    if not self.is_pkg:
                        pk = pk[:-1]
                    if n.level > 1:
                        pk = pk[: -(n.level - 1)]
                    base = ".".join(pk + ([n.module] if n.module else []))
                for a in n.names:
                    self.defs[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = n
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.defs[e.id] = n
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.defs[n.target.id] = n
            elif isinstance(n, ast.If):
                # TYPE_CHECKING and the like
                self._collect(n.body)
                self._collect(n.orelse)
            elif isinstance(n, ast.Try):
                self._collect(n.body)


class Program:
    def __init__(self, roots):
        """roots: list of (package name, directory)"""
        self.modules = {}
        self.files = []
        for pkg, d in roots:
            self._load(pkg, d)

    def _load(self, pkg, d):
        if os.path.isfile(d):
            self._add(pkg, d, False)
            return
        for base, dirs, files in os.walk(d):
            dirs[:] = sorted(x for x in dirs if not x.startswith((".", "__")))
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(base, f)
                    rel = os.path.relpath(p, d)[:-3].split(os.sep)
                    is_pkg = rel[-1] == "__init__"
                    if is_pkg:
                        rel = rel[:-1]
                    self._add(".".join([pkg] + rel), p, is_pkg)

    def _add(self, name, path, is_pkg):
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        self.modules[name] = Module(name, path, tree, is_pkg)
        self.files.append(path)
