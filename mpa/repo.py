"""Loader for the analysed package: parses every module of /repo/micropolarray on every run."""
from __future__ import annotations
import ast
import hashlib
import os


class AnalysisBroken(Exception):
    """An anchor the analysis needs has vanished: the check cannot answer."""


class Module:
    def __init__(self, name, path, tree, src, is_pkg):
        self.name, self.path, self.tree, self.src, self.is_pkg = name, path, tree, src, is_pkg


class Repo:
    def __init__(self, root="/repo", pkg="micropolarray"):
        self.root = os.environ.get("MPA_REPO", root)
        self.pkg = pkg
        self.modules = {}
        base = os.path.join(self.root, pkg)
        h = hashlib.sha256()
        for dp, dn, fn in sorted(os.walk(base)):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                if is_pkg:
                    rel = rel[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                h.update(rel.encode() + b"\0" + src.encode() + b"\0")
                tree = ast.parse(src, p)
                self.modules[rel] = Module(rel, os.path.relpath(p, self.root), tree, src, is_pkg)
        if not self.modules:
            raise AnalysisBroken("no module of %s found under %s" % (pkg, self.root))
        self.digest = h.hexdigest()
        # reference definitions, analysed by the same interpreter (never part of the analysed package)
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec_src.py")
        with open(p, encoding="utf-8") as fh:
            src = fh.read()
        self.modules["mpaspec"] = Module("mpaspec", "<specification>", ast.parse(src, p), src, False)
        for m in self.modules.values():
            for node in ast.walk(m.tree):
                for ch in ast.iter_child_nodes(node):
                    ch._parent = node
                if isinstance(node, (ast.stmt, ast.expr, ast.ExceptHandler)):
                    node._mod = m

    def functions(self):
        """yield (module, qualname, node) for every function of the package"""
        for m in self.modules.values():
            if m.name == "mpaspec":
                continue

            def rec(body, pre):
                for n in body:
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield m, pre + n.name, n
                        yield from rec(n.body, pre + n.name + ".")
                    elif isinstance(n, ast.ClassDef):
                        yield from rec(n.body, pre + n.name + ".")
                    elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                        yield from rec([x for x in ast.iter_child_nodes(n) if isinstance(x, ast.stmt)], pre)
            yield from rec(m.tree.body, "")


def loc(node):
    m = getattr(node, "_mod", None)
    return "%s:%s" % (m.path if m else "?", getattr(node, "lineno", "?"))


def enclosing(node):
    """qualified name of the function enclosing a node"""
    names = []
    n = getattr(node, "_parent", None)
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.append(n.name)
        n = getattr(n, "_parent", None)
    return ".".join(reversed(names)) or "<module>"
