"""Finds the abstract syntax tree of live functions in the current source text, mechanically, on every run."""
from __future__ import annotations

import ast
import functools
import os
import types

REPO = os.environ.get("PYVC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ROOTS = [os.path.join(REPO, "pysqlsync") + os.sep, os.path.join(VERIF, "contracts") + os.sep]


class FileIndex:
    def __init__(self, path):
        with open(path, "r", encoding="utf-8") as f:
            self.text = f.read()
        self.tree = ast.parse(self.text, path)
        self.by_line = {}
        for node in ast.walk(self.tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                first = min([node.lineno] + [d.lineno for d in node.decorator_list])
                self.by_line.setdefault((first, node.name), node)
            elif isinstance(node, ast.Lambda):
                self.by_line.setdefault((node.lineno, "<lambda>"), []).append(node)


@functools.lru_cache(maxsize=None)
def file_index(path):
    return FileIndex(path)


def interpretable_path(path):
    return any(path.startswith(root) for root in ROOTS)


def interpretable(fn):
    return isinstance(fn, types.FunctionType) and interpretable_path(fn.__code__.co_filename)


def find(fn: types.FunctionType):
    code = fn.__code__
    index = file_index(code.co_filename)
    node = index.by_line.get((code.co_firstlineno, code.co_name))
    if isinstance(node, list):
        if len(node) == 1:
            return node[0]
        positions = {(n.body.lineno, n.body.col_offset): n for n in node}
        for p in code.co_positions():
            if p[0] is not None and (p[0], p[2]) in positions:
                return positions[(p[0], p[2])]
        return None
    return node


@functools.lru_cache(maxsize=None)
def own_nodes_kinds(node):
    """(is generator, is async) of a function, not looking into nested functions."""
    found = False
    stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            found = True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return found, isinstance(node, ast.AsyncFunctionDef)


@functools.lru_cache(maxsize=None)
def assigned_names(nodes):
    """Names assigned in the statements, not looking into nested functions or comprehensions."""
    names = set()
    stack = list(nodes)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return frozenset(names)
