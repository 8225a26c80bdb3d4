"""Imports the current source of the repository into CPython and gives the syntax tree of every function of it."""
import ast
import dataclasses
import importlib
import os
import sys
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "simpy") + os.sep

warnings.simplefilter("ignore")
sys.path.insert(0, SRC)
sys.dont_write_bytecode = True

# PyPy 3.9 (the interpreter the project runs on) accepts an instance of a dataclass as a default value; CPython from
# 3.11 on rejects unhashable defaults.  Only the import is affected.
_dc = dataclasses.dataclass


def _dataclass(cls=None, **kw):
    if cls is None:
        return lambda c: _dataclass(c, **kw)
    undo = []
    for n in cls.__dict__.get("__annotations__", {}):
        d = cls.__dict__.get(n)
        if d is not None and getattr(type(d), "__hash__", 1) is None:
            t = type(d)
            t.__hash__ = object.__hash__
            undo.append(t)
    try:
        return _dc(cls, **kw)
    finally:
        for t in undo:
            t.__hash__ = None


dataclasses.dataclass = _dataclass
import simpy.expr as E  # noqa: E402
import simpy.combinatorics, simpy.polynomial, simpy.regex, simpy.utils, simpy.linalg, simpy.transforms, simpy.integration, simpy.simplify, simpy.integral_table  # noqa: E402,E401
import simpy.simplify.simplify, simpy.simplify.product_to_sum  # noqa: E402,E401
dataclasses.dataclass = _dc

_trees = {}


def tree(filename):
    t = _trees.get(filename)
    if t is None:
        with open(filename) as f:
            mod = ast.parse(f.read(), filename)
        fns, lams = {}, {}
        for n in ast.walk(mod):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = n.decorator_list[0].lineno if n.decorator_list else n.lineno
                fns[(line, n.name)] = n
            elif isinstance(n, ast.Lambda):
                lams.setdefault(n.lineno, []).append(n)
            elif isinstance(n, ast.For):
                pass
        t = _trees[filename] = (fns, lams, mod)
    return t


def is_repo(fn):
    return isinstance(fn, types.FunctionType) and fn.__code__.co_filename.startswith(PKG)


def fn_ast(fn):
    code = fn.__code__
    fns, lams, _ = tree(code.co_filename)
    if code.co_name == "<lambda>":
        c = lams.get(code.co_firstlineno, [])
        if len(c) == 1:
            return c[0]
        pos = [p for p in code.co_positions() if p[0] is not None and p[2] is not None and p[3]]
        best = None
        for n in c:
            if all((n.lineno, n.col_offset) <= (p[0], p[2]) and (p[1], p[3]) <= (n.end_lineno, n.end_col_offset) for p in pos):
                if best is None or (n.col_offset > best.col_offset):
                    best = n
        return best
    return fns.get((code.co_firstlineno, code.co_name))


def qual(fn):
    return fn.__module__.replace("simpy.", "") + "." + fn.__qualname__
