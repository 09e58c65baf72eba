"""Load /repo/src/gggears from the working tree for symbolic execution.

The functions executed are CPython code objects compiled from the repository's own
source text on every run.  The only rewriting (AST) is:
  * float literals become exact rationals (`0.2` -> 1/5), integer `a / b` becomes an
    exact quotient: machine floating point is read as real arithmetic;
  * names `float`, `int`, and the modules numpy / scipy / build123d resolve to the shims.
Nothing is dropped; every other construct runs as written."""
from __future__ import annotations
import ast
import builtins
import importlib
import os
import sys
import types
from fractions import Fraction
from . import terms as T
from .terms import S, B

REPO = os.environ.get("GGG_REPO", "/repo")
PKG = os.path.join(REPO, "src", "gggears")


class Rw(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(
                ast.Call(ast.Name("__lit__", ast.Load()), [ast.Constant(repr(n.value))], []), n
            )
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_MatchValue(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(
                ast.Call(ast.Name("__div__", ast.Load()), [n.left, n.right], []), n
            )
        return n


def _lit(s):
    return T.const(Fraction(s))


def _div(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return T.const(T._num(a)) / T.const(T._num(b))
    return a / b


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, S))

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class FloatShim(metaclass=_FloatMeta):
    def __new__(cls, x=0):
        if isinstance(x, S):
            return x
        if T.is_num(x):
            return T.const(T._num(x))
        import numpy as np
        if isinstance(x, np.ndarray) and x.size == 1:
            return cls(x.reshape(-1)[0])
        if isinstance(x, str):
            return T.const(Fraction(x))
        if hasattr(x, "__float__"):
            return x.__float__()
        raise T.Unsupported(f"float({type(x)})")


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class IntShim(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, S):
            if x.is_const:
                return int(x.value)
            ctx = T.get_ctx()
            v = ctx.const_of(x) if ctx else None
            if v is not None:
                return int(v)
            t = x.__trunc__()
            v = ctx.const_of(t) if ctx else None
            if v is not None:
                return int(v)
            return t
        return int(x, *a)


def _abs(x):
    import numpy as np
    if isinstance(x, S):
        return T.absval(x)
    return abs(x)


def _round(x, n=None):
    if isinstance(x, S):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


def _isinstance(x, t):
    return isinstance(x, t)


MODS: dict = {}


def shims():
    from . import shim_numpy, shim_scipy, shim_bd, shim_math
    return {
        "numpy": shim_numpy.MOD,
        "numpy.linalg": shim_numpy.MOD.linalg,
        "scipy": shim_scipy.MOD,
        "scipy.optimize": shim_scipy.MOD.optimize,
        "scipy.spatial": shim_scipy.MOD.spatial,
        "scipy.spatial.transform": shim_scipy.MOD.spatial.transform,
        "scipy.special": shim_scipy.MOD.special,
        "build123d": shim_bd.MOD,
        "math": shim_math.MOD,
    }


_REAL_IMPORT = builtins.__import__


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    sh = SH
    if level == 0 and name in sh:
        if fromlist:
            return sh[name]
        top = name.split(".")[0]
        return sh[top]
    if level == 0 and name.split(".")[0] in ("numpy", "scipy", "build123d", "math", "OCP"):
        if name.split(".")[0] == "OCP":
            return sh["build123d"]
        raise T.Unsupported("import " + name)
    if level == 0 and name.split(".")[0] == "gggears" or level > 0:
        if level > 0:
            name = "gggears" + ("." + name if name else "")
        load(name)
        if fromlist:
            mod = MODS[name]
            for f in fromlist:
                sub = name + "." + f
                if f != "*" and not hasattr(mod, f) and _exists(sub):
                    load(sub)
            return mod
        return MODS["gggears"]
    return _REAL_IMPORT(name, globals, locals, fromlist, level)


def _path(name):
    parts = name.split(".")
    if parts == ["gggears"]:
        return os.path.join(PKG, "__init__.py")
    p = os.path.join(PKG, *parts[1:])
    if os.path.isdir(p):
        return os.path.join(p, "__init__.py")
    return p + ".py"


def _exists(name):
    return os.path.exists(_path(name))


SH: dict = {}
SOURCES: dict = {}
LOADING_PKG = [False]


def load(name):
    if name in MODS:
        return MODS[name]
    if "." in name and "gggears" not in MODS and not LOADING_PKG[0]:
        # a light package object: __init__ pulls in the CAD layer, loaded on demand only
        pk = types.ModuleType("gggears")
        pk.__path__ = [PKG]
        MODS["gggears"] = pk
        sys.modules["gggears"] = pk
    path = _path(name)
    if not os.path.exists(path):
        raise ModuleNotFoundError(name)
    src = open(path).read()
    SOURCES[name] = src
    tree = ast.parse(src, path)
    tree = ast.fix_missing_locations(Rw().visit(tree))
    code = compile(tree, path, "exec")
    mod = types.ModuleType(name)
    mod.__file__ = path
    bi = dict(vars(builtins))
    bi["__import__"] = _import
    bi["__lit__"] = _lit
    bi["__div__"] = _div
    bi["float"] = FloatShim
    bi["int"] = IntShim
    bi["abs"] = _abs
    bi["round"] = _round
    mod.__dict__["__builtins__"] = bi
    MODS[name] = mod
    sys.modules[name] = mod
    if "." in name:
        par, _, leaf = name.rpartition(".")
        if par in MODS:
            setattr(MODS[par], leaf, mod)
    try:
        exec(code, mod.__dict__)
    except BaseException:
        MODS.pop(name, None)
        sys.modules.pop(name, None)
        raise
    return mod


class NS:
    """m.curve, m.gearmath, ... loaded on first use"""

    def __getattr__(self, leaf):
        if leaf.startswith("__"):
            raise AttributeError(leaf)
        alias = {
            "base": "gggears_base_classes",
            "core": "gggears_core",
            "convert": "gggears_convert",
            "bd": "gggears_build123d",
            "wrapper": "gggears_wrapper",
            "fg": "function_generators",
            "crv": "curve",
        }
        return load("gggears." + alias.get(leaf, leaf))


def setup():
    if not SH:
        SH.update(shims())
    return NS()
