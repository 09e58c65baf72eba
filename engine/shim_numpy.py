"""numpy over exact symbolic reals.  Array plumbing (indexing, broadcasting, stacking,
matrix products) is numpy's own, on object arrays; only numeric kernels are replaced."""
from __future__ import annotations
import types
import itertools
import numpy as np
from fractions import Fraction
from . import terms as T
from .terms import S, B, lift, Unsupported


class SymArray(np.ndarray):
    def astype(self, dtype, *a, **k):
        if self.dtype == object:
            from .loader import IntShim, FloatShim
            if dtype in (bool, np.bool_):
                return np.array([bool(x) for x in self.ravel()]).reshape(self.shape)
            if dtype is int or dtype is IntShim or dtype in (np.int64, np.int32):
                return np.array([int(IntShim(x)) for x in self.ravel()], dtype=int).reshape(self.shape)
            return self.copy()
        return np.ndarray.astype(self, dtype, *a, **k)

    def round(self, n=0, out=None):
        return _round(self, n)

    def mean(self, axis=None, **k):
        return _mean(self, axis=axis)

    def __float__(self):
        raise Unsupported("float() of array")

    def norm(self):
        return norm(self)

    def tolist(self):
        return np.ndarray.tolist(self)

    def max(self, axis=None, **k):
        return _minmax(self, axis, 1)

    def min(self, axis=None, **k):
        return _minmax(self, axis, -1)

    def argmin(self, axis=None, **k):
        return _argext(self, axis, -1)

    def argmax(self, axis=None, **k):
        return _argext(self, axis, 1)

    def dot(self, o):
        return wrap(np.dot(self, sym(o)))


def _isleafnum(x):
    return T.is_num(x) and not isinstance(x, (bool, np.bool_))


def wrap(a):
    if isinstance(a, np.ndarray):
        if a.dtype == object and not isinstance(a, SymArray):
            return a.view(SymArray)
    return a


def sym(x, copy=True):
    """array with exact entries (object dtype) unless boolean/non numeric"""
    if isinstance(x, SymArray) and x.dtype == object:
        return x.copy() if copy else x
    if isinstance(x, np.ndarray) and x.dtype == bool:
        return x.copy()
    if isinstance(x, (S, B)) or _isleafnum(x):
        a = np.empty((), dtype=object)
        a[()] = lift(x) if not isinstance(x, B) else x
        return a.view(SymArray)
    a = np.array(x, dtype=object)
    if a.size and all(isinstance(v, (bool, np.bool_)) for v in a.ravel()):
        return a.astype(bool)
    f = a.reshape(-1)
    for i in range(f.size):
        v = f[i]
        if _isleafnum(v):
            f[i] = lift(v)
        elif isinstance(v, np.ndarray) and v.ndim == 0:
            f[i] = lift(v.item())
    return f.reshape(a.shape).view(SymArray)


def isarr(x):
    return isinstance(x, (np.ndarray, list, tuple))


def unbox(a):
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a.item()
    return a


def _map(f, x):
    a = sym(x)
    if a.ndim == 0:
        return f(a.item())
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), a.reshape(-1)
    for i in range(af.size):
        of[i] = f(af[i])
    return out.view(SymArray)


def u1(f):
    def g(x, *a, **k):
        if isinstance(x, S):
            return f(x)
        if _isleafnum(x) or isinstance(x, (bool, np.bool_)):
            return f(lift(x))
        return _map(lambda v: f(lift(v)), x)

    return g


def u2(f):
    def g(x, y, *a, **k):
        if not isarr(x) and not isarr(y):
            return f(lift(x), lift(y))
        X, Y = np.broadcast_arrays(sym(x), sym(y))
        out = np.empty(X.shape, dtype=object)
        for i in np.ndindex(X.shape):
            out[i] = f(lift(X[i]), lift(Y[i]))
        return unbox(out.view(SymArray))

    return g


def boolarr(f):
    def g(x, y, *a, **k):
        if not isarr(x) and not isarr(y):
            return f(lift(x), lift(y))
        X, Y = np.broadcast_arrays(sym(x), sym(y))
        out = np.empty(X.shape, dtype=bool)
        for i in np.ndindex(X.shape):
            out[i] = bool(f(lift(X[i]), lift(Y[i])))
        return out

    return g


MOD = types.ModuleType("numpy")


def _getattr(name):
    return getattr(np, name)


MOD.__getattr__ = _getattr
MOD.__dict__["__getattr__"] = _getattr


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)


# isinstance(x, np.ndarray) and annotations use the real class
MOD.ndarray = np.ndarray
MOD.newaxis = None
MOD.pi = T.PI
MOD.cos = u1(T.cos)
MOD.sin = u1(T.sin)
MOD.tan = u1(T.tan)
MOD.sqrt = u1(T.sqrt)
MOD.cbrt = u1(lambda x: T.ufn("fn:cbrt", x))
MOD.arccos = MOD.acos = u1(T.acos)
MOD.arcsin = MOD.asin = u1(T.asin)
MOD.arctan = MOD.atan = u1(lambda x: T.atan2(x, T.ONE))
MOD.arctan2 = MOD.atan2 = u2(T.atan2)
MOD.abs = MOD.absolute = MOD.fabs = u1(T.absval)
MOD.sign = u1(T.sign)
MOD.floor = u1(T.floor)
MOD.ceil = u1(lambda x: -T.floor(-x))
MOD.deg2rad = MOD.radians = u1(lambda x: x * T.PI / 180)
MOD.rad2deg = MOD.degrees = u1(lambda x: x * 180 / T.PI)
MOD.square = u1(lambda x: x * x)
MOD.mod = MOD.remainder = u2(T.mod)
MOD.hypot = u2(lambda x, y: T.sqrt(x * x + y * y))
MOD.power = u2(T.power)
MOD.divide = MOD.true_divide = u2(T.div)
MOD.minimum = u2(lambda a, b: a if a <= b else b)
MOD.maximum = u2(lambda a, b: a if a >= b else b)
MOD.isnan = lambda x: (np.zeros(np.shape(x), dtype=bool) if isarr(x) else False)
MOD.isinf = MOD.isnan
MOD.isfinite = lambda x: (np.ones(np.shape(x), dtype=bool) if isarr(x) else True)
MOD.less = boolarr(lambda a, b: a < b)
MOD.greater = boolarr(lambda a, b: a > b)
MOD.equal = boolarr(lambda a, b: a == b)
MOD.logical_not = lambda x: (np.logical_not(np.array(x, dtype=bool)) if isarr(x) else not x)


def _close(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8)):
    rtol, atol = lift(rtol), lift(atol)
    return T.absval(a - b) <= atol + rtol * T.absval(b)


def isclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8), **k):
    return boolarr(lambda x, y: _close(x, y, rtol, atol))(a, b)


MOD.isclose = isclose


def allclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8), **k):
    r = isclose(a, b, rtol, atol)
    return bool(np.all(r)) if isinstance(r, np.ndarray) else bool(r)


MOD.allclose = allclose


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, np.ndarray) and x.dtype in (bool,) or (
        isinstance(x, np.ndarray) and x.dtype.kind in "iu" and dtype in (None, int)
    ):
        return np.array(x)
    if dtype is bool:
        return np.array([bool(v) for v in np.array(x, dtype=object).ravel()]).reshape(np.shape(x))
    a = sym(x, copy=copy is not False)
    while a.ndim < ndmin:
        a = a[np.newaxis]
    return a


MOD.array = array


def asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return wrap(x)
        return array(x)
    return array(x)


MOD.asarray = asarray
MOD.asanyarray = asarray
MOD.ascontiguousarray = asarray
MOD.atleast_1d = lambda x: (lambda a: a.reshape(1) if a.ndim == 0 else a)(asarray(x))
MOD.atleast_2d = lambda x: (lambda a: a.reshape(1, -1) if a.ndim < 2 else a)(asarray(x))


def full(shape, v, dtype=None, **k):
    if dtype is bool:
        return np.full(shape, v, dtype=bool)
    a = np.empty(_shape(shape), dtype=object)
    a[...] = lift(v) if _isleafnum(v) or isinstance(v, S) else v
    return a.view(SymArray)


def _shape(s):
    if isinstance(s, S):
        return s.__index__()
    if isinstance(s, (tuple, list)):
        return tuple(x.__index__() if isinstance(x, S) else x for x in s)
    return s


MOD.full = full
MOD.zeros = lambda shape, dtype=None, **k: (np.zeros(shape, dtype=bool) if dtype is bool else full(shape, T.ZERO))
MOD.ones = lambda shape, dtype=None, **k: (np.ones(shape, dtype=bool) if dtype is bool else full(shape, T.ONE))
MOD.empty = lambda shape, dtype=None, **k: full(shape, T.ZERO)
MOD.zeros_like = lambda a, dtype=None, **k: full(np.shape(a), T.ZERO)
MOD.ones_like = lambda a, dtype=None, **k: full(np.shape(a), T.ONE)
MOD.empty_like = MOD.zeros_like
MOD.full_like = lambda a, v, **k: full(np.shape(a), v)


def eye(n, m=None, k=0, dtype=None):
    return sym(np.eye(n, m, k))


MOD.eye = eye
MOD.identity = lambda n, dtype=None: eye(n)


def arange(*a, **k):
    if all(isinstance(x, (int, np.integer)) for x in a):
        return np.arange(*a)
    raise Unsupported("arange on symbolic values")


MOD.arange = arange


def linspace(a, b, n=50, endpoint=True, **k):
    n = int(n) if not isinstance(n, S) else n.__index__()
    arr = isarr(a) or isarr(b)
    A, Bb = (sym(a), sym(b)) if arr else (lift(a), lift(b))
    div = (n - 1) if endpoint else n
    out = []
    for i in range(n):
        if i == 0:
            out.append(A + 0 * Bb if arr else A)
        elif endpoint and i == n - 1:
            out.append(Bb + 0 * A if arr else Bb)
        else:
            out.append(A + (Bb - A) * Fraction(i, div))
    if not out:
        return full((0,), T.ZERO)
    return sym(np.array(out, dtype=object))


MOD.linspace = linspace


def _sum(x, axis=None, **k):
    if isinstance(x, types.GeneratorType):
        return sum(x)
    a = sym(x, copy=False)
    if a.dtype == bool:
        return np.sum(a, axis=axis, **k)
    if a.ndim == 0:
        return a.item()
    r = np.add.reduce(a, axis=axis, **{kk: v for kk, v in k.items() if kk == "keepdims"}) if axis is not None else (
        np.add.reduce(a.reshape(-1)) if not k.get("keepdims") else np.add.reduce(a, axis=None, keepdims=True)
    )
    if isinstance(r, np.ndarray):
        return wrap(r) if r.ndim else lift(r.item())
    return lift(r)


MOD.sum = _sum


def _mean(x, axis=None, **k):
    a = sym(x, copy=False)
    n = a.size if axis is None else a.shape[axis]
    return _sum(a, axis=axis) / n


MOD.mean = _mean
MOD.average = _mean


def _minmax(x, axis, d, **k):
    a = sym(x, copy=False)
    if axis is None:
        v = list(a.reshape(-1))
        b = v[0]
        for y in v[1:]:
            if (y > b) if d > 0 else (y < b):
                b = y
        return b
    return wrap(np.apply_along_axis(lambda r: _minmax(r, None, d), axis, a))


MOD.max = MOD.amax = lambda x, axis=None, **k: _minmax(x, axis, 1)
MOD.min = MOD.amin = lambda x, axis=None, **k: _minmax(x, axis, -1)


def _argext(x, axis, d):
    a = sym(x, copy=False)
    if axis is not None and a.ndim > 1:
        raise Unsupported("argmin axis")
    v = list(a.reshape(-1))
    bi = 0
    for i in range(1, len(v)):
        if (v[i] > v[bi]) if d > 0 else (v[i] < v[bi]):
            bi = i
    return bi


MOD.argmin = lambda x, axis=None, **k: _argext(x, axis, -1)
MOD.argmax = lambda x, axis=None, **k: _argext(x, axis, 1)


def _round(x, n=0, *a, **k):
    if n:
        f = 10**n
        return _map(lambda v: T.floor(lift(v) * f + Fraction(1, 2)) / f, x)
    return u1(lambda v: T.floor(v + Fraction(1, 2)))(x)


MOD.round = MOD.around = MOD.rint = _round


def clip(x, lo, hi, **k):
    return MOD.minimum(MOD.maximum(x, lo), hi)


MOD.clip = clip


def where(c, *ab):
    if not ab:
        return np.where(np.array(c, dtype=bool))
    a, b = ab
    if not isarr(c) and not isarr(a) and not isarr(b):
        return lift(a) if c else lift(b)
    c = np.array(np.array(c, dtype=object), dtype=bool)
    C, X, Y = np.broadcast_arrays(c, sym(a), sym(b))
    out = np.empty(C.shape, dtype=object)
    for i in np.ndindex(C.shape):
        out[i] = X[i] if C[i] else Y[i]
    return out.view(SymArray)


MOD.where = where


def cross(a, b, *args, **k):
    a, b = sym(a, copy=False), sym(b, copy=False)
    if a.shape[-1] != 3 or b.shape[-1] != 3 or args or k:
        return wrap(np.cross(a, b, *args, **k))
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    out[..., 0] = a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1]
    out[..., 1] = a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2]
    out[..., 2] = a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    return out.view(SymArray)


MOD.cross = cross


def _p2(f):
    def g(*a, **k):
        r = f(*[sym(x, copy=False) if isarr(x) or isinstance(x, S) or _isleafnum(x) else x for x in a], **k)
        return unbox(wrap(r))

    return g


MOD.dot = _p2(np.dot)
MOD.matmul = _p2(np.matmul)
MOD.inner = _p2(np.inner)
MOD.outer = _p2(np.outer)
MOD.vdot = _p2(np.dot)


def einsum(spec, *ops, **k):
    ops = [sym(o, copy=False) for o in ops]
    ins, _, out = spec.replace(" ", "").partition("->")
    ins = ins.split(",")
    if "." in spec or "->" not in spec:
        return wrap(np.einsum(spec, *ops))
    dim = {}
    for lab, o in zip(ins, ops):
        for ch, n in zip(lab, o.shape):
            dim[ch] = n
    free = list(out)
    red = [c for c in dim if c not in out]
    res = np.empty(tuple(dim[c] for c in free), dtype=object)
    for idx in np.ndindex(res.shape):
        e = dict(zip(free, idx))
        acc = T.ZERO
        for r in itertools.product(*[range(dim[c]) for c in red]):
            e.update(zip(red, r))
            t = T.ONE
            for lab, o in zip(ins, ops):
                t = t * o[tuple(e[c] for c in lab)]
            acc = acc + t
        res[idx] = acc
    return unbox(res.view(SymArray))


MOD.einsum = einsum


def _st(f):
    def g(seq, *a, **k):
        return wrap(f([sym(x, copy=False) for x in seq], *a, **k))

    return g


MOD.stack = _st(np.stack)
MOD.concatenate = _st(np.concatenate)
MOD.vstack = _st(np.vstack)
MOD.hstack = _st(np.hstack)
MOD.column_stack = _st(np.column_stack)


def block(x):
    def conv(y):
        return [conv(z) for z in y] if isinstance(y, list) else sym(y, copy=False)

    return wrap(np.block(conv(x)))


MOD.block = block
MOD.append = lambda a, b, axis=None: wrap(np.append(sym(a), sym(b), axis=axis))
MOD.insert = lambda a, i, v, axis=None: wrap(np.insert(sym(a), i, sym(v), axis=axis))
MOD.cumsum = lambda a, axis=None: wrap(np.cumsum(sym(a), axis=axis))
MOD.diff = lambda a, n=1, axis=-1: wrap(np.diff(sym(a), n=n, axis=axis))
MOD.flip = lambda a, axis=None: wrap(np.flip(sym(a), axis=axis))
MOD.roll = lambda a, s, axis=None: wrap(np.roll(sym(a), s, axis=axis))
MOD.repeat = lambda a, n, axis=None: wrap(np.repeat(sym(a), n, axis=axis))
MOD.tile = lambda a, n: wrap(np.tile(sym(a), n))
MOD.transpose = lambda a, axes=None: wrap(np.transpose(sym(a), axes))
MOD.reshape = lambda a, *s, **k: wrap(np.reshape(sym(a), *s, **k))
MOD.expand_dims = lambda a, axis: wrap(np.expand_dims(sym(a), axis))
MOD.squeeze = lambda a, axis=None: wrap(np.squeeze(sym(a), axis))
MOD.diag = lambda a, k=0: wrap(np.diag(sym(a), k)) if np.ndim(a) != 1 or True else None


def _diag(a, k=0):
    a = sym(a)
    if a.ndim == 1:
        n = a.shape[0] + abs(k)
        out = MOD.zeros((n, n))
        for i in range(a.shape[0]):
            out[i + max(0, -k), i + max(0, k)] = a[i]
        return out
    return wrap(np.diag(a, k))


MOD.diag = _diag


def pad(a, w, mode="constant", **k):
    r = wrap(np.pad(sym(a), w, mode=mode, **k))
    f = r.reshape(-1)
    for i in range(f.size):
        if not isinstance(f[i], S) and T.is_num(f[i]):
            f[i] = lift(f[i])
    return f.reshape(r.shape)


MOD.pad = pad
MOD.trace = lambda a: sum((sym(a)[i, i] for i in range(np.shape(a)[0])), T.ZERO)
MOD.prod = lambda a, axis=None: wrap(np.multiply.reduce(sym(a).reshape(-1) if axis is None else sym(a), axis=0 if axis is None else axis))
MOD.any = lambda a, *k, **kk: np.any(np.array(np.array(a, dtype=object), dtype=bool), *k, **kk)
MOD.all = lambda a, *k, **kk: np.all(np.array(np.array(a, dtype=object), dtype=bool), *k, **kk)
MOD.ndim = lambda a: 0 if isinstance(a, S) else np.ndim(a)
MOD.shape = lambda a: () if isinstance(a, S) else np.shape(np.array(a, dtype=object))
MOD.size = lambda a: 1 if isinstance(a, S) else np.size(np.array(a, dtype=object))
MOD.isscalar = lambda a: isinstance(a, S) or np.isscalar(a)
MOD.copy = lambda a: sym(a)
MOD.broadcast_to = lambda a, s: wrap(np.broadcast_to(sym(a), s))
MOD.searchsorted = None


def searchsorted(a, v, side="left", **k):
    if isarr(v):
        return np.array([searchsorted(a, x, side) for x in np.asarray(v, dtype=object).ravel()]).reshape(np.shape(v))
    arr = list(sym(a).reshape(-1))
    v = lift(v)
    lo, hi = 0, len(arr)
    while lo < hi:
        mid = (lo + hi) // 2
        go = bool(arr[mid] < v) if side == "left" else bool(arr[mid] <= v)
        if go:
            lo = mid + 1
        else:
            hi = mid
    return lo


MOD.searchsorted = searchsorted


def interp(x, xp, fp, left=None, right=None, **k):
    if isarr(x):
        return _map(lambda v: interp(v, xp, fp, left, right), x)
    x = lift(x)
    xp, fp = list(sym(xp).reshape(-1)), list(sym(fp).reshape(-1))
    if x < xp[0]:
        return fp[0] if left is None else lift(left)
    if x > xp[-1]:
        return fp[-1] if right is None else lift(right)
    if x == xp[-1]:
        return fp[-1]
    i = searchsorted(xp, x, "right") - 1
    i = min(max(i, 0), len(xp) - 2)
    return fp[i] + (fp[i + 1] - fp[i]) * (x - xp[i]) / (xp[i + 1] - xp[i])


MOD.interp = interp


def unique(a, **k):
    if k:
        raise Unsupported("unique options")
    v = list(sym(a).reshape(-1))
    out = []
    for x in v:
        lo = 0
        dup = False
        for i, y in enumerate(out):
            if x == y:
                dup = True
                break
            if x > y:
                lo = i + 1
        if not dup:
            out.insert(lo, x)
    return sym(out)


MOD.unique = unique


def sort(a, axis=-1, **k):
    a = sym(a)
    if a.ndim != 1:
        raise Unsupported("sort nd")
    import functools
    return sym(sorted(a, key=functools.cmp_to_key(lambda x, y: -1 if x < y else (1 if x > y else 0))))


MOD.sort = sort

LA = types.ModuleType("numpy.linalg")
LA.__dict__["__getattr__"] = lambda n: getattr(np.linalg, n)
LA.LinAlgError = np.linalg.LinAlgError


def norm(x, ord=None, axis=None, keepdims=False):
    a = sym(x, copy=False)
    if ord not in (None, 2):
        raise Unsupported("norm order")
    if axis is None:
        if ord == 2 and a.ndim > 1:
            raise Unsupported("matrix 2-norm")
        f = a.reshape(-1)
        return T.sqrt(sum((lift(v) * lift(v) for v in f), T.ZERO))
    sq = _sum(a * a, axis=axis, keepdims=keepdims)
    return MOD.sqrt(sq)


def inv(a):
    a = sym(a)
    n = a.shape[0]
    return solve(a, eye(n))


def det(a):
    a = sym(a)
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    r = T.ZERO
    for j in range(n):
        m = np.delete(np.delete(a, 0, 0), j, 1)
        r = r + (1 if j % 2 == 0 else -1) * a[0, j] * det(m)
    return r


def solve(a, b):
    a, b = sym(a), sym(b)
    n = a.shape[0]
    d = det(a)
    b2 = b.reshape(n, -1)
    out = np.empty(b2.shape, dtype=object)
    for k in range(b2.shape[1]):
        for j in range(n):
            m = a.copy()
            m[:, j] = b2[:, k]
            out[j, k] = det(m) / d
    return out.reshape(b.shape).view(SymArray)


LA.norm, LA.inv, LA.det, LA.solve = norm, inv, det, solve
MOD.linalg = LA
