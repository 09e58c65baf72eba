"""scipy over exact symbolic reals: Rotation (matrix algebra), comb, and *contracts* for
root / minimize (success => residual zero; minimize: no promise)."""
from __future__ import annotations
import math
import types
import numpy as np
from . import terms as T
from .terms import S, B, lift, Unsupported
from . import shim_numpy as sn
from .shim_numpy import SymArray, sym, isarr

MOD = types.ModuleType("scipy")
MOD.optimize = types.ModuleType("scipy.optimize")
MOD.spatial = types.ModuleType("scipy.spatial")
MOD.spatial.transform = types.ModuleType("scipy.spatial.transform")
MOD.special = types.ModuleType("scipy.special")

EUL: dict = {}  # token -> (matrix, canonical axes)


def axis_rot(ax, a):
    c, s = T.cos(lift(a)), T.sin(lift(a))
    o, z = T.ONE, T.ZERO
    m = {
        "x": [[o, z, z], [z, c, -s], [z, s, c]],
        "y": [[c, z, s], [z, o, z], [-s, z, c]],
        "z": [[c, -s, z], [s, c, z], [z, z, o]],
    }[ax]
    return sym(m)


def canon(seq, angles):
    """[(axis, angle)] right-most factor first"""
    if seq.islower():
        l = list(zip(seq, angles))
    elif seq.isupper():
        l = list(zip(seq.lower(), angles))[::-1]
    else:
        raise Unsupported("mixed euler sequence")
    return l


def link(lst):
    """recognise (e0+d, e1, e2+d') of an earlier as_euler -> matrix or None"""
    ctx = T.get_ctx()
    if ctx is None or len(lst) != 3:
        return None
    def euls(r):
        out = set()
        for part in [r.n] + [ctx.nf.polys[k] for k in r.d]:
            for m in part:
                for v, _ in m:
                    at = ctx.nf.atoms[v]
                    if at.kind == "U" and at.data[0].startswith("eul:"):
                        out.add(at.data[0])
        return out

    tok = None
    ds = []
    for i, (ax, a) in enumerate(lst):
        if not isinstance(a, S) or a.is_const:
            return None
        hits = euls(ctx.nf.norm(a))
        if len(hits) != 1:
            return None
        _, t, k = hits.pop().split(":")
        if int(k) != i or (tok is not None and tok != t):
            return None
        tok = t
        d = a - T.ufn(f"eul:{t}:{k}")
        if euls(ctx.nf.norm(d)):
            return None
        ds.append(d)
    M, axes = EUL[tok]
    if [ax for ax, _ in lst] != axes:
        return None
    if not ctx.nf.norm(ds[1]).zero:
        return None
    R = M
    if not (isinstance(ds[0], S) and ctx.nf.norm(ds[0]).zero):
        R = R @ axis_rot(axes[0], ds[0])
    if not ctx.nf.norm(ds[2]).zero:
        R = axis_rot(axes[2], ds[2]) @ R
    return R


def euler_matrix(seq, angles):
    l = canon(seq, angles)
    R = link(l)
    if R is not None:
        return R
    M = None
    for ax, a in l:
        r = axis_rot(ax, a)
        M = r if M is None else r @ M
    return M


def skew(k):
    z = T.ZERO
    return sym([[z, -k[2], k[1]], [k[2], z, -k[0]], [-k[1], k[0], z]])


def rodrigues(v):
    ctx = T.get_ctx()
    v = [lift(x) for x in v]
    sq = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    I = sn.eye(3)
    g = None
    if ctx is not None:
        r = ctx.nf.norm(sq)
        if r.zero:
            return I
        c = ctx.nf.rconst_value(r)
        if c is not None:
            g = T.sqrt(T.const(c))
        else:
            for h in ctx.hints_nonneg:
                hr = ctx.nf.norm(h)
                if ctx.nf.rsub(r, ctx.nf.rmul(hr, hr)).zero:
                    g = h
                    break
            if g is None:
                g = ctx.square_root(r)
        if g is not None:
            ks = []
            ok = True
            for x in v:
                k = ctx.nf.rmul(ctx.nf.norm(x), ctx.nf.rinv(ctx.nf.norm(g)))
                for f in k.d:
                    if ctx.nf.sign_poly(ctx.nf.polys[f]) is None:
                        ok = False
                ks.append(ctx.nf.rat_S(k))
            if ok:
                K = skew(ks)
                return I + T.sin(g) * K + (1 - T.cos(g)) * (K @ K)
    if g is None:
        g = T.sqrt(sq)
    if g == 0:
        return I
    K = skew([x / g for x in v])
    return I + T.sin(g) * K + (1 - T.cos(g)) * (K @ K)


class Rotation:
    def __init__(self, m, single=True):
        self.m = m  # 3x3 or nx3x3
        self.single = single

    @staticmethod
    def from_euler(seq, angles, degrees=False):
        k = (T.PI / 180) if degrees else T.ONE
        if not isarr(angles):
            if len(seq) != 1:
                raise ValueError("expected angles for each axis")
            return Rotation(euler_matrix(seq, [lift(angles) * k]))
        a = sym(angles)
        if len(seq) == 1:
            if a.ndim == 1:
                if a.shape[0] != 1:
                    raise ValueError("Expected last dimension of `angles` to match number of sequence axes specified")
                return Rotation(euler_matrix(seq, [a[0] * k]))
            if a.ndim == 2 and a.shape[1] == 1:
                return Rotation(_stk([euler_matrix(seq, [x[0] * k]) for x in a]), False)
            if a.ndim == 0:
                return Rotation(euler_matrix(seq, [a.item() * k]))
            raise Unsupported("euler shape")
        if a.ndim == 1:
            if a.shape[0] != len(seq):
                raise ValueError("euler angle count")
            return Rotation(euler_matrix(seq, [x * k for x in a]))
        return Rotation(_stk([euler_matrix(seq, [x * k for x in r]) for r in a]), False)

    @staticmethod
    def from_rotvec(v, degrees=False):
        a = sym(v)
        if degrees:
            a = a * T.PI / 180
        if a.ndim == 1:
            return Rotation(rodrigues(a))
        return Rotation(_stk([rodrigues(x) for x in a]), False)

    @staticmethod
    def from_matrix(m, **k):
        a = sym(m)
        ctx = T.get_ctx()
        if ctx is not None:
            ctx.ex.assumptions.add("scipy Rotation.from_matrix is given an orthonormal matrix of determinant +1")
        return Rotation(a, a.ndim == 2)

    @staticmethod
    def from_quat(q, **k):
        x, y, z, w = [lift(t) for t in q]
        n = x * x + y * y + z * z + w * w
        s = 2 / n
        return Rotation(sym([
            [1 - s * (y * y + z * z), s * (x * y - z * w), s * (x * z + y * w)],
            [s * (x * y + z * w), 1 - s * (x * x + z * z), s * (y * z - x * w)],
            [s * (x * z - y * w), s * (y * z + x * w), 1 - s * (x * x + y * y)],
        ]))

    @staticmethod
    def identity(num=None):
        return Rotation(sn.eye(3))

    @staticmethod
    def concatenate(rs):
        return Rotation(_stk([r.m for r in rs]), False)

    def as_matrix(self):
        return self.m.copy()

    def as_euler(self, seq, degrees=False):
        if not self.single or len(seq) != 3:
            raise Unsupported("as_euler stack")
        ctx = T.get_ctx()
        k = (180 / T.PI) if degrees else T.ONE
        I = sn.eye(3)
        if ctx is not None and all(ctx.nf.norm(x - y).zero for x, y in zip(I.ravel(), self.m.ravel())):
            return sym([0, 0, 0])
        # same matrix -> same angles
        tok = None
        key = [a for a, _ in canon(seq, [0, 1, 2])]
        idx = [i for _, i in canon(seq, [0, 1, 2])]
        if ctx is None:
            raise Unsupported("as_euler outside context")
        for t, (M, axes) in EUL.items():
            if axes == key and t in ctx.eultok and all(
                ctx.nf.norm(x - y).zero for x, y in zip(M.ravel(), self.m.ravel())
            ):
                tok = t
        if tok is None:
            tok = f"{len(ctx.eultok)}"
            ctx.eultok.add(tok)
            EUL[tok] = (self.m.copy(), key)
            ctx.ex.assumptions.add(
                "scipy Rotation.as_euler returns angles that from_euler (same sequence) maps back to the same matrix"
            )
        # canonical position j carries angle number idx[j]
        out = [None] * 3
        for j, i in enumerate(idx):
            out[i] = T.ufn(f"eul:{tok}:{j}")
        return sym([o * k for o in out])

    def as_rotvec(self, degrees=False):
        raise Unsupported("as_rotvec")

    def as_quat(self, **k):
        raise Unsupported("as_quat")

    def magnitude(self):
        raise Unsupported("magnitude")

    def inv(self):
        return Rotation(self.m.T.copy() if self.single else sn.wrap(np.swapaxes(self.m, 1, 2)), self.single)

    def apply(self, v, inverse=False):
        m = self.m
        if inverse:
            m = self.inv().m
        a = sym(v)
        if a.shape[-1] != 3:
            raise ValueError("Expected input of shape (3,) or (P, 3)")
        if self.single:
            return sn.wrap(a @ m.T)
        if a.ndim == 1:
            return sn.wrap(np.stack([m[i] @ a for i in range(m.shape[0])]))
        if m.shape[0] == 1:
            return sn.wrap(a @ m[0].T)
        if a.shape[0] == 1:
            return sn.wrap(np.stack([m[i] @ a[0] for i in range(m.shape[0])]))
        if a.shape[0] != m.shape[0]:
            raise ValueError("number of rotations does not match vectors")
        return sn.wrap(np.stack([m[i] @ a[i] for i in range(m.shape[0])]))

    def __mul__(self, o):
        if not isinstance(o, Rotation):
            return NotImplemented
        if self.single and o.single:
            return Rotation(self.m @ o.m)
        n = (o.m if self.single else self.m).shape[0]
        A = [self.m] * n if self.single else list(self.m)
        Bm = [o.m] * n if o.single else list(o.m)
        return Rotation(_stk([a @ b for a, b in zip(A, Bm)]), False)

    def __len__(self):
        if self.single:
            raise TypeError("Single rotation has no len().")
        return self.m.shape[0]

    def __getitem__(self, i):
        r = self.m[i]
        return Rotation(sn.wrap(r), r.ndim == 2)

    def __pow__(self, n):
        if n == 0:
            return Rotation(sn.eye(3))
        r = self if n > 0 else self.inv()
        out = r
        for _ in range(abs(n) - 1):
            out = out * r
        return out


def _stk(ms):
    return sn.wrap(np.stack(ms))


MOD.spatial.transform.Rotation = Rotation


class OptimizeResult(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)

    def __setattr__(self, k, v):
        self[k] = v


def root(fun, x0, args=(), method="hybr", jac=None, tol=None, **kw):
    ctx = T.get_ctx()
    if ctx is None:
        raise Unsupported("root outside a context")
    x0 = sym(x0)
    shp = x0.shape
    n = x0.size
    base = ctx.fresh("root")
    xs = [ctx.new_var(f"{base}_{i}") for i in range(n)]
    x = sym(xs) if n > 1 or shp else sym(xs)
    if not shp:
        x = x.reshape(1)
    ok = T.bvar(base + "_ok")
    ctx.ex.assumptions.add("scipy.optimize.root: success implies the residual is exactly zero (solver tolerance read as equality); nothing is assumed on failure")
    res = OptimizeResult(x=x, success=ok, message="", fun=None, status=0, nfev=0)
    conv = getattr(ctx, "solver_ok", None)
    if conv is not None:
        ctx.ex.assumptions.add("scipy.optimize.root converges for the inputs of this harness" + (f", on the branch {conv[2]}" if conv[2] else ""))
        for v in xs:
            if conv[0] is not None:
                ctx.assume(T.cmp("lt", lift(conv[0]), v))
            if conv[1] is not None:
                ctx.assume(T.cmp("lt", v, lift(conv[1])))
    if conv is not None or ctx.decide(ok):
        f = sym(fun(x, *args) if not isinstance(args, tuple) or args else fun(x))
        for v in np.ravel(f):
            b = T.cmp("eq", lift(v), T.ZERO)
            ctx.assume(b)
        res["success"] = True
        res["fun"] = f * 0
    else:
        res["success"] = False
        res["fun"] = sym([ctx.new_var(f"{base}_f{i}") for i in range(n)])
    return res


def minimize(fun, x0, *a, **k):
    ctx = T.get_ctx()
    x0 = sym(x0)
    n = x0.size
    base = ctx.fresh("min")
    xs = [ctx.new_var(f"{base}_{i}") for i in range(n)]
    ok = T.bvar(base + "_ok")
    ctx.ex.assumptions.add("scipy.optimize.minimize: no promise about the minimiser (any value)")
    return OptimizeResult(x=sym(xs), success=ctx.decide(ok), fun=ctx.new_var(base + "_f", lo=None), message="", nit=0, nfev=0, status=0)


def _scalar_root(fun, *a, args=(), **k):
    return root(lambda x: fun(x[0], *args), [0]).x[0]


def _root_scalar(fun, *a, args=(), **k):
    r = root(lambda x: fun(x[0], *args), [0])
    return OptimizeResult(root=r.x[0], converged=r.success)


MOD.optimize.brentq = MOD.optimize.brenth = MOD.optimize.bisect = MOD.optimize.newton = _scalar_root
MOD.optimize.root_scalar = _root_scalar
MOD.optimize.fsolve = lambda fun, x0, args=(), **k: root(fun, x0, args).x
MOD.optimize.root = root
MOD.optimize.minimize = minimize
MOD.optimize.OptimizeResult = OptimizeResult


def comb(n, k, exact=False, **kw):
    if isarr(k) or isarr(n):
        N, K = np.broadcast_arrays(np.array(n, dtype=object), np.array(k, dtype=object))
        out = np.empty(N.shape, dtype=object)
        for i in np.ndindex(N.shape):
            out[i] = comb(N[i], K[i])
        return out.view(SymArray)
    n = n.__index__()
    k = k.__index__()
    return T.const(math.comb(n, k)) if 0 <= k <= n else T.ZERO


MOD.special.comb = comb
