from __future__ import annotations
from fractions import Fraction
import math
import numpy as np
from . import terms as T
from . import sampling as sp
from .terms import S, B, lift
from . import shim_numpy as sn
from .shim_numpy import sym, isarr


def frac(x):
    return None if x is None else Fraction(x) if not isinstance(x, float) else Fraction(repr(x))


def _num(x):
    """numeric value of a bound that may mention PI"""
    if x is None:
        return None
    if isinstance(x, S):
        return float(T.evalf(x, {}))
    return float(x)


class QSym:
    symbolic = True

    def __init__(self, ctx, seed, obname):
        self.ctx = ctx
        self.seed = seed
        self.obname = obname
        self.np = sn.MOD
        self.pi = T.PI
        self._undo = []
        self.anysym = True

    # ------------------------------------------------------------ inputs
    def real(self, name, lo=None, hi=None, lo_in=False, hi_in=False, scale=1.0, special=(), nosubst=False):
        l, h = _num(lo), _num(hi)

        def samp(i):
            v = sp.real(sp.rng(self.seed, self.obname, name, i), l, h, lo_in, hi_in, scale, special)
            return v

        sl = lo if not isinstance(lo, S) or lo.is_const else None
        sh = hi if not isinstance(hi, S) or hi.is_const else None
        v = self.ctx.new_var(name, "real", frac(sl.value if isinstance(sl, S) else sl), frac(sh.value if isinstance(sh, S) else sh), not lo_in, not hi_in, samp)
        if nosubst:
            T.VARINFO[name]["nosubst"] = True
        if isinstance(lo, S) and not lo.is_const:
            self.ctx.assume(T.cmp("le" if lo_in else "lt", lo, v))
        if isinstance(hi, S) and not hi.is_const:
            self.ctx.assume(T.cmp("le" if hi_in else "lt", v, hi))
        return v

    def pos(self, name, scale=1.0):
        return self.real(name, lo=0, scale=scale)

    def nonneg(self, name, scale=1.0):
        return self.real(name, lo=0, lo_in=True, scale=scale)

    def angle(self, name, lo=None, hi=None, **k):
        return self.real(name, lo=-self.pi if lo is None else lo, hi=self.pi if hi is None else hi, **k)

    def int(self, name, lo, hi=None):
        h = hi if hi is not None else lo + 60

        def samp(i):
            return sp.rng(self.seed, self.obname, name, i).randint(lo, h)

        v = self.ctx.new_var(name, "int", Fraction(lo), None if hi is None else Fraction(hi), False, False, samp)
        return v

    def choice(self, name, options):
        for o, k in zip(options[:-1], range(len(options) - 1)):
            if self.ctx.decide(T.bvar(f"{name}#{k}")):
                return o
        return options[-1]

    def bool(self, name):
        return self.choice(name, [True, False])

    def vec3(self, name, scale=1.0):
        return sym([self.real(f"{name}.{i}", scale=scale) for i in range(3)])

    def vec(self, name, n, scale=1.0):
        return sym([self.real(f"{name}.{i}", scale=scale) for i in range(n)])

    def unit3(self, name):
        def samp(k):
            return lambda i: sp.unit(sp.rng(self.seed, self.obname, name, i))[k]

        x = self.ctx.new_var(f"{name}.0", "real", -1, 1, False, False, samp(0))
        y = self.ctx.new_var(f"{name}.1", "real", -1, 1, False, False, samp(1))
        z = self.ctx.new_var(f"{name}.2", "real", -1, 1, False, False, lambda i: _fix_last([samp(0)(i), samp(1)(i)], samp(2)(i)), sqto=1 - x * x - y * y)
        T.VARINFO[f"{name}.0"]["nosubst"] = T.VARINFO[f"{name}.1"]["nosubst"] = True
        return sym([x, y, z])

    def quat(self, name):
        def samp(k):
            return lambda i: sp.quat(sp.rng(self.seed, self.obname, name, i))[k]

        q = [self.ctx.new_var(f"{name}.{k}", "real", -1, 1, False, False, samp(k)) for k in range(3)]
        for k in range(3):
            T.VARINFO[f"{name}.{k}"]["nosubst"] = True
        w = self.ctx.new_var(f"{name}.3", "real", -1, 1, False, False, lambda i: _fix_last([samp(k)(i) for k in range(3)], samp(3)(i)), sqto=1 - q[0] * q[0] - q[1] * q[1] - q[2] * q[2])
        return q + [w]

    def rot(self, name):
        return quat_matrix(self.quat(name), sym)

    def fn(self, name, arity=1):
        """an arbitrary real function"""
        key = f"fn:{name}"
        r = sp.rng(self.seed, self.obname, name)
        cs = [(r.uniform(-1, 1), r.uniform(0.3, 2), r.uniform(0, 6)) for _ in range(arity)]
        import mpmath as mp

        def num(*a):
            t = mp.mpf(0)
            for x, (k, w, p) in zip(a, cs):
                t += k * mp.sin(w * x + p) + mp.mpf("0.3") * k * x
            return t

        self.ctx.ufs[key] = num
        return lambda *a: T.ufn(key, *[lift(x) for x in a])

    def fn3(self, name, arity=1):
        fs = [self.fn(f"{name}.{i}", arity) for i in range(3)]
        return lambda *a: sym([f(*a) for f in fs])

    # ------------------------------------------------------------ pre / post
    def assume(self, b):
        if isinstance(b, np.ndarray):
            for x in b.ravel():
                self.assume(bool(x))
            return
        self.ctx.assume(b)

    def pick(self, b):
        """case split"""
        return bool(b)

    def ensure_eq(self, name, a, b, tol=None, scale=None):
        if isarr(a) or isarr(b):
            A, Bb = sym(a), sym(b)
            if A.shape != Bb.shape:
                try:
                    A, Bb = np.broadcast_arrays(A, Bb)
                except ValueError:
                    self.ctx.oblige(name, False)
                    return
            for idx in np.ndindex(A.shape):
                self.ctx.oblige(f"{name}[{','.join(map(str, idx))}]" if idx else name, _beq(A[idx], Bb[idx]))
            return
        self.ctx.oblige(name, _beq(a, b))

    def ensure(self, name, b, tol=None):
        if isinstance(b, np.ndarray):
            for x in b.ravel():
                self.ctx.oblige(name, x if isinstance(x, B) else bool(x))
            return
        self.ctx.oblige(name, b if isinstance(b, B) else bool(b))

    def le(self, a, b, tol=None):
        return T.cmp("le", lift(a), lift(b))

    def lt(self, a, b, tol=None):
        return T.cmp("lt", lift(a), lift(b))

    def eq(self, a, b, tol=None):
        return T.cmp("eq", lift(a), lift(b))

    def ensure_int(self, name, x, tol=None):
        self.ctx.oblige_int(name, lift(x))

    def ensure_angle_eq(self, name, a, b, tol=None):
        """equal modulo 2*pi"""
        d = lift(a) - lift(b)
        self.ensure_eq(name + ".cos", T.cos(d), T.ONE)
        self.ensure_eq(name + ".sin", T.sin(d), T.ZERO)

    def implies(self, a, b):
        return T.implies(a, b)

    # ------------------------------------------------------------ proof hints (checked, never assumed)
    def nonneg_hint(self, g):
        g = lift(g)
        if self.ctx.prove(T.cmp("le", T.ZERO, g), self.ctx.ex.goal_ms):
            self.ctx.hints_nonneg.append(g)

    def angle_hint(self, phi):
        self.ctx.hints_angle.append(lift(phi))

    def lemma(self, b):
        """prove b now and make it available to later queries"""
        if isinstance(b, bool):
            return
        if self.ctx.prove(b, self.ctx.ex.goal_ms):
            self.ctx.lemmas.append(b)

    def axiom(self, text, b):
        """a mathematical fact used without machine proof (listed in the evidence)"""
        self.ctx.ex.assumptions.add("axiom: " + text)
        if not isinstance(b, bool):
            self.ctx.lemmas.append(b)

    # ------------------------------------------------------------ contracts in place of callees
    def stub(self, obj, name, fn):
        """replace callee obj.name by its contract for this harness (if it still exists)"""
        if not hasattr(obj, name):
            return False
        self._undo.append((obj, name, obj.__dict__.get(name, None) if not isinstance(obj, type) else obj.__dict__.get(name)))
        setattr(obj, name, fn)
        self.ctx.ex.stubs.add(f"{getattr(obj, '__name__', obj)}.{name}")
        return True

    def stand(self, obj, name, fn, must=False):
        return self.stub(obj, name, fn)

    def unknown(self, why=""):
        raise T.Unsupported("outside the harness: " + why)

    def holds(self, b):
        """b is certain on this path"""
        return self.ctx.prove(b)

    def partial(self, cls):
        """an object of the class with only the state the harness gives it"""
        g = cls.__new__(cls)
        try:
            g.__harness_partial__ = True
        except AttributeError:
            pass
        return g

    def approx(self, x):
        """numeric value at one admissible sample (to pair things up; proves nothing)"""
        for i in list(self.ctx.alive) or range(len(self.ctx.envs)):
                return np.array([float(T.evalf(lift(v), self.ctx.envs[i])) for v in np.ravel(np.array(x, dtype=object))])
        raise T.Unsupported("no sample")

    def undo(self):
        for o, n, v in reversed(self._undo):
            if v is None:
                try:
                    delattr(o, n)
                except AttributeError:
                    pass
            else:
                setattr(o, n, v)
        self._undo = []

    def solver_ok(self, lo=None, hi=None, text=""):
        """root() converges in this harness (within the given branch)"""
        self.ctx.solver_ok = (lo, hi, text)

    def fresh(self, name):
        return self.ctx.new_var(self.ctx.fresh(name))

    def rotz(self, a):
        from .shim_scipy import axis_rot
        return axis_rot("z", a)

    def axrot(self, ax, a):
        from .shim_scipy import axis_rot
        return axis_rot(ax, a)

    def arr(self, x):
        return sym(x)

    def val(self, x):
        return lift(x)

    def sqrt(self, x):
        return T.sqrt(lift(x))

    def num(self, x):
        """exact constant"""
        return T.const(Fraction(x) if not isinstance(x, float) else Fraction(repr(x)))


def _beq(a, b):
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    if a is None or b is None:
        return a is b
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return a == b
    return T.cmp("eq", la, lb)


def _fix_last(xs, last):
    import mpmath as mp
    r = mp.mpf(1) - sum(mp.mpf(x) ** 2 for x in xs)
    r = mp.sqrt(r) if r > 0 else mp.mpf(0)
    return r if last >= 0 else -r


def quat_matrix(q, arr):
    x, y, z, w = q
    return arr([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
    ])
