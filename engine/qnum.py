from __future__ import annotations
import math
import numpy as np
from . import sampling as sp
from .api import Reject


class Failure(Exception):
    pass


class QNum:
    symbolic = False
    anysym = False

    def __init__(self, seed, obname, idx, given=None):
        self.seed, self.obname, self.idx = seed, obname, idx
        self.given = given or {}
        self.used = {}
        self.np = np
        self.pi = math.pi
        self._undo = []
        self.checks = 0
        self.fails = []
        self.worst = 0.0

    def _draw(self, name, f):
        if name in self.given:
            v = self.given[name]
        else:
            v = f(sp.rng(self.seed, self.obname, "num", name, self.idx))
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_in=False, hi_in=False, scale=1.0, special=(), nosubst=False):
        return float(self._draw(name, lambda r: sp.real(r, lo, hi, lo_in, hi_in, scale, special)))

    def pos(self, name, scale=1.0):
        return self.real(name, lo=0, scale=scale)

    def nonneg(self, name, scale=1.0):
        return self.real(name, lo=0, lo_in=True, scale=scale)

    def angle(self, name, lo=None, hi=None, **k):
        return self.real(name, lo=-self.pi if lo is None else lo, hi=self.pi if hi is None else hi, **k)

    def int(self, name, lo, hi=None):
        return int(round(self._draw(name, lambda r: r.randint(lo, hi if hi is not None else lo + 60))))

    def choice(self, name, options):
        k = self._draw(name, lambda r: r.randrange(len(options)))
        return options[int(k) % len(options)]

    def bool(self, name):
        return self.choice(name, [True, False])

    def vec3(self, name, scale=1.0):
        return np.array([self.real(f"{name}.{i}", scale=scale) for i in range(3)])

    def vec(self, name, n, scale=1.0):
        return np.array([self.real(f"{name}.{i}", scale=scale) for i in range(n)])

    def unit3(self, name):
        v = sp.unit(sp.rng(self.seed, self.obname, "num", name, self.idx))
        v = np.array([self._draw(f"{name}.{i}", lambda r, i=i: v[i]) for i in range(3)], dtype=float)
        return v / np.linalg.norm(v)

    def quat(self, name):
        v = sp.quat(sp.rng(self.seed, self.obname, "num", name, self.idx))
        v = np.array([self._draw(f"{name}.{i}", lambda r, i=i: v[i]) for i in range(4)], dtype=float)
        return v / np.linalg.norm(v)

    def rot(self, name):
        from .qnum_util import quat_matrix
        return quat_matrix(self.quat(name))

    def fn(self, name, arity=1):
        r = sp.rng(self.seed, self.obname, name)
        cs = [(r.uniform(-1, 1), r.uniform(0.3, 2), r.uniform(0, 6)) for _ in range(arity)]

        def num(*a):
            t = 0.0
            for x, (k, w, p) in zip(a, cs):
                t = t + k * np.sin(w * x + p) + 0.3 * k * x
            return t

        return num

    def fn3(self, name, arity=1):
        fs = [self.fn(f"{name}.{i}", arity) for i in range(3)]
        return lambda *a: np.array([f(*a) for f in fs])

    def assume(self, b):
        if not np.all(b):
            raise Reject()

    def pick(self, b):
        return bool(b)

    def fail(self, name, msg):
        self.fails.append((name, msg))

    def ensure_eq(self, name, a, b, tol=None, scale=None):
        self.checks += 1
        tol = 1e-7 if tol is None else tol
        try:
            if a is None or b is None:
                if a is not b:
                    self.fail(name, f"{a!r} != {b!r}")
                return
            A, B = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            if not (a == b):
                self.fail(name, f"{a!r} != {b!r}")
            return
        try:
            A, B = np.broadcast_arrays(A, B)
        except ValueError:
            self.fail(name, f"shapes {A.shape} {B.shape}")
            return
        if A.size == 0:
            return
        s = (1 + max(np.max(np.abs(A)), np.max(np.abs(B)))) if scale is None else scale
        d = np.max(np.abs(A - B))
        if not d <= tol * s:
            self.fail(name, f"{A.tolist()} != {B.tolist()} (diff {d:.3e})")

    def ensure(self, name, b, tol=None):
        self.checks += 1
        if not np.all(b):
            self.fail(name, "condition is false")

    def le(self, a, b, tol=None):
        t = 1e-7 if tol is None else tol
        return np.all(np.asarray(a) <= np.asarray(b) + t * (1 + np.abs(a) + np.abs(b)))

    lt = le

    def eq(self, a, b, tol=None):
        t = 1e-7 if tol is None else tol
        return abs(a - b) <= t * (1 + abs(a) + abs(b))

    def ensure_int(self, name, x, tol=None):
        self.checks += 1
        t = 1e-6 if tol is None else tol
        if not abs(x - round(x)) <= t:
            self.fail(name, f"{x} is not an integer")

    def ensure_angle_eq(self, name, a, b, tol=None):
        self.checks += 1
        t = 1e-6 if tol is None else tol
        d = a - b
        d = abs((d + math.pi) % (2 * math.pi) - math.pi)
        if not d <= t * (1 + abs(a) * 1e-3):
            self.fail(name, f"{a} != {b} mod 2pi")

    def implies(self, a, b):
        return (not a) or b

    def nonneg_hint(self, g):
        pass

    def angle_hint(self, phi):
        pass

    def lemma(self, b):
        pass

    def axiom(self, text, b):
        pass

    def solver_ok(self, lo=None, hi=None, text=""):
        pass

    def stub(self, obj, name, fn):
        return False

    def stand(self, obj, name, fn, must=False):
        """the callee's contract in its place in concrete runs too; must: a run that never
        asks it says nothing about the code (rejected, not failed)"""
        if not hasattr(obj, name):
            if must:
                raise Reject()
            return False
        rec = [False, must, obj, name, obj.__dict__.get(name)]

        def wrap(f):
            def g(*a, **k):
                rec[0] = True
                return f(*a, **k)
            return g

        self._undo.append(rec)
        setattr(obj, name, classmethod(wrap(fn.__func__)) if isinstance(fn, classmethod) else wrap(fn))
        return True

    def unused(self):
        return any(must and not used for used, must, *_ in self._undo)

    def undo(self):
        for used, must, o, n, v in reversed(self._undo):
            if v is None:
                delattr(o, n)
            else:
                setattr(o, n, v)

    def unknown(self, why=""):
        raise Reject()

    def partial(self, cls):
        """an object of the class with only the state the harness gives it"""
        g = cls.__new__(cls)
        try:
            g.__harness_partial__ = True
        except AttributeError:
            pass
        return g

    def approx(self, x):
        return np.ravel(np.array(x, dtype=float))

    def holds(self, b):
        return bool(b)

    def rotz(self, a):
        return self.axrot("z", a)

    def axrot(self, ax, a):
        from .qnum_util import axis_rot
        return axis_rot(ax, a)

    def arr(self, x):
        return np.array(x, dtype=float)

    def val(self, x):
        return float(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def num(self, x):
        from fractions import Fraction
        return float(Fraction(x)) if isinstance(x, str) else float(x)
