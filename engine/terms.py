"""Symbolic real terms (S), symbolic booleans (B) and the execution context.

The verifier runs the *real* code objects of /repo under CPython with these
objects in place of floats.  S is a hash-consed expression DAG over the reals.
"""
from __future__ import annotations
import math
from fractions import Fraction


class Unsupported(Exception):
    """The engine cannot interpret something the code does (never a verdict)."""


class PathAbort(Exception):
    """This path is infeasible / excluded by a precondition."""


class Budget(Exception):
    """Path, time or size budget exhausted."""


_TABLE: dict = {}
_NEXT = [0]


def _num(x):
    """python number -> exact rational (floats are read as their decimal literal)"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported("nan/inf constant")
        return Fraction(repr(x))
    t = type(x).__module__
    if t == "numpy":
        import numpy as np
        if isinstance(x, np.bool_):
            return Fraction(int(x))
        if isinstance(x, np.integer):
            return Fraction(int(x))
        if isinstance(x, np.floating):
            return _num(float(x))
    raise TypeError(f"not a number: {type(x)}")


def is_num(x):
    if isinstance(x, (int, float, Fraction)):
        return True
    if type(x).__module__ == "numpy":
        import numpy as np
        return isinstance(x, (np.integer, np.floating, np.bool_))
    return False


class S:
    __slots__ = ("op", "args", "id")
    # numpy scalars/arrays look at these
    ndim = 0
    shape = ()
    size = 1

    def __new__(cls, op, args):
        key = (op,) + tuple((a.id if isinstance(a, S) else ("k", a)) for a in args)
        got = _TABLE.get(key)
        if got is not None:
            return got
        self = object.__new__(cls)
        self.op = op
        self.args = args
        self.id = _NEXT[0]
        _NEXT[0] += 1
        _TABLE[key] = self
        return self

    # -- identity / copying
    def __hash__(self):
        return self.id * 2654435761 % (1 << 61)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    # -- constants
    @property
    def is_const(self):
        return self.op == "const"

    @property
    def value(self):
        return self.args[0]

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        return add(self, o) if o is not None else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        return add(self, neg(o)) if o is not None else NotImplemented

    def __rsub__(self, o):
        o = lift(o)
        return add(o, neg(self)) if o is not None else NotImplemented

    def __mul__(self, o):
        o = lift(o)
        return mul(self, o) if o is not None else NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        return div(self, o) if o is not None else NotImplemented

    def __rtruediv__(self, o):
        o = lift(o)
        return div(o, self) if o is not None else NotImplemented

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absval(self)

    def __pow__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return power(o, self)

    def __mod__(self, o):
        o = lift(o)
        return mod(self, o) if o is not None else NotImplemented

    def __rmod__(self, o):
        o = lift(o)
        return mod(o, self) if o is not None else NotImplemented

    def __floordiv__(self, o):
        o = lift(o)
        return floor(div(self, o)) if o is not None else NotImplemented

    def __rfloordiv__(self, o):
        o = lift(o)
        return floor(div(o, self)) if o is not None else NotImplemented

    def __divmod__(self, o):
        return self // o, self % o

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __round__(self, n=None):
        if n not in (None, 0):
            raise Unsupported("round to digits")
        return floor(self + Fraction(1, 2))

    def __trunc__(self):
        if self >= 0:
            return floor(self)
        return -floor(-self)

    def rint(self):
        return self.__round__()

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    # numpy object-ufunc protocol
    def cos(self):
        return cos(self)

    def sin(self):
        return sin(self)

    def tan(self):
        return tan(self)

    def sqrt(self):
        return sqrt(self)

    def arctan2(self, o):
        return atan2(self, lift(o))

    def arccos(self):
        return acos(self)

    def arcsin(self):
        return asin(self)

    def arctan(self):
        return atan2(self, ONE)

    def square(self):
        return self * self

    def hypot(self, o):
        return sqrt(self * self + lift(o) * lift(o))

    def radians(self):
        return self * PI / 180

    deg2rad = radians

    def degrees(self):
        return self * 180 / PI

    rad2deg = degrees

    def is_integer(self):
        if self.is_const:
            return self.value.denominator == 1
        raise Unsupported("is_integer on a symbolic value")

    def item(self):
        return self

    def astype(self, *a, **k):
        return self

    def reshape(self, *a):
        import numpy as np
        return np.array(self, dtype=object).reshape(*a)

    # -- comparisons
    def __eq__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return cmp("eq", self, o)

    def __ne__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return cmp("ne", self, o)

    def __lt__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return cmp("lt", self, o)

    def __le__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return cmp("le", self, o)

    def __gt__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return cmp("lt", o, self)

    def __ge__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return cmp("le", o, self)

    def __bool__(self):
        r = cmp("ne", self, ZERO)
        return bool(r)

    # -- conversions
    def __float__(self):
        if self.is_const:
            return float(self.value)
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const:
            return int(self.value)
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.is_const and self.value.denominator == 1:
            return int(self.value)
        v = CTX.const_of(self) if CTX is not None else None
        if v is not None and v.denominator == 1:
            return int(v)
        raise Unsupported("symbolic value used as an index")

    def __complex__(self):
        return complex(float(self))

    def __repr__(self):
        return to_str(self, 4)

    def __str__(self):
        return to_str(self, 4)

    def __format__(self, spec):
        return to_str(self, 4)


def to_str(s, depth):
    if s.op == "const":
        return str(s.value)
    if s.op == "var":
        return s.args[0]
    if depth <= 0:
        return "…"
    a = [to_str(x, depth - 1) if isinstance(x, S) else str(x) for x in s.args]
    if s.op == "add":
        return "(" + " + ".join(a) + ")"
    if s.op == "mul":
        return "(" + "*".join(a) + ")"
    if s.op == "pow":
        return f"{a[0]}^{a[1]}"
    return f"{s.op}({', '.join(a)})"


def lift(x):
    if isinstance(x, S):
        return x
    if isinstance(x, B):
        return ONE if bool(x) else ZERO
    if is_num(x):
        return const(_num(x))
    try:
        import numpy as np
        if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype == object:
            return lift(x.item())
    except Exception:
        pass
    return None


def const(q):
    return S("const", (Fraction(q),))


ZERO = const(0)
ONE = const(1)
MONE = const(-1)

VARINFO: dict = {}  # name -> dict(kind, lo, hi, ...)


def var(name, kind="real", lo=None, hi=None, lo_strict=True, hi_strict=True):
    v = S("var", (name,))
    VARINFO[name] = dict(kind=kind, lo=lo, hi=hi, ls=lo_strict, hs=hi_strict)
    return v


PI = var("PI")
VARINFO["PI"] = dict(
    kind="real",
    lo=Fraction("3.14159265358979"),
    hi=Fraction("3.14159265358980"),
    ls=True,
    hs=True,
)

_FRESH = [0]


def add(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.value + b.value)
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.id > b.id:
        a, b = b, a
    return S("add", (a, b))


def neg(a):
    if a.op == "const":
        return const(-a.value)
    return mul(MONE, a)


def mul(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.value * b.value)
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.id > b.id:
        a, b = b, a
    return S("mul", (a, b))


def div(a, b):
    if b.op == "const":
        if b.value == 0:
            if CTX is not None:
                CTX.undefined("division by zero")
            raise ZeroDivisionError("symbolic division by constant zero")
        return mul(a, const(1 / b.value))
    if CTX is not None:
        CTX.defined("ne", b)
    return mul(a, S("pow", (b, -1)))


def power(a, b):
    if b.op == "const":
        q = b.value
        if q.denominator == 1:
            n = int(q)
            if a.op == "const":
                if a.value == 0 and n < 0:
                    raise ZeroDivisionError
                return const(a.value**n)
            if n == 0:
                return ONE
            if n == 1:
                return a
            if n < 0 and CTX is not None:
                CTX.defined("ne", a)
            return S("pow", (a, n))
        if q.denominator == 2:
            r = sqrt(a)
            return power(r, const(q.numerator))
    if a.op == "const" and a.value == 1:
        return ONE
    if CTX is not None:
        v = CTX.const_of(b)
        if v is not None and not b.is_const:
            return power(a, const(v))
    raise Unsupported("general power")


def _csqrt(q):
    n, d = q.numerator, q.denominator
    if n < 0:
        return None
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def sqrt(a):
    if a.op == "const":
        if a.value < 0:
            raise Unsupported("sqrt of a negative constant")
        r = _csqrt(a.value)
        if r is not None:
            return const(r)
        return S("sqrt", (a,))
    if a.op == "pow" and a.args[1] == 2:
        return absval(a.args[0])
    if CTX is not None:
        return CTX.make_sqrt(a)
    return S("sqrt", (a,))


def cos(a):
    if a is ZERO:
        return ONE
    return S("cos", (a,))


def sin(a):
    if a is ZERO:
        return ZERO
    return S("sin", (a,))


def tan(a):
    return div(sin(a), cos(a))


def atan2(y, x):
    if CTX is not None:
        return CTX.make_atan2(y, x)
    return S("atan2", (y, x))


def acos(x):
    if CTX is not None:
        CTX.defined("ge", ONE - x * x)
    return atan2(sqrt(ONE - x * x), x)


def asin(x):
    if CTX is not None:
        CTX.defined("ge", ONE - x * x)
    return atan2(x, sqrt(ONE - x * x))


def absval(a):
    if a.op == "const":
        return const(abs(a.value))
    if bool(cmp("le", ZERO, a)):
        return a
    return neg(a)


def sign(a):
    if a.op == "const":
        return const((a.value > 0) - (a.value < 0))
    if bool(cmp("lt", ZERO, a)):
        return ONE
    if bool(cmp("lt", a, ZERO)):
        return MONE
    return ZERO


def floor(a):
    if a.op == "const":
        return const(a.value.__floor__())
    if CTX is not None:
        return CTX.make_floor(a)
    return S("floor", (a,))


def mod(a, m):
    if a.op == "const" and m.op == "const":
        return const(a.value % m.value)
    return a - m * floor(div(a, m))


def ufn(name, *args):
    """uninterpreted real function application"""
    return S("U", (name,) + tuple(args))


# ---------------------------------------------------------------- booleans
class B:
    """Symbolic boolean; truth testing forks the path."""

    __slots__ = ("op", "args")

    def __init__(self, op, args):
        self.op = op
        self.args = args

    def __bool__(self):
        if CTX is None:
            raise Unsupported("symbolic condition outside an execution context")
        return CTX.decide(self)

    def __and__(self, o):
        if isinstance(o, (bool,)) or type(o).__name__ == "bool_":
            return self if o else False
        if isinstance(o, B):
            return B("and", (self, o))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool,)) or type(o).__name__ == "bool_":
            return True if o else self
        if isinstance(o, B):
            return B("or", (self, o))
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    # arithmetic on truth values (e.g. bool*float) goes through a fork
    def _n(self):
        return ONE if bool(self) else ZERO

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __eq__(self, o):
        if isinstance(o, (bool, B)):
            return bool(self) == bool(o)
        return self._n() == o

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo):
        return self

    def logical_not(self):
        return bnot(self)

    def all(self):
        return self

    def any(self):
        return self

    def __repr__(self):
        return f"B[{self.op} {', '.join(map(repr, self.args))}]"


def bnot(b):
    if isinstance(b, bool):
        return not b
    if b.op == "not":
        return b.args[0]
    if b.op == "lt":
        return B("le", (b.args[1], b.args[0]))
    if b.op == "le":
        return B("lt", (b.args[1], b.args[0]))
    if b.op == "eq":
        return B("ne", b.args)
    if b.op == "ne":
        return B("eq", b.args)
    if b.op == "and":
        return B("or", tuple(bnot(x) for x in b.args))
    if b.op == "or":
        return B("and", tuple(bnot(x) for x in b.args))
    return B("not", (b,))


def bvar(name):
    return B("bvar", (name,))


def implies(a, b):
    if isinstance(a, bool):
        return b if a else True
    if isinstance(b, bool):
        return True if b else bnot(a)
    return B("or", (bnot(a), b))


def cmp(op, a, b):
    if a.op == "const" and b.op == "const":
        x, y = a.value, b.value
        return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y}[op]
    if a is b:
        return op in ("eq", "le")
    return B(op, (a, b))


# ---------------------------------------------------------------- numeric evaluation
import mpmath as _mp

MP = _mp.mp
MP.dps = 40


def evalf(root, env, memo=None):
    """evaluate numerically (40 digits); env: var name -> number, ('U',name) -> callable"""
    math = _mp
    if memo is None:
        memo = {}
    stack = [root]
    while stack:
        s = stack[-1]
        if s.id in memo:
            stack.pop()
            continue
        if s.op == "const":
            memo[s.id] = _mp.mpf(s.value.numerator) / s.value.denominator
            stack.pop()
            continue
        if s.op == "var":
            memo[s.id] = (+math.pi) if s.args[0] == "PI" else env[s.args[0]]
            stack.pop()
            continue
        todo = [a for a in s.args if isinstance(a, S) and a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        v = [memo[a.id] if isinstance(a, S) else a for a in s.args]
        o = s.op
        if o == "add":
            r = v[0] + v[1]
        elif o == "mul":
            r = v[0] * v[1]
        elif o == "pow":
            r = v[0] ** v[1]
        elif o == "cos":
            r = math.cos(v[0])
        elif o == "sin":
            r = math.sin(v[0])
        elif o == "sqrt":
            if v[0] < 0:
                r = math.mpf(0) if v[0] > -1e-25 else math.nan
            else:
                r = math.sqrt(v[0])
        elif o == "atan2":
            r = math.atan2(v[0], v[1])
        elif o == "floor":
            r = math.floor(v[0])
        elif o == "U":
            r = env[("U", v[0])](*v[1:])
        else:
            raise Unsupported("evalf " + o)
        memo[s.id] = r
        stack.pop()
    return memo[root.id]


def evalb(b, env, memo=None, tol=0.0):
    if memo is None:
        memo = {}
    if isinstance(b, bool):
        return b
    if b.op in ("lt", "le", "eq", "ne"):
        x = evalf(b.args[0], env, memo)
        y = evalf(b.args[1], env, memo)
        if b.op == "lt":
            return x < y
        if b.op == "le":
            return x <= y + tol
        e = abs(x - y) <= 1e-25 * (1 + abs(x) + abs(y))
        return e if b.op == "eq" else not e
    if b.op == "and":
        return all(evalb(x, env, memo, tol) for x in b.args)
    if b.op == "or":
        return any(evalb(x, env, memo, tol) for x in b.args)
    if b.op == "not":
        return not evalb(b.args[0], env, memo, tol)
    if b.op == "bvar":
        return env[b.args[0]]
    raise Unsupported("evalb " + b.op)


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def get_ctx():
    return CTX


def vars_of(root, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [root]
    while stack:
        s = stack.pop()
        if isinstance(s, B):
            stack.extend(s.args)
            continue
        if not isinstance(s, S) or s.id in seen:
            continue
        seen.add(s.id)
        if s.op == "var":
            acc.add(s.args[0])
        else:
            stack.extend(a for a in s.args if isinstance(a, (S, B)))
    return acc
