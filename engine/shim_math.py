import types
import math as _m
from . import terms as T
from .terms import S, lift

MOD = types.ModuleType("math")
MOD.__dict__.update({k: v for k, v in vars(_m).items() if not k.startswith("__")})
MOD.pi = T.PI
MOD.tau = T.PI * 2
MOD.cos = lambda x: T.cos(lift(x))
MOD.sin = lambda x: T.sin(lift(x))
MOD.tan = lambda x: T.tan(lift(x))
MOD.sqrt = lambda x: T.sqrt(lift(x))
MOD.atan2 = lambda y, x: T.atan2(lift(y), lift(x))
MOD.atan = lambda x: T.atan2(lift(x), T.ONE)
MOD.acos = lambda x: T.acos(lift(x))
MOD.asin = lambda x: T.asin(lift(x))
MOD.hypot = lambda *a: T.sqrt(sum((lift(x) * lift(x) for x in a), T.ZERO))
MOD.fabs = lambda x: T.absval(lift(x))
MOD.radians = lambda x: lift(x) * T.PI / 180
MOD.degrees = lambda x: lift(x) * 180 / T.PI


def _floor(x):
    x = T.floor(lift(x))
    return int(x.value) if x.is_const else x


def _ceil(x):
    x = -T.floor(-lift(x))
    return int(x.value) if x.is_const else x


MOD.floor = _floor
MOD.ceil = _ceil
MOD.copysign = lambda a, b: T.absval(lift(a)) * (1 if lift(b) >= 0 else -1)
MOD.fmod = None
MOD.isnan = lambda x: False if isinstance(x, S) else _m.isnan(x)
MOD.isclose = lambda a, b, **k: abs(lift(a) - lift(b)) <= lift(k.get("abs_tol", 0))
MOD.pow = lambda a, b: lift(a) ** b
MOD.dist = lambda p, q: T.sqrt(sum(((lift(a) - lift(b)) ** 2 for a, b in zip(p, q)), T.ZERO))
