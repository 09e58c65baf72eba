"""Input samplers shared by the symbolic engine (refutation points) and the concrete runs."""
import hashlib
import math
import random


def rng(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def real(r, lo=None, hi=None, lo_in=False, hi_in=False, scale=1.0, special=()):
    u = r.random()
    if special and u < 0.15:
        return r.choice(special)
    if lo is not None and hi is not None:
        if lo_in and u < 0.18:
            return lo
        if hi_in and 0.18 <= u < 0.21:
            return hi
        w = hi - lo
        if u > 0.9:
            e = w * 10 ** r.uniform(-3, -1)
            return lo + e if r.random() < 0.5 else hi - e
        return r.uniform(lo, hi)
    if lo is not None or hi is not None:
        sgn = 1 if lo is not None else -1
        b = lo if lo is not None else hi
        if (lo_in if sgn > 0 else hi_in) and u < 0.18:
            return b
        return b + sgn * scale * math.exp(r.gauss(0, 0.8))
    if u > 0.96:
        return 0.0
    if u > 0.85:
        return r.gauss(0, 10 * scale)
    return r.gauss(0, scale)


def quat(r):
    u = r.random()
    if u < 0.12:
        q = r.choice([(1, 0, 0, 0), (0.5, 0.5, 0.5, 0.5), (math.sqrt(0.5), 0, 0, math.sqrt(0.5)),
                      (math.sqrt(0.5), math.sqrt(0.5), 0, 0), (0, 1, 0, 0)])
        return q
    while True:
        q = [r.gauss(0, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in q))
        if n > 0.1:
            return tuple(x / n for x in q)


def unit(r):
    if r.random() < 0.15:
        return r.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, 0, -1)])
    while True:
        v = [r.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in v))
        if n > 0.1:
            return tuple(x / n for x in v)
