"""What a specification file sees.  The same harness text is executed
  * symbolically (QSym): every input is a universally quantified real, every
    `ensure` is a proof obligation over all paths;
  * concretely (QNum): on sampled inputs against the real code with the real
    numpy / scipy / build123d (counterexample replay, bounded stand-in)."""
from __future__ import annotations

REGISTRY: list = []


class Ob:
    def __init__(self, name, fn, funcs, seconds, samples, tier, paths, kw):
        self.name, self.fn, self.funcs = name, fn, funcs
        self.seconds, self.samples, self.tier, self.paths = seconds, samples, tier, paths
        self.kw = kw


def ob(name, funcs=(), seconds=40, samples=60, tier="quick", paths=300, **kw):
    """declare a proof harness. funcs: functions of /repo whose contract this states.
    kw: sym=False -> outside the verifier's reach, bounded concrete check only;
        num=False -> no concrete run"""

    def deco(f):
        REGISTRY.append(Ob(name, f, list(funcs), seconds, samples, tier, paths, kw))
        return f

    return deco


class Reject(Exception):
    """sampled input outside the precondition"""
