"""z3 back end: sign / feasibility / validity queries over normal forms.

Every atom of a normal form becomes a real constant constrained by the facts that
define it (c^2+s^2=1, r>=0 & r^2=p, -pi<ang<=pi, n<=x<n+1, declared variable
bounds).  The facts are consequences of the real semantics, so unsat is a proof."""
from __future__ import annotations
from fractions import Fraction
import time
import z3
from . import terms as T
from .terms import S, B
from .normal import Rat, Normaliser

STATS = {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0}


def q2z(c):
    c = Fraction(c)
    return z3.RatVal(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)


class Smt:
    def __init__(self, nf: Normaliser):
        self.nf = nf
        self.zv: dict = {}
        self.facts: list = []
        self.done: set = set()
        self.guard_depth = 0

    def atom(self, i):
        if i in self.zv:
            return self.zv[i]
        a = self.nf.atoms[i]
        v = z3.Real(f"a{i}")
        self.zv[i] = v
        self._facts(a, v)
        return v

    def poly(self, p):
        terms = []
        for m, c in p.items():
            fs = [q2z(c)] if c != 1 or not m else []
            for v, e in m:
                z = self.atom(v)
                fs += [z] * e
            terms.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(*terms) if len(terms) > 1 else terms[0]

    def signed(self, a: Rat):
        """a polynomial with the same sign as the rational function a"""
        p = self.poly(a.n)
        for f, e in a.d.items():
            fz = self.poly(self.nf.polys[f])
            self.facts.append(fz != 0)
            if e % 2:
                p = p * fz
        return p

    def rat(self, a: Rat):
        p = self.poly(a.n)
        if not a.d:
            return p
        d = None
        for f, e in a.d.items():
            fz = self.poly(self.nf.polys[f])
            for _ in range(e):
                d = fz if d is None else d * fz
        self.facts.append(d != 0)
        return p / d

    def _facts(self, a, v):
        F = self.facts
        k = a.kind
        if k == "var":
            nm = a.s.args[0]
            vi = T.VARINFO.get(nm, {})
            if vi.get("lo") is not None:
                F.append(v > q2z(vi["lo"]) if vi["ls"] else v >= q2z(vi["lo"]))
            if vi.get("hi") is not None:
                F.append(v < q2z(vi["hi"]) if vi["hs"] else v <= q2z(vi["hi"]))
            if vi.get("sqto") is not None:
                F.append(v * v == self.rat(self.nf.norm(vi["sqto"])))
            return
        if k in ("cos", "sin"):
            other = "sin" if k == "cos" else "cos"
            for b in self.nf.atoms:
                if b.kind == other and b.data is a.data and b.id not in self.zv:
                    self.atom(b.id)
            c = s = None
            for b in self.nf.atoms:
                if b.data is a.data and b.kind == "cos":
                    c = self.zv.get(b.id)
                if b.data is a.data and b.kind == "sin":
                    s = self.zv.get(b.id)
            if c is None or s is None or ("trig", a.data.id) in self.done:
                return
            self.done.add(("trig", a.data.id))
            F.append(c * c + s * s == 1)
            F += [c <= 1, c >= -1, s <= 1, s >= -1]
            try:
                th = self.nf.norm(a.data)
            except Exception:
                return
            # only linear arguments are worth relating
            if th.d or any(sum(e for _, e in m) > 1 for m in th.n):
                return
            E = self.poly(th.n)
            pi = self.pi()
            F += [
                z3.Implies(z3.And(E > 0, E < pi), s > 0),
                z3.Implies(z3.And(E < 0, E > -pi), s < 0),
                z3.Implies(z3.And(E > -pi / 2, E < pi / 2), c > 0),
                z3.Implies(z3.And(E > pi / 2, E < 3 * pi / 2), c < 0),
                z3.Implies(z3.And(E < -pi / 2, E > -3 * pi / 2), c < 0),
                z3.Implies(z3.And(E > pi, E < 2 * pi), s < 0),
                z3.Implies(E > 0, z3.And(s < E, s > -E)),
                z3.Implies(E < 0, z3.And(s > E, s < -E)),
                z3.Implies(E == 0, z3.And(s == 0, c == 1)),
                z3.Implies(z3.And(c == 1, E > -2 * pi, E < 2 * pi), E == 0),
            ]
            return
        if k == "sqrt":
            p = self.poly(a.data)
            F += [v >= 0, v * v == p]
            return
        if k == "osqrt":
            p = self.rat(a.data)
            F += [v >= 0, v * v == p]
            return
        if k == "ang":
            y, x, rho = a.data
            pi = self.pi()
            F += [v > -pi, v <= pi]
            ys, xs = self.signed(y), self.signed(x)
            F += [
                z3.Implies(ys > 0, z3.And(v > 0, v < pi)),
                z3.Implies(ys < 0, v < 0),
                z3.Implies(xs > 0, z3.And(v > -pi / 2, v < pi / 2)),
                z3.Implies(xs < 0, z3.Or(v > pi / 2, v < -pi / 2)),
                z3.Implies(z3.And(ys == 0, xs >= 0), v == 0),
                z3.Implies(z3.And(ys == 0, xs < 0), v == pi),
                z3.Implies(z3.And(ys > 0, xs == 0), v == pi / 2),
                z3.Implies(z3.And(ys < 0, xs == 0), v == -pi / 2),
            ]
            return
        if k == "floor":
            p = self.rat(a.data)
            F += [v <= p, p < v + 1]
            return
        if k == "U":
            return

    def pi(self):
        r = self.nf.norm(T.PI)
        return self.poly(r.n)

    def cond(self, b):
        """B -> z3 Bool"""
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if b.op in ("lt", "le", "eq", "ne"):
            d = self.nf.norm(b.args[0] - b.args[1])
            p = self.signed(d) if b.op in ("lt", "le") else self.poly(d.n)
            if b.op not in ("lt", "le"):
                for f in d.d:
                    self.facts.append(self.poly(self.nf.polys[f]) != 0)
            return {"lt": p < 0, "le": p <= 0, "eq": p == 0, "ne": p != 0}[b.op]
        if b.op == "and":
            return z3.And(*[self.cond(x) for x in b.args])
        if b.op == "or":
            return z3.Or(*[self.cond(x) for x in b.args])
        if b.op == "not":
            return z3.Not(self.cond(b.args[0]))
        if b.op == "bvar":
            return z3.Bool(b.args[0])
        raise T.Unsupported("smt " + b.op)


def check(nf, hyps, extra, timeout_ms=300):
    """satisfiability of hyps /\\ extra (lists of B)"""
    t0 = time.time()
    sm = Smt(nf)
    cs = [sm.cond(b) for b in extra]
    for h in hyps:
        try:
            cs.append(sm.cond(h))
        except T.Budget:
            continue
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for c in cs:
        s.add(c)
    for f in sm.facts:
        s.add(f)
    r = str(s.check())
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    STATS[r] = STATS.get(r, 0) + 1
    return r
