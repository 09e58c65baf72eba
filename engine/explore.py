"""Path exploration by re-execution, decisions, obligations."""
from __future__ import annotations
from fractions import Fraction
import hashlib
import random
import time
import mpmath as mp
from . import terms as T
from . import smt
from .terms import S, B, Unsupported, PathAbort, Budget
from .normal import Normaliser, Rat, pcontent, pkey, P1, mono_div

NS = 24  # numeric samples per path


class Missing(Exception):
    pass


class Env(dict):
    """sample valuation; values generated on demand"""

    def __init__(self, ctx, idx):
        super().__init__()
        self.ctx = ctx
        self.idx = idx

    def __missing__(self, k):
        if isinstance(k, tuple):  # uninterpreted function
            f = self.ctx.ufn_sample(k[1])
            if f is None:
                raise Missing(k)
            return f
        sub = self.ctx.nf.subst.get(k)
        if sub is not None:
            v = T.evalf(sub, self)
        else:
            v = self.ctx.sample_var(k, self.idx)
        self[k] = v
        return v


def rng(seed, *key):
    h = hashlib.sha256(repr((seed,) + key).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


class Obligation:
    __slots__ = ("name", "status", "backend", "info", "path", "cex")

    def __init__(self, name, status, backend, info, path, cex=None):
        self.name, self.status, self.backend = name, status, backend
        self.info, self.path, self.cex = info, path, cex


class Ctx:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.log = []
        self.nf = Normaliser(self)
        self.nf.deadline = ex.deadline
        self.hyps: list = []  # B facts
        self.known: dict = {}
        self.signcache: dict = {}
        self.inputs: dict = {}
        self.samplers: dict = {}
        self.ufs: dict = {}
        self.envs = [Env(self, i) for i in range(NS)]
        self.alive = list(range(NS))
        self.hints_nonneg: list = []
        self.hints_angle: list = []
        self.lemmas: list = []
        self.defs: list = []
        self.assumed_defs = set()
        self.fresh_n = 0
        self.gb = []
        self.in_hint = 0
        self.eultok = set()

    # ------------------------------------------------------------ inputs
    def new_var(self, name, kind="real", lo=None, hi=None, ls=True, hs=True, sampler=None, sqto=None):
        v = T.var(name, kind, None if lo is None else Fraction(lo), None if hi is None else Fraction(hi), ls, hs)
        T.VARINFO[name]["sqto"] = sqto
        self.samplers[name] = sampler
        return v

    def fresh(self, base):
        self.fresh_n += 1
        return f"{base}!{self.fresh_n}"

    def sample_var(self, name, idx):
        if name not in self.samplers:
            raise Missing(name)
        f = self.samplers[name]
        if f is None:
            raise Missing(name)
        return mp.mpf(f(idx))

    def ufn_sample(self, name):
        return self.ufs.get(name)

    # ------------------------------------------------------------ hypotheses
    def filter_samples(self, b):
        out = []
        for i in self.alive:
            try:
                if T.evalb(b, self.envs[i]):
                    out.append(i)
            except Missing:
                out.append(i)
            except (ZeroDivisionError, ValueError, TypeError):
                pass
        self.alive = out

    def canon(self, d: Rat):
        """(key, sgn) with d = positive * sgn * canonical"""
        k, cm, prim = pcontent(d.n)
        key = (pkey(prim), cm, tuple(sorted(d.d.items())))
        return key, (1 if k > 0 else -1)

    def assume(self, b):
        """add a precondition / contract fact"""
        if isinstance(b, bool):
            if not b:
                raise PathAbort("assumption is false")
            return
        import numpy as np
        if isinstance(b, np.bool_):
            if not b:
                raise PathAbort("assumption is false")
            return
        if b.op == "and":
            for x in b.args:
                self.assume(x)
            return
        if b.op in ("lt", "le", "eq", "ne"):
            d = self.nf.norm(b.args[0] - b.args[1])
            v = self.nf.rconst_value(d)
            if v is not None:
                ok = {"lt": v < 0, "le": v <= 0, "eq": v == 0, "ne": v != 0}[b.op]
                if not ok:
                    raise PathAbort("assumption is false")
                return
            allowed = {"lt": {-1}, "le": {-1, 0}, "eq": {0}, "ne": {-1, 1}}[b.op]
            self.learn(d, allowed, b)
            return
        if b.op == "bvar":
            self.known[("bvar", b.args[0])] = True
        self.hyps.append(b)
        self.signcache = {}
        self.filter_samples(b)

    def learn(self, d, allowed, b):
        key, sg = self.canon(d)
        al = {sg * x for x in allowed}
        cur = self.known.get(key, {-1, 0, 1})
        new = cur & al
        if not new:
            raise PathAbort("contradiction")
        self.known[key] = new
        self.signcache = {}
        if new == {0}:
            if self.substitute(d):
                return
        self.hyps.append(b)
        self.filter_samples(b)

    def substitute(self, d):
        nf = self.nf
        n = d.n
        # drop provably non-zero monomial content
        k, cm, prim = pcontent(n)
        if cm:
            rest = []
            for v, e in cm:
                sg = self.sign_of(Rat({((v, 1),): 1}))
                if sg is None or sg == 0:
                    rest.append((v, e))
            if len(rest) < len(cm):
                n = {}
                for m, c in prim.items():
                    from .normal import mono_mul
                    n[mono_mul(m, tuple(sorted(rest)))] = c
                if len(n) == 1:
                    (m,) = n
                    if len(m) == 1:
                        n = {((m[0][0], 1),): 1}
        # occurrences inside compound atoms
        inner = set()
        for m in n:
            for v, e in m:
                a = nf.atoms[v]
                if a.kind != "var":
                    inner |= T.vars_of(a.s)
        best = None
        for m, c in n.items():
            if len(m) == 1 and m[0][1] == 1:
                a = nf.atoms[m[0][0]]
                if a.kind != "var" or a.s is T.PI:
                    continue
                nm = a.s.args[0]
                vi = T.VARINFO.get(nm, {})
                if vi.get("sqto") is not None or vi.get("nosubst") or nm in inner:
                    continue
                if any(x is not m and a.id in [q[0] for q in x] for x in n):
                    continue
                rank = (0 if vi.get("kind") != "int" else 1, -a.id)
                if best is None or rank < best[0]:
                    best = (rank, nm, m, c)
        if best is None:
            lin = self.linear_with_coeff(n, inner)
            if lin is None:
                return False
            nm, expr = lin
        else:
            _, nm, m, c = best
            rest = {k2: v2 for k2, v2 in n.items() if k2 != m}
            expr = nf.poly_S(rest) * T.const(Fraction(-1) / Fraction(c))
        vi = T.VARINFO[nm]
        nf.subst[nm] = expr
        nf.flush()
        extra = []
        if vi["lo"] is not None:
            extra.append(T.cmp("lt" if vi["ls"] else "le", T.const(vi["lo"]), expr))
        if vi["hi"] is not None:
            extra.append(T.cmp("lt" if vi["hs"] else "le", expr, T.const(vi["hi"])))
        hy = self.hyps + extra
        self.hyps = []
        self.known = {k: v for k, v in self.known.items() if k and k[0] == "bvar"}
        self.signcache = {}
        for e in self.envs:
            e.clear()
        self.alive = list(range(NS))
        for h in hy:
            self.assume(h)
        return True

    def linear_with_coeff(self, n, inner):
        """v * C + rest = 0 with C a product of factors of known non-zero sign"""
        nf = self.nf
        occ = {}
        for m, c in n.items():
            for v, e in m:
                occ.setdefault(v, []).append((m, e))
        best = None
        for v, ms in occ.items():
            a = nf.atoms[v]
            if len(ms) != 1 or ms[0][1] != 1 or a.kind != "var" or a.s is T.PI:
                continue
            nm = a.s.args[0]
            vi = T.VARINFO.get(nm, {})
            if vi.get("sqto") is not None or vi.get("nosubst") or nm in inner or vi.get("kind") == "int":
                continue
            m = ms[0][0]
            co = tuple(x for x in m if x[0] != v)
            if any(self.sign_of(Rat({((x[0], 1),): 1})) in (None, 0) for x in co):
                continue
            rank = (len(co), -v)
            if best is None or rank < best[0]:
                best = (rank, nm, m, co)
        if best is None:
            return None
        _, nm, m, co = best
        c = n[m]
        rest = {k2: v2 for k2, v2 in n.items() if k2 != m}
        return nm, nf.poly_S(rest) * T.const(Fraction(-1) / Fraction(c)) / nf.poly_S({co: 1})

    def rel_hyps(self, bs):
        """hypotheses connected to the query through shared variables"""
        vs = set()
        for b in bs:
            T.vars_of(b, vs)
        vs = self.close_subst(vs)
        vs.discard("PI")
        pool = [(h, self.close_subst(T.vars_of(h)) - {"PI"}) for h in self.hyps + self.lemmas]
        out = []
        changed = True
        used = [False] * len(pool)
        while changed:
            changed = False
            for i, (h, hv) in enumerate(pool):
                if not used[i] and (not hv or hv & vs):
                    used[i] = True
                    out.append(h)
                    if not hv <= vs:
                        vs |= hv
                        changed = True
        return out

    def close_subst(self, vs):
        out = set()
        todo = list(vs)
        while todo:
            v = todo.pop()
            if v in out:
                continue
            out.add(v)
            if v in self.nf.subst:
                todo += list(T.vars_of(self.nf.subst[v]))
        return out

    def observed(self, b_or_S):
        """set of signs of S at the alive samples"""
        out = set()
        for i in self.alive:
            try:
                v = T.evalf(b_or_S, self.envs[i])
            except Missing:
                return set()
            except (ZeroDivisionError, ValueError, TypeError):
                continue
            if v != v:
                continue
            out.add(0 if abs(v) < 1e-25 else (1 if v > 0 else -1))
        return out

    # ------------------------------------------------------------ deciding
    def decide(self, b):
        if isinstance(b, bool):
            return b
        if b.op == "not":
            return not self.decide(b.args[0])
        if b.op == "and":
            return all(self.decide(x) for x in b.args)
        if b.op == "or":
            return any(self.decide(x) for x in b.args)
        if b.op == "ne":
            return not self.decide(B("eq", b.args))
        if b.op == "bvar":
            nm = b.args[0]
            k = ("bvar", nm)
            if k in self.known:
                return self.known[k]
            v = self.branch(k, True, True)
            self.known[k] = v
            self.hyps.append(b if v else T.bnot(b))
            return v
        self.ex.tick()
        diff = b.args[0] - b.args[1]
        d = self.nf.norm(diff)
        v = self.nf.rconst_value(d)
        if v is not None:
            return {"lt": v < 0, "le": v <= 0, "eq": v == 0}[b.op]
        tset = {"lt": {-1}, "le": {-1, 0}, "eq": {0}}[b.op]
        key, sg = self.canon(d)
        poss = {sg * x for x in self.known.get(key, {-1, 0, 1})}
        if poss <= tset:
            return True
        if not (poss & tset):
            return False
        n = len(self.log)
        if n < len(self.prefix):
            val = self.prefix[n][0]
            self.log.append(self.prefix[n])
        else:
            obs = self.observed(diff) if isinstance(diff, S) else set()
            ct = bool(obs & tset)
            cf = bool(obs - tset)
            if not ct:
                ct = smt.check(self.nf, self.rel_hyps([b]), [b], self.ex.branch_ms) != "unsat"
            if not cf and ct:
                nb = T.bnot(b)
                cf = smt.check(self.nf, self.rel_hyps([nb]), [nb], self.ex.branch_ms) != "unsat"
            elif not ct:
                cf = True
            val = self.branch(None, ct, cf)
        al = (poss & tset) if val else (poss - tset)
        bb = b if val else T.bnot(b)
        self.learn(d, al, bb)
        return val

    def branch(self, key, ct, cf):
        n = len(self.log)
        if n < len(self.prefix):
            val = self.prefix[n][0]
            self.log.append(self.prefix[n])
            return val
        if ct and cf:
            # explore True first
            self.ex.push(self.log + [(False,)])
            self.log.append((True,))
            return True
        self.log.append((bool(ct),))
        return bool(ct)

    # ------------------------------------------------------------ signs
    def sign_of(self, r: Rat):
        v = self.nf.rconst_value(r)
        if v is not None:
            return (v > 0) - (v < 0)
        key, sg = self.canon(r)
        if key in self.known:
            k = self.known[key]
            if len(k) == 1:
                return sg * next(iter(k))
        if key in self.signcache:
            c = self.signcache[key]
            return None if c is None else sg * c
        res = None
        # product of atoms with known signs
        s = self.nf.rat_S(r)
        obs = self.observed(s)
        cands = [x for x in (1, -1) if not obs or obs <= {x}]
        self.signcache[key] = None  # a query made while this one runs finds it undecided
        for c in cands:
            nb = T.cmp("le", s, T.ZERO) if c == 1 else T.cmp("le", T.ZERO, s)
            if isinstance(nb, bool):
                continue
            st = smt.check(self.nf, self.rel_hyps([nb]), [nb], self.ex.sign_ms)
            if st == "unsat":
                res = c
                break
        self.signcache[key] = None if res is None else res * sg
        return res

    def prove(self, b, ms=None):
        """b follows from the path condition"""
        if isinstance(b, bool):
            return b
        nb = T.bnot(b)
        if b.op in ("lt", "le"):
            o = self.observed(b.args[0] - b.args[1])
            if 1 in o or (0 in o and b.op == "lt"):
                return False
        return smt.check(self.nf, self.rel_hyps([nb]), [nb], ms or self.ex.sign_ms) == "unsat"

    # ------------------------------------------------------------ definedness & special functions
    def defined(self, kind, s):
        if s.op == "const":
            return
        self.defs.append((kind, s))

    def undefined(self, msg):
        self.defs.append(("undef", T.ZERO))

    def const_of(self, s):
        return self.nf.rconst_value(self.nf.norm(s))

    def make_sqrt(self, a):
        nf = self.nf
        r = nf.norm(a)
        v = nf.rconst_value(r)
        if v is not None:
            return T.sqrt(T.const(v))
        self.defs.append(("ge", a))
        for g in self.hints_nonneg:
            gr = nf.norm(g)
            if nf.rsub(r, nf.rmul(gr, gr)).zero:
                return g
        g = self.square_root(r)
        if g is not None:
            return T.absval(g)
        return S("sqrt", (nf.rat_S(r),))

    def square_root(self, r):
        """S g with g^2 == r identically, if recognisable"""
        nf = self.nf
        for f, e in r.d.items():
            if e % 2:
                return None
        k, cm, prim = pcontent(r.n)
        if k < 0 and prim != P1:
            k = -k
            prim = {m: -c for m, c in prim.items()}
        rk = T._csqrt(Fraction(k))
        # reducible atoms: prim == const * atom.sq
        gs = T.ONE
        ok = True
        if prim == P1:
            if rk is None:
                return None
            gs = T.const(rk)
        else:
            found = None
            full = {m: c * Fraction(k) for m, c in prim.items()}
            for at in nf.atoms:
                if at.sq is not None and at.kind != "sqrt" and len(at.sq) == len(full):
                    m0 = next(iter(at.sq))
                    if m0 not in full:
                        continue
                    q = Fraction(full[m0]) / Fraction(at.sq[m0])
                    if q > 0 and T._csqrt(q) is not None and all(
                        full.get(m) == c * q for m, c in at.sq.items()
                    ):
                        found = T.const(T._csqrt(q)) * at.s
                        break
            if found is None:
                found = self.poly_sqrt(full)
            if found is None:
                return None
            gs = found
        for v, e in cm:
            if e % 2:
                return None
            gs = gs * nf.mono_S(((v, e // 2),))
        for f, e in r.d.items():
            gs = gs * S("pow", (nf.poly_S(nf.polys[f]), -(e // 2)))
        return gs

    def poly_sqrt(self, p):
        """square root of a polynomial in the plain ring (leading-term method)"""
        if len(p) > 300 or len(p) < 3:
            return None
        from .normal import _okey, pmul_raw, padd
        rem = dict(p)
        lm = max(rem, key=_okey)
        if any(e % 2 for _, e in lm):
            return None
        c = T._csqrt(Fraction(rem[lm]))
        if c is None:
            return None
        g = {tuple((v, e // 2) for v, e in lm): c}
        glm = next(iter(g))
        rem = padd(rem, pmul_raw(g, g), -1)
        lead = 2 * c
        for _ in range(60):
            if not rem:
                return self.nf.poly_S(g)
            m = max(rem, key=_okey)
            q = mono_div(m, glm)
            if q is None or q in g:
                return None
            t = {q: Fraction(rem[m]) / lead}
            rem = padd(rem, pmul_raw(t, {a: 2 * b for a, b in g.items()}), -1)
            rem = padd(rem, pmul_raw(t, t), -1)
            g[q] = t[q]
        return None

    def angle_cands(self):
        out = list(self.hints_angle)
        for at in list(self.nf.atoms):
            if at.kind == "cos":
                out.append(at.data)
                out.append(T.neg(at.data))
        for at in list(self.nf.atoms):
            if at.kind == "ang":
                out.append(at.s)
                out.append(T.neg(at.s))
        return out[:40]

    def make_atan2(self, y, x):
        nf = self.nf
        yr, xr = nf.norm(y), nf.norm(x)
        vy, vx = nf.rconst_value(yr), nf.rconst_value(xr)
        if vy is not None and vx is not None:
            if vy == 0:
                return T.ZERO if vx >= 0 else T.PI
            if vx == 0:
                return T.PI / 2 if vy > 0 else -T.PI / 2
            if abs(vx) == abs(vy):
                base = T.PI / 4 if vx > 0 else T.PI * Fraction(3, 4)
                return base if vy > 0 else -base
        if vy == 0:
            if bool(T.cmp("le", T.ZERO, x)):
                return T.ZERO
            return T.PI
        if vx == 0:
            if bool(T.cmp("lt", T.ZERO, y)):
                return T.PI / 2
            if bool(T.cmp("lt", y, T.ZERO)):
                return -T.PI / 2
            return T.ZERO
        for phi in self.angle_cands():
            for off in (T.ZERO,):
                c, s = nf.norm(T.cos(phi)), nf.norm(T.sin(phi))
                cr = nf.rsub(nf.rmul(yr, c), nf.rmul(xr, s))
                if not cr.zero:
                    continue
                dt = nf.radd(nf.rmul(xr, c), nf.rmul(yr, s))
                sg = self.sign_of(dt)
                if sg is None:
                    # fork on the sign; zero means both arguments vanish
                    dts = nf.rat_S(dt)
                    if bool(T.cmp("lt", T.ZERO, dts)):
                        sg = 1
                    elif bool(T.cmp("lt", dts, T.ZERO)):
                        sg = -1
                    else:
                        return T.ZERO
                    yr, xr = nf.norm(y), nf.norm(x)
                if sg == 0:
                    return T.ZERO
                if sg < 0:
                    phi = phi + T.PI
                return self.wrap(phi)
        self.defs.append(("ne", y * y + x * x))
        return S("atan2", (nf.rat_S(yr), nf.rat_S(xr)))

    def wrap(self, phi):
        """phi reduced to (-pi, pi]"""
        p = self.nf.norm(phi)
        v = self.nf.rat_S(p)
        if self.prove(T.cmp("le", v, T.PI)) and self.prove(T.cmp("lt", -T.PI, v)):
            return phi
        if self.prove(T.cmp("le", v, 3 * T.PI)) and self.prove(T.cmp("lt", T.PI, v)):
            return phi - 2 * T.PI
        if self.prove(T.cmp("le", v, -T.PI)) and self.prove(T.cmp("lt", -3 * T.PI, v)):
            return phi + 2 * T.PI
        return phi + 2 * T.PI * self.make_floor((T.PI - phi) / (2 * T.PI))

    def make_floor(self, a):
        v = self.const_of(a)
        if v is not None:
            return T.const(v.__floor__())
        r = self.nf.norm(a)
        if self.nf.is_integer(r):
            return a
        sa = self.nf.rat_S(r)
        obs = set()
        for i in self.alive:
            try:
                obs.add(int(mp.floor(T.evalf(sa, self.envs[i]))))
            except Missing:
                obs = {0, -1}
                break
            except Exception:
                pass
            if len(obs) > 1:
                break
        for c in ([next(iter(obs))] if len(obs) == 1 else ([0, -1] if not self.alive else [])):
            if self.prove(T.cmp("le", T.const(c), sa)) and self.prove(T.cmp("lt", sa, T.const(c + 1))):
                return T.const(c)
        return S("floor", (sa,))

    # ------------------------------------------------------------ obligations
    def env_inputs(self, i):
        out = {}
        for n in self.samplers:
            try:
                out[n] = float(self.envs[i][n])
            except Exception:
                pass
        return out

    def full_env_ok(self, i):
        e = self.envs[i]
        for h in self.hyps:
            if not T.evalb(h, e):
                return False
        return True

    def refute(self, b):
        """index of an alive sample at which b is clearly false"""
        for i in self.alive:
            try:
                e = self.envs[i]
                if b.op == "eq":
                    memo = {}
                    x, y = T.evalf(b.args[0], e, memo), T.evalf(b.args[1], e, memo)
                    d = abs(x - y)
                    bad = d > mp.mpf("1e-15") * (1 + abs(x) + abs(y))
                elif b.op in ("lt", "le"):
                    memo = {}
                    x, y = T.evalf(b.args[0], e, memo), T.evalf(b.args[1], e, memo)
                    bad = x - y > mp.mpf("1e-15") * (1 + abs(x) + abs(y))
                else:
                    bad = not T.evalb(b, e)
                if bad and self.full_env_ok(i) and self.defs_ok(i):
                    return i
            except Missing:
                continue
            except (ZeroDivisionError, ValueError, TypeError):
                continue
        return None

    def defs_ok(self, i):
        e = self.envs[i]
        for kind, s in self.defs:
            v = T.evalf(s, e)
            if kind == "ne" and abs(v) < 1e-12:
                return False
            if kind == "ge" and v < 0:
                return False
            if kind == "undef":
                return False
        return True

    def oblige(self, name, b):
        self.ex.tick()
        if isinstance(b, bool):
            if b:
                self.ex.add(Obligation(name, "proved", "evaluation", "", len(self.log)))
            else:
                # false on this path: a violation if the path is feasible
                if self.alive and any(self._ok(i) for i in self.alive):
                    i = next(i for i in self.alive if self._ok(i))
                    self.ex.add(Obligation(name, "refuted", "evaluation", "condition is false on a feasible path", len(self.log), self.env_inputs(i)))
                else:
                    st = smt.check(self.nf, self.hyps, [], self.ex.goal_ms)
                    if st == "unsat":
                        self.ex.add(Obligation(name, "proved", "z3", "infeasible path", len(self.log)))
                    else:
                        self.ex.add(Obligation(name, "undecided", "none", "condition false on a path not shown feasible", len(self.log)))
            return
        if b.op == "eq":
            try:
                d = self.nf.norm(b.args[0] - b.args[1])
            except Budget as e:
                d = None
            if d is not None and d.zero:
                self.ex.add(Obligation(name, "proved", "normal-form", "", len(self.log)))
                return
            i = self.refute(b)
            if i is not None:
                self.ex.add(Obligation(name, "refuted", "evaluation", f"lhs={T.to_str(b.args[0],3)} rhs={T.to_str(b.args[1],3)}", len(self.log), self.env_inputs(i)))
                return
            if d is not None:
                ds = self.nf.rat_S(d)
                nb = T.cmp("ne", ds, T.ZERO)
                st = smt.check(self.nf, self.rel_hyps([nb]), [nb], self.ex.goal_ms) if len(d.n) < 400 else "unknown"
                if st == "unsat":
                    self.ex.add(Obligation(name, "proved", "z3", "", len(self.log)))
                    return
                if self.congruent(d.n):
                    self.ex.add(Obligation(name, "proved", "z3", "congruence", len(self.log)))
                    return
            self.ex.add(Obligation(name, "undecided", "none", "normal form not zero, not refuted" + (f" [{len(d.n)} terms] {T.to_str(self.nf.poly_S(d.n), 6)[:300]}" if d is not None else " (budget)"), len(self.log)))
            return
        if b.op == "and":
            for x in b.args:
                self.oblige(name, x)
            return
        i = self.refute(b)
        if i is not None:
            self.ex.add(Obligation(name, "refuted", "evaluation", repr(b)[:300], len(self.log), self.env_inputs(i)))
            return
        nb = T.bnot(b)
        st = smt.check(self.nf, self.rel_hyps([nb]), [nb], self.ex.goal_ms)
        if st == "unsat":
            self.ex.add(Obligation(name, "proved", "z3", "", len(self.log)))
        else:
            self.ex.add(Obligation(name, "undecided", "none", f"z3: {st} {b!r}"[:300], len(self.log)))

    def congruent(self, poly):
        """identify function applications whose arguments z3 proves equal"""
        ids = sorted({v for mono in poly for v, _ in mono if self.nf.atoms[v].kind == "U"})
        rep = {}
        for k, v in enumerate(ids):
            n, a = self.nf.atoms[v].data
            for w in ids[:k]:
                if w in rep:
                    continue
                n2, a2 = self.nf.atoms[w].data
                if n2 != n or len(a) != len(a2):
                    continue
                if all(self.prove(T.cmp("eq", self.nf.rat_S(self.nf.rsub(x, y)), T.ZERO), self.ex.goal_ms) for x, y in zip(a, a2)):
                    rep[v] = w
                    break
        if not rep:
            return False
        out = {}
        for mono, c in poly.items():
            e = {}
            for v, k in mono:
                v = rep.get(v, v)
                e[v] = e.get(v, 0) + k
            key = tuple(sorted(e.items()))
            out[key] = out.get(key, 0) + c
        return all(c == 0 for c in out.values())

    def _ok(self, i):
        try:
            return self.full_env_ok(i) and self.defs_ok(i)
        except Exception:
            return False

    def oblige_int(self, name, s):
        r = self.nf.norm(s)
        if self.nf.is_integer(r):
            self.ex.add(Obligation(name, "proved", "normal-form", "integer combination", len(self.log)))
            return
        for i in self.alive:
            try:
                v = T.evalf(s, self.envs[i])
                if abs(v - mp.nint(v)) > 1e-15 and self._ok(i):
                    self.ex.add(Obligation(name, "refuted", "evaluation", T.to_str(s, 4), len(self.log), self.env_inputs(i)))
                    return
            except Missing:
                continue
            except Exception:
                continue
        self.ex.add(Obligation(name, "undecided", "none", "not an integer combination: " + T.to_str(self.nf.rat_S(r), 5)[:300], len(self.log)))

    def finish(self):
        """settle definedness side conditions"""
        seen = set()
        for kind, s in self.defs:
            if (kind, s.id) in seen:
                continue
            seen.add((kind, s.id))
            self.ex.ndefs += 1
            try:
                r = self.nf.norm(s)
                v = self.nf.rconst_value(r)
                if v is not None:
                    ok = v != 0 if kind == "ne" else v >= 0
                else:
                    sg = self.sign_of(r)
                    ok = sg is not None and (sg != 0 if kind == "ne" else sg >= 0)
                    if not ok and kind == "ne":
                        key, _ = self.canon(r)
                        ok = 0 not in self.known.get(key, {0}) or self.prove(T.cmp("ne", self.nf.rat_S(r), T.ZERO))
                    if not ok and kind == "ge":
                        ok = self.prove(T.cmp("le", T.ZERO, self.nf.rat_S(r)))
            except (Budget, Unsupported, ZeroDivisionError):
                ok = False
            if ok:
                self.ex.ndefs_ok += 1
            else:
                txt = {"ne": "{} != 0", "ge": "{} >= 0"}.get(kind, "undefined operation")
                self.ex.def_assumed.add(txt.format(T.to_str(s, 3))[:160])


class Explorer:
    def __init__(self, seconds=60, max_paths=400, branch_ms=250, sign_ms=250, goal_ms=3000, seed=1):
        self.t0 = time.time()
        self.deadline = self.t0 + seconds
        self.max_paths = max_paths
        self.branch_ms, self.sign_ms, self.goal_ms = branch_ms, sign_ms, goal_ms
        self.seed = seed
        self.stack = []
        self.obls: list[Obligation] = []
        self.paths = 0
        self.aborted = 0
        self.ndefs = self.ndefs_ok = 0
        self.def_assumed = set()
        self.errors = []
        self.raised = []
        self.assumptions = set()
        self.sat_paths = 0
        self.stubs = set()

    def push(self, pre):
        self.stack.append(list(pre))

    def add(self, ob):
        self.obls.append(ob)

    def tick(self):
        if time.time() > self.deadline:
            raise Budget("time budget")

    def run(self, fn):
        """fn(ctx) executes the harness once"""
        self.stack = [[]]
        while self.stack:
            if self.paths >= self.max_paths:
                self.errors.append(("budget", f"more than {self.max_paths} paths"))
                break
            pre = self.stack.pop()
            ctx = Ctx(self, pre)
            T.set_ctx(ctx)
            self.paths += 1
            mark = len(self.obls)
            try:
                fn(ctx)
                if ctx.alive:
                    self.sat_paths += 1
                ctx.finish()
            except PathAbort:
                self.aborted += 1
            except Budget as e:
                self.errors.append(("budget", str(e)))
                if time.time() > self.deadline:
                    break
            except Unsupported as e:
                import traceback
                self.errors.append(("unsupported", str(e) + " @ " + _where(e)))
            except RecursionError as e:
                self.errors.append(("unsupported", "recursion"))
            except Exception as e:  # the code under test raised on this path
                import traceback
                w = _where(e)
                info = f"{type(e).__name__}: {e} @ {w}"
                ok = [i for i in ctx.alive if ctx._ok(i)]
                self.raised.append((info, ctx.env_inputs(ok[0]) if ok else None))
            finally:
                T.set_ctx(None)
        return self


def _where(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    out = []
    for f in tb[-5:]:
        out.append(f"{f.filename.split('/')[-1]}:{f.lineno}")
    return " > ".join(out)
