"""Normal forms: rational functions over atoms, reduced modulo
   sin^2+cos^2=1 (per base angle) and sqrt(p)^2=p, with angle-addition expansion.
A difference whose normal form is 0 is an identity over the reals wherever both
sides are defined."""
from __future__ import annotations
from fractions import Fraction
from math import gcd
import time
from . import terms as T
from .terms import S, Unsupported, Budget

MAXTERMS = 60000


def _ci(q):
    if isinstance(q, Fraction) and q.denominator == 1:
        return q.numerator
    return q


# ------------------------------------------------------------------ polynomials
# dict: monomial (tuple of (atom, exp) sorted by atom) -> int | Fraction
P0: dict = {}
P1 = {(): 1}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


def mono_div(a, b):
    """a/b or None"""
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        r = d.get(v, 0) - e
        if r < 0:
            return None
        if r:
            d[v] = r
        else:
            del d[v]
    return tuple(sorted(d.items()))


def padd(p, q, k=1):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(p, k):
    if k == 1:
        return p
    if k == 0:
        return {}
    return {m: _ci(c * k) for m, c in p.items()}


def pmul_raw(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) * len(q) > MAXTERMS * 40:
        raise Budget("polynomial product too large")
    r: dict = {}
    get = r.get
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            r[m] = get(m, 0) + c1 * c2
    return {m: _ci(c) for m, c in r.items() if c != 0}


def pkey(p):
    return tuple(sorted(p.items()))


def pcontent(p):
    """(rational content with sign of leading term, common monomial, primitive part)"""
    if not p:
        return 1, (), p
    num = 0
    den = 1
    common = None
    for m, c in p.items():
        c = Fraction(c)
        num = gcd(num, c.numerator)
        den = den * c.denominator // gcd(den, c.denominator)
        if common is None:
            common = dict(m)
        elif common:
            d = dict(m)
            common = {v: min(e, d[v]) for v, e in common.items() if v in d}
    lead = max(p.keys())
    k = Fraction(num, den)
    if p[lead] < 0:
        k = -k
    cm = tuple(sorted(common.items()))
    inv = 1 / k
    prim = {}
    for m, c in p.items():
        prim[mono_div(m, cm)] = _ci(Fraction(c) * inv)
    return _ci(k), cm, prim


def pdivides(p, f):
    """exact division p / f in the plain polynomial ring, or None"""
    if len(f) > len(p) or len(p) > 3000:
        return None
    lf = max(f.keys(), key=_okey)
    cf = f[lf]
    rem = dict(p)
    quo: dict = {}
    steps = 0
    while rem:
        lm = max(rem.keys(), key=_okey)
        q = mono_div(lm, lf)
        if q is None:
            return None
        c = Fraction(rem[lm]) / cf
        c = _ci(c)
        quo[q] = c
        for m, cc in f.items():
            mm = mono_mul(m, q)
            v = rem.get(mm, 0) - cc * c
            if v == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = v
        steps += 1
        if steps > 4000:
            return None
    return quo


def _okey(m):
    # lex order on the exponent vector (larger atom index = larger)
    return tuple(sorted(m, reverse=True))


class Atom:
    __slots__ = ("id", "kind", "data", "s", "sq")

    def __init__(self, id, kind, data, s):
        self.id = id
        self.kind = kind
        self.data = data
        self.s = s  # an S term denoting the atom
        self.sq = None  # polynomial for atom^2 (reducible atoms)

    def __repr__(self):
        return f"<{self.kind} {self.s!r}>"


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}

    @property
    def zero(self):
        return not self.n


class Restart(Exception):
    pass


class Normaliser:
    def __init__(self, ctx=None):
        self.ctx = ctx
        self.atoms: list[Atom] = []
        self.by_key: dict = {}
        self.scale: dict = {}  # base-angle key -> L
        self.subst: dict = {}  # var name -> S
        self.polys: dict = {}  # pkey -> poly (denominator factors)
        self.deadline = None
        self.flush()

    def flush(self):
        self.atoms = []
        self.by_key = {}
        self.memo = {}
        self.polys = {}
        self.reducible = {}

    # ---------------------------------------------------------------- atoms
    def atom(self, kind, key, data, s):
        k = (kind, key)
        a = self.by_key.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, data, s)
            self.atoms.append(a)
            self.by_key[k] = a
        return a

    def pvar(self, a):
        return {((a.id, 1),): 1}

    # ---------------------------------------------------------------- poly ops with reduction
    def reduce(self, p):
        red = self.reducible
        if not red:
            return p
        out: dict = {}
        work = [p]
        n = 0
        while work:
            q = work.pop()
            for m, c in q.items():
                hit = None
                for v, e in m:
                    if e >= 2 and v in red:
                        hit = (v, e)
                        break
                if hit is None:
                    v = out.get(m, 0) + c
                    if v == 0:
                        out.pop(m, None)
                    else:
                        out[m] = v
                else:
                    v, e = hit
                    rest = mono_div(m, ((v, e),))
                    if e % 2:
                        rest = mono_mul(rest, ((v, 1),))
                    sub = {rest: c}
                    sq = red[v]
                    for _ in range(e // 2):
                        sub = pmul_raw(sub, sq)
                    work.append(sub)
                    n += 1
                    if n % 2000 == 0:
                        self.tick()
            if len(out) > MAXTERMS:
                raise Budget("normal form too large")
        return {m: _ci(c) for m, c in out.items()}

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time")

    def pmul(self, p, q):
        self.tick()
        return self.reduce(pmul_raw(p, q))

    def ppow(self, p, n):
        r = P1
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    # ---------------------------------------------------------------- rational ops
    def rconst(self, q):
        q = _ci(Fraction(q))
        return Rat({(): q} if q != 0 else {})

    def split_den(self, p):
        """poly -> (scalar, {factorkey: exp}) with single-atom factors split off"""
        k, cm, prim = pcontent(p)
        d = {}
        for v, e in cm:
            f = {((v, 1),): 1}
            fk = pkey(f)
            self.polys[fk] = f
            d[fk] = d.get(fk, 0) + e
        if prim != P1:
            fk = pkey(prim)
            self.polys[fk] = prim
            d[fk] = d.get(fk, 0) + 1
        return k, d

    def cancel(self, n, d):
        if not n:
            return Rat({}, {})
        if not d:
            return Rat(n, {})
        d = dict(d)
        # monomial factors
        for fk in list(d):
            f = self.polys[fk]
            if len(f) == 1:
                v = next(iter(f))[0][0]
                e = d[fk]
                mn = min(
                    (dict(m).get(v, 0) for m in n), default=0
                )
                k = min(mn, e)
                if k:
                    n = {mono_div(m, ((v, k),)): c for m, c in n.items()}
                    if e == k:
                        del d[fk]
                    else:
                        d[fk] = e - k
            else:
                while fk in d:
                    q = pdivides(n, f)
                    if q is None:
                        break
                    n = q
                    d[fk] -= 1
                    if d[fk] == 0:
                        del d[fk]
        return Rat(n, d)

    def radd(self, a, b):
        if not a.n:
            return b
        if not b.n:
            return a
        if a.d == b.d:
            return self.cancel(padd(a.n, b.n), a.d)
        lcm = dict(a.d)
        for f, e in b.d.items():
            if lcm.get(f, 0) < e:
                lcm[f] = e
        na, nb = a.n, b.n
        for f, e in lcm.items():
            ea = e - a.d.get(f, 0)
            if ea:
                na = self.pmul(na, self.ppow(self.polys[f], ea))
            eb = e - b.d.get(f, 0)
            if eb:
                nb = self.pmul(nb, self.ppow(self.polys[f], eb))
        return self.cancel(padd(na, nb), lcm)

    def rneg(self, a):
        return Rat(pscale(a.n, -1), a.d)

    def rsub(self, a, b):
        return self.radd(a, self.rneg(b))

    def rmul(self, a, b):
        if not a.n or not b.n:
            return Rat({})
        # cross-cancel first
        if b.d:
            t = self.cancel(a.n, b.d)
            an, bd = t.n, t.d
        else:
            an, bd = a.n, b.d
        if a.d:
            t = self.cancel(b.n, a.d)
            bn, ad = t.n, t.d
        else:
            bn, ad = b.n, a.d
        d = dict(ad)
        for f, e in bd.items():
            d[f] = d.get(f, 0) + e
        return self.cancel(self.pmul(an, bn), d)

    def rinv(self, a):
        if not a.n:
            raise ZeroDivisionError("inverse of zero normal form")
        k, d = self.split_den(a.n)
        n = P1
        for f, e in a.d.items():
            n = self.pmul(n, self.ppow(self.polys[f], e))
        return self.cancel(pscale(n, Fraction(1) / Fraction(k)), d)

    def rpow(self, a, n):
        if n < 0:
            return self.rpow(self.rinv(a), -n)
        r = self.rconst(1)
        for _ in range(n):
            r = self.rmul(r, a)
        return r

    def rconst_value(self, a):
        if not a.n:
            return Fraction(0)
        if not a.d and len(a.n) == 1 and () in a.n:
            return Fraction(a.n[()])
        return None

    # ---------------------------------------------------------------- S -> Rat
    def norm(self, s):
        while True:
            try:
                return self._norm(s)
            except Restart:
                self.flush()

    def _norm(self, root):
        memo = self.memo
        if root.id in memo:
            return memo[root.id]
        stack = [root]
        while stack:
            s = stack[-1]
            if s.id in memo:
                stack.pop()
                continue
            op = s.op
            if op == "const":
                memo[s.id] = self.rconst(s.value)
                stack.pop()
                continue
            if op == "var":
                nm = s.args[0]
                if nm in self.subst:
                    t = self.subst[nm]
                    if t.id not in memo:
                        stack.append(t)
                        continue
                    memo[s.id] = memo[t.id]
                else:
                    a = self.atom("var", nm, None, s)
                    sq = T.VARINFO.get(nm, {}).get("sqto")
                    if sq is not None and a.sq is None:
                        if sq.id not in memo:
                            stack.append(sq)
                            continue
                        a.sq = memo[sq.id].n
                        self.reducible[a.id] = a.sq
                    memo[s.id] = Rat(self.pvar(a))
                stack.pop()
                continue
            todo = [x for x in s.args if isinstance(x, S) and x.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            if op == "add":
                r = self.radd(memo[s.args[0].id], memo[s.args[1].id])
            elif op == "mul":
                r = self.rmul(memo[s.args[0].id], memo[s.args[1].id])
            elif op == "pow":
                r = self.rpow(memo[s.args[0].id], s.args[1])
            elif op in ("cos", "sin"):
                c, sn = self.trig(memo[s.args[0].id])
                r = c if op == "cos" else sn
            elif op == "sqrt":
                r = self.nsqrt(memo[s.args[0].id], s)
            elif op == "atan2":
                r = self.natan2(memo[s.args[0].id], memo[s.args[1].id], s)
            elif op == "floor":
                r = self.nfloor(memo[s.args[0].id], s)
            elif op == "U":
                r = self.nufn(s)
            else:
                raise Unsupported("norm " + op)
            memo[s.id] = r
        return memo[root.id]

    # ---------------------------------------------------------------- Rat -> S
    def mono_S(self, m):
        r = T.ONE
        for v, e in m:
            r = T.mul(r, _pw(self.atoms[v].s, e))
        return r

    def poly_S(self, p):
        r = T.ZERO
        for m, c in sorted(p.items()):
            r = T.add(r, T.mul(T.const(Fraction(c)), self.mono_S(m)))
        return r

    def rat_S(self, a):
        r = self.poly_S(a.n)
        for f, e in sorted(a.d.items()):
            r = T.mul(r, _pw(self.poly_S(self.polys[f]), -e))
        return r

    def rkey(self, a):
        return (pkey(a.n), tuple(sorted(a.d.items())))

    # ---------------------------------------------------------------- angles
    def split_angle(self, a):
        """Rat -> list of (coef, basekey, monomial, den)"""
        out = []
        for m, c in a.n.items():
            mm = m
            d = dict(a.d)
            for fk in list(d):
                f = self.polys[fk]
                if len(f) == 1:
                    v = next(iter(f))[0][0]
                    e = d[fk]
                    have = dict(mm).get(v, 0)
                    k = min(e, have)
                    if k:
                        mm = mono_div(mm, ((v, k),))
                        if e == k:
                            del d[fk]
                        else:
                            d[fk] = e - k
            out.append((Fraction(c), mm, d))
        return out

    def trig(self, a):
        C, Sn = self.rconst(1), self.rconst(0)
        for coef, mm, d in self.split_angle(a):
            c, s = self.trig_term(coef, mm, d)
            C, Sn = (
                self.rsub(self.rmul(C, c), self.rmul(Sn, s)),
                self.radd(self.rmul(Sn, c), self.rmul(C, s)),
            )
        return C, Sn

    def trig_term(self, coef, mm, d):
        if not d and len(mm) == 1 and mm[0][1] == 1:
            at = self.atoms[mm[0][0]]
            if at.kind == "var" and at.s is T.PI:
                q = coef % 2
                tab = {
                    Fraction(0): (1, 0),
                    Fraction(1, 2): (0, 1),
                    Fraction(1): (-1, 0),
                    Fraction(3, 2): (0, -1),
                }
                if q in tab:
                    return self.rconst(tab[q][0]), self.rconst(tab[q][1])
                if q.denominator in (3, 4, 6) and self.scale.get(("b", T.PI.id), 1) == 1:
                    # exact values, unless other fractions of pi are around
                    def cosv(x):
                        x = x % 2
                        if x > 1:
                            x = 2 - x
                        if x > Fraction(1, 2):
                            return self.rneg(cosv(1 - x))
                        if x == Fraction(1, 2):
                            return self.rconst(0)
                        w = {Fraction(0): 4, Fraction(1, 6): 3, Fraction(1, 4): 2, Fraction(1, 3): 1}[x]
                        return self.rmul(self.rconst(Fraction(1, 2)), self.norm(T.sqrt(T.const(w))))
                    return cosv(q), cosv(q - Fraction(1, 2))
        if not d and len(mm) == 1 and mm[0][1] == 1:
            at = self.atoms[mm[0][0]]
            if at.kind == "ang":
                L = self.scale.get(("ang", at.s.id), 1)
                if coef.denominator == 1 and L == 1:
                    y, x, rho = at.data
                    if rho is not None:
                        ir = self.rinv(rho)
                        c, s = self.rmul(x, ir), self.rmul(y, ir)
                        return self.multiple(c, s, int(coef))
        # generic base angle
        base_S = self.rat_S(Rat({mm: 1}, d))
        key = ("ang", self.atoms[mm[0][0]].s.id) if (
            not d and len(mm) == 1 and mm[0][1] == 1 and self.atoms[mm[0][0]].kind == "ang"
        ) else ("b", base_S.id)
        L = self.scale.get(key, 1)
        if L % coef.denominator:
            self.scale[key] = L * coef.denominator // gcd(L, coef.denominator)
            raise Restart()
        n = coef * L
        th = T.mul(T.const(Fraction(1, L)), base_S)
        ca = self.atom("cos", (key, L), th, T.cos(th))
        sa = self.atom("sin", (key, L), th, T.sin(th))
        if sa.sq is None:
            sa.sq = {(): 1, ((ca.id, 2),): -1}
            self.reducible[sa.id] = sa.sq
        return self.multiple(Rat(self.pvar(ca)), Rat(self.pvar(sa)), int(n))

    def multiple(self, c, s, n):
        if n < 0:
            c, s = self.multiple(c, s, -n)
            return c, self.rneg(s)
        if n > 64:
            raise Unsupported("large angle multiple")
        C, Sn = self.rconst(1), self.rconst(0)
        for _ in range(n):
            C, Sn = (
                self.rsub(self.rmul(C, c), self.rmul(Sn, s)),
                self.radd(self.rmul(Sn, c), self.rmul(C, s)),
            )
        return C, Sn

    # ---------------------------------------------------------------- sqrt / atan2 / floor / U
    def nsqrt(self, a, s):
        v = self.rconst_value(a)
        if v is not None:
            if v < 0:
                raise Unsupported("sqrt of negative")
            r = T._csqrt(v)
            if r is not None:
                return self.rconst(r)
        # sqrt(n / prod f^e) = sqrt(n * prod_{e odd} f) / prod |f|^ceil(e/2)
        n = a.n
        outden: dict = {}
        neg = False
        for f, e in a.d.items():
            fp = self.polys[f]
            k = (e + 1) // 2
            if k % 2:
                sg = self.sign_poly(fp)
                if sg is None:
                    return self.opaque_sqrt(a, s)
                if sg < 0:
                    neg = not neg
            if e % 2:
                n = self.pmul(n, fp)
            outden[f] = k
        # numerator: content & square monomials of known sign
        k, cm, prim = pcontent(n)
        inner = prim
        kk = Fraction(k)
        if kk < 0:
            inner = pscale(inner, -1)
            kk = -kk
        outn = P1
        # rational content
        num, den = kk.numerator, kk.denominator
        sq_n, rem_n = _sqpart(num)
        sq_d, rem_d = _sqpart(den)
        outc = Fraction(sq_n, sq_d * rem_d)
        inner = pscale(inner, rem_n * rem_d)
        for v_, e in cm:
            fp = {((v_, 1),): 1}
            h = e // 2
            if h:
                sg = self.sign_poly(fp) if h % 2 else 1
                if sg is None:
                    inner = self.pmul(inner, self.ppow(fp, e))
                    continue
                outn = self.pmul(outn, self.ppow(fp, h))
                if sg < 0:
                    outc = -outc
            if e % 2:
                inner = self.pmul(inner, fp)
        if neg:
            outc = -outc
        if inner == P1:
            return self.cancel(pscale(outn, outc), outden)
        r = self.sqrt_atom(inner)
        return self.cancel(self.pmul(pscale(outn, outc), r), outden)

    def sqrt_atom(self, inner):
        """polynomial for sqrt(inner), inner polynomial not identically square"""
        c = inner.get((), None)
        if len(inner) == 1 and c is not None:
            rt = T._csqrt(Fraction(c))
            if rt is not None:
                return {(): _ci(rt)}
        key = pkey(inner)
        sS = T.S("sqrt", (self.poly_S(inner),))
        a = self.atom("sqrt", key, inner, sS)
        if a.sq is None:
            a.sq = inner
            self.reducible[a.id] = inner
        return self.pvar(a)

    def opaque_sqrt(self, a, s):
        # sqrt(n/d) = sqrt(n*d)/|d|; keep as sqrt(n*D) * |1/D| with |1/D| = sqrt(1/D^2)
        key = self.rkey(a)
        at = self.atom("osqrt", key, a, T.S("sqrt", (self.rat_S(a),)))
        return Rat(self.pvar(at))

    def natan2(self, y, x, s):
        key = (self.rkey(y), self.rkey(x))
        if ("ang", key) not in self.by_key:
            # equal up to a provably positive factor?
            for at in self.atoms:
                if at.kind != "ang":
                    continue
                y2, x2, rho2 = at.data
                cr = self.rsub(self.rmul(y, x2), self.rmul(x, y2))
                if cr.zero:
                    dt = self.radd(self.rmul(y, y2), self.rmul(x, x2))
                    if self.sign_rat(dt) == 1:
                        self.by_key[("ang", key)] = at
                        return Rat(self.pvar(at))
        rho2 = self.radd(self.rmul(x, x), self.rmul(y, y))
        rho = None
        if ("ang", key) not in self.by_key:
            rho = self.nsqrt(rho2, None)
        sS = T.S("atan2", (self.rat_S(y), self.rat_S(x)))
        at = self.atom("ang", key, (y, x, rho), sS)
        return Rat(self.pvar(at))

    def nfloor(self, a, s):
        v = self.rconst_value(a)
        if v is not None:
            return self.rconst(v.__floor__())
        # pull out integer parts: floor(x + n) = floor(x) + n
        if not a.d:
            keep = {}
            out = {}
            for m, c in a.n.items():
                if self.is_int_mono(m) and Fraction(c).denominator == 1:
                    out[m] = c
                elif m == ():
                    f = Fraction(c).__floor__()
                    out[m] = f
                    if Fraction(c) - f != 0:
                        keep[m] = _ci(Fraction(c) - f)
                else:
                    keep[m] = c
            out = {m: c for m, c in out.items() if c != 0}
            if not keep:
                return Rat(out)
            arg = Rat(keep)
        else:
            out = {}
            arg = a
        key = self.rkey(arg)
        if ("floor", key) not in self.by_key and self.ctx is not None:
            # a remainder known to lie in [0, 1) has floor 0
            r = self.rat_S(arg)
            if self.ctx.prove(T.cmp("le", T.ZERO, r)) and self.ctx.prove(T.cmp("lt", r, T.ONE)):
                return Rat(out)
        sS = T.S("floor", (self.rat_S(arg),))
        at = self.atom("floor", key, arg, sS)
        return Rat(padd(self.pvar(at), out))

    def is_int_mono(self, m):
        if not m:
            return True
        for v, e in m:
            a = self.atoms[v]
            if a.kind == "floor":
                continue
            if a.kind == "var" and T.VARINFO.get(a.s.args[0], {}).get("kind") == "int":
                continue
            return False
        return True

    def is_integer(self, a):
        if a.d:
            return False
        return all(
            Fraction(c).denominator == 1 and self.is_int_mono(m) for m, c in a.n.items()
        )

    def nufn(self, s):
        name = s.args[0]
        rs = [self.memo[x.id] for x in s.args[1:]]
        key = (name,) + tuple(self.rkey(r) for r in rs)
        if ("U", key) not in self.by_key:
            for at in self.atoms:
                if at.kind == "U" and at.data[0] == name and len(at.data[1]) == len(rs):
                    if all(self.rsub(r, q).zero for r, q in zip(rs, at.data[1])):
                        self.by_key[("U", key)] = at
                        return Rat(self.pvar(at))
        at = self.atom("U", key, (name, rs), s)
        return Rat(self.pvar(at))

    # ---------------------------------------------------------------- signs
    def sign_poly(self, p):
        """+1/-1 if provably positive/negative under the path condition, else None"""
        return self.sign_rat(Rat(p))

    def sign_rat(self, a):
        v = self.rconst_value(a)
        if v is not None:
            return (v > 0) - (v < 0)
        if self.ctx is None:
            return None
        return self.ctx.sign_of(a)


def _pw(s, e):
    if e == 1:
        return s
    if e == 0:
        return T.ONE
    if s.op == "const":
        return T.const(s.value**e)
    return T.S("pow", (s, e))


def _sqpart(n):
    """n = q^2 * r with r squarefree-ish (trial division)"""
    q, r = 1, 1
    n = int(n)
    f = 2
    while f * f <= n and f < 2000:
        e = 0
        while n % f == 0:
            n //= f
            e += 1
        q *= f ** (e // 2)
        if e % 2:
            r *= f
        f += 1
    import math

    s = math.isqrt(n)
    if s * s == n:
        q *= s
    else:
        r *= n
    return q, r
