"""C03 curves: length parametrisation, trimming, cutting, reversal, arithmetic."""
from engine.api import ob

CU = "curve.Curve."


def mk(q, m, name="f", n=None, vec=True, orient="fwd", **kw):
    """an arbitrary curve: any function, any natural range, n-1 length segments"""
    f = q.fn3(name)
    n = n or q.choice(name + ".n", [2, 3, 4])
    t0 = q.real(name + ".t0")
    w = q.pos(name + ".w")
    if orient == "any":
        orient = q.choice(name + ".dir", ["fwd", "bwd"])
    t1 = t0 + w if orient == "fwd" else t0 - w
    if not q.symbolic:
        q.assume(w > 0.05)
    c = m.curve.Curve(f, t0=t0, t1=t1, enable_vectorize=vec, lenght_approx_ndiv=n, **kw)
    return c, f, t0, t1, n


def proper(q, f, t0, t1, n):
    """no zero-length piece"""
    p = [f(t0 + (t1 - t0) * q.num(f"{k}/{n - 1}")) for k in range(n)]
    L = []
    for k in range(n - 1):
        d = q.np.linalg.norm(p[k + 1] - p[k])
        q.assume(d > (0 if q.symbolic else 1e-4))
        L.append(d)
    return L


@ob("ends", funcs=[CU + "__init__", CU + "__call__", CU + "s2t", CU + "update_lengths"])
def ends(q, m):
    c, f, t0, t1, n = mk(q, m, orient="any")
    proper(q, f, t0, t1, n)
    q.ensure_eq("start", c(0), f(t0))
    q.ensure_eq("end", c(1), f(t1))
    q.ensure_eq("s2t0", c.s2t(0), t0)
    q.ensure_eq("s2t1", c.s2t(1), t1)


@ob("length", funcs=[CU + "update_lengths", CU + "s2t", CU + "t2s"])
def length(q, m):
    """the parameter is proportional to the (polyline) length travelled"""
    c, f, t0, t1, n = mk(q, m, n=q.choice("n", [2, 3, 4]))
    L = proper(q, f, t0, t1, n)
    q.ensure_eq("total", c.length, sum(L))
    acc = 0
    for k in range(1, n - 1):
        acc = acc + L[k - 1]
        tk = t0 + (t1 - t0) * q.num(f"{k}/{n - 1}")
        q.ensure_eq(f"node{k}", c.s2t(acc / c.length), tk, tol=1e-6)


@ob("monotone", funcs=[CU + "s2t"], paths=600)
def mono(q, m):
    c, f, t0, t1, n = mk(q, m, n=3)
    proper(q, f, t0, t1, n)
    a, b = q.real("a"), q.real("b")
    q.assume(a < b)
    q.ensure("increasing", q.lt(c.s2t(a), c.s2t(b)))


@ob("within", funcs=[CU + "s2t"])
def within(q, m):
    c, f, t0, t1, n = mk(q, m, n=q.choice("n", [2, 3]), orient="any")
    proper(q, f, t0, t1, n)
    s = q.real("s", 0, 1, True, True)
    t = c.s2t(s)
    q.ensure("between", q.le((t - t0) * (t - t1), 0))


@ob("convert", funcs=[CU + "s2t", CU + "t2s"], paths=600)
def convert(q, m):
    c, f, t0, t1, n = mk(q, m, n=q.choice("n", [2, 3]), orient="any")
    proper(q, f, t0, t1, n)
    s = q.real("s", special=(0.0, 1.0, 0.3, 0.7))
    q.ensure_eq("t2s_s2t", c.t2s(c.s2t(s)), s, tol=1e-5)
    t = q.real("t")
    q.ensure_eq("s2t_t2s", c.s2t(c.t2s(t)), t, tol=1e-5)


@ob("arrays", funcs=[CU + "__call__", CU + "s2t", CU + "t2s", "function_generators.vectorize"], paths=600)
def arrays(q, m):
    c, f, t0, t1, n = mk(q, m, n=3)
    proper(q, f, t0, t1, n)
    a, b = q.real("a", special=(0.0, 1.0, 0.4)), q.real("b", special=(0.0, 1.0, 0.6))
    r = c(q.arr([a, b]))
    q.ensure_eq("row0", r[0], c(a))
    q.ensure_eq("row1", r[1], c(b))


@ob("arrays_t2s", funcs=[CU + "t2s"], paths=600)
def arrays2(q, m):
    c, f, t0, t1, n = mk(q, m, n=2, orient="any")
    proper(q, f, t0, t1, n)
    a, b = q.real("a"), q.real("b")
    r = c.t2s(q.arr([a, b]))
    q.ensure_eq("row0", r[0], c.t2s(a))
    q.ensure_eq("row1", r[1], c.t2s(b))


def trimmed(q, m, how, n):
    c, f, t0, t1, n = mk(q, m, n=n)
    proper(q, f, t0, t1, n)
    a, b = q.real("a", 0, 1, True, True), q.real("b", 0, 1, True, True)
    q.assume(a < b)
    if not q.symbolic:
        q.assume(b - a > 1e-3)
    o = m.curve.Curve(f, t0=t0, t1=t1, lenght_approx_ndiv=n)
    ta, tb = o.s2t(a), o.s2t(b)
    if how == "start":
        c.set_start_on(a)
        tb = t1
    elif how == "end":
        c.set_end_on(b)
        ta = t0
    else:
        c.set_start_and_end_on(a, b)
    return c, f, o, ta, tb


for how in ("start", "end", "both"):

    @ob("trim_" + how, funcs=[CU + {"start": "set_start_on", "end": "set_end_on", "both": "set_start_and_end_on"}[how], CU + "update_lengths"], paths=600)
    def trim(q, m, how=how):
        c, f, o, ta, tb = trimmed(q, m, how, 3)
        proper(q, f, ta, tb, 3)
        q.ensure_eq("start", c(0), f(ta))
        q.ensure_eq("end", c(1), f(tb))
        q.ensure_eq("t0", c.s2t(0), ta)
        q.ensure_eq("t1", c.s2t(1), tb)


@ob("trim_backward", funcs=[CU + "set_start_and_end_on", CU + "update_lengths"], paths=600)
def trimback(q, m):
    """an end before the start turns the curve round"""
    c, f, t0, t1, n = mk(q, m, n=2)
    proper(q, f, t0, t1, n)
    a, b = q.real("a", 0, 1, True, True), q.real("b", 0, 1, True, True)
    q.assume(b < a - (0 if q.symbolic else 0.02))
    o = c.copy()
    c.set_start_and_end_on(a, b)
    q.ensure_eq("start", c(0), o(a))
    q.ensure_eq("end", c(1), o(b))
    s = q.real("s", 0, 1, True, True)
    proper(q, f, o.s2t(a), o.s2t(b), 2)
    q.ensure_eq("between", c.s2t(s), o.s2t(a) + s * (o.s2t(b) - o.s2t(a)))


@ob("trim_length", funcs=[CU + "set_start_and_end_on", CU + "update_lengths"])
def trimlen(q, m):
    c, f, o, ta, tb = trimmed(q, m, "both", 2)
    q.ensure_eq("length", c.length, q.np.linalg.norm(f(tb) - f(ta)))
    s = q.real("s", 0, 1, True, True)
    t = c.s2t(s)
    q.ensure("inside", q.le(ta, t))
    q.ensure("inside2", q.le(t, tb))


@ob("cut", funcs=[CU + "cut", CU + "copy"], paths=600)
def cut(q, m):
    c, f, t0, t1, n = mk(q, m, n=3)
    proper(q, f, t0, t1, n)
    s = q.real("s", 0, 1)
    u = q.real("u", 0, 1)
    before, p, L = c(u), c(s), c.length
    ts = c.s2t(s)
    proper(q, f, t0, ts, n)
    proper(q, f, ts, t1, n)
    a, b = c.cut(s)
    q.ensure_eq("a0", a(0), f(t0))
    q.ensure_eq("a1", a(1), p)
    q.ensure_eq("b0", b(0), p)
    q.ensure_eq("b1", b(1), f(t1))
    q.ensure_eq("unchanged", c(u), before)
    q.ensure_eq("unchanged_length", c.length, L)


@ob("reverse", funcs=[CU + "reverse"], paths=600)
def reverse(q, m):
    c, f, t0, t1, n = mk(q, m, n=q.choice("n", [2, 3]), orient="any")
    proper(q, f, t0, t1, n)
    s = q.real("s", special=(0.0, 1.0, 0.25))
    o = c.copy()
    r = c.reverse()
    q.ensure_eq("mirror_parameter", r(s), o(1 - s))
    q.ensure_eq("length", r.length, o.length)
    r.reverse()
    q.ensure_eq("twice", r(s), o(s))


@ob("reverse_t2s", funcs=[CU + "reverse", CU + "t2s"], paths=600)
def reverse_t2s(q, m):
    c, f, t0, t1, n = mk(q, m, n=3)
    proper(q, f, t0, t1, n)
    s = q.real("s", special=(0.0, 1.0, 0.25))
    c.reverse()
    q.ensure_eq("t2s", c.t2s(c.s2t(s)), s, tol=1e-5)


@ob("reverse_trim", funcs=[CU + "reverse", CU + "set_start_and_end_on"], paths=600)
def revtrim(q, m):
    c, f, t0, t1, n = mk(q, m, n=2)
    proper(q, f, t0, t1, n)
    a, b = q.real("a", 0, 1, True, True), q.real("b", 0, 1, True, True)
    q.assume(a < b)
    o = c.copy()
    c.reverse()
    c.set_start_and_end_on(a, b)
    q.ensure_eq("start", c(0), o(1 - a))
    q.ensure_eq("end", c(1), o(1 - b))


@ob("copy", funcs=[CU + "copy"])
def copy_(q, m):
    c, f, t0, t1, n = mk(q, m, n=3)
    proper(q, f, t0, t1, n)
    s = q.real("s", 0, 1, True, True)
    p = c(s)
    d = c.copy()
    q.ensure_eq("same", d(s), p)
    d.set_end_on(q.num("1/2"))
    d.reverse()
    q.ensure_eq("independent", c(s), p)
    q.ensure_eq("end", c(1), f(t1))


@ob("params", funcs=[CU + "__call__", CU + "update_lengths"])
def params(q, m):
    """keyword parameters reach the curve function; inactive curves evaluate too"""
    k = q.real("k")
    a, b = q.vec3("a"), q.vec3("b")
    act = q.bool("active")
    c = m.curve.Curve(lambda t, k=0, z=None: a + b * t + k * z, active=act, params={"k": k, "z": b}, lenght_approx_ndiv=3)
    q.assume(q.np.linalg.norm(b) > (0 if q.symbolic else 1e-3))
    s = q.real("s", 0, 1, True, True)
    q.ensure_eq("value", c(s), a + b * s + k * b, tol=1e-6)


OPS = {"add": "__add__", "sub": "__sub__", "mul": "__mul__", "rmul": "__rmul__", "div": "__truediv__"}
for op in OPS:

    @ob("arith_" + op, funcs=[CU + OPS[op]])
    def arith(q, m, op=op):
        on_c, on_d = q.bool("on_c") if op in ("add", "sub") else True, q.bool("on_d")
        c = m.curve.LineCurve(q.vec3("p0"), q.vec3("p1"), active=on_c)
        t0, w = q.real("t0"), q.pos("w")
        d = m.curve.LineCurve(q.vec3("p2"), q.vec3("p3"), active=on_d)
        d.set_start_and_end_on(t0, t0 + w)
        k = q.real("k")
        q.assume(abs(k) > (0 if q.symbolic else 1e-3))
        v = {
            "add": lambda s: c(s) + d(s),
            "sub": lambda s: c(s) - d(s),
            "mul": lambda s: d(s) * k,
            "rmul": lambda s: d(s) * k,
            "div": lambda s: d(s) / k,
        }[op]
        D = v(1) - v(0)
        q.assume(q.np.linalg.norm(D) > (0 if q.symbolic else 1e-3))
        r = {"add": lambda: c + d, "sub": lambda: c - d, "mul": lambda: d * k, "rmul": lambda: k * d, "div": lambda: d / k}[op]()
        q.ensure("active with its operands", bool(r.active) == (on_c and on_d))
        if not (on_c and on_d):
            q.ensure_eq("start though inactive", r(0), v(0))
            q.ensure_eq("end though inactive", r(1), v(1))
            return
        q.ensure_eq("start", r(0), v(0))
        q.ensure_eq("end", r(1), v(1))
        q.ensure_eq("length", r.length, q.np.linalg.norm(D))
        q.ensure_eq("quarter", r(q.num("1/4")), v(q.num("1/4")), tol=1e-6)


@ob("derivative", funcs=[CU + "derivative"])
def deriv(q, m):
    """numerical derivative of a curve that is a parabola / a line in its parameter"""
    p0, p1 = q.vec3("p0"), q.vec3("p1")
    s = q.real("s", 0, 1)
    line = m.curve.LineCurve(p0, p1)
    di = q.choice("dir", [-1, 0, 1])
    h = q.pos("h")
    if not q.symbolic:
        h = 1e-3
    q.ensure_eq("line", line.derivative(s, direction=di, delta=h), p1 - p0, tol=1e-5)
    q.ensure_eq("line2", line.derivative(s, direction=di, n=2, delta=h), q.arr([0, 0, 0]), tol=1e-4)


@ob("derivative_order", funcs=[CU + "derivative"])
def deriv2(q, m):
    f = q.fn3("f")
    c = m.curve.Curve(f, active=False)
    s, h = q.real("s", 0, 1), q.num("1/1000")
    d1 = lambda x: (c(x + h) - c(x - h)) / (2 * h)
    q.ensure_eq("first", c.derivative(s, 0, 1, h), d1(s), tol=1e-5)
    q.ensure_eq("second", c.derivative(s, 0, 2, h), (d1(s + h) - d1(s - h)) / (2 * h), tol=1e-4)
    q.ensure_eq("forward", c.derivative(s, 1, 1, h), (c(s + h) - c(s)) / h, tol=1e-5)
    q.ensure_eq("backward", c.derivative(s, -1, 1, h), (c(s) - c(s - h)) / h, tol=1e-5)


@ob("closed", funcs=[CU + "is_closed"])
def closed(q, m):
    f = q.fn3("f")
    c = m.curve.Curve(f, lenght_approx_ndiv=2)
    d = q.np.linalg.norm(f(0) - f(1))
    q.ensure("closed", bool(c.is_closed) == bool(d < m.defs.DELTA / 100))
    g = m.curve.Curve(lambda t: q.arr([t * (1 - t), 0, 0]) + f(0), lenght_approx_ndiv=3)
    q.ensure("closed_loop", bool(g.is_closed))
