"""C07 Bezier / rational Bezier evaluation, derivatives, and the exact arc."""
from math import comb
from engine.api import ob

FG = "function_generators."


def bern(q, t, pts):
    """reference: Bernstein form"""
    n = len(pts) - 1
    out = pts[0] * 0
    for k in range(n + 1):
        out = out + pts[k] * comb(n, k) * _pw(t, k) * _pw(1 - t, n - k)
    return out


def dbern(q, t, pts):
    n = len(pts) - 1
    return bern(q, t, [(pts[k + 1] - pts[k]) * n for k in range(n)])


def _pw(x, k):
    r = 1
    for _ in range(k):
        r = r * x
    return r


def inputs(q, n, pos=True):
    P = q.np.stack([q.vec3(f"P{i}") for i in range(n)])
    w = q.arr([q.pos(f"w{i}") for i in range(n)])
    return P, w


for n in (2, 3, 4, 5):

    @ob(f"bezier_{n}", funcs=[FG + "bezier", FG + "bezierdc", FG + "bezier_coeff"])
    def bez(q, m, n=n):
        P, w = inputs(q, n)
        t, u = q.real("t"), q.real("u")
        ref = bern(q, t, P)
        q.ensure_eq("naive", m.fg.bezier(t, P), ref)
        q.ensure_eq("decasteljau", m.fg.bezierdc(t, P), ref)
        both = m.fg.bezierdc(q.arr([t, u]), P)
        q.ensure_eq("array0", both[0], ref)
        q.ensure_eq("array1", both[1], bern(q, u, P))
        q.ensure_eq("start", m.fg.bezierdc(0, P), P[0])
        q.ensure_eq("end", m.fg.bezierdc(1, P), P[n - 1])
        c = m.fg.bezier_coeff(t, n)
        q.ensure_eq("coeff_sum", sum(c[k] for k in range(n)), 1)
        q.ensure_eq("coeff_comb", sum(c[k] * P[k] for k in range(n)), ref)

    @ob(f"nurbezier_{n}", funcs=[FG + "nurbezier"])
    def nbez(q, m, n=n):
        P, w = inputs(q, n)
        t, u = q.real("t", 0, 1, True, True), q.real("u", 0, 1, True, True)
        num = bern(q, t, [P[k] * w[k] for k in range(n)])
        den = bern(q, t, [w[k] for k in range(n)])
        val = m.fg.nurbezier(t, P, w)
        q.ensure_eq("value", val * den, num)
        both = m.fg.nurbezier(q.arr([t, u]), P, w)
        q.ensure_eq("array0", both[0], val)
        q.ensure_eq("array1", both[1], m.fg.nurbezier(u, P, w))
        q.ensure_eq("start", m.fg.nurbezier(0, P, w), P[0])
        q.ensure_eq("end", m.fg.nurbezier(1, P, w), P[n - 1])

    if n <= 4:

        @ob(f"nurb_affine_{n}", funcs=[FG + "nurbezier"])
        def naff(q, m, n=n):
            """affine invariance: transforming the control points transforms the curve"""
            P, w = inputs(q, n)
            t = q.real("t", 0, 1, True, True)
            A = q.np.stack([q.vec3(f"A{i}") for i in range(3)])
            c = q.vec3("c")
            lhs = m.fg.nurbezier(t, P @ A.T + c, w)
            q.ensure_eq("affine", lhs, A @ m.fg.nurbezier(t, P, w) + c)


for n in (3, 4):

    @ob(f"derivative_{n}", funcs=[FG + "bezier_diff_t", FG + "nurbezier_diff_t"])
    def diff(q, m, n=n):
        P, w = inputs(q, n)
        t, u = q.real("t", 0, 1, True, True), q.real("u", 0, 1, True, True)
        q.ensure_eq("poly", m.fg.bezier_diff_t(t, P), dbern(q, t, P))
        d2 = dbern(q, t, [(P[k + 1] - P[k]) * (n - 1) for k in range(n - 1)])
        q.ensure_eq("poly2", m.fg.bezier_diff_t(t, P, 2), d2)
        two = q.arr([t, u])
        q.ensure_eq("poly2 array", m.fg.bezier_diff_t(two, P, 2)[0], d2)
        for k in (n, n + 1):  # beyond the degree
            q.ensure_eq(f"zero {k}", m.fg.bezier_diff_t(t, P, k), q.arr([0, 0, 0]))
            z = m.fg.bezier_diff_t(two, P, k)
            q.ensure("rows", len(z) == 2)
            q.ensure_eq(f"zero array {k}", z[1], q.arr([0, 0, 0]))
        wp = [P[k] * w[k] for k in range(n)]
        ww = [w[k] for k in range(n)]
        W, dW = bern(q, t, ww), dbern(q, t, ww)
        N, dN = bern(q, t, wp), dbern(q, t, wp)
        r = m.fg.nurbezier_diff_t(t, P, w)
        q.ensure_eq("rational", r * W * W, dN * W - N * dW)
        both = m.fg.nurbezier_diff_t(q.arr([t, u]), P, w)
        q.ensure_eq("rational_array0", both[0], r)
        q.ensure_eq("rational_array1", both[1], m.fg.nurbezier_diff_t(u, P, w))

    @ob(f"param_derivatives_{n}", funcs=[FG + "bezier_diff_p", FG + "nurbezier_diff_points", FG + "nurbezier_diff_weights"])
    def pdiff(q, m, n=n):
        P, w = inputs(q, n)
        t = q.real("t", 0, 1, True, True)
        c = [comb(n - 1, k) * _pw(t, k) * _pw(1 - t, n - 1 - k) for k in range(n)]
        W = sum(c[k] * w[k] for k in range(n))
        N = sum(c[k] * w[k] * P[k] for k in range(n))
        bp = m.fg.bezier_diff_p(t, n)
        dp = m.fg.nurbezier_diff_points(t, n, w)
        dw = m.fg.nurbezier_diff_weights(t, P, w)
        for k in range(n):
            q.ensure_eq(f"dP{k}", bp[k], c[k])
            q.ensure_eq(f"rat_dP{k}", dp[k] * W, c[k] * w[k])
            q.ensure_eq(f"rat_dw{k}", dw[k] * W * W, c[k] * P[k] * W - c[k] * N)


@ob("surface", funcs=[FG + "nurbezier_surface", FG + "nurbezier_surface_2"], seconds=60)
def surface(q, m):
    P = q.np.stack([q.np.stack([q.vec3(f"P{i}{j}") for j in range(2)]) for i in range(3)])
    w = q.np.stack([q.arr([q.pos(f"w{i}{j}") for j in range(2)]) for i in range(3)])
    u, v = q.real("u", 0, 1, True, True), q.real("v", 0, 1, True, True)
    cu = [comb(2, k) * _pw(u, k) * _pw(1 - u, 2 - k) for k in range(3)]
    cv = [1 - v, v]
    W = sum(cu[i] * cv[j] * w[i, j] for i in range(3) for j in range(2))
    N = sum(cu[i] * cv[j] * w[i, j] * P[i, j] for i in range(3) for j in range(2))
    q.ensure_eq("value", m.fg.nurbezier_surface(u, v, P, w) * W, N)
    q.ensure_eq("value2", m.fg.nurbezier_surface_2(u, v, P, w) * W, N)


@ob("interp_lerp", funcs=[FG + "lerp", FG + "interpolate", FG + "normalize_vector"])
def interp(q, m):
    a, b = q.vec3("a"), q.vec3("b")
    t = q.real("t")
    r = m.fg.lerp(q.arr([t]), a, b)
    q.ensure_eq("lerp", r[0], a * (1 - t) + b * t)
    x0, x1, y0, y1 = q.real("x0"), q.real("x1"), q.real("y0"), q.real("y1")
    q.assume(x0 != x1)
    q.ensure_eq("x0", m.fg.interpolate(x0, x0, x1, y0, y1), y0)
    q.ensure_eq("x1", m.fg.interpolate(x1, x0, x1, y0, y1), y1)
    x = q.real("x")
    q.ensure_eq("mid", m.fg.interpolate((x0 + x1) / 2, x0, x1, y0, y1), (y0 + y1) / 2)
    q.assume(q.np.linalg.norm(a) > 0)
    nrm = m.fg.normalize_vector(a)
    q.ensure_eq("unit", nrm @ nrm, 1)
    q.ensure_eq("parallel", q.np.cross(nrm, a), q.arr([0, 0, 0]))


@ob("quadratic_interpolation", funcs=[FG + "calc_quadratic_bezier_interp"])
def quad(q, m):
    a, b, c = q.vec3("a"), q.vec3("b"), q.vec3("c")
    P = m.fg.calc_quadratic_bezier_interp(a, b, c)
    q.ensure_eq("start", P[0], a)
    q.ensure_eq("end", P[2], c)
    q.ensure_eq("through", (P[0] + 2 * P[1] + P[2]) / 4, b)


@ob("exact_arc", funcs=[FG + "calc_nurbezier_arc", FG + "angle_between_vectors"], seconds=60)
def arc(q, m):
    """the 3-point rational quadratic is exactly the circle arc through p0 and p2"""
    R = q.rot("R")
    c = q.vec3("c")
    r = q.pos("r")
    th = q.real("th", 0, q.pi)
    t = q.real("t", 0, 1, True, True)
    p0 = c + R @ q.arr([r, 0, 0])
    p2 = c + R @ q.arr([r * q.np.cos(th), r * q.np.sin(th), 0])
    if q.symbolic:
        q.nonneg_hint(r)
        q.nonneg_hint(r * r * q.np.sin(th))
        q.nonneg_hint(r * q.np.cos(th / 2))
        q.angle_hint(th)
    P, w = m.fg.calc_nurbezier_arc(p0, p2, c)
    x = m.fg.nurbezier(t, P, w)
    d = x - c
    q.ensure_eq("on_circle", d @ d, r * r)
    q.ensure_eq("in_plane", d @ (R @ q.arr([0, 0, 1])), 0)
    q.ensure_eq("start", P[0], p0)
    q.ensure_eq("end", P[2], p2)
    # the short way round: middle point is the mid-angle point
    mid = m.fg.nurbezier(q.num("1/2"), P, w) - c
    q.ensure_eq("mid", mid, R @ q.arr([r * q.np.cos(th / 2), r * q.np.sin(th / 2), 0]))
