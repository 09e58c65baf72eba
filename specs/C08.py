"""C08 conversion to rational splines keeps the geometry: lines and arcs exactly,
everything else at its ends; joints, mirror symmetry and source curves preserved."""
from engine.api import ob

CU = "curve."


def quick_len(q, m):
    """contract of Curve.update_lengths (decided in C03): positive length, parameter ends mapped to t_0, t_1"""
    if not q.symbolic:
        return

    def f(self):
        self.length = q.fresh_pos("len") if hasattr(q, "fresh_pos") else 1
        self.t2s_lookup["s"] = q.arr([0, 1])
        self.t2s_lookup["t"] = q.arr([self.t_0, self.t_1])

    q.stub(m.curve.Curve, "update_lengths", f)


def pts(q, n, name="P"):
    return q.np.stack([q.vec3(f"{name}{i}") for i in range(n)])


def wts(q, n, name="w"):
    return q.arr([q.pos(f"{name}{i}", lo=0.3, hi=3) if False else q.pos(f"{name}{i}") for i in range(n)])


def bez(q, m, n, name):
    return m.curve.NurbCurve(pts(q, n, name + "P"), wts(q, n, name + "w"))


def at(m, c, t):
    return m.fg.nurbezier(t, c.points, c.weights)


@ob("layout", funcs=[CU + "NURBSCurve.points", CU + "NURBSCurve.weights", CU + "NURBSCurve.knots", CU + "NURBSCurve.from_points", CU + "NURBSCurve.n_points", CU + "NurbCurve.n_points"])
def layout(q, m):
    quick_len(q, m)
    P, w = pts(q, 6), wts(q, 6)
    knots = q.choice("knots", [(0, 2, 5), (0, 3, 4, 5), (0, 5), (0, 1, 2, 5)])
    c = m.curve.NURBSCurve.from_points(P * 1, list(knots), weights=w * 1)
    q.ensure_eq("points", c.points, P)
    q.ensure_eq("weights", c.weights, w)
    q.ensure("pieces", len(c.curves) == len(knots) - 1)
    for i in range(len(knots)):
        q.ensure("knot", int(c.knots[i]) == knots[i])
    for i, x in enumerate(c.curves):
        q.ensure_eq(f"piece{i}", x.points, P[knots[i]:knots[i + 1] + 1])
        q.ensure_eq(f"weight{i}", x.weights, w[knots[i]:knots[i + 1] + 1])
    q.ensure_eq("start", c(0), P[0])
    q.ensure_eq("end", c(1), P[5])
    N = pts(q, 6, "N")
    c.points = N * 1
    q.ensure_eq("set", c.points, N)
    for i, x in enumerate(c.curves):
        q.ensure_eq(f"set{i}", x.points, N[knots[i]:knots[i + 1] + 1])
    q.ensure_eq("weights kept", c.weights, w)
    d = m.curve.NURBSCurve.from_points(P * 1, list(knots))
    q.ensure_eq("unit weights", d.weights, w * 0 + 1)
    try:
        c.points = N[:5]
        q.ensure("shape checked", False)
    except ValueError:
        pass


@ob("join", funcs=[CU + "NURBSCurve.enforce_continuity"])
def join(q, m):
    """pieces meet at the middle of the two ends, nothing else moves"""
    quick_len(q, m)
    a, b, c = bez(q, m, 3, "a"), bez(q, m, 2, "b"), bez(q, m, 3, "c")
    A, B, C = a.points * 1, b.points * 1, c.points * 1
    if q.symbolic:
        q.assume((C[2] - A[0])[0] > 1)
    n = m.curve.NURBSCurve(a, b, c)
    n.enforce_continuity()
    q.ensure_eq("ab", a.points[2], (A[2] + B[0]) / 2)
    q.ensure_eq("ab2", b.points[0], (A[2] + B[0]) / 2)
    q.ensure_eq("bc", b.points[1], (B[1] + C[0]) / 2)
    q.ensure_eq("bc2", c.points[0], (B[1] + C[0]) / 2)
    q.ensure_eq("a", a.points[:2], A[:2])
    q.ensure_eq("c", c.points[1:], C[1:])
    q.ensure_eq("wab", a.weights[2], b.weights[0])


@ob("join_closed", funcs=[CU + "NURBSCurve.enforce_continuity"])
def joinc(q, m):
    quick_len(q, m)
    a, b = bez(q, m, 3, "a"), bez(q, m, 3, "b")
    b.points[2] = a.points[0]
    b.points[0] = a.points[2]
    n = m.curve.NURBSCurve(a, b)
    A, B = a.points * 1, b.points * 1
    n.enforce_continuity()
    q.ensure_eq("A", a.points, A)
    q.ensure_eq("B", b.points, B)
    q.ensure_eq("w join", a.weights[2], b.weights[0])
    q.ensure_eq("w close", b.weights[2], a.weights[0])


@ob("transform", funcs=[CU + "NurbCurve.apply_transform", CU + "NURBSCurve.apply_transform"])
def transf(q, m):
    quick_len(q, m)
    a, b = bez(q, m, 3, "a"), bez(q, m, 2, "b")
    R, s, c = q.rot("R"), q.pos("s"), q.vec3("c")
    T = m.base.Transform(center=c, orientation=R, scale=s)
    t = q.real("t", 0, 1, True, True)
    n = m.curve.NURBSCurve(a, b)
    pa, pb = at(m, a, t), at(m, b, t)
    r = n.apply_transform(T)
    q.ensure("returns itself", r is n)
    q.ensure_eq("piece a", at(m, n.curves[0], t), (R @ pa) * s + c)
    q.ensure_eq("piece b", at(m, n.curves[1], t), (R @ pb) * s + c)


@ob("lengths_follow", funcs=[CU + "NurbCurve.apply_transform", CU + "NURBSCurve.points", CU + "NURBSCurve.enforce_continuity"], sym=False, samples=40)
def lf(q, m):
    a, b = bez(q, m, 3, "a"), bez(q, m, 4, "b")
    n = m.curve.NURBSCurve(a, b)
    s = q.pos("s")
    what = q.choice("what", ["scale", "set", "join"])
    L = n.length
    if what == "scale":
        n.apply_transform(lambda p: p * s)
        q.ensure_eq("scaled", n.length, L * s)
    elif what == "set":
        n.points = n.points * s
    else:
        n.enforce_continuity()
    L1 = n.length
    for c in n.curves:
        c.update_lengths()
    q.ensure_eq("current", L1, n.length)


@ob("reverse", funcs=[CU + "NurbCurve.reverse"])
def rev(q, m):
    quick_len(q, m)
    k = q.choice("k", [2, 3, 4])
    a = bez(q, m, k, "a")
    t = q.real("t", 0, 1, True, True)
    x = at(m, a, t)
    p0, p1 = a(0), a(1)
    r = a.reverse()
    q.ensure_eq("traversal", at(m, r, 1 - t), x)
    q.ensure_eq("start", r(0), p1)
    q.ensure_eq("end", r(1), p0)


@ob("line", funcs=[CU + "convert_curve_nurbezier"])
def line(q, m):
    quick_len(q, m)
    p, r = q.vec3("p"), q.vec3("r")
    d = r - p
    q.assume(d @ d > (0 if q.symbolic else 1e-4))
    l = m.curve.LineCurve(p0=p, p1=r)
    trim = q.choice("trim", [False, True])
    p0, p1 = p, r
    if trim:
        a = q.real("a", 0, 1)
        b = q.real("b", 0, 1)
        q.assume(a + q.num("1/100") < b)
        l.set_start_and_end_on(a, b)
        p0, p1 = p + d * a, p + d * b
    if q.choice("rev", [False, True]):
        l.reverse()
        p0, p1 = p1, p0
    n = m.curve.convert_curve_nurbezier(l)
    t = q.real("t", 0, 1, True, True)
    q.ensure_eq("point", at(m, n, t), p0 + (p1 - p0) * t)
    q.ensure("active", n.active)
    q.ensure("two", n.n_points == 2)


@ob("arc", funcs=[CU + "convert_curve_nurbezier", "function_generators.calc_nurbezier_arc"], seconds=90)
def arc(q, m):
    """arcs shorter than a half turn are represented exactly, swept the right way"""
    quick_len(q, m)
    c, R, r = q.vec3("c"), q.rot("R"), q.pos("r")
    sg = q.choice("sign", [1, -1])
    th = q.real("th", 0, q.pi) * sg
    q.assume(th * sg < q.pi - q.num("1/100"))
    q.assume(th * sg > q.num("1/100"))
    if q.symbolic:
        q.nonneg_hint(r)
        q.nonneg_hint(r * r * q.np.sin(th * sg))
        q.nonneg_hint(r * q.np.cos(th * sg / 2))
        q.angle_hint(th * sg)
    p0 = c + R @ q.arr([r, 0, 0])
    if q.bool("trimmed or extended"):
        k = q.real("k", lo=0.3, hi=3)
        a = mkarc(q, m, c, R, r, th * k)
        a.set_end_on(1 / k)
    else:
        a = mkarc(q, m, c, R, r, th)
    q.ensure_eq("arc start", a(0), p0)
    n = m.curve.convert_curve_nurbezier(a)
    t = q.real("t", 0, 1, True, True)
    d = at(m, n, t) - c
    q.ensure("three", n.n_points == 3)
    q.ensure_eq("on circle", d @ d, r * r)
    q.ensure_eq("in plane", d @ (R @ q.arr([0, 0, 1])), 0)
    q.ensure_eq("start", at(m, n, 0), p0)
    q.ensure_eq("end", at(m, n, 1), c + R @ q.arr([r * q.np.cos(th), r * q.np.sin(th), 0]))
    q.ensure_eq("middle", at(m, n, q.num("1/2")), c + R @ q.arr([r * q.np.cos(th / 2), r * q.np.sin(th / 2), 0]))


def mkarc(q, m, c, R, r, th):
    if q.symbolic:
        a = m.curve.ArcCurve(radius=r, angle=th, center=c)
        a._rotmat = R
        try:
            a.rotmat = R
        except Exception:
            pass
        a.update_lengths()
        return a
    import numpy as np
    from scipy.spatial.transform import Rotation
    y = Rotation.from_matrix(np.array(R, float)).as_euler("xyz")
    a = m.curve.ArcCurve(radius=r, angle=th, center=c)
    a.rotmat = R
    return a


@ob("arc_long", funcs=[CU + "convert_curve_nurbezier", CU + "fit_nurb_optim", CU + "fit_nurb_points"], seconds=90, samples=12)
def arcl(q, m):
    """arcs of a half turn and more keep their ends"""
    quick_len(q, m)
    r = q.pos("r")
    c = q.vec3("c")
    th = q.real("th", q.pi, 2 * q.pi - q.num("1/10"), True, True) * q.choice("sign", [1, -1])
    if q.bool("extended"):
        k = q.real("k", lo=0.3, hi=1.5)
        a = m.curve.ArcCurve(radius=r, angle=th * k, center=c)
        a.set_end_on(1 / k)
    else:
        a = m.curve.ArcCurve(radius=r, angle=th, center=c)
    n = m.curve.convert_curve_nurbezier(a)
    if not q.symbolic:
        d = at(m, n, 0.5) - (c + q.arr([r * q.np.cos(th / 2), r * q.np.sin(th / 2), 0]))
        q.ensure("middle", float(d @ d) < 0.01 * r * r)
    q.ensure_eq("start", n.points[0], c + q.arr([r, 0, 0]))
    q.ensure_eq("end", n.points[-1], c + q.arr([r * q.np.cos(th), r * q.np.sin(th), 0]))
    q.ensure_eq("w0", n.weights[0], 1)
    q.ensure_eq("w1", n.weights[-1], 1)


def smooth(q, m):
    """an arbitrary curve: uninterpreted when proving, an arc of an involute-like spiral when sampling"""
    if q.symbolic:
        f = q.fn3("curve")
        return m.curve.Curve(f, t0=0, t1=1, enable_vectorize=True), f
    import numpy as np
    A, B, C = q.vec3("A"), q.vec3("B"), q.vec3("C")
    w = q.real("w", 0.3, 1.2)

    def f(t):
        return np.array(A) + np.array(B) * np.cos(w * t) + np.array(C) * t

    return m.curve.Curve(f, t0=0, t1=1, enable_vectorize=True), f


@ob("fit_ends", funcs=[CU + "convert_curve_nurbezier", CU + "fit_nurb_optim", CU + "fit_nurb_points"], seconds=90, samples=10)
def fite(q, m):
    """whatever the optimiser returns, an approximated curve starts and ends exactly where the original does"""
    quick_len(q, m)
    c, f = smooth(q, m)
    if q.choice("trim", [False, True]):
        c.set_start_and_end_on(q.num("1/4"), q.num("3/4"))
    if q.choice("rev", [False, True]):
        c.reverse()
    k = q.choice("k", [3, 4, 5])
    if q.symbolic:
        q.stub(m.curve, "fit_bezier_hermite_quadratic", lambda cc: q.np.stack([q.vec3(f"h{i}") for i in range(3)]))
        q.stub(m.curve, "fit_bezier_hermite_cubic", lambda cc: q.np.stack([q.vec3(f"h{i}") for i in range(4)]))
    a, b = c(0) * 1, c(1) * 1
    n = m.curve.convert_curve_nurbezier(c, n_points=k)
    q.ensure("count", n.n_points == k)
    q.ensure_eq("start", n.points[0], a)
    q.ensure_eq("end", n.points[-1], b)
    q.ensure_eq("w0", n.weights[0], 1)
    q.ensure_eq("w1", n.weights[-1], 1)
    q.ensure_eq("eval start", n(0), a)
    q.ensure_eq("eval end", n(1), b)
    q.ensure_eq("source start", c(0), a)
    q.ensure_eq("source end", c(1), b)


@ob("fit_hermite", funcs=[CU + "fit_bezier_hermite_cubic", CU + "fit_bezier_hermite_quadratic"], sym=False, samples=30)
def fith(q, m):
    c, f = smooth(q, m)
    import numpy as np
    p = m.curve.fit_bezier_hermite_cubic(c)
    q.ensure_eq("start", p[0], c(0))
    q.ensure_eq("end", p[-1], c(1))
    q.ensure_eq("t0", (p[1] - p[0]) * 3, c.derivative(0), tol=3e-2)
    q.ensure_eq("t1", (p[3] - p[2]) * 3, c.derivative(1), tol=3e-2)


@ob("fit_accuracy", funcs=[CU + "fit_nurb_optim", CU + "fit_nurb_points"], sym=False, samples=16)
def fita(q, m):
    """bounded: smooth curves of moderate turning are reproduced within 1% of their length"""
    import numpy as np
    r = q.real("r", 0.5, 4)
    a = q.real("a", 0, 0.3)
    b = q.real("b", 0.5, 0.9)
    c = m.curve.InvoluteCurve(r=r, t0=a, t1=b, angle=q.angle("g"))
    k = q.choice("k", [3, 4, 5])
    n = m.curve.convert_curve_nurbezier(c, n_points=k, samp_ratio=q.choice("sr", [2, 3]))
    s = np.linspace(0, 1, 25)
    A = n(np.linspace(0, 1, 200))
    err = max(np.min(np.linalg.norm(A - p, axis=1)) for p in c(s))
    q.ensure("close", bool(err < 1.2e-2 * c.length))


@ob("chain", funcs=[CU + "convert_curve_nurbezier"], seconds=60)
def chain(q, m):
    """a chain becomes the chain of its converted active pieces, in order"""
    quick_len(q, m)
    P = [q.vec3(f"p{k}") for k in range(4)]
    for k in range(3):
        d = P[k + 1] - P[k]
        q.assume(d @ d > (0 if q.symbolic else 1e-3))
    act = q.choice("act", [(1, 1, 1), (1, 0, 1), (0, 1, 1), (1, 1, 0)])
    cs = [m.curve.LineCurve(P[k], P[k + 1], active=bool(act[k])) for k in range(3)]
    nested = q.choice("nested", [False, True])
    src = m.curve.CurveChain(m.curve.CurveChain(cs[0], cs[1]), cs[2]) if nested else m.curve.CurveChain(*cs)
    n = m.curve.convert_curve_nurbezier(src)
    keep = [k for k in range(3) if act[k]]
    flat = n.get_curves()
    q.ensure("pieces", len(flat) == len(keep))
    for i, k in enumerate(keep):
        q.ensure_eq(f"s{i}", flat[i].points[0], P[k])
        q.ensure_eq(f"e{i}", flat[i].points[-1], P[k + 1])
    full = m.curve.convert_curve_nurbezier(src, skip_inactive=False)
    flat = full.get_curves()
    q.ensure("kept", len(flat) == 3)
    for k in range(3):
        q.ensure("status", bool(flat[k].active) == bool(act[k]))
        q.ensure_eq(f"kept start {k}", flat[k].points[0], P[k])


@ob("transformed", funcs=[CU + "convert_curve_nurbezier"], seconds=60)
def transformed(q, m):
    """mirrored / rotated curves convert to the image of what they show, trimming and direction included,
    and the curve they were made from is left alone"""
    quick_len(q, m)
    p, r = q.vec3("p"), q.vec3("r")
    d = r - p
    q.assume(d @ d > (0 if q.symbolic else 1e-3))
    src = m.curve.LineCurve(p0=p, p1=r)
    base = q.choice("base", ["line", "nurb", "chain"])
    if base == "nurb":
        src = m.curve.NurbCurve(q.np.stack([p, r]), q.arr([1, 1]))
    elif base == "chain":
        src = m.curve.CurveChain(src)
    kind = q.choice("kind", ["mirror", "rotate", "shift"])
    if kind == "shift":
        v, k = q.vec3("v"), q.pos("k")
        c = m.curve.TransformedCurve(lambda x, by, times=1: x * times + by, src, params={"by": v, "times": k})
        img = lambda x: x * k + v
    elif kind == "mirror":
        c = m.curve.MirroredCurve(src, plane_normal=q.arr([0, 1, 0]))
        img = lambda x: x * q.arr([1, -1, 1])
    else:
        ang = q.angle("ang")
        c = m.curve.RotatedCurve(src, angle=ang, axis=q.arr([0, 0, 1]))
        img = lambda x: q.rotz(ang) @ x
    a, b = q.num("0"), q.num("1")
    if base != "nurb" and q.choice("trim", [False, True]):
        a, b = q.num("1/4"), q.num("3/4")
        c.set_start_and_end_on(a, b)
    if q.choice("rev", [False, True]):
        c.reverse()
        a, b = b, a
    n = m.curve.convert_curve_nurbezier(c)
    q.ensure_eq("start", n(0), img(p + d * a))
    q.ensure_eq("end", n(1), img(p + d * b))
    q.ensure_eq("source start", src(0), p)
    q.ensure_eq("source end", src(1), r)
    q.ensure_eq("view start", c(0), img(p + d * a))
    q.ensure_eq("view end", c(1), img(p + d * b))


for fast in (True, False):

    @ob("surface_fast" if fast else "surface_full", funcs=["gggears_convert.GearToNurbs." + ("solve_surface_fast" if fast else "solve_surface")], seconds=90, samples=6)
    def surf(q, m, fast=fast):
        """whatever the optimiser returns, the first and last slice are hit exactly"""
        mm = q.choice("m", [3, 4])
        o = q.choice("o", [5, 6])
        n = 2
        tgt = q.arr([[[q.real(f"x{i}{j}{k}", -3, 3) if k < 3 else q.pos(f"x{i}{j}{k}") for k in range(4)] for j in range(n)] for i in range(o)]) if q.symbolic else smooth_target(q, o, n)
        g = q.partial(m.convert.GearToNurbs)
        r = g.solve_surface_fast(tgt, n_points_vert=mm) if fast else g.solve_surface(tgt, n_points_vert=mm)
        P, w = r[1], r[2]
        q.ensure("shape", tuple(P.shape) == (mm, n, 3))
        q.ensure_eq("first", P[0], tgt[0, :, :3])
        q.ensure_eq("last", P[-1], tgt[-1, :, :3])
        q.ensure_eq("wfirst", w[0], tgt[0, :, 3])
        q.ensure_eq("wlast", w[-1], tgt[-1, :, 3])
        if not q.symbolic:
            import numpy as np
            t = np.linspace(0, 1, o) if fast else np.concatenate([[0], r[3], [1]])
            full = np.concatenate([P, w[:, :, None]], axis=2).reshape(mm, -1)
            rec = m.fg.bezierdc(t, full).reshape(o, n, 4)
            q.ensure("interior follows", bool(np.max(np.abs(rec - tgt)) < 0.05))


def smooth_target(q, o, n):
    import numpy as np
    a = q.vec("a", n * 4)
    b = q.vec("b", n * 4)
    t = np.linspace(0, 1, o)[:, None]
    return (np.array(a) + np.array(b) * 0.2 * t + 0.1 * np.array(a) * t * t).reshape(o, n, 4)


@ob("patches", funcs=["gggears_convert.NurbSurfaceData.get_patches"])
def patches(q, m):
    kn = q.choice("knots", [(0, 2, 4), (0, 1, 3, 4), (0, 4)])
    P = q.arr([[[q.real(f"x{i}{j}{k}") for k in range(3)] for j in range(5)] for i in range(2)])
    w = q.arr([[q.pos(f"w{i}{j}") for j in range(5)] for i in range(2)])
    d = m.convert.NurbSurfaceData(points=P, weights=w, knots=q.np.array(list(kn)) if not q.symbolic else list(kn))
    ps = list(d.get_patches())
    q.ensure("count", len(ps) == len(kn) - 1)
    for i, p in enumerate(ps):
        q.ensure_eq(f"pts{i}", p["points"], P[:, kn[i]:kn[i + 1] + 1])
        q.ensure_eq(f"w{i}", p["weights"], w[:, kn[i]:kn[i + 1] + 1])


NAMES = ["ra_curve", "rd_curve", "ro_curve", "ro_connector_0", "ro_connector_1", "ro_connector_2", "rd_connector", "ra_connector", "ro_curve_tooth", "ro_curve_dedendum", "tooth_centerline"]


@ob("profile", funcs=["gggears_convert.gearprofile_to_nurb"], seconds=90)
def profile(q, m):
    """every segment of the converted tooth profile is the placed segment; the second flank is the
    mirror image of the first, traversed the other way"""
    quick_len(q, m)
    ext = q.choice("extended", [True, False])
    tr = m.base.GearTransform(center=q.vec3("c"), orientation=q.rot("R"), scale=q.pos("s"), angle=q.angle("al"))

    def ln(name):
        a, b = q.vec3(name + "a"), q.vec3(name + "b")
        e = b - a
        q.assume(e @ e > (0 if q.symbolic else 1e-3))
        return a, b, m.curve.LineCurve(p0=a, p1=b)

    a, b, l0 = ln("t0")
    c = q.vec3("t1b")
    e = c - b
    q.assume(e @ e > (0 if q.symbolic else 1e-3))
    tooth = m.curve.CurveChain(l0, m.curve.LineCurve(p0=b, p1=c))
    mir = m.curve.MirroredCurve(tooth, plane_normal=q.arr([0, 1, 0]))
    mir.reverse()
    segs = {k: ln(k) for k in (NAMES if ext else NAMES[:3])}
    kw = {k: v[2] for k, v in segs.items()}
    cls = m.core.GearRefProfileExtended if ext else m.core.GearRefProfile
    pr = cls(tooth_curve=tooth, tooth_curve_mirror=mir, pitch_angle=q.real("pa", 0, 1), transform=tr, **kw)
    n = m.convert.gearprofile_to_nurb(pr)
    for k, (x, y, _) in segs.items():
        cu = getattr(n, k)
        q.ensure_eq(k + " start", cu(0), tr(x))
        q.ensure_eq(k + " end", cu(1), tr(y))
    T = n.tooth_curve
    M = n.tooth_curve_mirror
    my = q.arr([1, -1, 1])
    q.ensure_eq("tooth", T.points, q.np.stack([tr(a), tr(b), tr(c)]))
    q.ensure_eq("mirror start", M(0), tr(c * my))
    q.ensure_eq("mirror mid", M.curves[0](1), tr(b * my))
    q.ensure_eq("mirror end", M(1), tr(a * my))
    q.ensure_eq("tooth start", T(0), tr(a))
    q.ensure_eq("tooth end", T(1), tr(c))
    q.ensure_eq("source", tooth(0), a)
    q.ensure_eq("placement", n.transform(a), a)
