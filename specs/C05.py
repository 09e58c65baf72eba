"""C05 straight, circular, mirrored, rotated and transformed curves."""
from engine.api import ob

A = "curve.ArcCurve."


def small(q):
    return 0 if q.symbolic else 1e-2


def line_trans(q, m):
    """a rigid motion with uniform scale, as a callable"""
    sc = q.pos("sc")
    return m.base.Transform(center=q.vec3("tc"), orientation=q.rot("tR"), scale=sc), sc


@ob("line", funcs=["curve.LineCurve.__init__", "curve.LineCurve.line_func", "curve.LineCurve.update_lengths"])
def line(q, m):
    p, r = q.vec3("p"), q.vec3("r")
    c = m.curve.LineCurve(p, r)
    s, u = q.real("s", special=(0.0, 1.0, 0.5)), q.real("u")
    q.ensure_eq("point", c(s), p + s * (r - p))
    q.ensure_eq("length", c.length, q.np.linalg.norm(r - p))
    rows = c(q.arr([s, u]))
    q.ensure_eq("row0", rows[0], c(s))
    q.ensure_eq("row1", rows[1], c(u))


@ob("line_trim", funcs=["curve.LineCurve.update_lengths", "curve.Curve.set_start_and_end_on"])
def linetrim(q, m):
    p, r = q.vec3("p"), q.vec3("r")
    c = m.curve.LineCurve(p, r)
    a, b = q.real("a"), q.real("b")
    q.assume(a < b)
    s = q.real("s", 0, 1, True, True)
    c.set_start_and_end_on(a, b)
    q.ensure_eq("point", c(s), p + (a + s * (b - a)) * (r - p))
    q.ensure_eq("length", c.length, (b - a) * q.np.linalg.norm(r - p))
    q.ensure_eq("param", c.t2s(a + s * (b - a)), s, tol=1e-5)


@ob("line_transform", funcs=["curve.LineCurve.transform"])
def linetr(q, m):
    p, r = q.vec3("p"), q.vec3("r")
    T, sc = line_trans(q, m)
    c = m.curve.LineCurve(p, r)
    a, w = 0, 1
    if q.bool("trimmed"):
        a, w = q.real("a", lo=-1, hi=1), q.real("w", lo=0.1, hi=2)
        c.set_start_and_end_on(a, a + w)
    d = c.transform(T)
    s = q.real("s", 0, 1, True, True)
    q.ensure_eq("point", d(s), T(c(s)))
    q.ensure_eq("original", c(s), p + (a + s * w) * (r - p))
    q.ensure("active", m.curve.LineCurve(p, r, active=False).transform(T).active is False)


def arc(q, m):
    r = q.pos("rad")
    ang = q.real("ang", -2 * q.pi, 2 * q.pi)
    if not q.symbolic:
        q.assume(abs(ang) > 1e-2)
    ctr = q.vec3("ctr")
    y, p, ro = q.angle("yaw"), q.angle("pitch"), q.angle("roll")
    return m.curve.ArcCurve(radius=r, angle=ang, center=ctr, yaw=y, pitch=p, roll=ro), r, ang, ctr


@ob("arc", funcs=[A + "__init__", A + "gen_rotmat", A + "arcfunc", A + "axis", A + "p0", A + "p1", A + "radius", A + "center", A + "angle", A + "r", A + "curvature"])
def arcs(q, m):
    """every point lies on the stated circle, and the arc sweeps its angle uniformly"""
    c, r, ang, ctr = arc(q, m)
    s, u = q.real("s", 0, 1, True, True), q.real("u", 0, 1, True, True)
    d = c(s) - ctr
    q.ensure_eq("radius", d @ d, r * r)
    q.ensure_eq("plane", d @ c.axis, 0)
    d0 = c(0) - ctr
    th = ang * s
    q.ensure_eq("sweep", d, q.np.cos(th) * d0 + q.np.sin(th) * q.np.cross(c.axis, d0))
    rows = c(q.arr([s, u]))
    q.ensure_eq("row0", rows[0], c(s))
    q.ensure_eq("row1", rows[1], c(u))
    q.ensure_eq("p0", c.p0, c(0))
    q.ensure_eq("p1", c.p1, c(1))
    q.ensure_eq("reported", q.arr([c.radius, c.r, c.angle, c.curvature * r]), q.arr([r, r, ang, 1]))
    q.ensure_eq("unit_axis", c.axis @ c.axis, 1)


@ob("arc_length", funcs=[A + "update_lengths"])
def arclen(q, m):
    c, r, ang, ctr = arc(q, m)
    q.ensure_eq("length", c.length, r * abs(ang))
    o = c.copy()
    a, b = q.real("a", 0, 1, True, True), q.real("b", 0, 1, True, True)
    q.assume(a < b)
    c.set_start_and_end_on(a, b)
    q.ensure_eq("trimmed_length", c.length, r * abs(ang) * (b - a))
    s = q.real("s", 0, 1, True, True)
    q.ensure_eq("trimmed_point", c(s), o(a + s * (b - a)))
    o2 = c.copy()
    c.reverse()
    q.ensure_eq("reversed_point", c(s), o2(1 - s))
    q.ensure_eq("reversed_length", c.length, r * abs(ang) * (b - a))


@ob("arc_rotmat", funcs=[A + "rotmat", A + "gen_rotation_angles"])
def arcrm(q, m):
    c, r, ang, ctr = arc(q, m)
    R = q.rot("R")
    c.rotmat = R
    q.ensure_eq("start", c(0), ctr + r * R @ q.arr([1, 0, 0]), tol=1e-6)
    q.ensure_eq("axis", c.axis, R @ q.arr([0, 0, 1]), tol=1e-6)
    q.ensure_eq("regen", c.gen_rotmat(), R, tol=1e-6)


@ob("arc_2pc", funcs=[A + "from_2_point_center"])
def arc2pc(q, m):
    """from two points and a centre: starts at the first, ends at the second, shorter way"""
    R = q.rot("R")
    r = q.pos("rad")
    if q.symbolic:
        q.nonneg_hint(r)
    th = q.real("th", 0, q.pi)
    if not q.symbolic:
        q.assume(0.05 < th < 3.09)
    else:
        q.nonneg_hint(q.np.sin(th))
        q.nonneg_hint(r * r * q.np.sin(th))
        q.angle_hint(th)
    ctr = q.vec3("ctr")
    p0 = ctr + r * R @ q.arr([1, 0, 0])
    p1 = ctr + r * R @ q.arr([q.np.cos(th), q.np.sin(th), 0])
    c = m.curve.ArcCurve.from_2_point_center(p0=p0, p1=p1, center=ctr)
    q.ensure_eq("start", c(0), p0, tol=1e-6)
    q.ensure_eq("end", c(1), p1, tol=1e-6)
    q.ensure_eq("radius", c.radius, r)
    q.ensure_eq("angle", c.angle, th, tol=1e-6)
    q.ensure_eq("center", c.center, ctr)
    q.ensure_eq("axis", c.axis, R @ q.arr([0, 0, 1]), tol=1e-6)
    c2 = m.curve.ArcCurve.from_2_point_center(p0=p0, p1=p1, center=ctr, revolutions=1)
    q.ensure_eq("revolution", c2.angle, th + 2 * q.pi, tol=1e-6)
    q.ensure("active", m.curve.ArcCurve.from_2_point_center(p0=p0, p1=p1, center=ctr, active=False).active is False)


@ob("arc_pca", funcs=[A + "from_point_center_angle"])
def arcpca(q, m):
    """from a point, centre, angle and axis (any axis not along the radius)"""
    R = q.rot("R")
    r = q.pos("rad")
    k = q.pos("k")
    tilt = q.real("tilt", special=(0.0,))
    ang = q.real("ang", -2 * q.pi, 2 * q.pi)
    if q.symbolic:
        q.nonneg_hint(r)
        q.nonneg_hint(k)
    else:
        q.assume(abs(ang) > 1e-2)
    ctr = q.vec3("ctr")
    p0 = ctr + r * R @ q.arr([1, 0, 0])
    ax = R @ q.arr([tilt, 0, k])
    c = m.curve.ArcCurve.from_point_center_angle(p0=p0, center=ctr, angle=ang, axis=ax)
    s = q.real("s", 0, 1, True, True)
    q.ensure_eq("start", c(0), p0, tol=1e-6)
    q.ensure_eq("point", c(s), ctr + r * R @ q.arr([q.np.cos(ang * s), q.np.sin(ang * s), 0]), tol=1e-6)
    q.ensure_eq("reported", q.arr([c.radius, c.angle]), q.arr([r, ang]))
    q.ensure_eq("center", c.center, ctr)


@ob("arc_2p_curvature", funcs=[A + "from_2_point_curvature"], seconds=60)
def arc2pcurv(q, m):
    """from two points and a curvature: both points on it, radius 1/|curvature|, in the plane normal to the axis"""
    r = q.pos("rad")
    th = q.real("half", 0, q.pi / 2)
    side = q.choice("side", [1, -1])
    R = q.rot("R")
    if q.symbolic:
        q.nonneg_hint(r)
        q.nonneg_hint(q.np.sin(th))
        q.nonneg_hint(q.np.cos(th))
        q.nonneg_hint(r * q.np.sin(th))
        q.nonneg_hint(2 * r * q.np.sin(th))
        q.nonneg_hint(r * q.np.cos(th))
        q.angle_hint(2 * th)
        q.angle_hint(th)
    else:
        q.assume(0.05 < th < 1.5)
    mid = q.vec3("mid")
    h = r * q.np.sin(th)
    p0 = mid - R @ q.arr([h, 0, 0])
    p1 = mid + R @ q.arr([h, 0, 0])
    c = m.curve.ArcCurve.from_2_point_curvature(p0=p0, p1=p1, curvature=side / r, axis=R @ q.arr([0, 0, 1]))
    q.ensure_eq("radius", c.radius, r, tol=1e-6)
    # dp x axis = -y: the centre lies on the +y side for positive curvature
    q.ensure_eq("center", c.center, mid + side * r * q.np.cos(th) * R @ q.arr([0, 1, 0]), tol=1e-6)
    q.ensure_eq("start", c(0), p0, tol=1e-5)
    q.ensure_eq("end", c(1), p1, tol=1e-5)


@ob("arc_2p_toocurved", funcs=[A + "from_2_point_curvature"], seconds=60)
def arc2pc2(q, m):
    """a curvature too large for the chord is reduced to the half circle's"""
    r = q.pos("rad")
    w = q.pos("w")
    q.assume(r * q.num("1.01") < w)
    if q.symbolic:
        q.nonneg_hint(w)
        q.nonneg_hint(2 * w)
    mid = q.vec3("mid")
    R = q.rot("R")
    side = q.choice("side", [1, -1])
    p0, p1 = mid - R @ q.arr([w, 0, 0]), mid + R @ q.arr([w, 0, 0])
    # the half circle's plane is not determined by its three points: only the radius is stated
    seen = {}
    orig = m.curve.ArcCurve.__dict__["from_2_point_center"]
    try:
        m.curve.ArcCurve.from_2_point_center = classmethod(lambda cls, **k: seen.update(k) or k)
        m.curve.ArcCurve.from_2_point_curvature(p0=p0, p1=p1, curvature=side / r, axis=R @ q.arr([0, 0, 1]))
    finally:
        m.curve.ArcCurve.from_2_point_center = orig
    if "center" in seen:
        q.ensure_eq("center", seen["center"], mid, tol=1e-6)


@ob("arc_rca", funcs=[A + "from_radius_center_angle"])
def arcrca(q, m):
    r = q.pos("rad")
    ctr = q.vec3("ctr")
    a0, a1 = q.real("a0", -q.pi, q.pi), q.real("a1", -q.pi, q.pi)
    if not q.symbolic:
        q.assume(abs(a0 - a1) > 1e-2)
    c = m.curve.ArcCurve.from_radius_center_angle(radius=r, center=ctr, angle_start=a0, angle_end=a1)
    s = q.real("s", 0, 1, True, True)
    th = a0 + s * (a1 - a0)
    q.ensure_eq("point", c(s), ctr + r * q.arr([q.np.cos(th), q.np.sin(th), 0]), tol=1e-6)


@ob("arc_rca_axis", funcs=[A + "from_radius_center_angle"], sym=False, samples=120)
def arcrca2(q, m):
    r = q.pos("rad")
    ctr = q.vec3("ctr")
    ax = q.unit3("ax")
    a0, a1 = q.real("a0", -q.pi, q.pi), q.real("a1", -q.pi, q.pi)
    c = m.curve.ArcCurve.from_radius_center_angle(radius=r, center=ctr, angle_start=a0, angle_end=a1, axis=ax)
    s = q.real("s", 0, 1, True, True)
    d, d0 = c(s) - ctr, c(0) - ctr
    q.ensure_eq("radius", d @ d, r * r, tol=1e-6)
    q.ensure_eq("plane", d @ ax, 0, tol=1e-6)
    th = (a1 - a0) * s
    q.ensure_eq("sweep", d, q.np.cos(th) * d0 + q.np.sin(th) * q.np.cross(ax, d0), tol=1e-6)


@ob("arc_transform", funcs=[A + "transform", A + "from_point_center_angle"], seconds=60)
def arctr(q, m):
    """transforming the arc transforms its points"""
    c, r, ang, ctr = arc(q, m)
    T, sc = line_trans(q, m)
    if q.symbolic:
        q.nonneg_hint(r)
        q.nonneg_hint(sc)
        q.nonneg_hint(r * sc)
    w = 1
    if q.bool("trimmed"):
        a, w = q.real("a", lo=-1, hi=1), q.real("w", lo=0.1, hi=1)
        c.set_start_and_end_on(a, a + w)
    d = c.transform(T)
    s = q.real("s", 0, 1, True, True)
    q.ensure_eq("point", d(s), T(c(s)), tol=1e-6)
    q.ensure_eq("angle", d.angle, ang * w)


@ob("mirror", funcs=["curve.MirroredCurve.__init__", "curve.TransformedCurve.apply_transform", "curve.TransformedCurve.__init__"], seconds=60)
def mirror(q, m):
    p, r = q.vec3("p"), q.vec3("r")
    k = q.pos("k")
    R = q.rot("R")
    nrm = R @ q.arr([0, 0, 1])
    if q.symbolic:
        q.nonneg_hint(k)
    ctr = q.vec3("ctr")
    q.assume(q.np.linalg.norm(r - p) > small(q))
    c = m.curve.LineCurve(p, r)
    d = m.curve.MirroredCurve(c, plane_normal=k * nrm, center=ctr)

    def refl(x):
        return x - 2 * ((x - ctr) @ nrm) * nrm

    s = q.choice("s", ["0", "1", "1/4", "3/5"])
    s = q.num(s)
    q.ensure_eq("point", d(s), refl(c(s)), tol=1e-6)
    rows = d(q.arr([s, 1]))
    q.ensure_eq("row0", rows[0], refl(c(s)), tol=1e-6)
    q.ensure_eq("row1", rows[1], refl(r), tol=1e-6)
    x = q.vec3("x")
    q.ensure_eq("involution", d.apply_transform(d.apply_transform(x)), x)
    q.ensure_eq("reflection", d.apply_transform(x), refl(x))
    q.ensure_eq("length", d.length, q.np.linalg.norm(r - p))


@ob("rotate", funcs=["curve.RotatedCurve.__init__", "curve.TransformedCurve.apply_transform"], seconds=60)
def rotate(q, m):
    p, r = q.vec3("p"), q.vec3("r")
    k = q.pos("k")
    R = q.rot("R")
    ax = R @ q.arr([0, 0, 1])
    th = q.real("th", -2 * q.pi, 2 * q.pi)
    if q.symbolic:
        q.nonneg_hint(k)
    ctr = q.vec3("ctr")
    q.assume(q.np.linalg.norm(r - p) > small(q))
    c = m.curve.LineCurve(p, r)
    d = m.curve.RotatedCurve(c, angle=th, axis=k * ax, center=ctr)

    def rot(x):
        return ctr + R @ q.rotz(th) @ R.T @ (x - ctr)

    s = q.num(q.choice("s", ["0", "1", "1/4"]))
    q.ensure_eq("point", d(s), rot(c(s)), tol=1e-6)
    x = q.vec3("x")
    q.ensure_eq("rotation", d.apply_transform(x), rot(x), tol=1e-6)
    both = d.apply_transform(q.np.stack([x, p]))
    q.ensure_eq("rows", both, q.np.stack([rot(x), rot(p)]), tol=1e-6)


@ob("transformed", funcs=["curve.TransformedCurve.__init__", "curve.TransformedCurve.apply_transform"], seconds=60)
def transformed(q, m):
    p, r = q.vec3("p"), q.vec3("r")
    q.assume(q.np.linalg.norm(r - p) > small(q))
    T, sc = line_trans(q, m)
    c = m.curve.LineCurve(p, r)
    d = m.curve.TransformedCurve(T, c)
    s = q.num(q.choice("s", ["0", "1", "1/4"]))
    q.ensure_eq("point", d(s), T(c(s)), tol=1e-6)
    q.ensure_eq("length", d.length, sc * c.length, tol=1e-6)
    o = m.curve.TransformedCurve(T, m.curve.LineCurve(p, r, active=False))
    q.ensure("inactive", o.active is False)
    k = q.real("k")
    e = m.curve.TransformedCurve(lambda x, off=0: x + off, c, params={"off": k})
    q.ensure_eq("params", e(s), c(s) + k, tol=1e-6)
