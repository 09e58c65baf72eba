"""C06 flank curves obey their generating laws (string / rolling / crown gear)."""
from engine.api import ob

FG = "function_generators."


@ob("involute_law", funcs=[FG + "involute_circle"])
def inv(q, m):
    """unwound string: the segment from the tangent point has length r*|t| and touches the
    base circle there; derivative form: the flank tangent is radial at the tangent point"""
    r, t, a, z = q.pos("r"), q.real("t", special=(0.0,)), q.angle("a"), q.real("z")
    p = m.fg.involute_circle(t, r=r, angle=a, z_offs=z)
    c, s = q.np.cos(t + a), q.np.sin(t + a)
    e = q.arr([r * c, r * s, z])
    d = p - e
    q.ensure_eq("tangent", d @ q.arr([c, s, 0]), 0)
    q.ensure_eq("string", d @ q.arr([-s, c, 0]), -r * t)
    q.ensure_eq("height", p[2], z)
    q.ensure_eq("radius", p[0] * p[0] + p[1] * p[1], r * r * (1 + t * t))
    q.ensure_eq("start", m.fg.involute_circle(0, r=r, angle=a), r * q.arr([q.np.cos(a), q.np.sin(a), 0]))


@ob("trochoid", funcs=[FG + "involute_circle"])
def troch(q, m):
    """an offset point travels with the string"""
    r, t, a, z = q.pos("r"), q.real("t"), q.angle("a"), q.real("z")
    v = q.vec3("v")
    p = m.fg.involute_circle(t, r=r, angle=a, v_offs=v, z_offs=z)
    q.ensure_eq("point", p, m.fg.involute_circle(t, r=r, angle=a, z_offs=z) + q.rotz(t + a) @ v)


def sphere(q):
    """sphere radius R, base circle radius r = R sin(b), sign of the side"""
    R = q.pos("R")
    b = q.real("b", 0, q.pi / 2)
    sg = q.choice("sg", [1, -1])
    if q.symbolic:
        for g in (R, q.np.cos(b), q.np.sin(b), R * q.np.cos(b)):
            q.nonneg_hint(g)
        q.angle_hint(b)
    else:
        q.assume(0.02 < b < 1.55)
    return R, b, sg


@ob("spherical_involute_law", funcs=[FG + "involute_sphere"])
def sph(q, m):
    R, b, sg = sphere(q)
    r = R * q.np.sin(b)
    t, a, z = q.real("t", special=(0.0,)), q.angle("a"), q.real("z")
    p = m.fg.involute_sphere(t, r=r, C=sg / R, angle=a, z_offs=z)
    ctr = q.arr([0, 0, sg * R * q.np.cos(b) + z])
    u = p - ctr
    q.ensure_eq("on_sphere", u @ u, R * R, tol=1e-6)
    c, s = q.np.cos(t + a), q.np.sin(t + a)
    e = q.arr([r * c, r * s, z]) - ctr
    tau = q.arr([-s, c, 0])
    phi = q.np.sin(b) * t
    # great circle touching the base circle at e, arc length r*t
    q.ensure_eq("string", u, q.np.cos(phi) * e - q.np.sin(phi) * R * tau, tol=1e-6)
    q.ensure_eq("start", m.fg.involute_sphere(0, r=r, C=sg / R, angle=a), r * q.arr([q.np.cos(a), q.np.sin(a), 0]), tol=1e-6)


@ob("flat_limit", funcs=[FG + "involute_sphere", FG + "cycloid_cone"])
def flat(q, m):
    """zero spherical curvature is the planar curve, all arguments honoured"""
    r, t, a, z = q.pos("r"), q.real("t"), q.angle("a"), q.real("z")
    rc = q.pos("rc")
    v = q.vec3("v")
    q.ensure_eq("involute", m.fg.involute_sphere(t, r=r, C=0, angle=a, v_offs=v, z_offs=z), m.fg.involute_circle(t, r=r, angle=a, v_offs=v, z_offs=z))
    q.ensure_eq("cycloid", m.fg.cycloid_cone(t, rb=r, rc=rc, C=0, angle=a, v_offs=v, z_offs=z), m.fg.cycloid_circle(t, rb=r, rc=rc, angle=a, v_offs=v, z_offs=z))


@ob("flat_limit_continuous", funcs=[FG + "involute_sphere", FG + "cycloid_cone", FG + "octoid"], sym=False, samples=80)
def flat2(q, m):
    """nearly flat spheres give nearly the planar curve"""
    r, t, a = q.pos("r"), q.real("t", -1.5, 1.5), q.angle("a")
    rc = r * q.real("k", 0.1, 0.9)
    C = 1e-6 / r
    q.ensure_eq("involute", m.fg.involute_sphere(t, r=r, C=C, angle=a), m.fg.involute_circle(t, r=r, angle=a), tol=1e-4)
    q.ensure_eq("cycloid", m.fg.cycloid_cone(t, rb=r, rc=rc, C=C, angle=a), m.fg.cycloid_circle(t, rb=r, rc=rc, angle=a), tol=1e-4)


@ob("cycloid_law", funcs=[FG + "cycloid_circle"])
def cyc(q, m):
    """a circle of radius |rc| rolling outside (rc>0) or inside (rc<0) without slipping"""
    rb, k = q.pos("rb"), q.pos("k")
    t, a, z = q.real("t", special=(0.0,)), q.angle("a"), q.real("z")
    rc = q.choice("side", [1, -1]) * k
    p = m.fg.cycloid_circle(t, rb=rb, rc=rc, angle=a, z_offs=z)
    c, s = q.np.cos(t + a), q.np.sin(t + a)
    ctr = (rb + rc) * q.arr([c, s, 0]) + z * q.arr([0, 0, 1])
    u = p - ctr
    q.ensure_eq("on_rolling_circle", u @ u, rc * rc)
    # contact point, and no slip: arc rb*t on the base equals arc on the rolling circle
    w = rb * q.arr([c, s, 0]) + z * q.arr([0, 0, 1]) - ctr
    beta = t * rb / rc
    q.ensure_eq("no_slip", u, q.rotz(beta) @ w)
    q.ensure_eq("start", m.fg.cycloid_circle(0, rb=rb, rc=rc, angle=a), rb * q.arr([q.np.cos(a), q.np.sin(a), 0]))
    v = q.vec3("v")
    q.ensure_eq("offset", m.fg.cycloid_circle(t, rb=rb, rc=rc, angle=a, z_offs=z, v_offs=v), p + q.rotz(t + a + beta) @ v)


@ob("conic_cycloid_law", funcs=[FG + "cycloid_cone"])
def cyccone(q, m):
    R, b, sg = sphere(q)
    g2 = q.real("g2", 0, q.pi / 2)
    if q.symbolic:
        q.angle_hint(g2)
        q.nonneg_hint(q.np.cos(g2))
        q.nonneg_hint(q.np.sin(g2))
    else:
        q.assume(0.02 < g2 < 1.5)
    side = q.choice("side", [1, -1])
    rb, rc = R * q.np.sin(b), side * R * q.np.sin(g2)
    t, a, z = q.real("t"), q.angle("a"), q.real("z")
    p = m.fg.cycloid_cone(t, rb=rb, rc=rc, C=sg / R, angle=a, z_offs=z)
    sc = q.arr([0, 0, sg * R * q.np.cos(b) + z])
    u = p - sc
    q.ensure_eq("on_sphere", u @ u, R * R, tol=1e-6)
    # the rolling circle touches the base circle and lies on the same sphere
    M = q.rotz(t + a)
    e = q.arr([rb, 0, 0])
    th = b + side * g2
    ax = M @ q.arr([-sg * q.np.sin(th), 0, q.np.cos(th)])
    d = p - (M @ e + z * q.arr([0, 0, 1]))
    q.ensure_eq("in_plane", d @ ax, 0, tol=1e-6)
    rad = M @ q.arr([q.np.cos(th), 0, sg * q.np.sin(th)])
    cc = M @ e + z * q.arr([0, 0, 1]) + rc * rad
    w = p - cc
    beta = t * rb / rc
    q.ensure_eq("no_slip", w, -rc * (q.np.cos(beta) * rad + q.np.sin(beta) * (M @ q.arr([0, 1, 0]))), tol=1e-6)


@ob("octoid_law", funcs=[FG + "octoid"])
def octo(q, m):
    """conjugate to the flat flank of a crown gear: the contact point is the foot of the
    pitch line on the flank plane, while crown and gear roll on each other"""
    R, b, _ = sphere(q)
    al = q.real("al", 0, q.pi / 2)
    t, a, z = q.real("t", special=(0.0,)), q.angle("a"), q.real("z")
    if q.symbolic:
        q.assume(q.np.sin(al) > 0)
        q.assume(q.np.cos(al) > 0)
    else:
        q.assume(0.05 < al < 1.2)
    rb = R * q.np.sin(b)
    p = m.fg.octoid(t, base_rad=rb, sphere_rad=R, alpha=al, angle=a, z_offs=z)
    sc = q.arr([0, 0, R * q.np.cos(b) + z])
    u = p - sc
    q.ensure_eq("on_sphere", u @ u, R * R, tol=1e-6)
    # fixed frame: undo the gear rotation
    g = q.rotz(-(t + a)) @ u
    sb, cb = q.np.sin(b), q.np.cos(b)
    P, K, Y = q.arr([sb, 0, -cb]), q.arr([cb, 0, sb]), q.arr([0, 1, 0])
    th = t * sb
    # flank plane normal of the crown gear turned by -th about its axis K
    n = q.np.cos(al) * (q.np.cos(th) * Y + q.np.sin(th) * P) - q.np.sin(al) * K
    q.ensure_eq("on_flank_plane", g @ n, 0, tol=1e-6)
    q.ensure_eq("through_pitch_line", q.np.cross(P, n) @ g, 0, tol=1e-6)
    q.ensure_eq("start", m.fg.octoid(0, base_rad=rb, sphere_rad=R, alpha=al, angle=a), rb * q.arr([q.np.cos(a), q.np.sin(a), 0]), tol=1e-6)


@ob("curve_classes", funcs=["curve.InvoluteCurve.__init__", "curve.CycloidCurve.__init__", "curve.CycloidCurve.cycloid_func", "curve.CycloidConicCurve.__init__"])
def classes(q, m):
    """curve objects evaluate their function with the object's current parameters"""
    r, rc, a, z, v = q.pos("r"), q.pos("rc"), q.angle("a"), q.real("z"), q.vec3("v")
    t0, t1 = q.real("t0"), q.real("t1")
    k = q.choice("kind", ["inv", "cyc", "cone0"])
    u = q.choice("end", [0, 1])
    t = t1 if u else t0
    if k == "inv":
        c = m.curve.InvoluteCurve(r=r, t0=t0, t1=t1, angle=a, v_offs=v, z_offs=z, active=False)
        f = lambda t: m.fg.involute_circle(t, r=r, angle=a, v_offs=v, z_offs=z)
        q.ensure_eq("base", c.base_radius, r)
    elif k == "cyc":
        c = m.curve.CycloidCurve(rb=r, rc=rc, angle=a, v_offs=v, z_offs=z, t0=t0, t1=t1, active=False)
        f = lambda t: m.fg.cycloid_circle(t, rb=r, rc=rc, angle=a, v_offs=v, z_offs=z)
    else:
        c = m.curve.CycloidConicCurve(rb=r, rc=rc, angle=a, C=0, v_offs=v, z_offs=z, t0=t0, t1=t1, active=False)
        f = lambda t: m.fg.cycloid_cone(t, rb=r, rc=rc, C=0, angle=a, v_offs=v, z_offs=z)
    q.ensure_eq("range", q.arr([c.t_0, c.t_1]), q.arr([t0, t1]))
    x = q.real("x")
    q.ensure_eq("value", c.function(x), f(x))
    a2 = q.angle("a2")
    c.angle = a2
    q.ensure_eq("turned", c.function(x), q.rotz(a2 - a) @ f(x))


@ob("sphere_centers", funcs=["curve.SphericalInvoluteCurve.center", "curve.SphericalInvoluteCurve.R", "curve.OctoidCurve.center", "curve.OctoidCurve.R", "curve.SphericalInvoluteCurve.__init__", "curve.OctoidCurve.__init__"])
def centers(q, m):
    """conic flank curves lie on the sphere about the centre they report"""
    R, b, sg = sphere(q)
    r = R * q.np.sin(b)
    a, z, x = q.angle("a"), q.real("z"), q.real("x")
    if q.choice("kind", ["inv", "oct"]) == "inv":
        c = m.curve.SphericalInvoluteCurve(r=r, angle=a, c_sphere=sg / R, z_offs=z, active=False)
        q.ensure_eq("radius", abs(c.R), R)
        q.ensure_eq("base", c.base_radius, r)
        want = m.fg.involute_sphere(x, r=r, C=sg / R, angle=a, z_offs=z)
    else:
        al = q.real("al", 0, q.pi / 2)
        if q.symbolic:
            q.assume(q.np.sin(al) > 0)
        c = m.curve.OctoidCurve(r=r, angle=a, c_sphere=1 / R, alpha=al, z_offs=z, active=False)
        q.ensure_eq("radius", c.R, R)
        want = m.fg.octoid(x, base_rad=r, sphere_rad=R, alpha=al, angle=a, z_offs=z)
    p = c.function(x)
    q.ensure_eq("value", p, want, tol=1e-6)
    u = p - c.center
    q.ensure_eq("on_sphere", u @ u, R * R, tol=1e-6)
    q.ensure_eq("center_sphere", c.center_sphere, c.center)
