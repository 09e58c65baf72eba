"""C22 tooth flanks: each kind of tooth is the curve its parameters name, passes the pitch
point at the asked angle, and undercut / root extensions join it where they should."""
from engine.api import ob
from specs.common import lengths, polar, sol, through

T = "gearteeth."
B = "gggears_base_classes."


def conic(q, neg=False):
    """pitch radius, half cone angle"""
    rp = q.real("rp", lo=3, hi=30)
    g = q.real("g", lo=0.2, hi=1.3)
    if q.symbolic:
        for x in (rp, q.np.sin(g), q.np.cos(g), rp / q.np.sin(g), rp / q.np.sin(g) * q.np.cos(g)):
            q.nonneg_hint(x)
        q.angle_hint(g)
        q.assume(q.np.sin(g) > 0)
        q.assume(q.np.cos(g) > 0)
    return rp, g


def limits(q, m):
    return m.base.ToothLimitParam(h_a=q.real("ha", lo=0.5, hi=1.2), h_d=q.real("hd", lo=0.6, hi=1.4), h_o=2)


def plane_contract(q, m):
    """find_curve_plane_intersect by contract (symbolic only; concrete runs search for real):
    records what was searched and the point found"""
    rec = []
    if q.symbolic:
        def f(curve, plane_normal=None, offset=None, guess=0, method=None):
            s = q.fresh("s%d" % len(rec))
            rec.append((curve, plane_normal, offset, s, curve(s)))
            return sol(q.arr([s]), True)

        q.stub(m.curve, "find_curve_plane_intersect", f)
    return rec


def ends_in_middle(q, rec, c, tol=1e-5):
    """the flank ends in the tooth's middle plane y = 0"""
    if not q.symbolic:
        q.ensure_eq("ends in the middle plane", c(1)[1], 0, tol=tol)
        return
    hits = [r for r in rec if r[0] is c]
    if not hits:
        q.ensure_eq("ends in the middle plane", c(1)[1], 0, tol=tol)
        return
    _, n, o, s, p = hits[-1]
    q.ensure_eq("searched plane", q.np.cross(n, q.arr([0, 1, 0])), q.arr([0, 0, 0]))
    q.ensure("searched plane is one", q.lt(0, q.np.dot(n, n)))
    q.ensure_eq("middle plane", (o if o is not None else q.arr([0, 0, 0]))[1], 0)
    q.ensure_eq("ends at the point found", c(1), p)


# ------------------------------------------------------------------ searches
@ob("plane_search", funcs=["curve.find_curve_plane_intersect"])
def plane_search(q, m):
    """a successful search reports a point of the plane"""
    lengths(q, m)
    q.solver_ok()
    n, o = q.vec3("n"), q.vec3("o")
    if q.symbolic:
        c = m.curve.Curve(q.fn3("a"))
    else:
        p0 = q.vec3("p0")
        q.assume(abs(float(n @ n)) > 0.1)
        side = q.pos("k")
        p1 = p0 + n * side + q.np.cross(n, p0) * 0.3
        c = m.curve.LineCurve(p0=p0, p1=p1)
    r = m.curve.find_curve_plane_intersect(c, plane_normal=n, offset=o, guess=q.real("guess", lo=0, hi=1))
    if not q.symbolic:
        q.assume(r.success)
    q.ensure_eq("in the plane", q.np.dot(c(r.x[0]) - o, n), 0, tol=1e-6)


@ob("nearest_search", funcs=["curve.find_curve_nearest_point"], sym=False, samples=25)
def nearest(q, m):
    """the reported point is the best of what the starting guesses lead to"""
    p0, p1, p = q.vec3("p0"), q.vec3("p1"), q.vec3("p")
    d = p1 - p0
    q.assume(float(d @ d) > 0.3)
    c = m.curve.LineCurve(p0=p0, p1=p1)
    s = m.curve.find_curve_nearest_point(c, p, guesses=[0.1, 0.5, 0.9])
    q.ensure_eq("foot of the perpendicular", q.np.dot(c(s) - p, d) / (d @ d), 0, tol=1e-4)
    w = m.curve.Curve(lambda t: q.arr([t, (t - 0.2) ** 2 * (t - 0.8) ** 2 * 40 + 0.3 * t, 0.0]))
    u = m.curve.find_curve_nearest_point(w, q.arr([0.85, -1.0, 0.0]), guesses=[0.1, 0.85])
    dist = lambda t: float(q.np.dot(w(t) - q.arr([0.85, -1.0, 0.0]), w(t) - q.arr([0.85, -1.0, 0.0])))
    q.ensure("not worse than its guesses", dist(u) <= min(dist(0.1), dist(0.85)) + 1e-6)


# ------------------------------------------------------------------ octoid
@ob("octoid_flank", funcs=[T + "OctoidTooth.generate_octoid_curve", T + "OctoidUndercutTooth.generate_octoid_curve", T + "OctoidTooth.__init__", T + "OctoidUndercutTooth.__init__"], samples=25, seconds=60)
def octoid_flank(q, m):
    """on the pitch circle at minus the pitch angle at its start, up to the middle plane,
    generated by the crown gear of the gear's own pressure angle"""
    lengths(q, m)
    rec = plane_contract(q, m)
    rp, g = conic(q)
    al, th = q.real("al", lo=0.2, hi=0.5), q.real("th", lo=0.03, hi=0.2)
    cls = getattr(m.gearteeth, q.choice("cls", ["OctoidTooth", "OctoidUndercutTooth"]))
    c = cls(pitch_intersect_angle=th, pitch_radius=rp, cone_angle=2 * g, pressure_angle=al, ref_limits=m.base.ToothLimitParam(), pitch_angle=q.real("pa", lo=0.1, hi=0.8)).generate_octoid_curve()
    q.ensure_eq("pitch point", c(0), polar(q, rp, -th, 0), tol=1e-6)
    ends_in_middle(q, rec, c)
    s = q.real("s", lo=0, hi=1)
    t = c.s2t(s)
    q.ensure_eq("crown envelope", c(s), m.fg.octoid(t, base_rad=rp, sphere_rad=rp / q.np.sin(g), alpha=al, angle=-th), tol=1e-6)


@ob("octoid_flat", funcs=[T + "OctoidTooth.generate_octoid_curve", T + "OctoidUndercutTooth.generate_octoid_curve"], samples=25)
def octoid_flat(q, m):
    """without a cone the octoid tooth is the involute tooth: same base circle, same angle"""
    if q.symbolic:
        lengths(q, m)
    rp, al, th = q.real("rp", lo=3, hi=30), q.real("al", lo=0.15, hi=0.6), q.real("th", lo=0.03, hi=0.3)
    cls = getattr(m.gearteeth, q.choice("cls", ["OctoidTooth", "OctoidUndercutTooth"]))
    gen = cls(pitch_intersect_angle=th, pitch_radius=rp, cone_angle=0, pressure_angle=al)
    phi = q.np.tan(al) - al
    rec = plane_contract(q, m)
    if q.symbolic:

        def isect(c1, c2, guess=None, method=None):
            """contract decided in C09 (intersection, roll_angle)"""
            return sol(q.arr([q.np.tan(al) / 2, 0, 0]), True)

        q.stub(m.curve, "find_curve_intersect", isect)
        q.axiom("0 < tan(a) - a < 1/5 for 0.15 < a < 0.6", q.lt(0, phi))
        q.axiom("0 < tan(a) - a < 1/5 for 0.15 < a < 0.6", q.lt(phi, q.num("1/5")))
        q.axiom("0 < sin(x) for 0 < x < pi", q.lt(0, q.np.sin(phi)))
        q.nonneg_hint(rp * q.np.sin(phi))
        q.nonneg_hint(rp)
        q.angle_hint(phi)
    c = gen.generate_octoid_curve()
    rb = rp * q.np.cos(al)
    s = q.real("s", lo=0, hi=1)
    q.ensure_eq("involute of the base circle", c(s), m.fg.involute_circle(c.s2t(s), r=rb, angle=-(th + phi)), tol=1e-4)
    ends_in_middle(q, rec, c)
    q.ensure_eq("starts on the base circle", c(0), polar(q, rb, -(th + phi), 0), tol=1e-4)


# ------------------------------------------------------------------ conic involute
@ob("involute_cone_flank", funcs=[T + "InvoluteTooth.generate_involute_curve", T + "InvoluteTooth.generate_tooth_curve", T + "InvoluteTooth.get_base_radius", T + "InvoluteTooth.get_base_angle"], samples=25, seconds=60)
def involute_cone(q, m):
    """whatever spherical involute (one that obeys the rigid motions of C06) reaches the
    pitch radius at roll angle t*, the flank passes the pitch point there"""
    lengths(q, m)
    rp, g = conic(q)
    sg = q.choice("sg", [1, -1])
    al, th = q.real("al", lo=0.2, hi=0.5), q.real("th", lo=0.03, hi=0.2)
    gen = m.gearteeth.InvoluteTooth(pitch_intersect_angle=th, pitch_radius=rp, cone_angle=2 * g * sg, pressure_angle=al)
    R = rp / q.np.sin(g)
    rb = rp * q.np.cos(al)
    rec = plane_contract(q, m)
    if q.symbolic:
        ts = q.real("t*", lo=0, hi=1)
        ph = q.real("phi", lo=0, hi=1)
        zp = q.real("zp")
        F = q.fn3("F")
        q.nonneg_hint(rp * q.np.sin(ph))
        q.angle_hint(ph)
        q.assume(q.np.sin(ph) > 0)

        def inv(t, r=1, C=None, angle=0, v_offs=None, z_offs=0):
            """involute_sphere by C06: angle and z_offs are rigid motions, the sign of C mirrors;
            at t* the abstract curve is on the pitch radius"""
            p = polar(q, rp, ph, zp) + (t - ts) * F(t)
            if q.holds(q.lt(C, 0)):
                p = q.arr([p[0], p[1], -p[2]])
            return q.rotz(angle) @ p + q.arr([0, 0, z_offs])

        q.stub(m.gearteeth, "involute_sphere", inv)
        q.stub(m.curve, "involute_sphere", inv)

        def root(f, x0, tol=None, **k):
            return sol(q.arr([ts, rb]), True)

        q.stub(m.gearteeth, "root", root)

        def arc(cls, p0=None, center=None, angle=None, axis=None, active=True):
            """contract of ArcCurve.from_point_center_angle (decided in C05)"""
            arcs.append((p0, center, axis))
            return through(q, m, "ext", q.num("0"), p0, q.num("1"), q.vec3("ext end"))

        q.stub(m.curve.ArcCurve, "from_point_center_angle", classmethod(arc))
    arcs = []
    ch = gen.generate_tooth_curve()
    lo, c = ch[0], ch[1]
    if q.symbolic:
        q.ensure_eq("pitch point", c.function(ts), polar(q, rp, -th, 0))
        q.ensure_eq("base angle", c.angle, -(th + ph))
    else:
        # roll angle at which the radius is rp: cos(b) cos(x) - sin(b) ... solved directly
        import scipy.optimize as so
        f = lambda t: float(q.np.hypot(*c.function(t)[:2])) - rp
        hi = 0.05
        while f(hi) < 0 and hi < 3:
            hi += 0.05
        q.assume(f(hi) >= 0)
        t = so.brentq(f, 0, hi, xtol=1e-13)
        p = c.function(t)
        q.ensure_eq("pitch point", p, polar(q, rp, -th, 0), tol=1e-5)
        # pressure angle: between the flank and the meridian of the sphere
        apex = q.arr([0, 0, sg * R * q.np.cos(g)])
        d = (c.function(t + 1e-5) - c.function(t - 1e-5)) / 2e-5
        u = q.np.cross(apex - p, q.np.cross(p, q.arr([0, 0, 1.0])))
        cosa = abs(d @ u) / q.np.linalg.norm(d) / q.np.linalg.norm(u)
        q.ensure_eq("pressure angle", cosa, q.np.cos(al), tol=1e-4)
        v = p - apex
        q.ensure_eq("on the sphere", v @ v / R / R, 1, tol=1e-6)
    q.ensure_eq("base radius", c.base_radius, rb, tol=1e-4)
    if not q.symbolic:
        q.ensure_eq("reported base radius", gen.get_base_radius(), c.base_radius, tol=1e-9)
        q.ensure_eq("reported base angle", gen.get_base_angle(), c.angle, tol=1e-9)
    ends_in_middle(q, rec, c)
    q.ensure_eq("sphere", c.c_sphere, sg / R)
    q.ensure_eq("extension joins", lo(1), c(0), tol=1e-6)
    a = c.center_sphere
    if arcs:
        p0, ctr, ax = arcs[-1]
        q.ensure_eq("extension from the flank", p0, c(0))
        q.ensure_eq("extension about the apex", ctr, a)
        q.ensure_eq("extension axis level", ax[2], 0)
        q.ensure_eq("extension axis across", q.np.dot(ax, c(0)), 0)
        return
    q.ensure_eq("extension on the sphere", (lo(0) - a) @ (lo(0) - a), (c(0) - a) @ (c(0) - a), tol=1e-5)
    w = lo(0)
    q.ensure_eq("extension along the meridian", w[0] * c(0)[1], w[1] * c(0)[0], tol=1e-6)
    if not q.symbolic:
        q.ensure("extension goes to the root", float(q.np.hypot(w[0], w[1])) < float(q.np.hypot(*c(0)[:2])))


@ob("base_reports", funcs=[T + "InvoluteTooth.get_base_radius", T + "InvoluteTooth.get_base_angle", "curve.InvoluteCurve.base_radius", "curve.SphericalInvoluteCurve.base_radius", "curve.OctoidCurve.base_radius"])
def base_reports(q, m):
    """what is reported as base radius and angle is that of the flank generated"""
    lengths(q, m)
    r, a, R = q.real("r", lo=1, hi=20), q.angle("a"), q.real("R", lo=21, hi=40)
    k = q.choice("kind", ["flat", "cone"])
    c = m.curve.InvoluteCurve(r=r, angle=a) if k == "flat" else m.curve.SphericalInvoluteCurve(r=r, angle=a, c_sphere=1 / R)
    q.stand(m.gearteeth.InvoluteTooth, "generate_involute_curve", lambda self: [object(), c])
    gen = m.gearteeth.InvoluteTooth()
    q.ensure_eq("radius", gen.get_base_radius(), r)
    q.ensure_eq("angle", gen.get_base_angle(), a)
    q.ensure_eq("octoid", m.curve.OctoidCurve(r=r, c_sphere=1 / R).base_radius, r)


@ob("involute_extension", funcs=[T + "InvoluteTooth.generate_involute_curve", T + "InvoluteTooth.__init__", T + "InvoluteUndercutTooth.__init__"], samples=20)
def involute_ext(q, m):
    """flat: the root extension is radial and joins the involute, which ends in the middle"""
    lengths(q, m)
    rec = plane_contract(q, m)
    rp, al, th = q.real("rp", lo=3, hi=30), q.real("al", lo=0.15, hi=0.6), q.real("th", lo=0.03, hi=0.3)
    if q.symbolic:
        q.stub(m.curve, "find_curve_intersect", lambda *a, **k: sol(q.arr([q.np.tan(al) / 2, 0, 0]), True))
        q.stub(m.gearteeth, "angle_between_vectors", lambda a, b: q.fresh("ang"))
    ch = m.gearteeth.InvoluteTooth(pitch_intersect_angle=th, pitch_radius=rp, cone_angle=0, pressure_angle=al).generate_tooth_curve()
    lo, c = ch[0], ch[1]
    q.ensure_eq("joins", lo(1), c(0))
    q.ensure_eq("radial", lo(0)[0] * c(0)[1], lo(0)[1] * c(0)[0])
    q.ensure("towards the centre", q.lt(lo(0) @ c(0), c(0) @ c(0)))
    q.ensure("outward", q.lt(0, lo(0) @ c(0)))
    ends_in_middle(q, rec, c)


@ob("default_limits", funcs=[T + n + ".__init__" for n in ("InvoluteTooth", "InvoluteUndercutTooth", "OctoidTooth", "OctoidUndercutTooth", "CycloidTooth")] + [B + "GearToothGenerator.__init__", B + "GearToothConicGenerator.__init__"])
def defaults(q, m):
    """what is given is kept; limits not given are the generator's own, never shared"""
    n = q.choice("cls", ["InvoluteTooth", "InvoluteUndercutTooth", "OctoidTooth", "OctoidUndercutTooth", "CycloidTooth", "GearToothGenerator", "GearToothConicGenerator"])
    cls = getattr(m.gearteeth, n)
    th, rp, ca, al = q.real("th"), q.real("rp"), q.real("ca"), q.real("al")
    kw = dict(pitch_intersect_angle=th, pitch_radius=rp)
    if n != "GearToothGenerator":
        kw["cone_angle"] = ca
    if n in ("InvoluteTooth", "InvoluteUndercutTooth", "OctoidTooth", "OctoidUndercutTooth"):
        kw["pressure_angle"] = al
    if n in ("InvoluteUndercutTooth", "OctoidTooth", "OctoidUndercutTooth"):
        kw["pitch_angle"] = q.real("pa")
    if n == "CycloidTooth":
        kw.update(rc_in_coeff=q.real("ri"), rc_out_coeff=q.real("ro"))
    if n in ("GearToothGenerator", "GearToothConicGenerator"):
        kw["tooth_angle"] = q.real("ta")
    lim = m.base.ToothLimitParam(h_a=q.real("ha"), h_d=q.real("hd"), h_o=q.real("ho"))
    g = cls(ref_limits=lim, **kw)
    for k, v in kw.items():
        q.ensure_eq(k, getattr(g, k), v)
    q.ensure("limits kept", g.ref_limits is lim)
    a, b = cls(**kw), cls(**kw)
    q.ensure("own limits", a.ref_limits is not b.ref_limits)
    q.ensure("some limits", a.ref_limits is not None)
    if n == "GearToothConicGenerator":
        q.ensure_eq("cone", g.conic_data.cone_angle, ca)
        q.ensure_eq("cone radius", g.conic_data.base_radius, rp)


# ------------------------------------------------------------------ reference racks
@ob("flat_racks", funcs=[T + "generate_flat_rack_curve", T + "generate_involute_rack_curve"])
def flat_rack(q, m):
    """straight flank at the pressure angle, rolled pitch length from the middle, from the
    dedendum to the addendum line"""
    f = getattr(m.gearteeth, q.choice("f", ["generate_flat_rack_curve", "generate_involute_rack_curve"]))
    rp, th, al = q.real("rp", lo=1, hi=30), q.real("th", lo=0, hi=0.5), q.real("al", lo=0.05, hi=1)
    if q.symbolic:
        q.nonneg_hint(q.np.cos(al))
        q.assume(q.np.cos(al) > 0)
    lim = limits(q, m)
    c = f(rp, th, ref_limits=lim, pressure_angle=al, cone_angle=0)
    s = q.real("s", lo=0, hi=1)
    x = rp - lim.h_d + s * (lim.h_a + lim.h_d)
    q.ensure_eq("flank", c(s), q.arr([x, -rp * th + (x - rp) * q.np.tan(al), 0]))


@ob("octoid_rack", funcs=[T + "generate_flat_rack_curve"])
def octoid_rack(q, m):
    """on a cone the flat rack's flank is a great circle of the reference sphere, inclined
    by the pressure angle, through the crown pitch point, of the tooth's depth"""
    rp, g = conic(q)
    th, al = q.real("th", lo=0, hi=0.5), q.real("al", lo=0.05, hi=1)
    lim = limits(q, m)
    if q.symbolic:
        q.nonneg_hint(q.np.cos(al))
        q.assume(q.np.cos(al) > 0)
    c = m.gearteeth.generate_flat_rack_curve(rp, th, ref_limits=lim, pressure_angle=al, cone_angle=2 * g)
    R = rp / q.np.sin(g)
    k = th * q.np.sin(g)
    e = q.arr([q.np.cos(k), -q.np.sin(k), 0])
    f = q.arr([q.np.sin(k) * q.np.sin(al), q.np.cos(k) * q.np.sin(al), q.np.cos(al)])
    s = q.real("s", lo=0, hi=1)
    w = (-lim.h_d + s * (lim.h_a + lim.h_d)) / R / q.np.cos(al)
    q.ensure_eq("flank", c(s), R * (q.np.cos(w) * e + q.np.sin(w) * f), tol=1e-6)


@ob("involute_rack_cone", funcs=[T + "generate_involute_rack_curve"], samples=30)
def involute_rack(q, m):
    """on a cone the involute rack's flank lies on the reference sphere, rolls off the crown
    circle, passes its pitch point and ends at the tooth's heights above and below it"""
    rp, g = conic(q)
    th, al = q.real("th", lo=0, hi=0.5), q.real("al", lo=0.2, hi=0.6)
    lim = limits(q, m)
    lengths(q, m)
    R = rp / q.np.sin(g)
    if not q.symbolic:  # the flank of a crown rack does not reach higher than its pressure angle
        q.assume(max(lim.h_a, lim.h_d) / R < 0.8 * al)
    k = th * q.np.sin(g)
    got = []
    if q.symbolic:
        def root(f, x0, **kw):
            s = q.fresh("x")
            v = f(q.arr([s]))
            got.append((s, v))
            return sol(q.arr([s]), True)

        q.stub(m.gearteeth, "root", root)
    c = m.gearteeth.generate_involute_rack_curve(rp, th, ref_limits=lim, pressure_angle=al, cone_angle=2 * g)
    t = q.real("t", lo=-0.5, hi=0.5)

    def law(t):
        u = t * q.np.cos(al)
        a = q.arr([0, q.np.sin(al), q.np.cos(al)])  # pole the string is wound from
        x = q.arr([1, 0, 0])
        y = q.np.cross(a, x)
        return R * (q.rotz(t - k) @ (q.np.cos(u) * x - q.np.sin(u) * y))

    q.ensure_eq("rolling law", c.function(t, **c.params), law(t), tol=1e-6)
    q.ensure_eq("on the sphere", law(t) @ law(t), R * R, tol=1e-5)
    q.ensure_eq("pitch point", law(0), R * q.arr([q.np.cos(k), -q.np.sin(k), 0]))
    if q.symbolic:
        q.ensure_int("two searches", len(got) - 2)
        (s0, v0), (s1, v1) = got
        # f(x)=0 at the start means height -h_d, at the end +h_a, of the trimmed curve's ends
        q.ensure_eq("start parameter", c.t_0, -1 + 2 * s0)
        q.ensure_eq("end parameter", c.t_1, -1 + 2 * s1)
        z = lambda s: law(-1 + 2 * s)[2] / R
        q.ensure_eq("start condition", v0 - q.np.arcsin(z(s0)), lim.h_d / R)
        q.ensure_eq("end condition", v1 - q.np.arcsin(z(s1)), -lim.h_a / R)
    else:
        q.ensure_eq("start height", q.np.arcsin(c(0)[2] / R), -lim.h_d / R, tol=1e-5)
        q.ensure_eq("end height", q.np.arcsin(c(1)[2] / R), lim.h_a / R, tol=1e-5)


# ------------------------------------------------------------------ undercut
def uc_end(q, m):
    if q.symbolic:
        got = []

        def root(f, x0, **kw):
            s = q.fresh("x")
            q.assume(q.eq(f(q.arr([s])), 0)) if False else None
            got.append(s)
            return sol(q.arr([s]), True)

        q.stub(m.gearteeth, "root", root)


@ob("undercut_flat", funcs=[T + "generate_undercut_curve"], samples=30)
def undercut_flat(q, m):
    """path of the rack's corner: the rack slides by rp*t while the gear turns by t"""
    lengths(q, m)
    uc_end(q, m)
    rp = q.real("rp", lo=3, hi=30)
    hd, y = q.real("hd", lo=0.3, hi=1.4), q.real("y", lo=0.1, hi=1.2)
    ref = q.arr([rp - hd, -y, 0])
    c = m.gearteeth.generate_undercut_curve(pitch_radius=rp, cone_angle=0, undercut_ref_point=ref)
    q.ensure_eq("starts at the corner", c(0), ref)
    t = q.real("t", lo=-1, hi=1)
    q.ensure_eq("rolls with the rack", c.function(t), q.rotz(t) @ (ref + q.arr([0, -rp * t, 0])))
    q.ensure_eq("starts there", c.t_0, 0)


@ob("undercut_cone", funcs=[T + "generate_undercut_curve"], samples=30)
def undercut_cone(q, m):
    """the crown rack turns by sin(g)*t about its own axis while the gear turns by t; the
    rack's pitch plane touches the gear's pitch cone"""
    lengths(q, m)
    uc_end(q, m)
    rp, g = conic(q)
    sg = q.choice("sg", [1, -1])
    R = rp / q.np.sin(g)
    ref = q.vec3("ref")
    if sg < 0:
        pass
    c = m.gearteeth.generate_undercut_curve(pitch_radius=rp, cone_angle=2 * g * sg, undercut_ref_point=ref)
    t = q.real("t", lo=-1, hi=1)
    # rack frame -> gear frame: crown axis tilted away from the gear's axis
    M = q.axrot("y", (q.pi / 2 - g) * sg)
    apex = q.arr([0, 0, sg * R * q.np.cos(g)])
    r2 = ref
    if q.symbolic:
        q.nonneg_hint(R * q.np.cos(g))
    p = c.function(t)
    if sg > 0:
        want = q.rotz(t) @ (M @ (q.rotz(-t * q.np.sin(g)) @ r2)) + apex
        q.ensure_eq("rolls with the crown rack", p, want, tol=1e-6)
        q.ensure_eq("starts at the corner", c(0), M @ ref + apex, tol=1e-6)
    else:
        # the mirror image of the same for a cone that opens downwards
        cp = m.gearteeth.generate_undercut_curve(pitch_radius=rp, cone_angle=2 * g, undercut_ref_point=ref)
        o = cp.function(t)
        q.ensure_eq("mirror image", p, q.arr([o[0], o[1], -o[2]]), tol=1e-6)


@ob("undercut_trim", funcs=[T + "trim_involute_undercut"], seconds=60)
def undercut_trim(q, m):
    """the undercut is cut off and the flank starts where they meet, nothing else moves"""
    lengths(q, m)
    P = q.vec3("P")
    end, start = q.vec3("end"), q.vec3("start")
    u, v = q.real("u", lo=0.05, hi=0.95), q.real("v", lo=0.05, hi=0.95)
    tc = through(q, m, "tooth", u, P, q.num("1"), end, t0=q.num("0"))
    uc = through(q, m, "under", q.num("0"), start, v, P, t1=q.num("1"))
    k = [0]
    case = q.choice("search", ["found", "found second", "found but denied"])
    bad = q.real("bad0", lo=0.02, hi=0.98), q.real("bad1", lo=0.02, hi=0.98)
    q.assume(q.np.linalg.norm(tc(bad[0]) - uc(bad[1])) > 0.01)

    def isect(c1, c2, guess=None, method=None):
        k[0] += 1
        if k[0] == (2 if case == "found but denied" else 1) and case != "found":
            return sol(q.arr(list(bad)), False)
        return sol(q.arr([u, v, 0]), case != "found but denied")

    q.stand(m.curve, "find_curve_intersect", isect, must=True)
    ch = m.gearteeth.trim_involute_undercut(tc, uc)
    q.ensure_int("pieces", len(ch) - 2)
    q.ensure_eq("starts with the undercut", ch[0](0), start)
    q.ensure_eq("undercut ends where they meet", ch[0](1), P)
    q.ensure_eq("flank starts where they meet", ch[1](0), P)
    q.ensure_eq("flank keeps its end", ch[1](1), end)


@ob("undercut_trim_chain", funcs=[T + "trim_involute_undercut"], seconds=60)
def undercut_trim_chain(q, m):
    """a meeting point on the root extension is not accepted at once: search again on the flank"""
    k = [0]
    lens = {}

    def upd(self):
        if id(self) not in lens:
            lens[id(self)] = 1 if not isinstance(self, m.curve.LineCurve) else 1
        self.length = q.num("1")
        self.t2s_lookup = {"t": q.arr([self.t_0, self.t_1]), "s": q.arr([0, 1])}

    q.stand(m.curve.Curve, "update_lengths", upd)
    P, mid, a, end, start = (q.vec3(n) for n in ("P", "mid", "a", "end", "start"))
    u, v = q.real("u", lo=0.05, hi=0.95), q.real("v", lo=0.05, hi=0.95)
    w = q.real("w", lo=0.05, hi=0.45)
    ext = through(q, m, "ext", q.num("0"), a, q.num("1"), mid)
    fl = through(q, m, "flank", u, P, q.num("1"), end, t0=q.num("0"))
    uc = through(q, m, "under", q.num("0"), start, v, P, t1=q.num("1"))
    tc = m.curve.CurveChain(ext, fl)
    on_ext = q.bool("first hit on the extension")
    n = [0]

    def isect(c1, c2, guess=None, method=None):
        n[0] += 1
        if on_ext and n[0] == 1:
            return sol(q.arr([w, q.real("v'", lo=0, hi=1)]), True)
        return sol(q.arr([(1 + u) / 2, v, 0]), True)

    q.stand(m.curve, "find_curve_intersect", isect, must=True)
    ch = m.gearteeth.trim_involute_undercut(tc, uc)
    q.ensure_eq("starts with the undercut", ch[0](0), start)
    q.ensure_eq("undercut ends where they meet", ch[0](1), P)
    q.ensure_eq("flank starts where they meet", ch[1](0), P)
    q.ensure_eq("flank keeps its end", ch[1](1), end)


@ob("undercut_decision", funcs=[T + "InvoluteUndercutTooth.generate_tooth_curve", T + "OctoidUndercutTooth.generate_tooth_curve", T + "OctoidTooth.generate_tooth_curve"])
def undercut_decision(q, m):
    """undercut exactly where the rack's corner reaches below the flank's base"""
    rp, g = conic(q)
    al, th = q.real("al", lo=0.2, hi=0.5), q.real("th", lo=0.03, hi=0.2)
    kind = q.choice("kind", ["InvoluteUndercutTooth", "OctoidUndercutTooth", "OctoidTooth"])
    flat = q.bool("flat")
    lim = limits(q, m)
    cls = getattr(m.gearteeth, kind)
    gen = cls(pitch_intersect_angle=th, pitch_radius=rp, cone_angle=0 if flat else 2 * g, pressure_angle=al, ref_limits=lim, pitch_angle=q.real("pa", lo=0.1, hi=1))
    corner = polar(q, q.real("rc", lo=1, hi=30), 0, 0)
    rb = q.real("rb", lo=1, hi=30)
    flank = type("Flank", (), {"base_radius": rb})()
    tooth = [type("Ext", (), {})(), flank]
    low = object()
    seen = {}
    q.stand(m.gearteeth.InvoluteTooth, "generate_involute_curve", lambda self: tooth)
    if hasattr(cls, "generate_octoid_curve"):
        q.stand(cls, "generate_octoid_curve", lambda self: flank)
        q.stand(m.base.GearToothConicGenerator, "check_lower_curve_limit", lambda self, c: low if c is flank else None)
    if hasattr(cls, "get_default_undercut_ref_point"):
        q.stand(cls, "get_default_undercut_ref_point", lambda self: corner)

    def uc(pitch_radius=None, cone_angle=None, undercut_ref_point=None):
        seen["uc"] = (pitch_radius, cone_angle, undercut_ref_point)
        return "undercut"

    q.stand(m.gearteeth, "generate_undercut_curve", uc)
    q.stand(m.gearteeth, "trim_involute_undercut", lambda t, u, guess=None: ("joined", t, u))
    r = gen.generate_tooth_curve()
    base = tooth if kind == "InvoluteUndercutTooth" else low
    if kind == "OctoidTooth":
        q.ensure("plain flank down to the root", r is low)
        return
    if kind == "InvoluteUndercutTooth":
        need = q.le(rp - lim.h_d, rb)
    elif flat:
        need = q.lt(corner[0], rp * q.np.cos(al))
    else:
        need = q.lt(g - q.np.arcsin(q.np.sin(g) * q.np.cos(al)), lim.h_d * q.np.sin(g) / rp)
    if r is base:
        q.ensure("no undercut only above the base", q.implies(need, False))
    else:
        q.ensure("joined", isinstance(r, tuple) and r[0] == "joined" and r[1] is base and r[2] == "undercut")
        q.ensure("undercut only below the base", need)
        q.ensure_eq("radius", seen["uc"][0], rp)
        q.ensure_eq("cone", seen["uc"][1], gen.cone_angle)
        q.ensure_eq("corner", seen["uc"][2], corner)


@ob("undercut_corner", funcs=[T + "InvoluteUndercutTooth.get_default_undercut_ref_point", T + "OctoidUndercutTooth.get_default_undercut_ref_point"], seconds=60)
def undercut_corner(q, m):
    """the corner is the rack flank's lower end, or the point in the middle of the rack's
    tooth where its two flanks meet above that"""
    rp, g = conic(q)
    al, th, pa = q.real("al", lo=0.2, hi=0.5), q.real("th", lo=0.03, hi=0.2), q.real("pa", lo=0.1, hi=1)
    kind = q.choice("kind", ["InvoluteUndercutTooth", "OctoidUndercutTooth"])
    flat = q.bool("flat")
    lim = limits(q, m)
    gen = getattr(m.gearteeth, kind)(pitch_intersect_angle=th, pitch_radius=rp, cone_angle=0 if flat else 2 * g, pressure_angle=al, ref_limits=lim, pitch_angle=pa)
    pts = {}
    F = q.fn3("rack")

    class Rack:
        def __call__(self, s):
            return F(s)

    asked = {}

    def rack(name):
        def f(pitch_radius, pitch_intersect_angle, ref_limits=None, pressure_angle=None, cone_angle=None):
            asked.update(name=name, v=(pitch_radius, pitch_intersect_angle, pressure_angle, cone_angle), lim=ref_limits)
            return Rack()
        return f

    q.stand(m.gearteeth, "generate_involute_rack_curve", rack("involute"))
    q.stand(m.gearteeth, "generate_flat_rack_curve", rack("flat"))
    s = q.real("s", lo=-1, hi=1)

    def plane(curve, plane_normal=None, offset=None, guess=0, method=None):
        asked["plane"] = (plane_normal, offset)
        return sol(q.arr([s]), True)

    q.stand(m.curve, "find_curve_plane_intersect", plane, must=True)
    r = gen.get_default_undercut_ref_point()
    q.ensure("rack of the tooth", asked["lim"] is lim and (asked["name"] == "flat") == (kind == "OctoidUndercutTooth" and not flat))
    for n, a, b in zip(("radius", "angle", "pressure angle", "cone"), asked["v"], (rp, th, al, 0 if flat else 2 * g)):
        q.ensure_eq(n, a, b)
    nrm, off = asked["plane"]
    # the plane searched is the middle plane of the rack's tooth, half a pitch further
    x = q.real("x")
    z = q.real("z")
    if flat:
        pt = q.arr([x, -rp * pa / 2, z])
        q.ensure_eq("middle plane (normal)", q.np.cross(nrm, q.arr([0, 1, 0])), q.arr([0, 0, 0]))
    else:
        pt = q.rotz(-pa / 2 * q.np.sin(g)) @ q.arr([x, 0, z])
    q.ensure_eq("middle plane", q.np.dot(pt - off, nrm), 0) if not (flat and not hasattr(off, "shape")) else q.ensure_eq("middle plane", off, -rp * pa / 2)
    q.ensure_eq("unit normal", q.np.dot(nrm, nrm), 1)
    if s > 0:
        q.ensure_eq("where the flanks meet", r, F(s))
    else:
        q.ensure_eq("lower end", r, F(q.num("0")))


# ------------------------------------------------------------------ cycloid
@ob("cycloid_flank", funcs=[T + "CycloidTooth.generate_cycloid_curve", T + "CycloidTooth.generate_tooth_curve"], samples=20, seconds=60)
def cycloid_flank(q, m):
    """hypocycloid below, epicycloid above, both on the pitch circle at the pitch angle, the
    rolling circles in the asked proportion, up to the middle plane"""
    lengths(q, m)
    rec = plane_contract(q, m)
    rp, g = conic(q)
    flat = q.bool("flat")
    th = q.real("th", lo=0.03, hi=0.2)
    ki, ko = q.real("ki", lo=0.15, hi=0.55), q.real("ko", lo=0.15, hi=0.9)
    if q.symbolic:
        q.stub(m.curve, "find_curve_nearest_point", lambda *a, **k: q.fresh("near"))
    else:
        q.assume(ko * 3 > th)
    ch = m.gearteeth.CycloidTooth(pitch_intersect_angle=th, pitch_radius=rp, cone_angle=0 if flat else 2 * g, rc_in_coeff=ki, rc_out_coeff=ko).generate_tooth_curve()
    lo, up = ch[0], ch[1]
    q.ensure_int("two pieces", len(ch) - 2)
    p = polar(q, rp, -th, 0)
    q.ensure_eq("lower ends at the pitch point", lo(1), p, tol=1e-6)
    q.ensure_eq("upper starts at the pitch point", up(0), p, tol=1e-6)
    ends_in_middle(q, rec, up)
    s = q.real("s", lo=0, hi=1)
    for n, c, k in (("lower", lo, -ki), ("upper", up, ko)):
        t = c.s2t(s)
        if flat:
            want = m.fg.cycloid_circle(t, rb=rp, rc=k * rp, angle=-th)
        else:
            want = m.fg.cycloid_cone(t, rb=rp, rc=k * rp, C=q.np.sin(g) / rp, angle=-th)
        q.ensure_eq(n + " rolling law", c(s), want, tol=1e-6)
    q.ensure_eq("lower from", lo.t_0, -ki * q.pi / 2)


# ------------------------------------------------------------------ plain generators
@ob("plain_flank", funcs=[B + "GearToothGenerator.generate_tooth_curve", B + "GearToothConicGenerator.generate_tooth_curve", B + "GearToothConicGenerator.conic_data"])
def plain(q, m):
    """straight flank through the pitch point, turned by the tooth angle from the radius"""
    rp, g = conic(q)
    th, ta = q.real("th", lo=0.01, hi=0.5), q.real("ta", lo=-0.5, hi=0.5)
    which = q.choice("which", ["flat", "flat cone", "cone"])
    p = polar(q, rp, -th, 0)
    if which != "cone":
        gen = m.base.GearToothGenerator(pitch_intersect_angle=th, pitch_radius=rp, tooth_angle=ta) if which == "flat" else m.base.GearToothConicGenerator(pitch_intersect_angle=th, pitch_radius=rp, cone_angle=0, tooth_angle=ta)
        c = gen.generate_tooth_curve()[0]
        q.ensure_eq("centred on the pitch point", (c(0) + c(1)) / 2, p)
        d = c(1) - c(0)
        u, w = q.arr([q.np.cos(ta - th), q.np.sin(ta - th), 0]), q.arr([-q.np.sin(ta - th), q.np.cos(ta - th), 0])
        q.ensure_eq("direction", q.np.dot(d, w), 0)
        q.ensure("outward", q.lt(0, q.np.dot(d, u)))
        q.ensure_eq("flat", d[2], 0)
    else:
        if q.symbolic:
            q.nonneg_hint(q.np.cos(g) / q.np.sin(g))
        c = m.base.GearToothConicGenerator(pitch_intersect_angle=th, pitch_radius=rp, cone_angle=2 * g, tooth_angle=ta).generate_tooth_curve()[0]
        R = rp / q.np.sin(g)
        apex = q.arr([0, 0, R * q.np.cos(g)])
        q.ensure_eq("starts at the pitch point", c(0), p, tol=1e-6)
        s = q.real("s", lo=0, hi=1)
        v = c(s) - apex
        q.ensure_eq("on the sphere", v @ v, R * R, tol=1e-5)
        # tangent: meridian direction turned about the cone's generatrix by the tooth angle
        e = (p - apex) / R
        mer = q.rotz(-th) @ q.arr([q.np.cos(g), 0, q.np.sin(g)])
        tan = q.np.cos(ta) * mer + q.np.sin(ta) * q.np.cross(q.arr([0, 0, 1]), q.rotz(-th) @ q.arr([1, 0, 0]))
        q.ensure_eq("direction", c(s), apex + R * (q.np.cos(s / 10) * e + q.np.sin(s / 10) * tan), tol=1e-6)


@ob("rack_flank", funcs=[B + "RackToothGenerator.generate_tooth_curve", B + "RackToothGenerator.__init__"])
def rack_flank(q, m):
    ta = q.real("ta", lo=-1, hi=1)
    gen = m.base.RackToothGenerator(tooth_angle=ta)
    c = gen.generate_tooth_curve()[0]
    q.ensure_eq("centre", (c(0) + c(1)) / 2, q.arr([0, -q.pi / 4, 0]))
    q.ensure_eq("direction", c(1) - c(0), q.arr([q.np.cos(ta), q.np.sin(ta), 0]))


# ------------------------------------------------------------------ root of a flank
@ob("root_flat", funcs=[B + "GearToothGenerator.check_lower_curve_limit", B + "GearToothConicGenerator.check_lower_curve_limit"], seconds=60)
def root_flat(q, m):
    """a flank that crosses the dedendum circle starts there; one that ends above it gets a
    radial extension that reaches it"""
    lengths(q, m)
    rp = q.real("rp", lo=3, hi=30)
    lim = limits(q, m)
    rd = rp - lim.h_d
    u = q.real("u", lo=-0.5, hi=0.5)
    case = q.choice("case", ["crosses", "above", "below"])
    r0 = rd if case == "crosses" else rd + q.pos("up") if case == "above" else rd * q.real("k", lo=0.2, hi=0.95)
    a0 = q.angle("a0")
    end = q.vec3("end")
    q.nonneg_hint(r0)
    start = polar(q, r0, a0, 0)
    c = through(q, m, "flank", u, start, q.num("1"), end, t0=q.num("0"))
    gen = q.choice("gen", ["GearToothGenerator", "GearToothConicGenerator"])
    kw = {"cone_angle": 0} if "Conic" in gen else {}
    gen = getattr(m.base, gen)(pitch_intersect_angle=q.real("th", lo=0.03, hi=0.2), pitch_radius=rp, ref_limits=lim, **kw)

    def isect(c1, c2, guess=None, method=None):
        q.ensure("searches this flank", c1 is c)
        x = c2(q.real("anywhere"))
        q.ensure_eq("against the dedendum circle", x @ x, rd * rd)
        if case == "crosses":
            return sol(q.arr([u, q.real("w"), 0]), True)
        if method is None or method == m.curve.IntersectMethod.EQUALITY:
            return sol(q.arr([q.real("bad"), q.real("w"), 0]), False)
        return sol(q.arr([u, q.real("w")]), q.bool("reported"))

    q.stand(m.curve, "find_curve_intersect", isect, must=True)
    r = gen.check_lower_curve_limit(c)
    q.ensure_eq("keeps its end", r(1) if r is c else r[len(r) - 1](1), end)
    if case == "above":
        q.ensure_int("pieces", len(r) - 2)
        q.ensure_eq("extension joins", r[0](1), start)
        q.ensure_eq("flank starts there", r[1](0), start)
        q.ensure_eq("extension reaches the dedendum radially", r[0](0), polar(q, rd, a0, 0))
    else:
        q.ensure("no extension", r is c)
        q.ensure_eq("starts at the dedendum", r(0), start)


@ob("root_cone", funcs=[B + "GearToothConicGenerator.check_lower_curve_limit"], seconds=60)
def root_cone(q, m):
    """on a cone: the search plane is the one through the apex that touches the dedendum
    cone; an extension joins the flank and stays on its sphere"""
    lengths(q, m)
    rp, g = conic(q)
    lim = limits(q, m)
    R = rp / q.np.sin(g)
    u = q.real("u", lo=-0.5, hi=0.5)
    found = q.bool("found")
    v0 = q.unit3("v")
    apex = q.arr([0, 0, R * q.np.cos(g)])
    start, end = apex + R * v0, q.vec3("end")
    c = through(q, m, "flank", u, start, q.num("1"), end, t0=q.num("0"))
    gen = m.base.GearToothConicGenerator(pitch_intersect_angle=q.real("th", lo=0.03, hi=0.2), pitch_radius=rp, cone_angle=2 * g, ref_limits=lim)
    n = [0]

    def plane(curve, plane_normal=None, offset=None, guess=0, method=None):
        n[0] += 1
        w = g - lim.h_d / R
        q.ensure("searches this flank", curve is c)
        k = q.real("k")
        q.ensure_eq("dedendum line in the plane", q.np.dot(apex + k * q.arr([q.np.sin(w), 0, -q.np.cos(w)]) - offset, plane_normal), 0)
        if found:
            return sol(q.arr([u]), True)
        if method is None or method == m.curve.IntersectMethod.EQUALITY:
            return sol(q.arr([q.real("bad")]), False)
        return sol(q.arr([u]), q.bool("reported"))

    q.stand(m.curve, "find_curve_plane_intersect", plane, must=True)
    arcs = {}

    def arc(cls, p0=None, center=None, angle=None, axis=None, active=True):
        """contract of ArcCurve.from_point_center_angle (decided in C05)"""
        q.ensure_eq("extension starts at the flank", p0, start)
        q.ensure_eq("extension about the apex", center, apex)
        o = q.vec3("arc.end")
        return through(q, m, "arc", q.num("0"), p0, q.num("1"), o)

    q.stand(m.curve.ArcCurve, "from_point_center_angle", classmethod(arc))
    if q.symbolic:
        q.stub(m.base, "angle_between_vector_and_plane", lambda a, b: q.fresh("ang"))
    r = gen.check_lower_curve_limit(c)
    if found:
        q.ensure("no extension", r is c)
        q.ensure_eq("starts there", r(0), start)
        q.ensure_eq("keeps its end", r(1), end)
    else:
        q.ensure_int("pieces", len(r) - 2)
        q.ensure_eq("extension joins", r[0](1), r[1](0))
        q.ensure_eq("flank starts there", r[1](0), start)
        q.ensure_eq("keeps its end", r[1](1), end)


# ------------------------------------------------------------------ whole flanks
@ob("real_flanks", funcs=[T + n + ".generate_tooth_curve" for n in ("InvoluteTooth", "InvoluteUndercutTooth", "OctoidTooth", "OctoidUndercutTooth", "CycloidTooth")], sym=False, samples=60, sample_seconds=40)
def real(q, m):
    n = q.choice("cls", ["InvoluteTooth", "InvoluteUndercutTooth", "OctoidTooth", "OctoidUndercutTooth", "CycloidTooth"])
    N = q.int("N", 12, 50)
    rp, ga = N / 2, q.choice("flat", [0, 1]) * q.real("ga", lo=0.3, hi=1.2)
    pia = q.np.pi / N / 2 * q.real("k", lo=0.9, hi=1.1)
    kw = dict(pitch_intersect_angle=pia, pitch_radius=rp, cone_angle=2 * ga, ref_limits=m.base.ToothLimitParam(h_a=1, h_d=1.2, h_o=2))
    if n != "CycloidTooth":
        kw["pressure_angle"] = q.real("al", lo=0.3, hi=0.45)
    if "Undercut" in n or n == "OctoidTooth":
        kw["pitch_angle"] = 2 * q.np.pi / N
    c = getattr(m.gearteeth, n)(**kw).generate_tooth_curve()
    cs = [x for x in (c.get_curves() if isinstance(c, m.curve.CurveChain) else [c]) if x.active]
    for i, (a, b) in enumerate(zip(cs, cs[1:])):
        q.ensure_eq("joined %d" % i, a(1), b(0), tol=1e-3)
    s = q.np.linspace(0, 1, 401)
    P = q.np.array([c(x) for x in s])
    rad = q.np.hypot(P[:, 0], P[:, 1])
    k = [i for i in range(400) if (rad[i] - rp) * (rad[i + 1] - rp) <= 0]
    q.ensure("crosses the pitch circle", len(k) > 0)
    k = k[-1]
    w = (rp - rad[k]) / (rad[k + 1] - rad[k])
    p = P[k] + w * (P[k + 1] - P[k])
    q.ensure_eq("at the pitch angle", q.np.arctan2(p[1], p[0]), -pia, tol=2e-3)
    if ga:
        d = P - q.arr([0, 0, rp / q.np.tan(ga)])
        q.ensure_eq("on the sphere", q.np.sqrt((d * d).sum(axis=1)) * q.np.sin(ga) / rp, 1 + 0 * rad, tol=1e-5)
    else:
        q.ensure_eq("flat", P[:, 2], 0 * rad)
    q.ensure_eq("ends in the middle", P[-1, 1], 0, tol=1e-4)
