"""C09 meshing of cylindrical gears: centre distance, direction, orientation, backlash."""
from engine.api import ob

G = "gearmath."
W = "gggears_wrapper."
T = "gearteeth."


def quick_len(q, m):
    """contract of Curve.update_lengths (decided in C03)"""
    if not q.symbolic:
        return

    def f(self):
        self.length = q.fresh("len")
        q.assume(self.length > 0)
        self.t2s_lookup["s"] = q.arr([0, 1])
        self.t2s_lookup["t"] = q.arr([self.t_0, self.t_1])

    q.stub(m.curve.Curve, "update_lengths", f)


# ----------------------------------------------------------------- distance
@ob("distance_external", funcs=[G + "calc_involute_mesh_distance"])
def distance_external(q, m):
    """the two tooth thicknesses on the operating circles and the backlash fill one pitch"""
    q.solver_ok(-q.pi / 2, q.pi / 2, "(-pi/2, pi/2)")
    r1, r2 = q.real("r1", lo=1, hi=50), q.real("r2", lo=1, hi=50)
    b1, b2, p2 = q.real("b1", lo=0, hi=1), q.real("b2", lo=0, hi=1), q.real("p2", lo=0.05, hi=1)
    j = q.real("j", lo=0, hi=1, lo_in=True)
    I = (r1 * b1 - r2 * (p2 / 2 - b2) + j / 2) / (r1 + r2)
    q.assume(I > 0.0001)
    q.assume(I < 0.5)
    D = m.gearmath.calc_involute_mesh_distance(r1, r2, b1, b2, p2, backlash=j)
    q.ensure("distance covers the base circles", q.le(r1 + r2, D))
    a = q.np.arccos((r1 + r2) / D)
    law = q.np.tan(a) - a
    q.ensure_eq("operating pressure angle", law * law, I * I, tol=1e-6)
    D0 = m.gearmath.calc_involute_mesh_distance(r1, r2, b1, b2, p2, False, j)
    q.ensure_eq("same by position", (r1 + r2) / D0 * D0, r1 + r2)


@ob("distance_ring", funcs=[G + "calc_involute_mesh_distance"])
def distance_ring(q, m):
    q.solver_ok(-q.pi / 2, q.pi / 2, "(-pi/2, pi/2)")
    first = q.bool("ring first")
    rr, rp = q.real("rr", lo=1, hi=50), q.real("rp", lo=1, hi=50)
    br, bp, p2 = q.real("br", lo=0, hi=1), q.real("bp", lo=0, hi=1), q.real("p2", lo=0.05, hi=1)
    j = q.real("j", lo=0, hi=1, lo_in=True)
    q.assume(rr > rp + 0.1)
    q.assume(rr * br > rp * bp)
    I = (rr * br - rp * bp - j / 2) / (rr - rp)
    q.assume(I > 0.0001)
    q.assume(I < 0.5)
    if first:
        D = m.gearmath.calc_involute_mesh_distance(rr, rp, br, bp, p2, inside_ring=True, backlash=j)
    else:
        D = m.gearmath.calc_involute_mesh_distance(rp, rr, bp, br, p2, inside_ring=True, backlash=j)
    q.ensure("distance", q.le(rr - rp, D))
    a = q.np.arccos((rr - rp) / D)
    law = q.np.tan(a) - a
    q.ensure_eq("operating pressure angle", law * law, I * I, tol=1e-6)


# ----------------------------------------------------------------- base circle of a tooth
TOOTH = ["InvoluteTooth", "InvoluteUndercutTooth"]


@ob("intersection", funcs=["curve.find_curve_intersect"])
def intersection(q, m):
    """a reported intersection of two curves is a common point, for arbitrary curves"""
    quick_len(q, m)
    q.solver_ok()
    if q.symbolic:
        a, b = m.curve.Curve(q.fn3("a")), m.curve.Curve(q.fn3("b"))
    else:
        rp, al = q.real("rp", lo=1, hi=20), q.real("al", lo=0.2, hi=0.6)
        a, b = m.curve.InvoluteCurve(r=rp * q.np.cos(al), angle=0, t0=0, t1=2), m.curve.ArcCurve(radius=rp, angle=2 * q.pi)
    if q.symbolic:
        q.stub(m.curve.Curve, "__call__", lambda self, t: self.function(t))
    sol = m.curve.find_curve_intersect(a, b, guess=[0.5, 0])
    q.ensure_eq("common point", a(sol.x[0]), b(sol.x[1]), tol=1e-6)


@ob("roll_angle", funcs=["curve.InvoluteCurve"])
def roll_angle(q, m):
    """distance from the centre at roll angle t; so on the pitch circle t = +-tan(alpha)"""
    quick_len(q, m)
    rp = q.pos("rp")
    al = q.real("al", lo=0.1, hi=0.9)
    c = m.curve.InvoluteCurve(r=rp * q.np.cos(al), angle=0, t0=0, t1=2)
    s = q.real("s", lo=0, hi=1)
    p = c(s)
    t = c.s2t(s)
    q.ensure_eq("radius", q.np.dot(p, p), rp * rp * q.np.cos(al) * q.np.cos(al) * (1 + t * t))


@ob("base_of_tooth", funcs=[T + "InvoluteTooth.get_base_radius", T + "InvoluteTooth.get_base_angle", T + "InvoluteTooth.generate_involute_curve"], samples=20)
def base_of_tooth(q, m):
    """flank on the base circle rp*cos(alpha), crossing the pitch circle at the asked angle"""
    quick_len(q, m)
    rp = q.real("rp", lo=3, hi=30)
    al = q.real("al", lo=0.15, hi=0.6)
    th = q.real("th", lo=0.03, hi=0.3)
    cls = getattr(m.gearteeth, q.choice("cls", TOOTH))
    gen = cls(pitch_intersect_angle=th, pitch_radius=rp, cone_angle=0, pressure_angle=al, ref_limits=m.base.ToothLimitParam())
    phi = q.np.tan(al) - al
    if q.symbolic:
        from engine.shim_scipy import OptimizeResult

        def isect(c1, c2, guess=None, method=None):
            """contract decided in intersection_on_pitch_circle and roll_angle"""
            return OptimizeResult(x=q.arr([q.np.tan(al) / 2, 0, 0]), success=True)

        def plane(c, *a, **k):
            return OptimizeResult(x=q.arr([q.fresh("pl")]), success=True)

        q.stub(m.curve, "find_curve_intersect", isect)
        q.stub(m.curve, "find_curve_plane_intersect", plane)
        q.axiom("0 < tan(a) - a < pi/2 for 0.15 < a < 0.6", q.lt(0, phi))
        q.axiom("0 < tan(a) - a < pi/2 for 0.15 < a < 0.6", q.lt(phi, q.num("1/5")))
        q.axiom("0 < sin(x) for 0 < x < pi", q.lt(0, q.np.sin(phi)))
        q.nonneg_hint(rp * q.np.sin(phi))
        q.nonneg_hint(rp)
        q.angle_hint(phi)
    rb, b = gen.get_base_radius(), gen.get_base_angle()
    q.ensure_eq("base radius", rb, rp * q.np.cos(al))
    q.ensure_eq("base angle", b, -(th + phi), tol=1e-5)


# ----------------------------------------------------------------- whole gears
def stub_base(q, m):
    """contract of the involute flank (decided in base_of_tooth)"""
    if not q.symbolic:
        return
    I = m.gearteeth.InvoluteTooth

    def gr(self):
        return self.pitch_radius * q.np.cos(self.pressure_angle)

    def ga(self):
        return -(self.pitch_intersect_angle + q.np.tan(self.pressure_angle) - self.pressure_angle)

    q.stub(I, "get_base_radius", gr)
    q.stub(I, "get_base_angle", ga)


def gear(q, m, n, z, mod, al, ring=False, x=None, bl=None, cls=None, orient=None, **kw):
    c = cls or m.wrapper.InvoluteGear
    g = c(number_of_teeth=z, module=mod, pressure_angle=al, center=q.vec3(n + ".c"), angle=q.real(n + ".a"), profile_shift=q.real(n + ".x", lo=-0.3, hi=0.5) if x is None else x, backlash=q.real(n + ".bl", lo=0, hi=0.1, lo_in=True) if bl is None else bl, height=q.real(n + ".h", lo=0.5, hi=5), inside_teeth=ring, **kw) if cls is None else c(number_of_teeth=z, module=mod, pressure_angle=al, center=q.vec3(n + ".c"), angle=q.real(n + ".a"), **kw)
    if orient is not None:
        g.gearcore.transform.orientation = orient
    return g


@ob("base_of_gear", funcs=[W + "InvoluteGear.r_base", W + "InvoluteGear.angle_base", W + "InvoluteGear.circle_involute_base"], samples=12)
def base_of_gear(q, m):
    stub_base(q, m)
    z = q.int("z", 8, 60)
    mod, al = q.real("m", lo=0.3, hi=5), q.real("al", lo=0.2, hi=0.5)
    uc = q.bool("undercut")
    ring = q.bool("ring")
    R = q.rot("R")
    g = gear(q, m, "g", z, mod, al, ring, orient=R, enable_undercut=uc)
    q.ensure_eq("r_base", g.r_base, mod * z / 2 * q.np.cos(al), tol=1e-6)
    th = q.pi / (2 * z) + (g.inputparam.profile_shift * q.np.tan(al) - g.inputparam.backlash) / (q.val(z) / 2)
    q.ensure_eq("angle_base", -g.angle_base, th + q.np.tan(al) - al, tol=1e-5)
    c = g.circle_involute_base(0.3)
    q.ensure_eq("radius", c.radius, mod * z / 2 * q.np.cos(al), tol=1e-6)
    q.ensure_eq("centre on axis", q.np.cross(c.center - g.center, R @ q.arr([0, 0, 1])), q.arr([0, 0, 0]), tol=1e-6)


def perp(q, R, d):
    """unit vector across the axis of orientation R"""
    return R @ (q.rotz(d) @ q.arr([1, 0, 0]))


@ob("mesh_external", funcs=[W + "InvoluteGear.mesh_to"], samples=10, sample_seconds=25)
def mesh_external(q, m):
    """centre distance satisfies the involute law for the actual teeth, along target_dir"""
    stub_base(q, m)
    q.solver_ok(-q.pi / 2, q.pi / 2, "(-pi/2, pi/2)")
    z1, z2 = q.int("z1", 10, 50), q.int("z2", 10, 50)
    mod, al = q.real("m", lo=0.3, hi=5), q.real("al", lo=0.25, hi=0.5)
    R = q.rot("R")
    g1, g2 = gear(q, m, "g1", z1, mod, al, orient=q.rot("R1")), gear(q, m, "g2", z2, mod, al, orient=R)
    k = q.real("k", lo=0.2, hi=3)
    u = perp(q, R, q.angle("d"))
    j = q.real("j", lo=0, hi=0.2, lo_in=True)
    bias = q.real("bias", lo=-1, hi=1)
    c2, a2 = g2.center * 1, g2.angle
    x1, x2 = g1.inputparam.profile_shift, g2.inputparam.profile_shift
    e1, e2 = g1.inputparam.backlash, g2.inputparam.backlash
    I = q.np.tan(al) - al + (2 * (x1 + x2) * q.np.tan(al) - 2 * (e1 + e2) + j / mod / q.np.cos(al)) / q.val(z1 + z2)
    q.assume(I > 0.002)
    g1.mesh_to(g2, target_dir=u * k, backlash=j, angle_bias=bias)
    v = g1.center - c2
    D = q.np.dot(v, u)
    q.ensure_eq("along target_dir", v, u * D, tol=1e-6)
    q.ensure("on the asked side", D > 0)
    rb = mod * (z1 + z2) / 2 * q.np.cos(al)
    a = q.np.arccos(rb / D)
    law = q.np.tan(a) - a
    q.ensure_eq("involute law", law * law, I * I, tol=1e-5)
    q.ensure_eq("orientation", g1.gearcore.transform.orientation, R)
    q.ensure_eq("module", g1.gearcore.transform.scale, mod)
    q.ensure_eq("other centre", g2.center, c2)
    q.ensure_eq("other angle", g2.angle, a2)
    q.ensure_eq("other orientation", g2.gearcore.transform.orientation, R)


@ob("mesh_ring", funcs=[W + "InvoluteGear.mesh_to"], samples=10, sample_seconds=25)
def mesh_ring(q, m):
    stub_base(q, m)
    q.solver_ok(-q.pi / 2, q.pi / 2, "(-pi/2, pi/2)")
    zp, zr = q.int("zp", 10, 30), q.int("zr", 36, 80)
    mod, al = q.real("m", lo=0.3, hi=5), q.real("al", lo=0.25, hi=0.5)
    R = q.rot("R")
    x = q.real("x", lo=-0.2, hi=0.2)
    gp, gr = gear(q, m, "gp", zp, mod, al, x=x, bl=0, orient=R), gear(q, m, "gr", zr, mod, al, ring=True, x=x, bl=0, orient=R)
    u = perp(q, R, q.angle("d"))
    first = q.bool("ring moves")
    g1, g2 = (gr, gp) if first else (gp, gr)
    c2 = g2.center * 1
    j = q.real("j", lo=0, hi=0.1, lo_in=True)
    I = q.np.tan(al) - al - j / mod / q.np.cos(al) / q.val(zr - zp)
    q.assume(I > 0.002)
    g1.mesh_to(g2, target_dir=u, backlash=j)
    v = g1.center - c2
    D = q.np.dot(v, u)
    q.ensure_eq("along target_dir", v, u * D, tol=1e-6)
    q.ensure("on the asked side", D > 0)
    rb = mod * (zr - zp) / 2 * q.np.cos(al)
    a = q.np.arccos(rb / D)
    law = q.np.tan(a) - a
    q.ensure_eq("involute law", law * law, I * I, tol=1e-5)
    q.ensure_eq("orientation", g1.gearcore.transform.orientation, R)
    q.ensure_eq("other centre", g2.center, c2)


@ob("standard_gears_at_sum_of_pitch_radii", funcs=[W + "InvoluteGear.mesh_to"], samples=10, sample_seconds=25)
def standard(q, m):
    """no shift, no backlash: pitch circles touch (operating = nominal pressure angle)"""
    stub_base(q, m)
    q.solver_ok(0, q.pi / 2, "(0, pi/2)")
    z1, z2 = q.int("z1", 10, 50), q.int("z2", 10, 50)
    mod, al = q.real("m", lo=0.3, hi=5), q.real("al", lo=0.25, hi=0.5)
    R = q.rot("R")
    g1, g2 = gear(q, m, "g1", z1, mod, al, x=0, bl=0), gear(q, m, "g2", z2, mod, al, x=0, bl=0, orient=R)
    u = perp(q, R, q.angle("d"))
    g1.mesh_to(g2, target_dir=u)
    D = q.np.dot(g1.center - g2.center, u)
    if q.symbolic:
        a = q.np.arccos(mod * (z1 + z2) / 2 * q.np.cos(al) / D)
        law, nom = q.np.tan(a) - a, q.np.tan(al) - al
        q.ensure_eq("operating angle satisfies the nominal involute function", law, nom)
    else:
        q.ensure_eq("distance", D, mod * (z1 + z2) / 2, tol=1e-5)


@ob("bias", funcs=[W + "InvoluteGear.mesh_to"], samples=8, sample_seconds=25)
def bias(q, m):
    """angle_bias moves the flank by its share of the backlash along the base circle"""
    stub_base(q, m)
    q.solver_ok(-q.pi / 2, q.pi / 2, "(-pi/2, pi/2)")
    z1, z2 = q.int("z1", 10, 50), q.int("z2", 10, 50)
    mod, al = q.real("m", lo=0.3, hi=5), q.real("al", lo=0.25, hi=0.5)
    j, w = q.real("j", lo=0, hi=0.2, lo_in=True), q.real("w", lo=-1, hi=1)
    c = {}

    def mk():
        return gear(q, m, "g1", z1, mod, al, x=0, bl=0)

    g1 = mk()
    g2 = gear(q, m, "g2", z2, mod, al, x=0, bl=0)
    if q.symbolic:
        q.stub(m.gearmath, "calc_involute_mesh_distance", lambda *a, **k: mod * (z1 + z2))
        q.stub(m.wrapper, "calc_involute_mesh_distance", lambda *a, **k: mod * (z1 + z2))
        # contract decided in base_of_gear
        q.stub(m.wrapper.InvoluteGear, "r_base", property(lambda self: self.module * self.number_of_teeth / 2 * q.np.cos(self.inputparam.pressure_angle)))
    u = perp(q, g2.gearcore.transform.orientation, q.angle("d"))
    g1.mesh_to(g2, target_dir=u, backlash=j, angle_bias=w)
    biased = g1.angle
    g1.mesh_to(g2, target_dir=u, backlash=j, angle_bias=0)
    rb = mod * z1 / 2 * q.np.cos(al)
    q.ensure_eq("arc on the base circle", (biased - g1.angle) * rb, w * j / 2, tol=1e-6)


# ----------------------------------------------------------------- helical
@ob("helical_tooth_directions", funcs=[W + "HelicalGear.mesh_to"], samples=10, sample_seconds=25)
def helical(q, m):
    """at the contact both helices run in the same direction; base class placement kept"""
    z1, z2 = q.int("z1", 10, 40), q.int("z2", 10, 40)
    mod = q.real("m", lo=0.5, hi=3)
    b1, b2 = q.real("b1", lo=-0.7, hi=0.7), q.real("b2", lo=-0.7, hi=0.7)
    if q.symbolic:
        q.stub(m.wrapper.InvoluteGear, "calc_params", core_only(q, m))
        q.stub(m.wrapper.np, "linspace", lambda a, b, n=50, **k: q.arr([a, b])) if False else None
    kind = q.choice("kind", ["ext", "ring_other"])
    g1 = mkhel(q, m, m.wrapper.HelicalGear, "g1", z1, mod, b1)
    if kind == "ext":
        g2 = mkhel(q, m, m.wrapper.HelicalGear, "g2", z2, mod, b2)
    else:
        g2 = mkhel(q, m, m.wrapper.HelicalRingGear, "g2", z2 + 45, mod, b2)
    R = q.rot("R")
    g2.gearcore.transform.orientation = R
    u = perp(q, R, q.angle("d"))
    D = q.pos("D")

    if q.symbolic:
        def base(self, other, target_dir=None, backlash=0, angle_bias=0):
            self.gearcore.transform.center = other.gearcore.transform.center + target_dir * D
            self.gearcore.transform.orientation = other.gearcore.transform.orientation
            self.gearcore.transform.angle = 0

        q.stub(m.wrapper.InvoluteGear, "mesh_to", base)
    g1.mesh_to(g2, target_dir=u)
    R1 = g1.gearcore.transform.orientation
    z_1, z_2 = R1 @ q.arr([0, 0, 1]), R @ q.arr([0, 0, 1])
    # contact directions seen from each centre
    if kind == "ext":
        c1, c2 = u * -1, u
    else:
        c1, c2 = u, u
    q.ensure_eq("still across the axis", q.np.dot(z_1, u), 0)
    t1 = z_1 * q.np.cos(b1) + q.np.cross(z_1, c1) * q.np.sin(b1)
    t2 = z_2 * q.np.cos(b2) + q.np.cross(z_2, c2) * q.np.sin(b2)
    q.ensure_eq("tooth directions agree", t1, t2, tol=1e-6)


def mkhel(q, m, cls, n, z, mod, b):
    if not q.symbolic:
        return cls(number_of_teeth=z, module=mod, helix_angle=b, center=q.vec3(n + ".c"))
    g = q.partial(cls)
    g.inputparam = m.wrapper.InvoluteInputParam(number_of_teeth=z, helix_angle=b, module=mod, center=q.vec3(n + ".c"), inside_teeth="Ring" in cls.__name__)
    g.gearcore = m.core.Gear(tooth_param=m.base.GearToothParam(z, inside_teeth="Ring" in cls.__name__), module=mod, shape_recipe=m.core.default_gear_recipe(m.base.GearToothParam(z), m.base.GearToothConicGenerator()), transform=m.base.GearTransform(center=q.vec3(n + ".c"), scale=mod))
    return g


def core_only(q, m):
    return lambda self: None


# ----------------------------------------------------------------- core and cycloid
@ob("core_mesh", funcs=["gggears_core.Gear.mesh_to"])
def core_mesh(q, m):
    """bare gears: pitch circles touch, in the given unit direction"""
    z1, z2 = q.int("z1", 8, 30), q.int("z2", 40, 70)
    mod = q.real("m", lo=0.3, hi=5)
    kind = q.choice("kind", [0, 1, 2])
    P = m.base.GearToothParam
    t1, t2 = P(z1, inside_teeth=kind == 1), P(z2, inside_teeth=kind == 2)
    if kind == 1:
        t1, t2 = P(z2, inside_teeth=True), P(z1)

    def mk(t, n):
        return m.core.Gear(tooth_param=t, module=mod, shape_recipe=m.core.default_gear_recipe(t, m.base.GearToothConicGenerator()), transform=m.base.GearTransform(center=q.vec3(n + ".c"), scale=mod, angle=q.real(n + ".a"), orientation=q.rot(n + ".R")))

    g1, g2 = mk(t1, "g1"), mk(t2, "g2")
    R = g2.transform.orientation * 1
    c2, a2 = g2.transform.center * 1, g2.transform.angle
    u = perp(q, R, q.angle("d"))
    g1.mesh_to(g2, target_dir=u)
    want = mod * (z1 + z2) / 2 if kind == 0 else mod * (z2 - z1) / 2
    q.ensure_eq("centre", g1.center, c2 + u * want)
    q.ensure_eq("orientation", g1.transform.orientation, R)
    q.ensure_eq("other centre", g2.transform.center, c2)
    q.ensure_eq("other angle", g2.transform.angle, a2)
    q.ensure_eq("rp", g1.rp + g2.rp, mod * (z1 + z2) / 2)


@ob("cycloid_mesh", funcs=[W + "CycloidGear.mesh_to"], samples=15)
def cycloid_mesh(q, m):
    z1, z2 = q.int("z1", 8, 30), q.int("z2", 40, 70)
    mod = q.real("m", lo=0.3, hi=5)
    kind = q.choice("kind", [0, 1, 2])

    def mk(z, n, ring):
        g = m.wrapper.CycloidGear(number_of_teeth=z, module=mod, center=q.vec3(n + ".c"), angle=q.real(n + ".a"), inside_teeth=ring)
        g.gearcore.transform.orientation = q.rot(n + ".R")
        return g

    g1, g2 = mk(z2 if kind == 1 else z1, "g1", kind == 1), mk(z1 if kind == 1 else z2, "g2", kind == 2)
    R = g2.gearcore.transform.orientation * 1
    c2 = g2.center * 1
    u = perp(q, R, q.angle("d"))
    g1.mesh_to(g2, target_dir=u)
    want = mod * (z1 + z2) / 2 if kind == 0 else mod * (z2 - z1) / 2
    q.ensure_eq("centre", g1.center, c2 + u * want)
    q.ensure_eq("orientation", g1.gearcore.transform.orientation, R)
    q.ensure_eq("other centre", g2.center, c2)
