"""C14 the dimensions a gear reports are those of the gear as placed."""
from engine.api import ob

W = "gggears_wrapper.GearInfoMixin."


def gear(q, m, flat=None, cls="InvoluteGear", herring=False):
    N = q.int("N", 8, 60)
    mod = q.real("mod", lo=0.3, hi=4)
    flat = q.bool("flat") if flat is None else flat
    gam = 0 if flat else q.real("gam", lo=0.15, hi=1.3)
    h = q.real("h", lo=0.2, hi=1.2) * mod
    an = q.real("an", lo=0, hi=1)
    kw = dict(number_of_teeth=N, module=mod, height=h, z_anchor=an, center=q.vec3("c"), angle=q.real("a"))
    if cls != "HelicalGear":
        kw["cone_angle"] = 2 * gam
    g = getattr(m.wrapper, cls)(**kw)
    g.gearcore.transform.orientation = q.rot("O")
    return g, N, mod, gam, h, an


def slice_at(q, g, N, mod, gam, z, beta=0):
    """centre and pitch radius of the slice at height z (in modules)"""
    T = g.gearcore.transform
    ax = T.orientation @ q.arr([0, 0, 1])
    return T.center + ax * (z * mod * q.np.cos(gam)), mod * N / 2 - z * mod * q.np.sin(gam)


@ob("basic", funcs=[W + n for n in ("number_of_teeth", "inside_teeth", "pitch_radius", "rp", "module", "cone_angle", "center", "pitch_angle", "angle")])
def basic(q, m):
    cyc = q.bool("cycloid")
    g, N, mod, gam, h, an = gear(q, m, cls="CycloidGear" if cyc else "InvoluteGear")
    q.ensure_eq("teeth", g.number_of_teeth, N)
    q.ensure_eq("pitch radius", g.pitch_radius, N * mod / 2)
    q.ensure_eq("rp", g.rp, N * mod / 2)
    q.ensure_eq("module", g.module, mod)
    q.ensure_eq("cone angle", g.cone_angle, 2 * gam)
    q.ensure_eq("pitch angle", g.pitch_angle * N, 2 * q.pi)
    c, a = q.vec3("c2"), q.real("a2")
    g.center = c
    g.angle = a
    q.ensure_eq("centre", g.center, c)
    q.ensure_eq("angle", g.angle, a)
    T = g.gearcore.transform
    q.ensure_eq("moved", T.center, c)
    q.ensure_eq("turned", T.angle, a)


@ob("cone", funcs=[W + "cone_data", W + "radius_spherical", W + "center_spherical"])
def cone(q, m):
    cyc = q.bool("cycloid")
    g, N, mod, gam, h, an = gear(q, m, flat=False, cls="CycloidGear" if cyc else "InvoluteGear")
    T = g.gearcore.transform
    ax = T.orientation @ q.arr([0, 0, 1])
    R = mod * N / 2 / q.np.sin(gam)
    q.ensure_eq("cone distance", g.radius_spherical, R)
    q.ensure_eq("apex", g.center_spherical, T.center + ax * R * q.np.cos(gam))
    q.ensure_eq("cone data apex", g.cone_data.center, T.center + ax * R * q.np.cos(gam))
    q.ensure_eq("half angle", g.cone_data.gamma, gam)


@ob("slices", funcs=[W + n for n in ("center_transform_at_z", "center_point_at_z", "center_point_bottom", "center_point_middle", "center_point_top", "proportion_to_z", "p2z", "z_height")])
def slices(q, m):
    cyc = q.bool("cycloid")
    g, N, mod, gam, h, an = gear(q, m, cls="CycloidGear" if cyc else "InvoluteGear")
    zh = h / mod
    z = q.real("z", lo=-1, hi=1)
    c, r = slice_at(q, g, N, mod, gam, z)
    q.ensure_eq("centre", g.center_point_at_z(z), c)
    T = g.center_transform_at_z(z)
    q.ensure_eq("transform centre", T.center, c)
    q.ensure_eq("transform scale", T.scale * N / 2, r)
    for n, z_ in (("bottom", -zh * an), ("middle", zh * (q.num("1/2") - an)), ("top", zh * (1 - an))):
        q.ensure_eq(n, getattr(g, "center_point_" + n), slice_at(q, g, N, mod, gam, z_)[0])
    p = q.real("p", lo=0, hi=1)
    q.ensure_eq("proportion", g.proportion_to_z(p), zh * (p - an))
    q.ensure_eq("p2z", g.p2z(p), zh * (p - an))
    q.nonneg_hint(q.np.cos(gam) if not isinstance(gam, int) else 1)
    q.ensure_eq("height along the axis", g.z_height, h * q.np.cos(gam))


@ob("herringbone_slices", funcs=[W + "proportion_to_z", W + "center_point_top", W + "z_height", "gggears_wrapper.InvoluteGear.circle_involute_base"])
def herringbone(q, m):
    """gears with more than two sections: bottom and top are the ends"""
    N = q.int("N", 8, 60)
    mod = q.real("mod", lo=0.3, hi=4)
    beta = q.real("beta", lo=-0.6, hi=0.6)
    h = q.real("h", lo=0.2, hi=2)
    an = q.real("an", lo=0, hi=1)
    cb = q.np.cos(beta)
    if q.symbolic:
        q.nonneg_hint(cb)
        q.stub(m.wrapper.np, "max", lambda a, *k: 0)
        q.stub(m.wrapper.np, "min", lambda a, *k: 0)
        rb = q.pos("rb")
        q.stub(m.gearteeth.InvoluteTooth, "get_base_radius", lambda self: rb)
    g = m.wrapper.HelicalGear(number_of_teeth=N, module=mod, height=h, z_anchor=an, helix_angle=beta, herringbone=True, center=q.vec3("c"), angle=q.real("a"))
    g.gearcore.transform.orientation = q.rot("O")
    T = g.gearcore.transform
    ax = T.orientation @ q.arr([0, 0, 1])
    p = q.real("p", lo=0, hi=1)
    q.ensure_eq("height", g.z_height, h)
    q.ensure_eq("top", g.center_point_top, T.center + ax * h * (1 - an))
    q.ensure_eq("bottom", g.center_point_bottom, T.center - ax * h * an)
    q.ensure_eq("middle", g.center_point_middle, T.center + ax * h * (q.num("1/2") - an))
    q.ensure_eq("at proportion", g.center_point_at_z(g.p2z(p)), T.center + ax * h * (p - an))
    c = g.circle_involute_base(p)
    q.ensure_eq("base circle centre", c.center, T.center + ax * h * (p - an))


def profile(q, m, g):
    """an arbitrary slice profile; generated profiles are decided elsewhere"""
    P = m.core.GearRefProfile
    A = m.crv.ArcCurve
    rr = [q.real(n, lo=1, hi=40) for n in ("ra", "rd", "ro")]
    zz = [q.real(n, lo=-2, hi=2) for n in ("za", "zd", "zo")]
    arcs = [A(radius=r, center=q.arr([0, 0, z]), angle=q.real("an%d" % i, lo=0.1, hi=1)) for i, (r, z) in enumerate(zip(rr, zz))]

    def at(self, z):
        rec = self.shape_recipe(z)
        return P(arcs[0], arcs[1], arcs[2], None, None, rec.pitch_angle, m.base.GearTransform(**rec.transform.__dict__))

    return rr, zz, at


@ob("circles", funcs=[W + n for n in ("radii_data_gen", "radii_data_bottom", "radii_data_top", "addendum_radius", "dedendum_radius", "max_outside_radius", "radii_data_array", "cone_angles_at_z", "cone_angle_limits_bottom", "cone_angle_limits_top")] + ["gggears_base_classes.GearRefCircles.r_a"], samples=15)
def circles(q, m):
    """reference circles: those of the slice profile, moved, turned and scaled with the gear"""
    g, N, mod, gam, h, an = gear(q, m)
    T = g.gearcore.transform
    ax = T.orientation @ q.arr([0, 0, 1])
    z = q.real("z", lo=-1, hi=1)
    c, rp = slice_at(q, g, N, mod, gam, z)
    k = rp / (N / q.num("2"))
    if q.symbolic:
        q.assume(rp > 0.1)
        q.assume(1 - h / mod * q.np.sin(gam) / (N / 2) > 0.01)
        rr, zz, at = profile(q, m, g)
        q.stub(m.core.Gear, "curve_gen_at_z", at)
    else:
        pr = g.gearcore.curve_gen_at_z(z)
        cs = [pr.ra_curve, pr.rd_curve, pr.ro_curve]
        rr, zz = [x.radius for x in cs], [x.center[2] for x in cs]
    d = g.radii_data_gen(z)
    for n, crv, r, zc, short in (("addendum", d.r_a_curve, rr[0], zz[0], d.r_a), ("dedendum", d.r_d_curve, rr[1], zz[1], d.r_d), ("rim", d.r_o_curve, rr[2], zz[2], d.r_o), ("pitch", d.r_p_curve, N / q.num("2"), 0, d.r_p)):
        q.ensure_eq(n + " radius", crv.radius, k * r)
        q.ensure_eq(n + " short", short, k * r)
        q.ensure_eq(n + " centre", crv.center, c + ax * (k * zc))
        q.ensure_eq(n + " full", crv.angle, 2 * q.pi)
        p = crv(q.num("1/8")) - (c + ax * (k * zc))
        q.ensure_eq(n + " plane", q.np.dot(p, ax), 0, tol=1e-6)
    q.ensure_eq("centre of circles", d.center, c)


def any_radii(q, m):
    """arbitrary reference radii at every height"""
    def gen(self, z):
        mk = lambda n: type("A", (), {"radius": q.fn("r" + n)(z)})()
        return type("D", (), {"r_a_curve": mk("a"), "r_d_curve": mk("d"), "r_o_curve": mk("o"), "r_p_curve": mk("p")})()

    q.stub(m.wrapper.GearInfoMixin, "radii_data_gen", gen)


@ob("named_circles", funcs=[W + n for n in ("addendum_radius", "dedendum_radius", "max_outside_radius", "radii_data_array")], samples=20)
def named(q, m):
    g, N, mod, gam, h, an = gear(q, m)
    zh = h / mod
    if q.symbolic:
        any_radii(q, m)
    b, t = -zh * an, zh * (1 - an)
    db, dt = g.radii_data_gen(b), g.radii_data_gen(t)
    q.ensure_eq("addendum", g.addendum_radius, db.r_a_curve.radius)
    q.ensure_eq("dedendum", g.dedendum_radius, db.r_d_curve.radius)
    q.ensure_eq("bottom", g.radii_data_bottom.r_a_curve.radius, db.r_a_curve.radius)
    q.ensure_eq("top", g.radii_data_top.r_a_curve.radius, dt.r_a_curve.radius)


@ob("largest_radius", funcs=[W + "max_outside_radius", W + "radii_data_array"], samples=20)
def largest(q, m):
    g, N, mod, gam, h, an = gear(q, m, flat=None if not q.symbolic else True)
    zh = h / mod
    if q.symbolic:
        any_radii(q, m)
    mx = g.max_outside_radius
    db, dt = g.radii_data_gen(-zh * an), g.radii_data_gen(zh * (1 - an))
    al = [x.radius for d in (db, dt) for x in (d.r_a_curve, d.r_o_curve)]
    for i, x in enumerate(al):
        q.ensure("at least %d" % i, q.le(x, mx + (0 if q.symbolic else 1e-9)))


@ob("cone_angles", funcs=[W + n for n in ("cone_angles_at_z", "cone_angle_limits_bottom", "cone_angle_limits_top")], samples=20)
def cone_angles(q, m):
    """half angle of the cone through each reference circle, apex common"""
    g, N, mod, gam, h, an = gear(q, m, flat=False)
    zh = h / mod
    if q.symbolic:
        any_radii(q, m)
    where = q.choice("where", [0, 1, 2])
    z = (q.real("z", lo=-1, hi=1), -zh * an, zh * (1 - an))[where]
    R = mod * N / 2 / q.np.sin(gam) - z * mod
    if q.symbolic:
        q.assume(1 - z * q.np.sin(gam) / (N / q.num("2")) > 0)
    d = g.radii_data_gen(z)
    rs = (d.r_o_curve.radius, d.r_d_curve.radius, d.r_p_curve.radius, d.r_a_curve.radius)
    got = g.cone_angles_at_z(z) if where == 0 else g.cone_angle_limits_bottom if where == 1 else g.cone_angle_limits_top
    for i, (a, r) in enumerate(zip(got, rs)):
        q.ensure_eq("cone angle %d" % i, q.np.sin(a) * R, r)


@ob("base_circle", funcs=["gggears_wrapper.InvoluteGear.circle_involute_base", "gggears_wrapper.InvoluteGear.r_base"], samples=20)
def base_circle(q, m):
    """base circle of a cylindrical involute gear: pitch radius times cosine of the pressure angle, at the requested height"""
    g, N, mod, gam, h, an = gear(q, m, flat=True)
    al = q.num("1/9") * q.pi
    if q.symbolic:
        # base radius of the tooth in modules (decided in C09 base_of_tooth)
        rb = q.pos("rb")
        q.stub(m.gearteeth.InvoluteTooth, "get_base_radius", lambda self: rb)
    else:
        rb = N / 2 * q.np.cos(al)
    p = q.real("p", lo=0, hi=1)
    c = g.circle_involute_base(p)
    T = g.gearcore.transform
    q.ensure_eq("radius", c.radius, mod * rb, tol=1e-6)
    q.ensure_eq("centre", c.center, T.center + (T.orientation @ q.arr([0, 0, 1])) * (h * (p - an)))
    q.ensure_eq("r_base", g.r_base, mod * rb, tol=1e-6)
