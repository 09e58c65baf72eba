"""C13 the recipe of a gear follows its inputs at every height."""
from engine.api import ob

W = "gggears_wrapper."
C = "gggears_core."
B = "gggears_base_classes."


def inputs(q, cone=True):
    d = dict(
        number_of_teeth=q.int("z", 6, 80),
        height=q.real("height", lo=0.2, hi=20),
        module=q.real("module", lo=0.2, hi=5),
        z_anchor=q.real("anchor", lo=-1, hi=2),
        center=q.vec3("c"),
        angle=q.real("a"),
        root_fillet=q.real("rf", lo=0, hi=1),
        tip_fillet=q.real("tf", lo=0, hi=1),
        tip_truncation=q.real("tt", lo=0, hi=1),
        addendum_coefficient=q.real("ha", lo=0.3, hi=2),
        dedendum_coefficient=q.real("hd", lo=0.3, hi=2),
        backlash=q.real("bl", lo=0, hi=0.3),
        crowning=q.real("cr", lo=0, hi=300),
    )
    return d


def common(q, m, g, d, gam, inside, al=None, ps=0, ps_t=None, ha=None, hd=None, beta=0, mod=None, angle=None, tooth=None, hd_rule=True):
    """recipe at an arbitrary height z (in modules)"""
    mod = d["module"] if mod is None else mod
    N = d["number_of_teeth"]
    r = N / q.num("2")
    zh = d["height"] / mod
    core = g.gearcore
    q.ensure_eq("bottom", core.z_vals[0] * mod, -d["height"] * d["z_anchor"])
    q.ensure_eq("top", core.z_vals[-1] * mod, d["height"] * (1 - d["z_anchor"]))
    z = q.real("zz", lo=-8, hi=8)
    rec = core.shape_recipe(z)
    t = rec.transform
    s = 1 - z * q.np.sin(gam) / r
    q.ensure_eq("scale", t.scale, s)
    q.ensure_eq("centre", t.center, q.arr([0, 0, z * q.np.cos(gam)]))
    q.ensure_eq("orientation", t.orientation, q.np.eye(3))
    q.ensure_eq("twist", t.angle, z * q.np.tan(beta) / r if angle is None else angle(z))
    q.ensure_eq("pitch angle", rec.pitch_angle, 2 * q.pi / N)
    q.ensure_eq("cone", rec.cone.cone_angle, 2 * gam)
    q.ensure_eq("cone radius", rec.cone.base_radius, r)
    ha = d["addendum_coefficient"] if ha is None else ha
    hd = d["dedendum_coefficient"] if hd is None else hd
    q.ensure_eq("addendum", rec.limits.h_a, ha + ps)
    q.ensure_eq("dedendum", rec.limits.h_d, hd - ps)
    q.ensure("rim side", (rec.limits.h_o < 0) == bool(inside))
    q.ensure_eq("root fillet", rec.fillet.root_fillet, d["root_fillet"])
    q.ensure_eq("tip fillet", rec.fillet.tip_fillet, d["tip_fillet"])
    q.ensure_eq("tip truncation", rec.fillet.tip_reduction, d["tip_truncation"])
    tg = rec.tooth_generator
    q.ensure_eq("tooth pitch radius", tg.pitch_radius, r)
    q.ensure_eq("tooth cone", tg.cone_angle, 2 * gam)
    # half thickness at the pitch circle, in modules of arc: crowning removes 1e-3 of it at both faces, none in the middle
    mid = zh * (q.num("1/2") - d["z_anchor"])
    u = (z - mid) / (zh / 2)
    half = q.pi / 4 * 2 / 2 - d["backlash"] - d["crowning"] * u * u * q.num("1/1000")
    if al is not None:
        half = half + ps * q.np.tan(al)
        q.ensure_eq("pressure angle", tg.pressure_angle, al)
    q.ensure_eq("half thickness", tg.pitch_intersect_angle * r, half)
    if hd_rule:
        q.ensure_eq("tooth dedendum", tg.ref_limits.h_d, hd - ps)
        q.ensure_eq("tooth addendum", tg.ref_limits.h_a, ha + ps)
    if tooth is not None:
        q.ensure("tooth type", type(tg).__name__ == tooth)
    if hasattr(tg, "pitch_angle") and tooth and "Undercut" in tooth:
        q.ensure_eq("tooth pitch", tg.pitch_angle, 2 * q.pi / N)
    # placement
    T = core.transform
    q.ensure_eq("placed centre", T.center, d["center"])
    q.ensure_eq("placed scale", T.scale, mod)
    q.ensure_eq("placed angle", T.angle, d["angle"])
    q.ensure_eq("placed orientation", T.orientation, q.np.eye(3))
    q.ensure_eq("module", g.module, mod)
    q.ensure_eq("teeth", g.number_of_teeth, N)
    q.ensure("ring", bool(g.inside_teeth) == bool(inside))
    return rec


TOOTH = {(True, True): "InvoluteUndercutTooth", (True, False): "OctoidUndercutTooth", (False, True): "InvoluteTooth", (False, False): "OctoidTooth"}


@ob("involute", funcs=[W + "InvoluteGear.__init__", W + "InvoluteGear.calc_params", W + "InvoluteGear.update_tooth_param", B + "ZFunctionMixin.__call__", B + "eval_callables", C + "Gear.__init__"])
def involute(q, m):
    d = inputs(q)
    al = q.real("al", lo=0.1, hi=0.7)
    ps = q.real("ps", lo=-0.5, hi=0.8)
    flat = q.bool("flat")
    gam = 0 if flat else q.real("gam", lo=0.1, hi=1.5)
    beta = q.real("beta", lo=-1, hi=1)
    under, inside, neg = q.bool("under"), q.bool("inside"), q.bool("neg")
    kw = dict(d)
    if neg:
        kw["number_of_teeth"] = -d["number_of_teeth"]
    g = m.wrapper.InvoluteGear(helix_angle=beta, cone_angle=2 * gam, pressure_angle=al, profile_shift=ps, enable_undercut=under, inside_teeth=inside, **kw)
    common(q, m, g, d, gam, inside != neg, al=al, ps=ps, beta=beta, tooth=TOOTH[(under, flat)])
    q.ensure_eq("helix", g.helix_angle, beta)
    q.ensure_eq("gamma", g.gamma, gam)


@ob("spur", funcs=[W + "SpurGear.__init__", W + "SpurRingGear.__init__"])
def spur(q, m):
    d = inputs(q)
    al = q.real("al", lo=0.1, hi=0.7)
    ps = q.real("ps", lo=-0.5, hi=0.8)
    ring, under = q.bool("ring"), q.bool("under")
    cls = m.wrapper.SpurRingGear if ring else m.wrapper.SpurGear
    g = cls(pressure_angle=al, profile_shift=ps, enable_undercut=under, **d)
    common(q, m, g, d, 0, ring, al=al, ps=ps, tooth=TOOTH[(under, True)])


@ob("bevel", funcs=[W + "BevelGear.__init__"])
def bevel(q, m):
    d = inputs(q)
    al = q.real("al", lo=0.1, hi=0.7)
    ps = q.real("ps", lo=-0.5, hi=0.8)
    gam = q.real("gam", lo=0.1, hi=1.5)
    beta = q.real("beta", lo=-1, hi=1)
    under = q.bool("under")
    g = m.wrapper.BevelGear(pressure_angle=al, profile_shift=ps, enable_undercut=under, cone_angle=2 * gam, helix_angle=beta, **d)
    common(q, m, g, d, gam, False, al=al, ps=ps, beta=beta, tooth=TOOTH[(under, False)])


def helical_rules(q, m, herring):
    d = inputs(q)
    al = q.real("al", lo=0.1, hi=0.7)
    ps = q.real("ps", lo=-0.5, hi=0.8)
    beta = q.real("beta", lo=-1, hi=1)
    cb = q.np.cos(beta)
    mod = d["module"] / cb
    # less than a turn of twist: no extra sections are needed
    q.assume(q.np.abs(q.np.tan(beta)) * d["height"] * 2 < 6 * mod * d["number_of_teeth"])
    under = q.bool("under")
    ring = q.bool("ring")
    cls = m.wrapper.HelicalRingGear if ring else m.wrapper.HelicalGear
    if q.symbolic and not ring:
        # section count only (decided numerically in "sections")
        q.stub(m.wrapper.np, "max", lambda a, *k: 0)
        q.stub(m.wrapper.np, "min", lambda a, *k: 0)
    g = cls(pressure_angle=al, profile_shift=ps, enable_undercut=under, helix_angle=beta, herringbone=herring, **d)
    zh = d["height"] / mod
    mid = zh * (q.num("1/2") - d["z_anchor"])
    r = d["number_of_teeth"] / q.num("2")

    def angle(z):
        if herring:
            u = q.np.abs(z - mid)
            return (mid - u) * q.np.tan(beta) / r
        return z * q.np.tan(beta) / r

    # the tooth is given in the normal section: transverse pressure angle
    tal = q.np.tan(al) / cb
    tg = g.gearcore.shape_recipe(0).tooth_generator
    q.ensure_eq("transverse pressure angle", q.np.tan(tg.pressure_angle), tal)
    common(q, m, g, d, 0, ring, al=tg.pressure_angle, ps=ps * cb, ha=d["addendum_coefficient"] * cb, hd=d["dedendum_coefficient"] * cb, mod=mod, angle=angle, tooth=TOOTH[(under, True)])
    if herring:
        q.ensure("sections", len(g.gearcore.z_vals) == 3)
        q.ensure_eq("middle section", g.gearcore.z_vals[1], mid)
    # normal dimensions: height of the tooth in length units does not depend on the helix
    q.ensure_eq("whole depth", (g.gearcore.shape_recipe(0).limits.h_a + g.gearcore.shape_recipe(0).limits.h_d) * g.module, (d["addendum_coefficient"] + d["dedendum_coefficient"]) * d["module"])


@ob("helical", funcs=[W + "HelicalGear.__init__", W + "HelicalRingGear.__init__", W + "HelicalRingGear.update_tooth_param"])
def helical(q, m):
    helical_rules(q, m, False)


@ob("herringbone", funcs=[W + "HelicalGear.__init__", W + "HelicalRingGear.__init__"])
def herringbone(q, m):
    helical_rules(q, m, True)


@ob("sections", funcs=[W + "HelicalGear.__init__"], sym=False, samples=200)
def sections(q, m):
    """strongly twisted gears get extra sections, ends and middle kept"""
    z = q.int("z", 6, 30)
    h = q.real("h", lo=1, hi=200)
    b = q.real("b", lo=-1.2, hi=1.2)
    an = q.real("an", lo=0, hi=1)
    hb = q.bool("hb")
    if q.bool("long"):
        h, b = q.real("h2", lo=20, hi=120), q.real("b2", lo=0.8, hi=1.3)
    g = m.wrapper.HelicalGear(number_of_teeth=z, height=h, helix_angle=b, z_anchor=an, herringbone=hb)
    zv = g.gearcore.z_vals
    mod = g.module
    q.ensure_eq("bottom", zv[0] * mod, -h * an)
    q.ensure_eq("top", zv[-1] * mod, h * (1 - an))
    q.ensure("sections apart", all(y - x > 1e-6 * (zv[-1] - zv[0]) for x, y in zip(zv[:-1], zv[1:])))
    rec = g.gearcore.shape_recipe
    for x, y in zip(zv[:-1], zv[1:]):
        q.ensure("less than a turn each", abs(rec(x).transform.angle - rec(y).transform.angle) < 2 * q.pi + 1e-6)
    if hb:
        q.ensure("middle kept", min(abs(x * mod - h * (0.5 - an)) for x in zv) < 1e-9)


@ob("cycloid", funcs=[W + "CycloidGear.__init__", W + "CycloidGear.calc_params", W + "CycloidGear.update_tooth_param"])
def cycloid(q, m):
    d = inputs(q)
    flat = q.bool("flat")
    gam = 0 if flat else q.real("gam", lo=0.1, hi=1.5)
    beta = q.real("beta", lo=-1, hi=1)
    inside, neg = q.bool("inside"), q.bool("neg")
    ci, co = q.real("ci", lo=0.1, hi=0.6), q.real("co", lo=0.1, hi=0.6)
    kw = dict(d)
    if neg:
        kw["number_of_teeth"] = -d["number_of_teeth"]
    g = m.wrapper.CycloidGear(helix_angle=beta, cone_angle=2 * gam, inside_teeth=inside, inside_cycloid_coefficient=ci, outside_cycloid_coefficient=co, **kw)
    rec = common(q, m, g, d, gam, inside != neg, beta=beta, tooth="CycloidTooth", hd_rule=False)
    q.ensure_eq("inside circle", rec.tooth_generator.rc_in_coeff, ci)
    q.ensure_eq("outside circle", rec.tooth_generator.rc_out_coeff, co)
    q.ensure_eq("inside prop", g.inside_cycloid_coefficient, ci)
    q.ensure_eq("outside prop", g.outside_cycloid_coefficient, co)


@ob("one_cone", funcs=[C + "Gear.cone_at_z", C + "Gear.sphere_data_at_z", C + "Gear.center_sphere", C + "Gear.R"])
def one_cone(q, m):
    """every slice of a bevel gear lies on the same pitch cone: common apex, cone distance reduced by the slant height"""
    gam = q.real("gam", lo=0.1, hi=1.5)
    N = q.int("z", 6, 80)
    mod = q.real("module", lo=0.2, hi=5)
    O = q.rot("O")
    g = m.wrapper.InvoluteGear(number_of_teeth=N, cone_angle=2 * gam, module=mod, center=q.vec3("c"), angle=q.real("a"), helix_angle=q.real("beta", lo=-1, hi=1))
    core = g.gearcore
    core.transform.orientation = O
    c = core.transform.center * 1
    z = q.real("zz", lo=-2, hi=2)
    R0 = mod * N / 2 / q.np.sin(gam)
    apex = c + R0 * q.np.cos(gam) * (O @ q.arr([0, 0, 1]))
    cen, R = core.sphere_data_at_z(z)
    q.ensure_eq("apex", cen, apex)
    q.ensure_eq("cone distance", R, q.np.abs(R0 - z * mod))
    q.ensure_eq("centre sphere", core.center_sphere, apex)
    q.ensure_eq("R", core.R, R0)
    k = core.cone_at_z(z)
    q.ensure_eq("half angle", k.gamma, gam)
    q.ensure_eq("transform kept", core.transform.center, c)


@ob("default_recipe", funcs=[C + "default_gear_recipe"])
def default_recipe(q, m):
    N = q.int("z", 3, 80)
    gam = q.real("gam", lo=0, hi=1.5)
    t = m.base.GearToothParam(N)
    tg = m.base.GearToothConicGenerator()
    rec = m.core.default_gear_recipe(t, tg, 2 * gam)(q_z(q))
    z = q_z(q)
    r = N / q.num("2")
    q.ensure_eq("scale", rec.transform.scale, 1 - z * q.np.sin(gam) / r)
    q.ensure_eq("centre", rec.transform.center, q.arr([0, 0, z * q.np.cos(gam)]))
    q.ensure_eq("pitch", rec.pitch_angle, 2 * q.pi / N)
    q.ensure_eq("radius", rec.cone.base_radius, r)
    q.ensure_eq("cone", rec.cone.cone_angle, 2 * gam)
    q.ensure_eq("tooth radius", rec.tooth_generator.pitch_radius, r)
    q.ensure_eq("tooth cone", rec.tooth_generator.cone_angle, 2 * gam)
    q.ensure_eq("half thickness", rec.tooth_generator.pitch_intersect_angle * r, q.pi / 4)


def q_z(q):
    return q.real("zz", lo=-1, hi=1)


@ob("z_functions", funcs=[B + "ZFunctionMixin.__call__", B + "eval_callables"])
def z_functions(q, m):
    """callable entries are evaluated at the height, others kept; the recipe itself is unchanged"""
    f, g = q.fn("f"), q.fn3("g")
    z, x, ang = q.real("z"), q.real("x"), q.real("ang")
    rec = m.core.GearTransformRecipe(center=lambda t: g(t), scale=lambda t: f(t), angle=ang)
    a = rec(z)
    q.ensure_eq("centre", a.center, g(z))
    q.ensure_eq("scale", a.scale, f(z))
    q.ensure_eq("angle", a.angle, ang)
    q.ensure("same kind", type(a) is type(rec))
    q.ensure("recipe kept", callable(rec.scale) and callable(rec.center))
    lim = m.core.ToothLimitParamRecipe(h_a=lambda t: f(t), h_d=x)
    b = lim(x)
    q.ensure_eq("h_a", b.h_a, f(x))
    q.ensure_eq("h_d", b.h_d, x)
    q.ensure_eq("again", lim(z).h_a, f(z))


@ob("nested_recipe", funcs=[B + "ZFunctionMixin.__call__"])
def nested(q, m):
    """evaluating a whole recipe evaluates each of its parts at the same height, independently of earlier evaluations"""
    f = q.fn("f")
    z1, z2 = q.real("z1"), q.real("z2")
    tg = m.base.GearToothConicGenerator(pitch_intersect_angle=lambda t: f(t), cone_angle=0)
    rec = m.core.GearProfileRecipe(tooth_generator=tg, cone=m.core.ConicDataRecipe(cone_angle=lambda t: 2 * f(t), base_radius=q.pos("r")), limits=m.core.ToothLimitParamRecipe(h_a=lambda t: 3 * f(t)), pitch_angle=lambda t: 5 * f(t), transform=m.core.GearTransformRecipe(angle=lambda t: 7 * f(t)), fillet=m.core.FilletDataRecipe(tip_fillet=lambda t: 9 * f(t)))
    for i, z in enumerate((z1, z2, z1)):
        a = rec(z)
        q.ensure_eq("tooth", a.tooth_generator.pitch_intersect_angle, f(z))
        q.ensure_eq("cone", a.cone.cone_angle, 2 * f(z))
        q.ensure_eq("limits", a.limits.h_a, 3 * f(z))
        q.ensure_eq("pitch", a.pitch_angle, 5 * f(z))
        q.ensure_eq("transform", a.transform.angle, 7 * f(z))
        q.ensure_eq("fillet", a.fillet.tip_fillet, 9 * f(z))


@ob("tooth_param", funcs=[B + "GearToothParam.__post_init__", B + "GearToothParam.pitch_angle", B + "GearToothParam.num_teeth_act"])
def tooth_param(q, m):
    N = q.int("N", 1, 200)
    ins, neg = q.bool("ins"), q.bool("neg")
    t = m.base.GearToothParam(-N if neg else N, inside_teeth=ins)
    q.ensure_eq("teeth", t.num_teeth, N)
    q.ensure("ring", bool(t.inside_teeth) == (ins != neg))
    q.ensure_eq("pitch", t.pitch_angle * N, 2 * q.pi)


@ob("teeth_present", funcs=[B + "GearToothParam.num_teeth_act"], sym=False, samples=100)
def teeth_present(q, m):
    n, cut = q.int("n", 1, 100), q.int("cut", 0, 5)
    fr = q.real("fr", lo=0, hi=0.99)
    t = m.base.GearToothParam(n + fr, num_cutout_teeth=cut)
    q.ensure("count", t.num_teeth_act == n - cut and isinstance(t.num_teeth_act, int))


@ob("path_parameters", funcs=[C + "ref_curve_2_param", B + "RecipeKeyParams.center", B + "RecipeKeyParams.cone_angle"])
def path_parameters(q, m):
    """radius, height and angle of the tooth path at t, and its slope in the axial plane and around the axis"""
    r, z, th = q.fn("r"), q.fn("z"), q.fn("th")
    t = q.real("t", lo=0, hi=1)
    if not q.symbolic:
        k = [q.real("k%d" % i, lo=0.2, hi=1) for i in range(3)]
        r, z, th = (lambda s: 1 + k[0] * s), (lambda s: k[1] * s), (lambda s: k[2] * q.np.sin(s))

    def path(s):
        return q.arr([r(s) * q.np.cos(th(s)), r(s) * q.np.sin(th(s)), z(s)])

    D = m.defs.DELTA
    for s in (t, t + D, t - D):
        q.assume(r(s) > 0.1)
        q.assume(q.np.abs(th(s)) < 1)
        q.nonneg_hint(r(s))
        q.angle_hint(th(s))
    p = m.core.ref_curve_2_param(t, path)
    q.ensure_eq("radius", p.radius, r(t))
    q.ensure_eq("height", p.center, q.arr([0, 0, z(t)]))
    q.ensure_eq("angle", p.angle, th(t))
    dr, dz, dt = (f(t + D) - f(t - D) for f in (r, z, th))
    tol = 1e-4
    if q.symbolic:
        q.assume(q.np.abs(dz) > 1e-4)
    L = q.sqrt(dr * dr + dz * dz)
    q.ensure_eq("slope sin", q.np.sin(p.gamma) * L, -dr, tol=tol)
    q.ensure_eq("slope cos", q.np.cos(p.gamma) * L, dz, tol=tol)
    q.ensure_eq("helix", q.np.sin(p.beta) * L, q.np.cos(p.beta) * dt * r(t), tol=tol)
    q.ensure_eq("cone angle", p.cone_angle, 2 * p.gamma)


@ob("recipe_from_path", funcs=[C + "gear_recipe_from_curve"])
def recipe_from_path(q, m):
    """the recipe follows the path of one tooth"""
    N = q.int("N", 3, 90)
    r, h, a, gm = q.fn("r"), q.fn("h"), q.fn("a"), q.fn("gm")
    k = q.pos("k")
    z = q.real("z", lo=0, hi=1)
    if not q.symbolic:
        # a real path: a cone with a twist
        g0, tw = q.real("g0", lo=-1, hi=1), q.real("tw", lo=-1, hi=1)
        c, s = q.np.cos(g0), q.np.sin(g0)
        r, h, a, gm = (lambda t: N / 2 - t * s), (lambda t: t * c), (lambda t: tw * t), (lambda t: g0)
        k = 0.5
    R = m.base.RecipeKeyParams
    if q.symbolic:
        # contract of ref_curve_2_param (decided in "path_parameters")
        q.stub(m.core, "ref_curve_2_param", lambda t, curve: R(gm(t), h(t), a(t), r(t), 0))
    path = lambda t: q.arr([r(t) * q.np.cos(a(t)), r(t) * q.np.sin(a(t)), h(t)])
    tg = m.base.GearToothConicGenerator()
    rec = m.core.gear_recipe_from_curve(m.base.GearToothParam(N), tg, path, lambda t: t * k, gamma_rounding=0)
    a_ = rec(z)
    t = z * k
    q.ensure_eq("scale", a_.transform.scale * N / 2, r(t))
    q.ensure_eq("centre", a_.transform.center, q.arr([0, 0, h(t)]))
    q.ensure_eq("angle", a_.transform.angle, a(t))
    q.ensure_eq("cone", a_.cone.cone_angle, 2 * gm(t), tol=1e-4)
    q.ensure_eq("tooth cone", a_.tooth_generator.cone_angle, 2 * gm(t), tol=1e-4)
    q.ensure_eq("radius", a_.cone.base_radius, N / q.num("2"))
    q.ensure_eq("tooth radius", a_.tooth_generator.pitch_radius, N / q.num("2"))
    q.ensure_eq("half thickness", a_.tooth_generator.pitch_intersect_angle * N, q.pi / 2)
    q.ensure_eq("pitch", a_.pitch_angle * N, 2 * q.pi)


@ob("rounded_slope", funcs=[C + "gear_recipe_from_curve"], sym=False)
def rounded_slope(q, m):
    """slope rounding moves the cone angle by no more than half a step"""
    g0 = q.real("g0", lo=-1, hi=1)
    N = q.int("N", 5, 50)
    step = q.choice("step", [1e-4, 1e-3, 1e-2])
    path = lambda t: q.arr([N / 2 - t * q.np.sin(g0), 0, t * q.np.cos(g0)])
    rec = m.core.gear_recipe_from_curve(m.base.GearToothParam(N), m.base.GearToothConicGenerator(), path, gamma_rounding=step)(0.3)
    q.ensure("near", abs(rec.cone.cone_angle / 2 - g0) <= step / 2 + 1e-7)
    x = rec.cone.cone_angle / 2 / step
    q.ensure("multiple", abs(x - round(x)) < 1e-6)


@ob("default_gear", funcs=[C + "Gear.__init__", C + "Gear.rp", C + "Gear.pitch_angle", C + "Gear.center"])
def default_gear(q, m):
    """a gear without a recipe is a straight toothed gear on its cone"""
    N = q.int("N", 5, 60)
    flat = q.bool("flat")
    gam = 0 if flat else q.real("gam", lo=0.1, hi=1.4)
    z0, H = q.real("z0", lo=-1, hi=1), q.real("H", lo=0.3, hi=2)
    mod = q.real("mod", lo=0.2, hi=4)
    g = m.core.Gear(z_vals=q.arr([z0, z0 + H]), module=mod, tooth_param=m.base.GearToothParam(N), cone=m.base.ConicData(cone_angle=2 * gam))
    u = q.real("u", lo=0.01, hi=0.99)
    z = u * H
    r = N / q.num("2")
    if q.symbolic:
        q.nonneg_hint(r - z * q.np.sin(gam))
        q.assume(r - z * q.np.sin(gam) > 0)
    t = g.shape_recipe.transform
    q.ensure_eq("scale", t.scale(z), 1 - z * q.np.sin(gam) / r)
    q.ensure_eq("centre", t.center(z), q.arr([0, 0, z * q.np.cos(gam)]))
    q.ensure_eq("angle", t.angle(z), 0)
    q.ensure_eq("module", g.transform.scale, mod)
    q.ensure_eq("rp", g.rp, N * mod / 2)
    q.ensure_eq("pitch", g.pitch_angle * N, 2 * q.pi)
    q.ensure_eq("z", g.z_vals, q.arr([z0, z0 + H]))
    if flat:
        q.ensure_eq("flat cone", g.cone.cone_angle, 0)
        q.ensure_eq("flat teeth", g.shape_recipe(z).tooth_generator.cone_angle, 0)


@ob("swap_generator", funcs=[C + "Gear.swap_tooth_generator"])
def swap_generator(q, m):
    """exchanging the tooth shape keeps the size and spacing, and does not touch the generator passed in"""
    N = q.int("N", 5, 60)
    t = m.base.GearToothParam(N)
    gam = q.real("gam", lo=0, hi=1.4)
    g = m.core.Gear(tooth_param=t, shape_recipe=m.core.default_gear_recipe(t, m.base.GearToothConicGenerator(), 2 * gam))
    al, rr = q.real("al", lo=0.1, hi=0.6), q.pos("rr")
    new = m.gearteeth.InvoluteTooth(pitch_radius=rr, pressure_angle=al)
    g.swap_tooth_generator(new)
    tg = g.shape_recipe(0).tooth_generator
    q.ensure_eq("radius", tg.pitch_radius, N / q.num("2"))
    q.ensure_eq("cone", tg.cone_angle, 2 * gam)
    q.ensure_eq("half thickness", tg.pitch_intersect_angle * N, q.pi / 2)
    q.ensure_eq("pressure angle", tg.pressure_angle, al)
    q.ensure("kind", type(tg) is m.gearteeth.InvoluteTooth)
    q.ensure_eq("source", new.pitch_radius, rr)
