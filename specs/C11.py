"""C11 bevel gears mesh on a common apex, with touching pitch cones, in the requested direction."""
from engine.api import ob

G = "gearmath."
W = "gggears_wrapper."


def setup(q, free=True):
    """gear 2 placed anywhere; gear 1 to be placed on side t (unit, across the axis of gear 2)"""
    ring = q.choice("ring", [0, 1, 2])
    g1, g2 = q.real("gam1", lo=0.1, hi=1.5), q.real("gam2", lo=0.1, hi=1.5)
    if ring == 1:
        q.assume(g1 > g2)
    if ring == 2:
        q.assume(g2 > g1)
    R = q.real("R", lo=0.5, hi=50)
    O = q.rot("O")
    d = q.angle("d")
    t = O @ (q.rotz(d) @ q.arr([1, 0, 0]))
    return ring, g1, g2, R, O, t, d


def hints(q, k, ring, g1, g2):
    """norms met on the way"""
    q.nonneg_hint(k)


def angle_ref(ring, g1, g2):
    return g1 - g2 if ring == 1 else g2 - g1 if ring == 2 else g1 + g2


def law(q, name, ring, c1, O1, c2, O2, g1, g2, R, t, tol=None):
    z1, z2 = O1 @ q.arr([0, 0, 1]), O2 @ q.arr([0, 0, 1])
    apex2 = c2 + R * q.np.cos(g2) * z2
    q.ensure_eq(name + " common apex", c1 + R * q.np.cos(g1) * z1, apex2, tol=tol)
    a = angle_ref(ring, g1, g2)
    # axis of 1 leans away from the contact side for an outside pair, towards it for rings
    q.ensure_eq(name + " axis", z1, z2 * q.np.cos(a) - t * q.np.sin(a), tol=tol)
    # pitch circles touch in one point on the requested side
    side = -1 if ring == 1 else 1
    p2 = c2 + R * q.np.sin(g2) * t * side
    v = p2 - c1
    q.ensure_eq(name + " touching point in the plane of 1", q.np.dot(v, z1), 0, tol=tol)
    q.ensure_eq(name + " touching point on pitch circle 1", q.np.dot(v, v), (R * q.np.sin(g1)) ** 2, tol=tol)


@ob("placement", funcs=[G + "calc_bevel_gear_placement_vector", G + "calc_mesh_orientation"])
def placement(q, m):
    ring, g1, g2, R, O, t, d = setup(q)
    k = q.real("kk", lo=0.2, hi=3)
    q.nonneg_hint(k)
    c2 = q.vec3("c2")
    B = m.base
    s1, s2 = q.pos("s1"), q.pos("s2")
    T2 = B.GearTransform(center=c2, orientation=O, scale=s2, angle=q.real("a2"))
    T1 = B.GearTransform(center=q.vec3("c1"), orientation=q.rot("O1"), scale=s1)
    # equal cone distances
    k1 = B.ConicData(cone_angle=2 * g1, base_radius=R * q.np.sin(g1) / s1, transform=T1)
    k2 = B.ConicData(cone_angle=2 * g2, base_radius=R * q.np.sin(g2) / s2, transform=T2)
    c1 = m.gearmath.calc_bevel_gear_placement_vector(t * k, k1, k2, ring == 1, ring == 2)
    O1 = m.gearmath.calc_mesh_orientation(2 * g1, 2 * g2, R, T2, ring == 1, ring == 2, t * k)
    law(q, "bevel", ring, c1, O1, c2, O, g1, g2, R, t)
    q.ensure_eq("rotation", O1.T @ O1, q.np.eye(3))
    q.ensure_eq("other centre", T2.center, c2)
    q.ensure_eq("other orientation", T2.orientation, O)


@ob("offset_angle", funcs=[G + "calc_bevel_gear_placement_vector", G + "calc_mesh_orientation"])
def offset(q, m):
    """an offset opens the angle between the axes by offset / R, apex kept"""
    ring, g1, g2, R, O, t, d = setup(q)
    off = q.real("off", lo=-0.05, hi=0.05)
    c2 = q.vec3("c2")
    B = m.base
    T2 = B.GearTransform(center=c2, orientation=O, scale=1)
    k1 = B.ConicData(cone_angle=2 * g1, base_radius=R * q.np.sin(g1))
    k2 = B.ConicData(cone_angle=2 * g2, base_radius=R * q.np.sin(g2), transform=T2)
    c1 = m.gearmath.calc_bevel_gear_placement_vector(t, k1, k2, ring == 1, ring == 2, offset=off)
    O1 = m.gearmath.calc_mesh_orientation(2 * g1, 2 * g2, R, T2, ring == 1, ring == 2, t, offset=off)
    z1, z2 = O1 @ q.arr([0, 0, 1]), O @ q.arr([0, 0, 1])
    a = angle_ref(ring, g1, g2) + off / R
    q.ensure_eq("axis", z1, z2 * q.np.cos(a) - t * q.np.sin(a))
    q.ensure_eq("apex", c1 + R * q.np.cos(g1) * z1, c2 + R * q.np.cos(g2) * z2)


@ob("flat_pair", funcs=[G + "calc_mesh_orientation"])
def flat_pair(q, m):
    """cylindrical gears take the orientation of the other gear"""
    O = q.rot("O")
    T2 = m.base.GearTransform(center=q.vec3("c2"), orientation=O)
    t = O @ (q.rotz(q.angle("d")) @ q.arr([1, 0, 0]))
    O1 = m.gearmath.calc_mesh_orientation(0, 0, q.pos("R"), T2, q.bool("i1"), q.bool("i2"), t)
    q.ensure_eq("orientation", O1, O)


@ob("lifted_target", funcs=[G + "calc_bevel_gear_placement_vector", G + "calc_mesh_orientation"])
def lifted(q, m):
    """only the part of the target direction across the axis matters"""
    ring, g1, g2, R, O, t, d = setup(q)
    kk, lift = q.real("kk", lo=0.2, hi=3), q.real("li", lo=-2, hi=2)
    q.nonneg_hint(kk)
    tt = t * kk + (O @ q.arr([0, 0, 1])) * lift
    c2 = q.vec3("c2")
    B = m.base
    T2 = B.GearTransform(center=c2, orientation=O, scale=1)
    k1 = B.ConicData(cone_angle=2 * g1, base_radius=R * q.np.sin(g1))
    k2 = B.ConicData(cone_angle=2 * g2, base_radius=R * q.np.sin(g2), transform=T2)
    c1 = m.gearmath.calc_bevel_gear_placement_vector(tt, k1, k2, ring == 1, ring == 2)
    O1 = m.gearmath.calc_mesh_orientation(2 * g1, 2 * g2, R, T2, ring == 1, ring == 2, tt)
    law(q, "bevel", ring, c1, O1, c2, O, g1, g2, R, t)


@ob("cone_data", funcs=["gggears_base_classes.ConicData.center", "gggears_base_classes.ConicData.spherical_radius", "gggears_base_classes.ConicData.height", "gggears_base_classes.ConicData.center_base"])
def cone_data(q, m):
    g = q.real("g", lo=0.05, hi=1.5)
    neg = q.bool("negative")
    gg = -g if neg else g
    r = q.pos("r")
    T = m.base.GearTransform(center=q.vec3("c"), orientation=q.rot("O"), scale=q.pos("s"), angle=q.real("a"))
    k = m.base.ConicData(cone_angle=2 * gg, base_radius=r, transform=T)
    z = T.orientation @ q.arr([0, 0, 1])
    q.ensure_eq("half angle", k.gamma, gg)
    q.ensure_eq("cone distance", k.R * q.np.sin(g), r * T.scale)
    q.ensure_eq("spherical_radius", k.spherical_radius, k.R)
    q.ensure_eq("r", k.r, r)
    q.ensure_eq("height", k.height * q.np.sin(gg), r * T.scale * q.np.cos(gg))
    q.ensure_eq("base centre", k.center_base, T.center)
    q.ensure_eq("apex", k.center, T.center + z * k.height)


# ----------------------------------------------------------------- whole gears
def rep(q, R, g, mod):
    """(real valued) tooth number giving cone distance R"""
    return 2 * R * q.np.sin(g) / mod


def phase(q, ring, T1, T2, p1, p2, t, a):
    """tooth centres at the touching line"""
    side = -1 if ring == 1 else 1
    v2 = T2.orientation.T @ (t * side)
    f2 = q.np.arctan2(v2[1], v2[0])
    # direction of the touching point from the axis of gear 1
    u = t * q.np.cos(a) + (T2.orientation @ q.arr([0, 0, 1])) * q.np.sin(a)
    w = u * side if ring else u * -1
    v1 = T1.orientation.T @ w
    f1 = q.np.arctan2(v1[1], v1[0])
    h1, h2 = (T1.angle - f1) / p1, (T2.angle - f2) / p2
    if ring == 0:
        return h1 + h2 - q.num("1/2")
    return h1 - h2


def whole(q, m, mk, trf, **kw):
    ring, g1, g2, R, O, t, d = setup(q)
    mod = q.real("m", lo=0.3, hi=5)
    kk = q.real("kk", lo=0.2, hi=3) if kw.pop("scaled", False) else 1
    if q.symbolic:
        q.nonneg_hint(q.val(kk))
    A = mk(rep(q, R, g1, mod), "A", mod, 2 * g1, ring == 1)
    B = mk(rep(q, R, g2, mod), "B", mod, 2 * g2, ring == 2)
    T2 = trf(B)
    T2.orientation = O
    c2, a2 = T2.center * 1, T2.angle
    if q.symbolic:
        # decided in C10
        an = q.real("an")
        q.stub(m.gearmath, "calc_mesh_angle", lambda *a, **k: an)
        q.stub(m.wrapper, "calc_mesh_angle", lambda *a, **k: an)
        q.stub(m.core, "calc_mesh_angle", lambda *a, **k: an)
    A.mesh_to(B, target_dir=t * kk)
    T1 = trf(A)
    law(q, "gears", ring, T1.center, T1.orientation, c2, O, g1, g2, R, t, tol=1e-6)
    q.ensure_eq("scale", T1.scale, mod)
    q.ensure_eq("other centre", T2.center, c2)
    q.ensure_eq("other orientation", T2.orientation, O)
    q.ensure_eq("other angle", T2.angle, a2)


@ob("involute_gears", funcs=[W + "InvoluteGear.mesh_to", W + "GearInfoMixin.cone_data"], samples=15)
def involute_gears(q, m):
    def mk(z, n, mod, cone, ring):
        return m.wrapper.InvoluteGear(number_of_teeth=z, module=mod, cone_angle=cone, center=q.vec3(n + ".c"), angle=q.real(n + ".a"), inside_teeth=ring)

    whole(q, m, mk, lambda g: g.gearcore.transform, scaled=True)


@ob("bevel_gear_class", funcs=[W + "BevelGear"], samples=15)
def bevel_gear_class(q, m):
    """the documented recipe: tooth counts, axis angle -> cone angles -> mesh_to"""
    z1, z2 = q.int("z1", 10, 40), q.int("z2", 10, 40)
    S = q.real("S", lo=0.5, hi=2)
    mod = q.real("m", lo=0.5, hi=3)
    if q.symbolic:
        # contract of cone_angle_from_teeth (decided in C12): gam1 + gam2 = S, sines in the ratio of the teeth
        R = q.pos("R")
        x1, x2 = q.real("x1", lo=0.1, hi=1.5), q.real("x2", lo=0.1, hi=1.5)
        z1, z2 = 2 * R * q.np.sin(x1), 2 * R * q.np.sin(x2)
        gam, S = (x1, x2), x1 + x2
    else:
        ca = m.gearmath.cone_angle_from_teeth(z1, z2, S)
        gam = (ca[0] / 2, ca[1] / 2)
        q.assume(max(gam) < 1.5)
        q.assume(min(gam) > 0.1)

    def mk(z, n, c):
        return m.wrapper.BevelGear(number_of_teeth=z, module=mod, cone_angle=2 * c, center=q.vec3(n + ".c"), helix_angle=0)

    if q.symbolic:
        an = q.real("an")
        q.stub(m.wrapper, "calc_mesh_angle", lambda *a, **k: an)
    g1, g2 = mk(z1, "A", gam[0]), mk(z2, "B", gam[1])
    g1.mesh_to(g2)
    z_1 = g1.gearcore.transform.orientation @ q.arr([0, 0, 1])
    q.ensure_eq("axis angle", z_1[2], q.np.cos(S), tol=1e-6)
    R0 = mod * z1 / 2 / q.np.sin(gam[0])
    q.ensure_eq("apex", g1.center + R0 * q.np.cos(gam[0]) * z_1, g2.center + R0 * q.np.cos(gam[1]) * q.arr([0, 0, 1]), tol=1e-6)


@ob("core_gears", funcs=["gggears_core.Gear.mesh_to", "gggears_core.Gear.cone_at_z"], samples=15)
def core_gears(q, m):
    def mk(z, n, mod, cone, ring):
        t = m.base.GearToothParam(z, inside_teeth=ring)
        return m.core.Gear(tooth_param=t, module=mod, cone=m.base.ConicData(cone_angle=cone), shape_recipe=m.core.default_gear_recipe(t, m.base.GearToothConicGenerator(), cone), transform=m.base.GearTransform(center=q.vec3(n + ".c"), scale=mod, angle=q.real(n + ".a")))

    whole(q, m, mk, lambda g: g.transform)


@ob("cycloid_gears", funcs=[W + "CycloidGear.mesh_to"], samples=15)
def cycloid_gears(q, m):
    def mk(z, n, mod, cone, ring):
        return m.wrapper.CycloidGear(number_of_teeth=z, module=mod, cone_angle=cone, center=q.vec3(n + ".c"), angle=q.real(n + ".a"), inside_teeth=ring)

    whole(q, m, mk, lambda g: g.gearcore.transform)


@ob("bevel_phase", funcs=[G + "calc_mesh_angle"], samples=40)
def bevel_phase(q, m):
    """on the touching line a tooth of one gear meets a gap of the other"""
    ring, g1, g2, R, O, t, d = setup(q)
    c2 = q.vec3("c2")
    z1, z2 = q.int("z1", 6, 60), q.int("z2", 6, 60)
    p1, p2 = 2 * q.pi / z1, 2 * q.pi / z2
    B = m.base
    T2 = B.GearTransform(center=c2, orientation=O, angle=q.real("a2"))
    a = angle_ref(ring, g1, g2)
    if q.symbolic:
        # the placement just decided by "placement": apex kept, axis turned by the reference angle in the plane of t
        q.angle_hint(d)
        K = O @ q.rotz(d)
        # centre distance resolved along the frames: u across axis 1, both positive for half angles below a right angle
        L, e1, a = q.real("L", lo=0.01), q.real("e1", lo=-1.5, hi=1.5), q.real("a", lo=0.01, hi=3)
        e2 = e1 + a
        q.assume(q.np.cos(e1) > 0)
        q.assume(q.np.cos(e2) > 0)
        O1 = K @ q.axrot("y", -a) @ q.rotz(-d)
        diff = L * (q.np.cos(e2) * t + q.np.sin(e2) * (O @ q.arr([0, 0, 1])))
        c1 = c2 + diff
    else:
        k1 = B.ConicData(cone_angle=2 * g1, base_radius=R * q.np.sin(g1))
        k2 = B.ConicData(cone_angle=2 * g2, base_radius=R * q.np.sin(g2), transform=T2)
        c1 = m.gearmath.calc_bevel_gear_placement_vector(t, k1, k2, ring == 1, ring == 2)
        O1 = m.gearmath.calc_mesh_orientation(2 * g1, 2 * g2, R, T2, ring == 1, ring == 2, t)
    T1 = B.GearTransform(center=c1, orientation=O1)
    T1.angle = m.gearmath.calc_mesh_angle(T1, T2, p1, p2, ring == 1, ring == 2)
    if q.symbolic:
        side = q.pi if ring == 1 else 0
        f2 = d + side
        f1 = d + (side if ring else q.pi)
        h1, h2 = (T1.angle - f1) / p1, (T2.angle - f2) / p2
        q.ensure_int("tooth into gap", h1 + h2 - q.num("1/2") if ring == 0 else h1 - h2)
    else:
        q.ensure_int("tooth into gap", phase(q, ring, T1, T2, p1, p2, t, a))
