"""C10 mesh phase: a tooth of one gear points into a gap of the other at the contact, for any placement."""
from engine.api import ob

G = "gearmath."
W = "gggears_wrapper."


def phase_law(q, m, name, t1, t2, p1, p2, ring, tol=None, dirn=None):
    """t1, t2 placements; ring 0 external, 1 first gear is the ring, 2 second"""
    d = (t2.center - t1.center) if dirn is None else dirn
    c1 = d * (-1 if ring == 2 else 1)
    c2 = d * (1 if ring == 1 else -1)
    v1, v2 = t1.orientation.T @ c1, t2.orientation.T @ c2
    f1, f2 = q.np.arctan2(v1[1], v1[0]), q.np.arctan2(v2[1], v2[0])
    ph1, ph2 = (t1.angle - f1) / p1, (t2.angle - f2) / p2
    if ring == 0:
        q.ensure_int(name, ph1 + ph2 - q.num("1/2"), tol)
    else:
        q.ensure_int(name, ph1 - ph2, tol)


def trf(q, m, n, c=None):
    return m.base.GearTransform(center=q.vec3(n + ".c") if c is None else c, orientation=q.rot(n + ".R"), scale=q.pos(n + ".s"), angle=q.real(n + ".a"))


def facing(q, m, n, Rw, c):
    """arbitrary placement that sees the world direction Rw*x at local azimuth f, elevation e"""
    f, e, s = q.angle(n + ".f"), q.real(n + ".e", lo=-1.5, hi=1.5), q.angle(n + ".s")
    q.nonneg_hint(q.np.cos(e))
    q.angle_hint(f)
    B = q.rotz(f) @ q.axrot("y", -e)
    R = Rw @ q.axrot("x", s) @ B.T
    return m.base.GearTransform(center=c, orientation=R, scale=q.pos(n + ".k"), angle=q.real(n + ".a")), f


def seen(q, t1, f1, p1, t2, f2, p2, ring):
    """how far a tooth centre of either gear is from the contact, in pitches (azimuths f towards +u)"""
    # external: contact at +u from 1, -u from 2; ring first: +u both; ring second: -u both
    g1 = f1 + (q.pi if ring == 2 else 0)
    g2 = f2 + (0 if ring == 1 else q.pi)
    return (t1.angle - g1) / p1, (t2.angle - g2) / p2


@ob("phase", funcs=[G + "calc_mesh_angle"])
def phase(q, m):
    """any two placements, any tooth counts"""
    L = q.real("L", lo=0.01)
    Rw = q.rot("w")
    c2 = q.vec3("c2")
    t2, f2 = facing(q, m, "t2", Rw, c2)
    t1, f1 = facing(q, m, "t1", Rw, c2 - L * (Rw @ q.arr([1, 0, 0])))
    p1, p2 = 2 * q.pi / q.int("z1", 3, 90), 2 * q.pi / q.int("z2", 3, 90)
    ring = q.choice("ring", [0, 1, 2])
    t1.angle = m.gearmath.calc_mesh_angle(t1, t2, p1, p2, ring == 1, ring == 2)
    h1, h2 = seen(q, t1, f1, p1, t2, f2, p2, ring)
    if ring == 0:
        q.ensure_int("tooth into gap", h1 + h2 - q.num("1/2"))
    else:
        q.ensure_int("tooth into ring gap", h1 - h2)


@ob("frame", funcs=[G + "calc_mesh_angle"])
def frame(q, m):
    """computing the angle moves neither gear"""
    t1, t2 = trf(q, m, "t1"), trf(q, m, "t2")
    d = t2.center - t1.center
    q.assume(q.np.dot(d, d) > 0.01)
    ring = q.choice("ring", [0, 1, 2])
    keep = [(t.center * 1, t.orientation * 1, t.scale, t.angle) for t in (t1, t2)]
    m.gearmath.calc_mesh_angle(t1, t2, q.num("1/3"), q.num("1/5"), ring == 1, ring == 2)
    for t, k in zip((t1, t2), keep):
        q.ensure_eq("centre", t.center, k[0])
        q.ensure_eq("orientation", t.orientation, k[1])
        q.ensure_eq("scale", t.scale, k[2])
        q.ensure_eq("angle", t.angle, k[3])


@ob("coaxial", funcs=[G + "calc_mesh_angle"])
def coaxial(q, m):
    """coincident centres: the other gear's x axis is the reference direction"""
    c = q.vec3("c")
    t1, t2 = trf(q, m, "t1", c), trf(q, m, "t2", c)
    p1, p2 = 2 * q.pi / q.int("z1", 3, 90), 2 * q.pi / q.int("z2", 3, 90)
    ring = q.choice("ring", [0, 1, 2])
    t1.angle = m.gearmath.calc_mesh_angle(t1, t2, p1, p2, ring == 1, ring == 2)
    phase_law(q, m, "law", t1, t2, p1, p2, ring, dirn=t2.orientation @ q.arr([1, 0, 0]))


@ob("gear_ratio", funcs=[G + "calc_mesh_angle"])
def gear_ratio(q, m):
    """turning the other gear by d turns this one by -d*p1/p2 (ring: +), up to whole pitches"""
    L = q.real("L", lo=0.01)
    Rw = q.rot("w")
    c2 = q.vec3("c2")
    t2, f2 = facing(q, m, "t2", Rw, c2)
    t1, f1 = facing(q, m, "t1", Rw, c2 - L * (Rw @ q.arr([1, 0, 0])))
    p1, p2 = 2 * q.pi / q.int("z1", 3, 90), 2 * q.pi / q.int("z2", 3, 90)
    ring = q.choice("ring", [0, 1, 2])
    turn = q.real("turn")
    a = m.gearmath.calc_mesh_angle(t1, t2, p1, p2, ring == 1, ring == 2)
    t2.angle = t2.angle + turn
    b = m.gearmath.calc_mesh_angle(t1, t2, p1, p2, ring == 1, ring == 2)
    s = -1 if ring == 0 else 1
    q.ensure_int("turned", (b - a) / p1 - s * turn / p2)


# ----------------------------------------------------------------- through mesh_to
def perp(q, R, d):
    return R @ (q.rotz(d) @ q.arr([1, 0, 0]))


def whole(q, m, g1, g2, t1, t2, ring, u, **kw):
    R = t2.orientation
    p1, p2 = g1.pitch_angle, g2.pitch_angle
    a2 = t2.angle
    g1.mesh_to(g2, target_dir=u, **kw)
    q.ensure_eq("other keeps its angle", t2.angle, a2)
    phase_law(q, m, "law", t1, t2, p1, p2, ring, dirn=u * -1)


def rings(q):
    ring = q.choice("ring", [0, 1, 2])
    z1, z2 = q.int("z1", 8, 30), q.int("z2", 40, 70)
    return ring, (z2, z1) if ring == 1 else (z1, z2)


@ob("involute_gears", funcs=[W + "InvoluteGear.mesh_to"], samples=10, sample_seconds=25)
def involute_gears(q, m):
    ring, (z1, z2) = rings(q)
    mod = q.real("m", lo=0.3, hi=5)
    if q.symbolic:
        D = q.real("D", lo=0.01)
        # contracts decided in C09
        q.stub(m.wrapper, "calc_involute_mesh_distance", lambda *a, **k: D)
        q.stub(m.wrapper.InvoluteGear, "r_base", property(lambda self: self.module * self.number_of_teeth / 2 * q.np.cos(self.inputparam.pressure_angle)))
        q.stub(m.wrapper.InvoluteGear, "angle_base", property(lambda self: q.num("-1/5")))

    def mk(z, n, r):
        g = m.wrapper.InvoluteGear(number_of_teeth=z, module=mod, center=q.vec3(n + ".c"), angle=q.real(n + ".a"), inside_teeth=r)
        g.gearcore.transform.orientation = q.rot(n + ".R")
        return g

    g1, g2 = mk(z1, "g1", ring == 1), mk(z2, "g2", ring == 2)
    u = perp(q, g2.gearcore.transform.orientation, q.angle("d"))
    kw = {}
    if q.bool("with backlash"):
        kw = dict(backlash=q.real("j", lo=0, hi=0.1), angle_bias=0)
    whole(q, m, g1, g2, g1.gearcore.transform, g2.gearcore.transform, ring, u, **kw)


@ob("core_gears", funcs=["gggears_core.Gear.mesh_to"], samples=20)
def core_gears(q, m):
    ring, (z1, z2) = rings(q)
    mod = q.real("m", lo=0.3, hi=5)
    P = m.base.GearToothParam

    def mk(z, n, r):
        t = P(z, inside_teeth=r)
        return m.core.Gear(tooth_param=t, module=mod, shape_recipe=m.core.default_gear_recipe(t, m.base.GearToothConicGenerator()), transform=m.base.GearTransform(center=q.vec3(n + ".c"), scale=mod, angle=q.real(n + ".a"), orientation=q.rot(n + ".R")))

    g1, g2 = mk(z1, "g1", ring == 1), mk(z2, "g2", ring == 2)
    u = perp(q, g2.transform.orientation, q.angle("d"))
    whole(q, m, g1, g2, g1.transform, g2.transform, ring, u)


@ob("cycloid_gears", funcs=[W + "CycloidGear.mesh_to"], samples=20)
def cycloid_gears(q, m):
    ring, (z1, z2) = rings(q)
    mod = q.real("m", lo=0.3, hi=5)

    def mk(z, n, r):
        g = m.wrapper.CycloidGear(number_of_teeth=z, module=mod, center=q.vec3(n + ".c"), angle=q.real(n + ".a"), inside_teeth=r)
        g.gearcore.transform.orientation = q.rot(n + ".R")
        return g

    g1, g2 = mk(z1, "g1", ring == 1), mk(z2, "g2", ring == 2)
    u = perp(q, g2.gearcore.transform.orientation, q.angle("d"))
    whole(q, m, g1, g2, g1.gearcore.transform, g2.gearcore.transform, ring, u)


@ob("helical_gears", funcs=[W + "HelicalGear.mesh_to"], samples=8, sample_seconds=25)
def helical_gears(q, m):
    """the helix correction turns about the centre line only, so the phase survives"""
    ring, (z1, z2) = rings(q)
    if ring == 1:
        ring, z1, z2 = 2, z2, z1
        z1, z2 = z2, z1
    mod = q.real("m", lo=0.5, hi=3)
    b1, b2 = q.real("b1", lo=-0.6, hi=0.6), q.real("b2", lo=-0.6, hi=0.6)
    W_ = m.wrapper

    def mk(cls, n, z, b):
        g = cls(number_of_teeth=z, module=mod, helix_angle=b, center=q.vec3(n + ".c"), angle=q.real(n + ".a"))
        return g

    if q.symbolic:
        D = q.real("D", lo=0.01)
        q.stub(W_, "calc_involute_mesh_distance", lambda *a, **k: D)
        q.stub(W_.InvoluteGear, "r_base", property(lambda self: self.module * self.number_of_teeth / 2 * q.np.cos(self.inputparam.pressure_angle)))
        q.stub(W_.InvoluteGear, "angle_base", property(lambda self: q.num("-1/5")))
        mk = lambda cls, n, z, b: bare(q, m, cls, n, z, b, mod)  # noqa
    g1 = mk(W_.HelicalGear, "g1", z1, b1)
    g2 = mk(W_.HelicalRingGear if ring else W_.HelicalGear, "g2", z2, b2)
    g2.gearcore.transform.orientation = q.rot("R")
    u = perp(q, g2.gearcore.transform.orientation, q.angle("d"))
    whole(q, m, g1, g2, g1.gearcore.transform, g2.gearcore.transform, ring, u)


def bare(q, m, cls, n, z, b, mod):
    """a helical gear object without its tooth shape (not used by the placement)"""
    g = q.partial(cls)
    ring = "Ring" in cls.__name__
    g.inputparam = m.wrapper.InvoluteInputParam(number_of_teeth=z, helix_angle=b, module=mod, inside_teeth=ring)
    t = m.base.GearToothParam(z, inside_teeth=ring)
    g.gearcore = m.core.Gear(tooth_param=t, module=mod, shape_recipe=m.core.default_gear_recipe(t, m.base.GearToothConicGenerator()), transform=m.base.GearTransform(center=q.vec3(n + ".c"), scale=mod, angle=q.real(n + ".a")))
    return g
