"""C20 cycloid pairs: adapting gives each pair of mating flanks one common rolling circle,
with which they stay in contact while the gears turn in the ratio of their teeth."""
from engine.api import ob

W = "gggears_wrapper.CycloidGear."
FG = "function_generators."


def pair(q, m, cone=False):
    mod = q.real("mod", lo=0.2, hi=5)
    ring = q.choice("ring", ["none", "first", "second"])
    z1, z2 = q.int("z1", 5, 60), q.int("z2", 5, 60)
    gs = []
    for n, z, r in (("1", z1, ring == "first"), ("2", z2, ring == "second")):
        neg = r and q.bool("negative teeth")
        gs.append(m.wrapper.CycloidGear(
            number_of_teeth=-z if neg else z, module=mod, inside_teeth=r and not neg, center=q.vec3("c" + n), angle=q.real("a" + n),
            inside_cycloid_coefficient=q.real("ki" + n, lo=0.05, hi=0.9), outside_cycloid_coefficient=q.real("ko" + n, lo=0.05, hi=0.9),
            height=q.real("h" + n, lo=0.5, hi=5), backlash=q.real("j" + n, lo=0, hi=0.2)))
    return gs, ring


def radii(q, m, g):
    t = g.gearcore.shape_recipe(g.gearcore.z_vals[0]).tooth_generator
    s = g.gearcore.module if False else g.inputparam.module
    return t.rc_in_coeff * t.pitch_radius * s, t.rc_out_coeff * t.pitch_radius * s, t.pitch_radius * s


@ob("common_circles", funcs=[W + "adapt_cycloid_radii", W + "calc_params", W + "inside_cycloid_coefficient", W + "outside_cycloid_coefficient"], seconds=60)
def common(q, m):
    """what rolls inside one pitch circle rolls outside the other (for a ring: on the same
    side of both), one of the two taken over from the gear that owned it before"""
    (g1, g2), ring = pair(q, m)
    b1, b2 = radii(q, m, g1), radii(q, m, g2)
    pos = [(g.gearcore.transform.center, g.gearcore.transform.angle, g.gearcore.transform.orientation, g.gearcore.transform.scale) for g in (g1, g2)]
    par = [(g.inputparam.number_of_teeth, g.inputparam.module, g.inputparam.inside_teeth, g.inputparam.height, g.inputparam.backlash) for g in (g1, g2)]
    swap = q.bool("asked of the second")
    (g2 if swap else g1).adapt_cycloid_radii(g1 if swap else g2)
    a1, a2 = radii(q, m, g1), radii(q, m, g2)
    if ring == "none":
        q.ensure_eq("inside 1 = outside 2", a1[0], a2[1])
        q.ensure_eq("inside 2 = outside 1", a2[0], a1[1])
        q.ensure_eq("inside 1 kept", a1[0], b1[0])
        q.ensure_eq("inside 2 kept", a2[0], b2[0])
    else:
        q.ensure_eq("inside circles", a1[0], a2[0])
        q.ensure_eq("outside circles", a1[1], a2[1])
        r, p = (0, 1) if ring == "first" else (1, 0)
        A, Bf = (a1, a2), (b1, b2)
        q.ensure_eq("ring keeps its outside", A[r][1], Bf[r][1])
        q.ensure_eq("pinion keeps its inside", A[p][0], Bf[p][0])
    for g, p, t in zip((g1, g2), pos, par):
        for n, x, y in zip(("centre", "angle", "orientation", "scale"), (g.gearcore.transform.center, g.gearcore.transform.angle, g.gearcore.transform.orientation, g.gearcore.transform.scale), p):
            q.ensure_eq(n + " stays", x, y)
        for n, x, y in zip(("teeth", "module", "height", "backlash"), (g.inputparam.number_of_teeth, g.inputparam.module, g.inputparam.height, g.inputparam.backlash), (t[0], t[1], t[3], t[4])):
            q.ensure_eq(n + " unchanged", x, y)
        q.ensure("side unchanged", g.inputparam.inside_teeth == t[2])
    q.ensure_eq("pitch radius", a1[2], b1[2])
    for g, a in ((g1, a1), (g2, a2)):
        q.ensure_eq("reported inside", g.inside_cycloid_coefficient * a[2], a[0])
        q.ensure_eq("reported outside", g.outside_cycloid_coefficient * a[2], a[1])


@ob("adapt_again", funcs=[W + "adapt_cycloid_radii"], seconds=60)
def again(q, m):
    """adapting an adapted pair, from either side, changes nothing"""
    (g1, g2), ring = pair(q, m)
    g1.adapt_cycloid_radii(g2)
    a = radii(q, m, g1) + radii(q, m, g2)
    (g2 if q.bool("from the other") else g1).adapt_cycloid_radii(g1 if q.bool("from the other") else g2)
    b = radii(q, m, g1) + radii(q, m, g2)
    for i, (x, y) in enumerate(zip(a, b)):
        q.ensure_eq("radius %d" % i, x, y)


@ob("contact_external", funcs=[FG + "cycloid_circle"])
def contact_external(q, m):
    """flank of one and face of the other, traced by one circle, share the traced point in
    every position: gear 1 turns by t1, gear 2 by -t1*r1/r2"""
    r1, r2, rho = q.pos("r1"), q.pos("r2"), q.pos("rho")
    t1, a1, a2 = q.real("t1", lo=-1, hi=1), q.angle("a1"), q.angle("a2")
    t2 = -t1 * r1 / r2
    p1 = q.rotz(-t1 - a1) @ m.fg.cycloid_circle(t1, rb=r1, rc=-rho, angle=a1)
    p2 = q.rotz(q.pi - t2 - a2) @ m.fg.cycloid_circle(t2, rb=r2, rc=rho, angle=a2) + q.arr([r1 + r2, 0, 0])
    q.ensure_eq("same point", p1, p2)


@ob("contact_ring", funcs=[FG + "cycloid_circle"])
def contact_ring(q, m):
    """inside a ring both gears' flanks are traced by the circle on the same side"""
    r1, r2 = q.pos("r1"), q.pos("r2")
    side = q.choice("side", [1, -1])
    rho = side * q.pos("rho")
    t1, a1, a2 = q.real("t1", lo=-1, hi=1), q.angle("a1"), q.angle("a2")
    t2 = t1 * r1 / r2
    p1 = q.rotz(-t1 - a1) @ m.fg.cycloid_circle(t1, rb=r1, rc=rho, angle=a1)
    p2 = q.rotz(-t2 - a2) @ m.fg.cycloid_circle(t2, rb=r2, rc=rho, angle=a2) + q.arr([r1 - r2, 0, 0])
    q.ensure_eq("same point", p1, p2)


@ob("contact_bevel", funcs=[FG + "cycloid_cone"])
def contact_bevel(q, m):
    """bevel: the same on the sphere, the pitch cones touching along a line"""
    R = q.pos("R")
    g1, g2, w = q.real("g1", lo=0.1, hi=0.7), q.real("g2", lo=0.1, hi=0.7), q.real("w", lo=0.02, hi=0.3)
    if q.symbolic:
        for g in (g1, g2, w):
            q.angle_hint(g)
            for f in (q.np.sin(g), q.np.cos(g), R * q.np.sin(g), R * q.np.cos(g), R):
                q.nonneg_hint(f)
            q.assume(q.np.sin(g) > 0)
            q.assume(q.np.cos(g) > 0)
    t1, a1, a2 = q.real("t1", lo=-0.8, hi=0.8), q.angle("a1"), q.angle("a2")
    r1, r2, rho = R * q.np.sin(g1), R * q.np.sin(g2), R * q.np.sin(w)
    t2 = -t1 * r1 / r2

    def at(t, g, r, rc, a):
        p = m.fg.cycloid_cone(t, rb=r, rc=rc, C=1 / R, angle=a) - q.arr([0, 0, R * q.np.cos(g)])
        # contact line of the gear turned to x: apex -> pitch point is (sin g, 0, -cos g)
        return q.axrot("y", -(q.pi / 2 - g)) @ (q.rotz(-t - a) @ p)

    q.ensure_eq("same point", at(t1, g1, r1, -rho, a1), q.axrot("x", q.pi) @ at(t2, g2, r2, rho, a2), tol=1e-6)
