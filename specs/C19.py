"""C19 line of action: touches both base circles, through the pitch point; and involute
flanks of the two gears touch on it in every position."""
from engine.api import ob

W = "gggears_wrapper.LineOfAction."
FG = "function_generators."


def base_contract(q, m):
    """base radius of a cylindrical involute tooth (decided in C09 base_of_tooth)"""
    if q.symbolic:
        q.stub(m.gearteeth.InvoluteTooth, "get_base_radius", lambda self: self.pitch_radius * q.np.cos(self.pressure_angle))


def gears(q, m, ring, p=0):
    mod, al, h, an = q.real("mod", lo=0.3, hi=4), q.real("al", lo=0.2, hi=0.5), q.real("h", lo=0.5, hi=5), q.real("an", lo=0, hi=1)
    z1, z2 = q.int("z1", 12, 60), q.int("z2", 12, 60)
    ca = q.np.cos(al)
    O = q.rot("O")
    if q.symbolic:
        q.assume(ca > 0)
        q.nonneg_hint(ca)
    c1 = q.vec3("c1")
    th = q.angle("th")
    d = O @ q.arr([q.np.cos(th), q.np.sin(th), 0])
    rb1, rb2 = mod * z1 / 2 * ca, mod * z2 / 2 * ca
    need = rb1 + rb2 if ring is None else (rb1 - rb2 if ring == 1 else rb2 - rb1)
    if ring is not None:
        q.assume((z1 > z2 + 3) if ring == 1 else (z2 > z1 + 3))
    D = need * q.real("k", lo=1.01, hi=1.4)
    q.nonneg_hint(D)
    # heights and anchors may differ: the slices at height ratio p are in one plane
    h2, an2 = q.real("h2", lo=0.5, hi=5), q.real("an2", lo=0, hi=1)
    up = O @ q.arr([0, 0, 1]) * (h * (p - an) - h2 * (p - an2))
    gs = []
    for n, z, c, r, hh, aa in (("1", z1, c1, ring == 1, h, an), ("2", z2, c1 + D * d + up, ring == 2, h2, an2)):
        g = m.wrapper.InvoluteGear(number_of_teeth=z, module=mod, pressure_angle=al, height=hh, z_anchor=aa, center=c, angle=q.real("a" + n), inside_teeth=r)
        g.gearcore.transform.orientation = O
        gs.append(g)
    return gs, (rb1, rb2), D, d, O, h, an


def touches(q, n, line, c, rb, point=None):
    """the (extended) line is at distance rb from c; if it has an end there, it is the foot"""
    p0, p1 = line(0), line(1)
    e = p1 - p0
    w = p0 - c
    # squared distance of c from the line, cross-multiplied
    x = q.np.cross(w, e)
    q.ensure_eq(n + " touches", x @ x, rb * rb * (e @ e), tol=1e-6)
    if point is not None:
        f = line(point) - c
        q.ensure_eq(n + " touches at the end", f @ e, 0, tol=1e-6)
        q.ensure_eq(n + " end on the base circle", f @ f, rb * rb, tol=1e-6)


@ob("external", funcs=[W + "LOA_gen", W + "centerdiff", W + "__init__"], samples=25, seconds=60)
def external(q, m):
    base_contract(q, m)
    p = q.real("p", lo=0, hi=1)
    (g1, g2), (rb1, rb2), D, d, O, h, an = gears(q, m, None, p)
    loa = m.wrapper.LineOfAction(g1, g2, z_ratio=p)
    lines = loa.LOA_gen()
    ax = O @ q.arr([0, 0, 1])
    c1 = g1.gearcore.transform.center + ax * h * (p - an)
    c2 = c1 + D * d
    q.ensure_eq("centre difference", loa.centerdiff, D * d)
    for i, l in enumerate(lines):
        touches(q, "gear 1, line %d" % i, l, c1, rb1, 0)
        touches(q, "gear 2, line %d" % i, l, c2, rb2, 1)
        q.ensure_eq("in the plane of the slice %d" % i, (l(0) - c1) @ ax, 0)
        k = rb1 / (rb1 + rb2)
        q.ensure_eq("through the pitch point %d" % i, l(k), c1 + D * k * d, tol=1e-6)
    # the two lines are the two flanks' lines
    a, b = lines[0](0) - c1, lines[1](0) - c1
    q.ensure_eq("mirrored", a - b, 2 * (a - (a @ d) * d), tol=1e-6)


@ob("ring", funcs=[W + "LOA_gen"], samples=25, seconds=60)
def ring(q, m):
    base_contract(q, m)
    which = q.choice("which", [1, 2])
    p = q.real("p", lo=0, hi=1)
    (g1, g2), (rb1, rb2), D, d, O, h, an = gears(q, m, which, p)
    ax = O @ q.arr([0, 0, 1])
    c1 = g1.gearcore.transform.center + ax * h * (p - an)
    c2 = c1 + D * d
    P, cp, rbp, cr, rbr, out = (g2, c2, rb2, c1, rb1, d) if which == 1 else (g1, c1, rb1, c2, rb2, -d)
    ra = rbp + q.pos("add")
    q.stub(m.wrapper.InvoluteGear, "addendum_radius", property(lambda self: ra)) if q.symbolic else None
    if q.symbolic:
        q.nonneg_hint(ra)
    lines = m.wrapper.LineOfAction(g1, g2, z_ratio=p).LOA_gen()
    for i, l in enumerate(lines):
        touches(q, "pinion, line %d" % i, l, cp, rbp, 0)
        touches(q, "ring, line %d" % i, l, cr, rbr)
        q.ensure_eq("in the plane of the slice %d" % i, (l(0) - c1) @ ax, 0)
        q.ensure_eq("in the plane of the slice %d." % i, (l(1) - c1) @ ax, 0)
        e = l(1) - cp
        q.ensure_eq("ends on the pinion's tip circle %d" % i, e @ e, (ra if q.symbolic else P.addendum_radius) ** 2, tol=1e-6)
        # runs from the base circle towards the contact side
        q.ensure("towards the contact %d" % i, q.lt(0, (l(1) - l(0)) @ out))
    a, b = lines[0](0) - c1, lines[1](0) - c1
    q.ensure_eq("mirrored", a - b, 2 * (a - (a @ d) * d), tol=1e-6)


@ob("too_close", funcs=[W + "LOA_gen"], samples=15)
def too_close(q, m):
    """base circles that overlap have no line of action: reported, not invented"""
    base_contract(q, m)
    mod, al = q.real("mod", lo=0.3, hi=4), q.real("al", lo=0.2, hi=0.5)
    z1, z2 = q.int("z1", 12, 60), q.int("z2", 12, 60)
    ca = q.np.cos(al)
    if q.symbolic:
        q.assume(ca > 0)
        q.nonneg_hint(ca)
    k = q.real("k", lo=0.05, hi=0.99)
    D = k * mod * (z1 + z2) / 2 * ca
    q.nonneg_hint(D)
    g1 = m.wrapper.InvoluteGear(number_of_teeth=z1, module=mod, pressure_angle=al)
    g2 = m.wrapper.InvoluteGear(number_of_teeth=z2, module=mod, pressure_angle=al, center=D * q.arr([1, 0, 0]))
    err = False
    try:
        m.wrapper.LineOfAction(g1, g2).LOA_gen()
    except ValueError:
        err = True
    q.ensure("reported", err)


@ob("contact_external", funcs=[FG + "involute_circle"])
def contact(q, m):
    """flanks with these base circles share a point of the line of action in every position,
    touching there, while the gears turn in the ratio of the base circles (= of the teeth)"""
    r1, r2, a = q.pos("r1"), q.pos("r2"), q.real("a", lo=0.1, hi=0.8)
    if q.symbolic:
        q.assume(q.np.cos(a) > 0)
    b1, b2 = q.angle("b1"), q.angle("b2")
    t1 = q.real("t1", lo=0, hi=1)
    D = (r1 + r2) / q.np.cos(a)
    # string lengths: r1*t1 + r2*t2 = length between the tangent points
    t2 = ((r1 + r2) * q.np.tan(a) - r1 * t1) / r2
    n1, n2 = q.rotz(a) @ q.arr([1, 0, 0]), q.rotz(a) @ q.arr([-1, 0, 0])
    p1 = q.rotz(a - t1 - b1) @ m.fg.involute_circle(t1, r=r1, angle=b1)
    p2 = q.arr([D, 0, 0]) + q.rotz(q.pi + a - t2 - b2) @ m.fg.involute_circle(t2, r=r2, angle=b2)
    q.ensure_eq("same point", p1, p2)
    q.ensure_eq("on the line of action", p1, r1 * n1 + r1 * t1 * q.arr([q.np.sin(a), -q.np.cos(a), 0]))


@ob("contact_ring", funcs=[FG + "involute_circle"])
def contact_ring(q, m):
    r1, r2, a = q.pos("r1"), q.pos("r2"), q.real("a", lo=0.1, hi=0.8)
    if q.symbolic:
        q.assume(q.np.cos(a) > 0)
    b1, b2 = q.angle("b1"), q.angle("b2")
    t1 = q.real("t1", lo=0, hi=1)
    D = (r1 - r2) / q.np.cos(a)
    t2 = (r1 * t1 - (r1 - r2) * q.np.tan(a)) / r2
    p1 = q.rotz(a - t1 - b1) @ m.fg.involute_circle(t1, r=r1, angle=b1)
    p2 = q.arr([D, 0, 0]) + q.rotz(a - t2 - b2) @ m.fg.involute_circle(t2, r=r2, angle=b2)
    q.ensure_eq("same point", p1, p2)


@ob("contact_bevel", funcs=[FG + "involute_sphere"])
def contact_bevel(q, m):
    """spherical involutes on base cones that share a great circle as line of action"""
    R = q.pos("R")
    b1, b2 = q.real("b1", lo=0.1, hi=0.7), q.real("b2", lo=0.1, hi=0.7)
    L = q.real("L", lo=0.05, hi=0.5)
    for g in (b1, b2):
        if q.symbolic:
            q.angle_hint(g)
            for f in (q.np.sin(g), q.np.cos(g), R * q.np.sin(g), R * q.np.cos(g), R):
                q.nonneg_hint(f)
            q.assume(q.np.sin(g) > 0)
            q.assume(q.np.cos(g) > 0)
    a1, a2 = q.angle("a1"), q.angle("a2")
    t1 = q.real("t1", lo=0, hi=0.5)
    # arc lengths along the great circle add up to the arc L between the tangent points
    t2 = (L - t1 * q.np.sin(b1)) / q.np.sin(b2)

    def at(t, b, a):
        p = m.fg.involute_sphere(t, r=R * q.np.sin(b), C=1 / R, angle=a) - q.arr([0, 0, R * q.np.cos(b)])
        # tangent point of the string turned to x, the string's great circle to the x-y plane
        return q.axrot("y", -(q.pi / 2 - b)) @ (q.rotz(-t - a) @ p)

    # gear 2 seen from its own tangent point, L further along the great circle, other side
    q.ensure_eq("same point", at(t1, b1, a1), q.rotz(-L) @ (q.axrot("x", q.pi) @ at(t2, b2, a2)), tol=1e-6)
