"""C16 one tooth's outline: joined, mirror symmetric, repeating with the pitch, ending
on its reference circles; and everything assembled from it."""
from engine.api import ob
from specs.common import arc_contract, lengths, mirror, polar, sol, through

C = "gggears_core."


# ------------------------------------------------------------------ reference circles
@ob("reference_circles", funcs=[C + "generate_reference_circles"])
def circles(q, m):
    flat = q.bool("flat")
    rp = q.real("rp", lo=1, hi=40)
    ha, hd, ho = q.real("ha", lo=-0.4, hi=0.8), q.real("hd", lo=-0.4, hi=0.9), q.real("ho", lo=-0.9, hi=0.9)
    gam = 0 if flat else q.real("gam", lo=0.1, hi=1.4)
    if not flat:
        for h in (ha, -hd, -ho):
            q.assume(gam + h * q.np.sin(gam) / rp > 0.01)
            q.assume(gam + h * q.np.sin(gam) / rp < 3)
            q.assume(q.np.sin(gam + h * q.np.sin(gam) / rp) > 0)
            q.nonneg_hint(rp / q.np.sin(gam) * q.np.sin(gam + h * q.np.sin(gam) / rp)) if q.symbolic else None
    lim = m.base.ToothLimitParam(h_a=ha, h_d=hd, h_o=ho)
    T = m.core.GearPolarTransform(cone_angle=2 * gam, base_radius=rp)
    r = m.core.generate_reference_circles(rp, lim, T)
    for n, c, h in (("addendum", r.r_a_curve, ha), ("dedendum", r.r_d_curve, -hd), ("rim", r.r_o_curve, -ho), ("pitch", r.r_p_curve, 0)):
        if flat:
            R, z = rp + h, 0
        else:
            D = rp / q.np.sin(gam)
            R, z = D * q.np.sin(gam + h / D), D * (q.np.cos(gam) - q.np.cos(gam + h / D))
        t = q.real("t", lo=-1, hi=1)
        q.ensure_eq(n + " point", c(t), polar(q, R, 2 * q.pi * t, z))
        q.ensure_eq(n + " radius", c.radius, R)
        q.ensure_eq(n + " centre", c.center, q.arr([0, 0, z]))


@ob("rim_limit", funcs=[C + "generate_reference_circles"])
def rim(q, m):
    """a rim deeper than the axis is stopped at the axis, the other circles unaffected"""
    rp = q.real("rp", lo=1, hi=40)
    e = q.real("e", lo=0, hi=3, lo_in=True)
    lim = m.base.ToothLimitParam(h_a=q.real("ha", lo=0, hi=0.9), h_d=q.real("hd", lo=0, hi=0.9), h_o=rp + e)
    r = m.core.generate_reference_circles(rp, lim, m.core.GearPolarTransform(cone_angle=0, base_radius=rp))
    q.ensure("positive", q.lt(0, r.r_o_curve.radius))
    q.ensure("small", q.le(r.r_o_curve.radius, 1e-3))
    q.ensure_eq("addendum", r.r_a_curve.radius, rp + lim.h_a)
    q.ensure_eq("dedendum", r.r_d_curve.radius, rp - lim.h_d)


# ------------------------------------------------------------------ trimming one tooth
def tooth_setup(q, m, pointed=False, sharp=False, tip_set=False, root_set=False, bottom=False):
    """an arbitrary flank that crosses the addendum circle (or the tooth's middle plane) at
    one parameter and the dedendum circle (or the gap's middle plane) at an earlier one;
    the searches for these crossings by contract: on success the point lies on both"""
    lengths(q, m)
    half = q.real("half pitch", lo=0.025, hi=1)
    pitch = 2 * half
    u0 = q.real("u0")
    u1 = u0 + q.pos("du")
    a1 = 0 if pointed else -q.real("a1", lo=0, hi=1)
    a0 = -half if sharp else -q.real("a0", lo=0, hi=1)
    q.assume(-half < a1)
    q.assume(-half <= a0)
    ra, rd = q.real("ra", lo=1, hi=40), q.real("rd", lo=0.5, hi=40)
    za, zd = q.real("za"), q.real("zd")
    pt, pr = polar(q, ra, a1, za), polar(q, rd, a0, zd)
    if not pointed:
        q.assume(q.np.linalg.norm(pt - mirror(q, pt)) > 0.001)
    if not sharp:
        q.assume(q.np.linalg.norm(pr - q.rotz(-pitch) @ mirror(q, pr)) > 0.001)
    q.angle_hint(-a0 - pitch)
    q.angle_hint(-a0)
    cv = through(q, m, "flank", u0, pr, u1, pt, t0=u0 - (0 if root_set else q.nonneg("before")), t1=u1 + (0 if tip_set else q.nonneg("after")))
    Arc = m.curve.ArcCurve
    full = 2 * q.pi
    z3 = lambda z: q.arr([0, 0, z])
    ref = m.base.GearRefCircles(
        Arc(radius=ra + (q.pos("dr_a") if pointed else 0), angle=full, center=z3(za)),
        Arc(radius=q.real("rp", lo=1, hi=40), angle=full, center=z3(0)),
        Arc(radius=rd - (q.real("dr_d", lo=0.001, hi=0.4) if sharp else 0), angle=full, center=z3(zd)),
        Arc(radius=q.real("ro", lo=0.5, hi=60), angle=full, center=z3(q.real("zo"))))

    def hit(curve, other, guess=None, method=None):
        tip = other is ref.r_a_curve
        if not tip and other is not ref.r_d_curve:
            q.unknown()
        if tip_set if tip else root_set:
            return sol([q.num("1/3"), q.num("1/3")], True)  # tangential: worthless
        return sol([curve.t2s(u1 if tip else u0), (a1 if tip else a0) / full], not (pointed if tip else sharp))

    def plane(curve, plane_normal=None, offset=None, guess=0, method=None):
        # which of the two planes: the one the sought point lies on
        for u, p in ((u1, pt), (u0, pr)):
            if q.holds(q.eq(q.np.dot(p, plane_normal), 0)):
                return sol([curve.t2s(u)], True)
        q.unknown()

    q.stand(m.curve, "find_curve_intersect", hit, must=not (tip_set and root_set))
    q.stand(m.curve, "find_curve_plane_intersect", plane)
    # innermost point of the flank: before (or at) the middle plane of the gap, unless the flank is cut below it
    dip = q.real("dip", lo=0, hi=0.2) if sharp else 0
    q.stand(m.core, "minimize", lambda f, x0, *a, **k: sol([x0 + dip if bottom else x0 - dip], True))
    return cv, ref, pitch, pt, pr, a0, a1, u0, u1


@ob("trim", funcs=[C + "trim_reference_profile", C + "GearRefProfile.profile"], paths=60, seconds=80)
def trim(q, m):
    cv, ref, pitch, pt, pr, a0, a1, u0, u1 = tooth_setup(q, m)
    arc_contract(q, m)
    p = m.core.trim_reference_profile(cv, ref, m.core.FilletParam(), pitch)
    q.ensure_eq("tooth starts on dedendum", p.tooth_curve(0), pr)
    q.ensure_eq("tooth ends on addendum", p.tooth_curve(1), pt)
    q.ensure_eq("natural range 0", p.tooth_curve.t_0, u0)
    q.ensure_eq("natural range 1", p.tooth_curve.t_1, u1)
    q.ensure_eq("mirror start", p.tooth_curve_mirror(0), mirror(q, pt))
    q.ensure_eq("mirror end", p.tooth_curve_mirror(1), mirror(q, pr))
    q.ensure_eq("tip arc start", p.ra_curve(0), pt)
    q.ensure_eq("tip arc end", p.ra_curve(1), mirror(q, pt))
    q.ensure_eq("root arc start", p.rd_curve(0), q.rotz(-pitch) @ mirror(q, pr))
    q.ensure_eq("root arc end", p.rd_curve(1), pr)
    q.ensure_eq("tip arc centre", p.ra_curve.center, q.arr([0, 0, pt[2]]))
    q.ensure_eq("root arc centre", p.rd_curve.center, q.arr([0, 0, pr[2]]))
    q.ensure_eq("pitch", p.pitch_angle, pitch)
    # rim: same pitch sector, on its circle
    q.ensure_eq("rim radius", p.ro_curve.radius, ref.r_o_curve.radius)
    q.ensure_eq("rim centre", p.ro_curve.center, ref.r_o_curve.center)
    ro, zo = ref.r_o_curve.radius, ref.r_o_curve.center[2]
    q.ensure_eq("rim start", p.ro_curve(0), polar(q, ro, -a0 - pitch, zo))
    q.ensure_eq("rim end", p.ro_curve(1), polar(q, ro, -a0, zo))
    q.ensure_eq("rim sweep", p.ro_curve.angle, pitch)
    # repeats with the pitch
    q.ensure_eq("repeats", q.rotz(pitch) @ p.profile(0), p.profile(1))
    s = q.real("s", lo=0, hi=1)
    q.ensure_eq("mirror", p.tooth_curve_mirror(s), mirror(q, p.tooth_curve(1 - s)))


@ob("trim_stalled", funcs=[C + "trim_reference_profile"], paths=60, seconds=80)
def trim_stalled(q, m):
    """a search that ends at the crossing but does not say so, while the other one ends elsewhere"""
    cv, ref, pitch, pt, pr, a0, a1, u0, u1 = tooth_setup(q, m)
    arc_contract(q, m)
    found = m.curve.find_curve_intersect
    first, near = q.choice("first", [True, False]), u0 + q.real("near", lo=0.1, hi=0.9) * (u1 - u0)
    q.assume(q.np.linalg.norm(cv.function(near) - ref.r_d_curve(q.num("1/3"))) > 0.001)
    asked = []

    def stalled(curve, other, guess=None, method=None):
        r = found(curve, other, guess=guess, method=method)
        if other is ref.r_d_curve:
            asked.append(1)
            if (len(asked) == 1) == first:
                return sol(r.x, False)
            return sol([curve.t2s(near), q.num("1/3")], False)
        return r

    q.stand(m.curve, "find_curve_intersect", stalled, must=True)
    p = m.core.trim_reference_profile(cv, ref, m.core.FilletParam(), pitch)
    q.ensure_eq("tooth starts on dedendum", p.tooth_curve(0), pr)
    q.ensure_eq("tooth ends on addendum", p.tooth_curve(1), pt)


@ob("trim_pointed", funcs=[C + "trim_reference_profile"], paths=60, seconds=80)
def trim_pointed(q, m):
    """no crossing with the addendum circle: the tooth ends in its middle plane, no tip arc"""
    cv, ref, pitch, pt, pr, a0, a1, u0, u1 = tooth_setup(q, m, pointed=True)
    arc_contract(q, m)
    if q.bool("crosses beyond"):  # the flank does cross the circle, but after the middle of the tooth
        u2 = u1 + q.real("beyond", lo=0.05, hi=0.5)
        q.assume(cv.function(u2)[1] > (0 if q.symbolic else 0.01))
        found = m.curve.find_curve_intersect

        def late(curve, other, guess=None, method=None):
            if other is ref.r_a_curve:
                return sol([curve.t2s(u2), q.real("on the circle", lo=0.01, hi=0.2)], True)
            return found(curve, other, guess=guess, method=method)

        q.stand(m.curve, "find_curve_intersect", late, must=True)
    p = m.core.trim_reference_profile(cv, ref, m.core.FilletParam(), pitch)
    q.ensure_eq("tooth starts", p.tooth_curve(0), pr)
    q.ensure_eq("tooth ends", p.tooth_curve(1), pt)
    q.ensure_eq("mirror starts at the same tip", p.tooth_curve_mirror(0), pt)
    q.ensure("no tip arc", not p.ra_curve.active)
    q.ensure_eq("repeats", q.rotz(pitch) @ p.rd_curve(0), p.tooth_curve_mirror(1))


@ob("trim_sharp_root", funcs=[C + "trim_reference_profile"], paths=60, seconds=80)
def trim_sharp(q, m):
    """no crossing with the dedendum circle: the tooth starts in the gap's middle plane"""
    cv, ref, pitch, pt, pr, a0, a1, u0, u1 = tooth_setup(q, m, sharp=True)
    arc_contract(q, m)
    p = m.core.trim_reference_profile(cv, ref, m.core.FilletParam(), pitch)
    q.ensure_eq("tooth starts", p.tooth_curve(0), pr)
    q.ensure_eq("tooth ends", p.tooth_curve(1), pt)
    q.ensure("no root arc", not p.rd_curve.active)
    q.ensure_eq("previous tooth ends here", q.rotz(-pitch) @ p.tooth_curve_mirror(1), pr)


@ob("trim_innermost", funcs=[C + "trim_reference_profile"], sym=False, samples=60)
def trim_innermost(q, m):
    """the flank turns outwards again before it reaches the middle plane of the gap: it starts at its innermost point"""
    cv, ref, pitch, pt, pr, a0, a1, u0, u1 = tooth_setup(q, m, sharp=True, bottom=True)
    seen = []
    inner = m.core.minimize

    def inmost(f, x0, *a, **k):
        r = inner(f, x0)
        seen.append(cv.s2t(r.x[0]))
        return r

    q.stand(m.core, "minimize", inmost)
    p = m.core.trim_reference_profile(cv, ref, m.core.FilletParam(), pitch)
    if not seen:
        q.unknown()
    start = cv.function(seen[0])
    q.ensure_eq("tooth starts", p.tooth_curve(0), start)
    q.ensure_eq("mirror ends", p.tooth_curve_mirror(1), mirror(q, start))
    q.ensure_eq("root arc joins", p.rd_curve(1), start)
    q.ensure_eq("root arc begins", p.rd_curve(0), q.rotz(-pitch) @ mirror(q, start))


@ob("trim_filleted", funcs=[C + "trim_reference_profile"], paths=60, seconds=80)
def trim_filleted(q, m):
    """ends settled by fillets are left where they are"""
    tip, root = q.bool("tip"), q.bool("root")
    cv, ref, pitch, pt, pr, a0, a1, u0, u1 = tooth_setup(q, m, tip_set=tip, root_set=root)
    arc_contract(q, m)
    f0, f1 = q.pos("rf"), q.pos("tf")
    p = m.core.trim_reference_profile(cv, ref, m.core.FilletParam(tip_fillet=f1 if tip else 0, root_fillet=f0 if root else 0), pitch)
    q.ensure_eq("start", p.tooth_curve.t_0, u0)
    q.ensure_eq("end", p.tooth_curve.t_1, u1)
    q.ensure_eq("joined to tip", p.ra_curve(0), p.tooth_curve(1))
    q.ensure_eq("joined to root", p.rd_curve(1), p.tooth_curve(0))


# ------------------------------------------------------------------ connectors
def profile_at(q, m, cone):
    """an arbitrary trimmed profile"""
    lengths(q, m)
    pitch = q.real("pitch", lo=0.05, hi=2)
    w = q.real("a0", lo=0, hi=1) * pitch / 2  # the tooth starts at -w
    a1 = q.real("a1", lo=0, hi=1) * pitch / 2
    one, zero = q.num("1"), q.num("0")
    if cone is None:
        ra, rd, ro, za, zd, zo = [q.real(n, lo=1, hi=40) for n in ("ra", "rd", "ro")] + [0, 0, 0]
        apex = None
    else:
        D, H = cone
        th = [q.real("th" + n, lo=0.1, hi=1.4) for n in "ado"]
        ra, rd, ro = [D * q.np.sin(t) for t in th]
        za, zd, zo = [H - D * q.np.cos(t) for t in th]
    pr, pt = polar(q, rd, -w, zd), polar(q, ra, -a1, za)
    M = lambda p: mirror(q, p)
    tc = through(q, m, "flank", zero, pr, one, pt)
    tm = through(q, m, "mirror", zero, M(pt), one, M(pr))
    rac = through(q, m, "rac", zero, pt, one, M(pt), mid=q.arr([ra, 0, za]))
    rdc = through(q, m, "rdc", zero, q.rotz(-pitch) @ M(pr), one, pr)
    rac.center, rdc.center = q.arr([0, 0, za]), q.arr([0, 0, zd])
    roc = m.curve.ArcCurve(radius=ro, center=q.arr([0, 0, zo]), angle=pitch, yaw=w - pitch)
    p = m.core.GearRefProfile(rac, rdc, roc, tc, tm, pitch, m.base.GearTransform())

    def plane(curve, plane_normal=None, offset=None, guess=0, method=None):
        t = (pitch - 2 * w) / pitch
        q.ensure_eq("crossing", q.np.dot(curve(t), plane_normal), 0)
        return sol([t], True)

    q.stand(m.curve, "find_curve_plane_intersect", plane)
    return p, pitch, w, ro, zo


CONN = [C + "generate_profile_extensions", C + "GearRefProfileExtended.from_refprofile"]
CLOSED = ["profile_closed", "tooth_profile_closed", "tooth_profile_closed_outer", "tooth_profile_closed_ring"]


@ob("connectors", funcs=CONN, seconds=80)
def connectors(q, m):
    flat = q.bool("flat")
    if flat:
        cone = m.base.ConicData(base_radius=10, cone_angle=0)
        p, pitch, w, ro, zo = profile_at(q, m, None)
    else:
        gam = q.real("gam", lo=0.1, hi=1.4)
        rp = q.real("rp", lo=1, hi=40)
        cone = m.base.ConicData(base_radius=rp, cone_angle=2 * gam)
        D = rp / q.np.sin(gam)
        p, pitch, w, ro, zo = profile_at(q, m, (D, D * q.np.cos(gam)))
    arc_contract(q, m)
    e = m.core.GearRefProfileExtended.from_refprofile(p, cone)
    mid = polar(q, ro, -w, zo)
    for n, c, a, b in (
        ("ro_connector_0", e.ro_connector_0, p.ro_curve(0), p.rd_curve(0)),
        ("ro_connector_1", e.ro_connector_1, mid, p.tooth_curve(0)),
        ("ro_connector_2", e.ro_connector_2, p.ro_curve(1), p.tooth_curve_mirror(1)),
        ("rd_connector", e.rd_connector, p.tooth_curve(0), p.tooth_curve_mirror(1)),
        ("ra_connector", e.ra_connector, q.rotz(-pitch) @ p.tooth_curve_mirror(0), p.tooth_curve(1)),
        ("ro_curve_tooth", e.ro_curve_tooth, mid, p.ro_curve(1)),
        ("ro_curve_dedendum", e.ro_curve_dedendum, p.ro_curve(0), mid),
        ("tooth_centerline", e.tooth_centerline, e.rd_connector(q.num("1/2")), p.ra_curve(q.num("1/2"))),
    ):
        q.ensure_eq(n + " start", c(0), a)
        q.ensure_eq(n + " end", c(1), b)
    for n in ("ra_curve", "rd_curve", "ro_curve", "tooth_curve", "tooth_curve_mirror", "transform"):
        q.ensure(n + " kept", getattr(e, n) is getattr(p, n))
    q.ensure_eq("pitch kept", e.pitch_angle, pitch)
    q.ensure_eq("rim kept", p.ro_curve(1), polar(q, ro, w, zo))


def extended(q, m):
    """any extended profile whose pieces end where the connectors' contract says"""
    lengths(q, m)
    z, o = q.num("0"), q.num("1")
    pitch = q.real("pitch", lo=0.05, hi=2)
    P = {n: q.vec3(n) for n in ("pr", "pt", "o0", "om", "o1")}
    M = lambda p: mirror(q, p)
    Rm = q.rotz(-pitch)
    cv = lambda n, a, b: through(q, m, n, z, a, o, b)
    pr, pt = P["pr"], P["pt"]
    return m.core.GearRefProfileExtended(
        ra_curve=cv("ra", pt, M(pt)), rd_curve=cv("rd", Rm @ M(pr), pr), ro_curve=cv("ro", P["o0"], P["o1"]),
        tooth_curve=cv("tc", pr, pt), tooth_curve_mirror=cv("tm", M(pt), M(pr)), pitch_angle=pitch, transform=m.base.GearTransform(),
        ro_connector_0=cv("c0", P["o0"], Rm @ M(pr)), ro_connector_1=cv("c1", P["om"], pr), ro_connector_2=cv("c2", P["o1"], M(pr)),
        rd_connector=cv("dc", pr, M(pr)), ra_connector=cv("ac", Rm @ M(pt), pt), ro_curve_tooth=cv("ot", P["om"], P["o1"]),
        ro_curve_dedendum=cv("od", P["o0"], P["om"]), tooth_centerline=cv("cl", pr, pt)), pitch


@ob("closed_outlines", funcs=[C + "GearRefProfileExtended." + n for n in CLOSED] + [C + "GearRefProfile.profile"], seconds=60)
def outlines(q, m):
    e, pitch = extended(q, m)
    which = q.choice("which", CLOSED)
    ends = {n: (getattr(e, n)(0), getattr(e, n)(1)) for n in ("ro_curve", "ro_connector_0", "ro_connector_1", "ro_connector_2", "ra_connector", "rd_connector", "ro_curve_tooth")}
    ch = getattr(e, which)
    cs = [c for c in ch.curves]
    for i, c in enumerate(cs):
        q.ensure_eq("joint %d" % i, c(1), cs[(i + 1) % len(cs)](0))
    for n, (a, b) in ends.items():
        q.ensure_eq(n + " unchanged", getattr(e, n)(0), a)
        q.ensure_eq(n + " unchanged end", getattr(e, n)(1), b)


@ob("generate_closed", funcs=[C + "generate_profile_closed"], seconds=60)
def gen_closed(q, m):
    flat = q.bool("flat")
    if flat:
        cone = m.base.ConicData(base_radius=10, cone_angle=0)
        p, pitch, w, ro, zo = profile_at(q, m, None)
    else:
        gam = q.real("gam", lo=0.1, hi=1.4)
        rp = q.real("rp", lo=1, hi=40)
        cone = m.base.ConicData(base_radius=rp, cone_angle=2 * gam)
        D = rp / q.np.sin(gam)
        p, pitch, w, ro, zo = profile_at(q, m, (D, D * q.np.cos(gam)))
    arc_contract(q, m)
    ch = m.core.generate_profile_closed(p, cone)
    cs = list(ch.curves)
    for i, c in enumerate(cs):
        q.ensure_eq("joint %d" % i, c(1), cs[(i + 1) % len(cs)](0))
    q.ensure_eq("rim kept", p.ro_curve(1), polar(q, ro, w, zo))
    q.ensure_eq("starts with the profile", cs[0](0), p.rd_curve(0))
    q.ensure_eq("goes round the rim", cs[2](0), p.ro_curve(1))


# ------------------------------------------------------------------ the whole boundary
@ob("boundary_chain", funcs=[C + "generate_boundary_chain"], seconds=80)
def boundary_chain(q, m):
    """tooth i is the profile turned by i pitches and then placed"""
    lengths(q, m)
    z, o = q.num("0"), q.num("1")
    n = q.choice("n", [1, 2, 3])
    N = q.int("N", 4)
    pa, pb = q.vec3("pa"), q.vec3("pb")
    cv = through(q, m, "prof", z, pa, o, pb)
    T = m.base.GearTransform(center=q.vec3("c"), orientation=q.rot("O"), scale=q.pos("k"), angle=q.real("a"))
    prof = type("P", (), {"profile": cv, "transform": T})()
    td = m.base.GearToothParam(num_teeth=N, num_cutout_teeth=N - n)
    ch = m.core.generate_boundary_chain(prof, td)
    q.ensure_eq("number", len(ch.curves), n)
    for i, c in enumerate(ch.curves):
        for e, p in ((0, pa), (1, pb)):
            q.ensure_eq("tooth %d end %d" % (i, e), c(e), T(q.rotz(2 * q.pi * i / N) @ p))
    q.ensure_eq("profile untouched", cv(0), pa)


@ob("boundary_function", funcs=[C + "generate_boundary"])
def boundary_fn(q, m):
    N = q.int("N", 3)
    cut = q.choice("cut", [0, 1])
    f = q.fn3("prof")
    td = m.base.GearToothParam(num_teeth=N, num_cutout_teeth=cut)
    q.stand(m.curve.Curve, "update_lengths", lambda self: None)
    c = m.core.generate_boundary(type("P", (), {"profile": staticmethod(f)})(), td)
    act = N - cut
    i = q.int("i", 0)
    q.assume(i < act)
    x = q.real("x", lo=0, hi=1, lo_in=True)
    if not q.symbolic:
        q.assume(1e-6 < x < 1 - 1e-6)
    p = c.function((i + x) / act, **c.params)
    q.ensure_eq("point", p, q.rotz(2 * q.pi * i / N) @ f(x))


@ob("boundary_at_height", funcs=[C + "Gear.boundary_at_z", C + "Gear.curve_gen_at_z"])
def boundary_z(q, m):
    """the boundary at a height belongs to the profile at that height and is placed with the gear"""
    lengths(q, m)
    z = q.real("z")
    cont = q.bool("continuous")
    N = q.int("N", 8, 40)
    seen = []
    f = q.fn3("bnd")
    q.stand(m.core, "generate_reference_profile", lambda d: type("P", (), {"z": d, "profile": None, "transform": None})())
    mk = lambda name: lambda prof, td: (seen.append((name, prof, td)), m.curve.Curve(f, lenght_approx_ndiv=2))[1]
    q.stand(m.core, "generate_boundary", mk("f"))
    q.stand(m.core, "generate_boundary_chain", mk("c"))
    g = m.core.Gear(z_vals=q.arr([0, 1]), tooth_param=m.base.GearToothParam(num_teeth=N))
    g.transform = m.base.GearTransform(center=q.vec3("c"), orientation=q.rot("O"), scale=q.pos("k"), angle=q.real("a"))
    g.shape_recipe = lambda zz: ("recipe", zz)
    b = g.boundary_at_z(z, continuous=cont)
    q.ensure("once", len(seen) == 1)
    q.ensure_eq("profile height", seen[0][1].z[1], z)
    q.ensure("teeth", seen[0][2] is g.tooth_param)
    for s in (0, 1):
        q.ensure_eq("placed %d" % s, b(s), g.transform(f(q.num(s))))


# ------------------------------------------------------------------ tip reduction
@ob("tip_reduction", funcs=[C + "apply_tip_reduction"])
def tip_reduction(q, m):
    """the addendum never rises, stays below the pointed tip by the reduction, and is left
    alone when the tooth is blunt enough"""
    n = q.choice("solutions", [0, 1, 2])
    ra, rd, red = q.real("ra"), q.real("rd"), q.nonneg("red")
    h = [q.real("h%d" % i) for i in range(4)]
    ok = [q.bool("ok%d" % i) if i < n else False for i in range(4)]
    k = [0]

    def plane(curve, plane_normal=None, offset=None, guess=0, method=None):
        i = k[0]
        k[0] += 1
        return sol(q.arr([q.num(str(i))]), ok[i])

    q.stand(m.curve, "find_curve_plane_intersect", plane)
    pt = type("T", (), {"polar_transform": lambda self, p: p})()
    cv = lambda s: q.arr([h[_i(s)], 0, 0])

    def _i(s):
        for j in range(4):
            if s == j:
                return j
        q.unknown()

    r = m.core.apply_tip_reduction(cv, ra, rd, red, pt)
    tips = [h[i] for i in range(4) if ok[i] and q.pick(h[i] > rd)]
    q.ensure("never rises", q.le(r, ra))
    if not tips:
        q.ensure_eq("no tip", r, ra)
    else:
        low = tips[0]
        for t in tips[1:]:
            if q.pick(t < low):
                low = t
        if q.pick(low - red < ra):
            q.ensure_eq("reduced", r, low - red)
        else:
            q.ensure_eq("blunt", r, ra)


# ------------------------------------------------------------------ the pipeline
@ob("pipeline", funcs=[C + "generate_reference_profile"])
def pipeline(q, m):
    """circles from the generator's pitch radius and the limits, reduction and fillets only
    when asked for and with the values asked for, the transform carried along"""
    rp = q.real("rp", lo=5, hi=40)
    lim = m.base.ToothLimitParam(h_a=q.real("ha", lo=0.5, hi=1.2), h_d=q.real("hd", lo=0.5, hi=1.2), h_o=q.real("ho", lo=1, hi=2))
    tf, rf, tr = [q.pos(n) if q.bool("has " + n) else 0 for n in ("tf", "rf", "tr")]
    pitch = q.real("pitch", lo=0.1, hi=1)
    red = q.real("reduced", lo=1, hi=50)
    f = q.fn3("flank")
    curve = m.curve.Curve(f, lenght_approx_ndiv=2)
    log = []
    tag = lambda c: getattr(c, "tag", None)

    def fillet(tc, pa, circle, radius, direction=1):
        log.append(("fillet", tc, pa, circle.radius, radius, direction))
        return tc

    def trimmer(tc, ref, fil, pa):
        log.append(("trim", tc, ref, fil, pa))
        return m.core.GearRefProfile(None, None, None, tc, None, pa, m.base.GearTransform())

    q.stand(m.core, "apply_fillet", fillet)
    q.stand(m.core, "trim_reference_profile", trimmer)
    args = {}
    q.stand(m.core, "apply_tip_reduction", lambda **k: (args.update(k), red)[1])
    T = m.base.GearTransformData(center=q.vec3("c"), orientation=q.rot("O"), scale=q.pos("k"), angle=q.real("a"))
    gen = type("G", (), {"pitch_radius": rp, "generate_tooth_curve": lambda self: curve})()
    data = m.core.GearProfileDataCollector(tooth_generator=gen, cone=m.base.ConicData(base_radius=rp, cone_angle=0), limits=lim, pitch_angle=pitch, transform=T, fillet=m.core.FilletParam(tip_fillet=tf, root_fillet=rf, tip_reduction=tr))
    p = m.core.generate_reference_profile(data)
    has_tf, has_rf, has_tr = [not (isinstance(x, int)) for x in (tf, rf, tr)]
    fl = [x for x in log if x[0] == "fillet"]
    q.ensure("fillets made", len(fl) == has_tf + has_rf)
    tr_ = [x for x in log if x[0] == "trim"]
    q.ensure("trimmed once", len(tr_) == 1 and log[-1] is tr_[0])
    ref = tr_[0][2]
    r_a = red if has_tr else rp + lim.h_a
    q.ensure_eq("addendum", ref.r_a_curve.radius, r_a)
    q.ensure_eq("dedendum", ref.r_d_curve.radius, rp - lim.h_d)
    q.ensure_eq("rim", ref.r_o_curve.radius, rp - lim.h_o)
    for x in fl:
        tip = x[5] == -1
        q.ensure("fillet wanted", has_tf if tip else has_rf)
        q.ensure_eq("fillet radius", x[4], tf if tip else rf)
        q.ensure_eq("fillet circle", x[3], r_a if tip else rp - lim.h_d)
        q.ensure_eq("fillet pitch", x[2], pitch)
    if has_tr:
        q.ensure_eq("reduction", args["tip_reduction"], tr)
        q.ensure_eq("reduction from", args["addendum_height"], rp + lim.h_a)
        q.ensure_eq("reduction above", args["dedendum_height"], rp - lim.h_d)
        q.ensure("reduction of the flank", args["tooth_curve"] is curve)
    q.ensure_eq("trim pitch", tr_[0][4], pitch)
    q.ensure("trim fillets", tr_[0][3] is data.fillet)
    q.ensure_eq("flank", tr_[0][1](0), f(q.num("0")))
    x = q.vec3("x")
    q.ensure_eq("transform", p.transform(x), T.center + T.scale * (T.orientation @ (q.rotz(T.angle) @ x)))


# ------------------------------------------------------------------ real gears (bounded)
def any_gear(q, m):
    kind = q.choice("kind", ["involute", "bevel", "ring", "bevel ring", "cycloid", "cycloid bevel", "cycloid ring"])
    N = q.int("N", 8, 40)
    kw = dict(number_of_teeth=N, module=q.real("mod", lo=0.5, hi=3), height=1.0, tip_truncation=q.choice("tt", [0.0, 0.1]))
    if "cycloid" in kind:
        cls = m.wrapper.CycloidGear
    else:
        cls = m.wrapper.InvoluteGear
        kw.update(pressure_angle=q.real("pa", lo=0.25, hi=0.48), profile_shift=q.real("x", lo=-0.2, hi=0.4))
        if "ring" not in kind:
            kw.update(enable_undercut=q.bool("uc"), root_fillet=q.choice("rf", [0, 0, 0.1, 0.2]), tip_fillet=q.choice("tf", [0, 0, 0.05, 0.1]))
    if "ring" in kind:
        kw["inside_teeth"] = True
    if "bevel" in kind:
        if kw.get("enable_undercut"):
            kw["root_fillet"] = 0  # recorded as a finding of C21
        kw["cone_angle"] = q.real("cone", lo=0.4, hi=2.4)
    return cls(**kw), kind, kw


@ob("real_profiles", funcs=[C + "trim_reference_profile", C + "generate_reference_profile", C + "generate_profile_extensions"], sym=False, samples=60, sample_seconds=45)
def real(q, m):
    np = q.np
    g, kind, kw = any_gear(q, m)
    core = g.gearcore
    z = q.real("z", lo=0, hi=1) * (core.z_vals[-1] - core.z_vals[0]) + core.z_vals[0]
    p = core.curve_gen_at_z(z)
    tc, tm, ra, rd = p.tooth_curve, p.tooth_curve_mirror, p.ra_curve, p.rd_curve
    tol = 2e-5
    if ra.active:
        q.ensure_eq("tip joint", ra(0), tc(1), tol=tol)
        q.ensure_eq("tip joint 2", ra(1), tm(0), tol=tol)
    else:
        q.ensure_eq("pointed", tc(1), tm(0), tol=tol)
    if rd.active:
        q.ensure_eq("root joint", rd(1), tc(0), tol=tol)
    s = np.linspace(0, 1, 300)
    A, Bm = tc(s), tm(s) * np.array([1, -1, 1])
    for b in Bm[::20]:
        d = A[1:] - A[:-1]
        L = np.maximum((d * d).sum(1), 1e-30)
        t = np.clip((((b - A[:-1]) * d).sum(1) / L), 0, 1)
        dist = np.linalg.norm(A[:-1] + t[:, None] * d - b, axis=1).min()
        q.ensure("mirror image", dist < 2e-3)
    q.ensure("y sign", (A[:, 1] < 1e-6).all())
    R = q.rotz(p.pitch_angle)
    q.ensure_eq("repeats", R @ p.profile(0), p.profile(1), tol=tol)
    q.ensure_eq("pitch", p.pitch_angle * kw["number_of_teeth"], 2 * np.pi)
    e = m.core.GearRefProfileExtended.from_refprofile(p, core.cone)
    for n in CLOSED:
        cs = [c for c in getattr(e, n).get_curves() if c.active]
        for i, c in enumerate(cs):
            q.ensure_eq("%s joint" % n, c(1), cs[(i + 1) % len(cs)](0), tol=tol)
