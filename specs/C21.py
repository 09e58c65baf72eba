"""C21 fillets: arcs of the radius asked for, tangent to what they join, replacing just the corner."""
from engine.api import ob
from specs.common import lengths, mirror, polar, sol, through

C = "gggears_core."


def touching(q, m):
    """two curves that a circle of radius r touches, at parameters s1 and s2, the second one a turn
    of d after the first; elsewhere arbitrary (to second order)"""
    r = q.real("radius", lo=0.01, hi=3)
    R, c = q.rot("plane"), q.vec3("centre")
    d = q.real("turn", lo=0.05, hi=3.1)
    q.nonneg_hint(q.np.sin(d))
    dirs = [q.arr([1, 0, 0]), q.arr([q.np.cos(d), q.np.sin(d), 0])]
    tans = [q.arr([0, 1, 0]), q.arr([-q.np.sin(d), q.np.cos(d), 0])]
    ps = [c + R @ (u * r) for u in dirs]
    ts = [R @ t for t in tans]

    class Touching(m.curve.Curve):
        def __init__(self, p, v, w, s, n, jump=None):
            self.p, self.v, self.w, self.s, self.n, self.active = p, v, w, s, n, True

        def __call__(self, s):
            u = s - self.s
            return self.p + self.v * u + self.w * (u * u)

    cs = [Touching(p, t * q.real("v%d" % i, lo=0.1, hi=5), q.vec3("w%d" % i), q.real("s%d" % i, lo=-0.2, hi=1.2), i) for i, (p, t) in enumerate(zip(ps, ts))]
    return cs, ps, ts, r, c, R, d


def arc_by_contract(q, m, made):
    """ArcCurve.from_2_point_center by its contract (proved in C05)"""
    def make(cls, p0=None, p1=None, center=None, revolutions=0, active=True):
        made.append((p0, p1, center, revolutions, active))
        a = through(q, m, "arc%d" % len(made), q.num("0"), p0, q.num("1"), p1) if q.symbolic else None
        if a is None:
            a = m.curve.Curve(lambda u: p0 * (1 - u) + p1 * u, enable_vectorize=True)
        a.center = center
        return a

    q.stand(m.curve.ArcCurve, "from_2_point_center", classmethod(make), must=True)


def zero(q, f, tol=1e-6):
    if q.symbolic:
        return all(q.holds(q.eq(x, 0)) for x in (f if hasattr(f, "__len__") else [f]))
    return float(abs(q.np.asarray(f)).max()) < tol


def solver(q, cs, starts, log):
    """root finding by contract: a zero of what it is given, found at the touching circle; nothing
    else close by is a zero"""
    (c1, c2) = cs
    s1, s2 = c1.s, c2.s

    def solve(f, x0, *a, **k):
        for x in ([starts[0] - s1, s2 - starts[1]], [s1, s2], [s1 - starts[0], s2 - starts[1]]):
            x = q.arr(x + [0] * (len(x0) - 2))
            if not zero(q, f(x)):
                continue
            p = c2.p
            c2.p = p + q.arr([q.real("off%d" % i, lo=-1, hi=1) for i in range(3)])
            e, g = c2.p - p, f(x)
            c2.p = p
            g = [y for y in g] if hasattr(g, "__len__") else [g]
            if q.symbolic:
                q.ensure("touching circles only", q.implies(q.eq(sum(y * y for y in g), 0), q.eq(sum(y * y for y in e), 0)))
            else:
                q.ensure("touching circles only", max(abs(y) for y in g) > 1e-9 or max(abs(y) for y in e) < 1e-6)
            log.append(x)
            return sol(x, True)
        q.unknown("the circle that touches both curves is no solution")

    return solve


@ob("tangent_arc", funcs=["curve.calc_tangent_arc", "curve.Curve.derivative"], samples=40)
def tangent_arc(q, m):
    """an arc of the radius asked for from a point of one curve to a point of the other, along
    both where it meets them, turning the way the curves turn"""
    cs, ps, ts, r, c, R, d = touching(q, m)
    starts = [q.real("start1"), q.real("start2")]
    log, made = [], []
    arc_by_contract(q, m, made)
    for n in ("root", "minimize"):
        q.stand(m.curve, n, solver(q, cs, starts, log))
    method = q.choice("method", [m.curve.IntersectMethod.EQUALITY, m.curve.IntersectMethod.MINDISTANCE])
    arc, t1, t2, s = m.curve.calc_tangent_arc(cs[0], cs[1], r, start_locations=starts, method=method)
    q.ensure("solved", len(log) >= 1)
    q.ensure_eq("touches the first at", t1, cs[0].s, tol=1e-7)
    q.ensure_eq("touches the second at", t2, cs[1].s, tol=1e-7)
    q.ensure("one arc", len(made) == 1)
    p0, p1, cen, rev, act = made[0]
    q.ensure_eq("from the first", p0, ps[0], tol=1e-6)
    q.ensure_eq("to the second", p1, ps[1], tol=1e-6)
    q.ensure_eq("around the touching circle's centre", cen, c, tol=1e-6)
    q.ensure("less than a turn", rev == 0)
    q.ensure("active", act is True or bool(act))
    q.ensure("solution reported", s.success)


@ob("chain_fillet_arc", funcs=["curve.fillet_curve"], samples=40)
def chain_fillet_arc(q, m):
    """the same for two places of one chain"""
    cs, ps, ts, r, c, R, d = touching(q, m)
    q.assume(cs[1].s - cs[0].s > 0.1)
    starts = [q.real("start1"), q.real("start2")]
    log, made = [], []
    arc_by_contract(q, m, made)
    q.stand(m.curve, "root", solver(q, cs, starts, log))
    mid = (cs[0].s + cs[1].s) / 2

    class Both(m.curve.Curve):
        length = q.pos("length")

        def __init__(self):
            self.active = True

        def __call__(self, s):
            return cs[0](s) if s < mid else cs[1](s)

    arc, t1, t2 = m.curve.fillet_curve(Both(), r, start_locations=starts)
    q.ensure_eq("touches the first at", t1, cs[0].s, tol=1e-7)
    q.ensure_eq("touches the second at", t2, cs[1].s, tol=1e-7)
    p0, p1, cen, rev, act = made[0]
    q.ensure_eq("from the first", p0, ps[0], tol=1e-6)
    q.ensure_eq("to the second", p1, ps[1], tol=1e-6)
    q.ensure_eq("around the touching circle's centre", cen, c, tol=1e-6)


# ------------------------------------------------------------------ fillets of a chain
@ob("chain_fillet", funcs=["curve.CurveChain.fillet", "curve.CurveChain.fillet_at_locations", "curve.CurveChain.fillet_at_index", "curve.CurveChain.get_t_for_index"], samples=30, seconds=90)
def chain_fillet(q, m):
    """a filleted chain follows the chain up to the arc, then the arc, then the chain; the chain it
    was made from stays"""
    lengths(q, m)
    P = [q.vec3("p%d" % i) for i in range(3)]
    pieces = [through(q, m, "c%d" % i, q.num("0"), P[i], q.num("1"), P[i + 1]) for i in range(2)]
    ch = m.curve.CurveChain(*pieces)
    L = [x.length for x in pieces]
    u1, u2 = q.real("u1", lo=0.1, hi=0.9), q.real("u2", lo=0.1, hi=0.9)
    r = q.pos("radius")
    A = through(q, m, "arc", q.num("0"), pieces[0].function(u1), q.num("1"), pieces[1].function(u2))
    seen = []
    t1, t2 = u1 * L[0] / (L[0] + L[1]), (L[0] + u2 * L[1]) / (L[0] + L[1])

    def made(chain, radius, start_locations=None):
        seen.append((chain, radius, start_locations))
        return A, t1, t2

    q.stand(m.curve, "fillet_curve", made, must=True)
    how = q.choice("how", ["index", "location", "locations", "last index"])
    corner = L[0] / (L[0] + L[1])
    if how == "index":
        f = ch.fillet_at_index(r, 0)
    elif how == "last index":
        f = ch.fillet_at_index(r, -2)
    elif how == "location":
        f = ch.fillet(r, corner)
    else:
        f = ch.fillet_at_locations(r, [t1, t2])
    q.ensure("one fillet", len(seen) == 1)
    q.ensure_eq("radius", seen[0][1], r)
    lo = seen[0][2]
    if how == "locations":
        q.ensure_eq("locations", lo, [t1, t2])
    else:  # searched around the corner, within about a radius
        for x in lo:
            q.ensure("near the corner", q.le(q.np.abs(x - corner) * (L[0] + L[1]), 2 * r) if q.symbolic else abs(x - corner) * (L[0] + L[1]) <= 2 * r + 1e-9)
    fs = list(f)
    q.ensure("three pieces", len(fs) == 3)
    q.ensure("the arc between", fs[1] is A)
    q.ensure_eq("starts where the chain starts", fs[0](0), P[0])
    q.ensure_eq("up to the arc", fs[0](1), A(0))
    q.ensure_eq("goes on after the arc", fs[2](0), A(1))
    q.ensure_eq("ends where the chain ends", fs[2](1), P[2])
    s = q.real("s", lo=0, hi=1)
    q.ensure_eq("along the chain before", fs[0](s), pieces[0].function(s * u1))
    q.ensure_eq("along the chain after", fs[2](s), pieces[1].function(u2 + s * (1 - u2)))
    q.ensure("chain pieces stay", ch.num_curves == 2)
    for i in range(2):
        q.ensure_eq("chain stays from", ch[i](0), P[i])
        q.ensure_eq("chain stays to", ch[i](1), P[i + 1])


# ------------------------------------------------------------------ fillets of a tooth
def corner(q, m, root, onto):
    """a flank of one or two pieces whose corner is to be rounded, and the touching arc by contract"""
    lengths(q, m)
    half = q.real("half pitch", lo=0.025, hi=1)
    rad = q.real("target radius", lo=1, hi=40)
    zt = q.real("zt")
    circ = m.curve.ArcCurve(radius=rad, angle=2 * q.pi, center=q.arr([0, 0, zt]))
    r = q.real("fillet", lo=0.01, hi=0.8)
    ps, pe = q.vec3("start"), q.vec3("end")
    flank = through(q, m, "flank", q.num("0"), ps, q.num("1"), pe)
    tc = m.curve.CurveChain(flank)
    u = q.real("u", lo=0.05, hi=0.95)
    return half, rad, zt, circ, r, flank, tc, u


def inside(q, p, half):
    """direction strictly between the middle planes of the tooth and the gap before it"""
    a = -q.np.arctan2(p[1], p[0])
    return a


@ob("tooth_fillet", funcs=[C + "apply_fillet"], samples=40, seconds=120, paths=400)
def tooth_fillet(q, m):
    """root and tip: the flank up to (or from) where the arc touches it, joined to the arc that
    touches the circle; flank and circle are asked for an arc of exactly the radius given, in the
    order in which the outline runs"""
    root = q.bool("root")
    half, rad, zt, circ, r, flank, tc, u = corner(q, m, root, True)
    ang = q.real("where on the circle", lo=0.02, hi=0.98) * half  # touching point, between the planes
    rt, at, zf = q.real("rt", lo=1, hi=40), q.real("flank at", lo=0.02, hi=0.98) * half, q.real("zf")
    on, off = polar(q, rad, -ang, zt), polar(q, rt, -at, zf)
    # the flank passes the touching point
    g = q.fn3("g")
    p0, p1 = q.vec3("fs"), q.vec3("fe")

    def f(x):
        base = (p0 * (u - x) * (1 - x) / u) + (p1 * x * (x - u) / (1 - u)) + off * x * (1 - x) / (u * (1 - u))
        return base + x * (1 - x) * (x - u) * g(x)

    flank = m.curve.Curve(f, t0=q.num("0"), t1=q.num("1"), lenght_approx_ndiv=2)
    tc = m.curve.CurveChain(flank)
    seen = []
    A = through(q, m, "arc", q.num("0"), on if root else off, q.num("1"), off if root else on)
    fails = q.int("failed tries", 0, 2)
    fails = fails if isinstance(fails, int) else q.choice("failed", [0, 1, 2])

    def arc(c1, c2, radius, start_locations=None, method=None):
        seen.append((c1, c2, radius))
        tk = -ang / (2 * q.pi)
        return (A, tk, u, sol([0, 0, 0], len(seen) > fails)) if root else (A, u, tk, sol([0, 0, 0], len(seen) > fails))

    crossing = q.real("crossing", lo=0.02, hi=0.98) * half
    q.stand(m.curve, "find_curve_intersect", lambda a, b, guess=None, method=None: sol([q.real("sx", lo=0, hi=1), -crossing / (2 * q.pi)], True), must=True)
    q.stand(m.curve, "calc_tangent_arc", arc, must=True)
    for a in (ang, at, crossing):
        q.angle_hint(-a)
    out = m.core.apply_fillet(tc, 2 * half, circ, r, direction=1 if root else -1)
    for c1, c2, radius in seen:
        q.ensure("flank and circle in order", (c1 is circ and c2 is tc) if root else (c1 is tc and c2 is circ))
        q.ensure_eq("radius", radius, r)
    q.ensure("tries until it succeeds", len(seen) >= fails + 1)
    fs = list(out)
    q.ensure("two pieces", len(fs) == 2)
    i, k = (0, 1) if root else (1, 0)
    q.ensure("arc", fs[i] is A)
    q.ensure_eq("on the circle", out(0) if root else out(1), on)
    q.ensure_eq("joined", fs[0](1), fs[1](0))
    s = q.real("s", lo=0, hi=1)
    q.ensure_eq("along the flank", fs[k](s), f(u + s * (1 - u)) if root else f(s * u))


@ob("pointed_fillet", funcs=[C + "apply_fillet"], samples=40, seconds=120, paths=400)
def pointed_fillet(q, m):
    """where the flank does not reach the circle, or the arc would pass the middle plane: one arc over
    the mirrored flank, of which the half up to the middle plane belongs to this flank"""
    root = q.bool("root")
    half, rad, zt, circ, r, flank, tc, u = corner(q, m, root, False)
    why = q.choice("because", ["no crossing", "crossing outside", "arc passes the plane"])
    q.assume(q.np.linalg.norm(flank(1) - flank(0)) > 0.01) if not q.symbolic else None
    rot = q.rotz(-2 * half) if root else q.np.eye(3)
    M = lambda p: rot @ mirror(q, p)  # mirror image in the plane of the gap or the tooth
    touch = flank.function(u)
    a0 = -half if root else 0
    mid = polar(q, q.real("mid radius", lo=0.5, hi=50), a0, q.real("zm"))  # in the plane
    A = through(q, m, "arc", q.num("0"), M(touch) if root else touch, q.num("1"), touch if root else M(touch), mid=mid)
    past = -half - q.real("past", lo=0.01, hi=0.5)
    over = polar(q, rad, past, zt)
    B = through(q, m, "over", q.num("0"), over, q.num("1"), over + q.vec3("b"))
    q.angle_hint(past)
    seen = []
    s = q.real("s", lo=0, hi=1)

    def arc(c1, c2, radius, start_locations=None, method=None):
        if c1 is circ or c2 is circ:
            return B, q.num("1/3"), q.num("1/2"), sol([0, 0, 0], True)
        seen.append((c1, c2, radius, (c1 if root else c2)(s)))
        return (A, 1 - u, u, sol([0, 0, 0], True)) if root else (A, u, 1 - u, sol([0, 0, 0], True))

    cross = past if why == "crossing outside" else -half * q.num("1/2")
    q.angle_hint(cross)
    q.stand(m.curve, "find_curve_intersect", lambda a, b, guess=None, method=None: sol([q.num("1/2"), cross / (2 * q.pi)], why != "no crossing"), must=True)
    q.stand(m.curve, "calc_tangent_arc", arc, must=True)
    out = m.core.apply_fillet(tc, 2 * half, circ, r, direction=1 if root else -1)
    q.ensure("one arc", len(seen) == 1)
    c1, c2, radius, mir = seen[0]
    q.ensure("flank in order", (c2 if root else c1) is tc)
    q.ensure_eq("radius", radius, r)
    q.ensure_eq("over the mirrored flank", mir, M(flank.function(1 - s)))
    fs = list(out)
    q.ensure("two pieces", len(fs) == 2)
    q.ensure_eq("ends in the middle plane", out(0) if root else out(1), mid)
    q.ensure_eq("joined", fs[0](1), fs[1](0))
    q.ensure_eq("at the touching point", fs[1](0) if root else fs[0](1), touch)
    q.ensure_eq("along the flank", fs[1](s) if root else fs[0](s), flank.function(u + s * (1 - u)) if root else flank.function(s * u))


# ------------------------------------------------------------------ real arcs
@ob("real_fillets", funcs=["curve.calc_tangent_arc", "curve.fillet_curve", C + "apply_fillet", C + "generate_reference_profile"], sym=False, samples=40, num_seconds=60, sample_seconds=60)
def real_fillets(q, m):
    """real gears and chains: every fillet arc has the radius asked for and is tangent to its
    neighbours (bounded)"""
    np = q.np
    what = q.choice("what", ["gear", "gear", "bevel", "chain", "ring"])

    def smooth(name, a, b):
        q.ensure_eq(name + " joined", a(1), b(0), tol=1e-5)
        u, v = a.derivative(1, direction=-1), b.derivative(0, direction=1)
        q.ensure_eq(name + " tangent", u / np.linalg.norm(u), v / np.linalg.norm(v), tol=2e-3)

    if what == "chain":
        P = [q.vec3("p%d" % i) for i in range(4)]
        e = [b - a for a, b in zip(P, P[1:])]
        l = [np.linalg.norm(x) for x in e]
        q.assume(min(l) > 0.5)
        cosd = [np.dot(a, b) / np.linalg.norm(a) / np.linalg.norm(b) for a, b in zip(e, e[1:])]
        q.assume(all(-0.8 < x < 0.9 for x in cosd))
        ch = m.curve.CurveChain(*[m.curve.LineCurve(a, b) for a, b in zip(P, P[1:])])
        r = q.real("r", lo=0.01, hi=0.1)
        i = q.choice("corner", [0, 1])
        f = ch.fillet_at_index(r, i)
        arcs = [k for k, x in enumerate(f) if isinstance(x, m.curve.ArcCurve)]
        q.ensure("one arc at the corner", len(f) == 4 and arcs == [i + 1])
        q.ensure_eq("radius", f[i + 1].radius, r, tol=1e-6)
        smooth("before", f[i], f[i + 1])
        smooth("after", f[i + 1], f[i + 2])
        q.ensure_eq("start", f(0), P[0], tol=1e-9)
        q.ensure_eq("end", f(1), P[3], tol=1e-9)
        return
    rf, tf = q.choice("rf", [0, 0.1, 0.25]), q.choice("tf", [0, 0.05, 0.1])
    q.assume(rf + tf > 0)
    kw = dict(number_of_teeth=q.int("z", 40, 60) if what == "ring" else q.int("z", 9, 40), root_fillet=rf, tip_fillet=tf, height=1.0)
    if what == "bevel":
        g = m.wrapper.BevelGear(cone_angle=q.real("cone", lo=0.4, hi=1.8), enable_undercut=False, **kw)
    else:
        if what == "gear":
            kw["enable_undercut"] = False
        g = getattr(m.wrapper, "SpurRingGear" if what == "ring" else "SpurGear")(**kw)
    p = g.gearcore.curve_gen_at_z(0)
    fs = [x for x in p.tooth_curve.get_curves()]
    for k, x in ((0, rf), (-1, tf)):
        if not x:
            continue
        if not isinstance(fs[k], m.curve.ArcCurve):
            q.unknown("no arc")
        q.ensure_eq("radius", fs[k].radius, x, tol=1e-5)
    if rf:
        smooth("flank", fs[0], fs[1])
    if tf:
        smooth("flank", fs[-2], fs[-1])
    for a, b in zip(fs, fs[1:]):
        q.ensure_eq("pieces joined", a(1), b(0), tol=2e-5)
    if tf and p.ra_curve.active and p.ra_curve.length > 1e-3:
        smooth("tip", fs[-1], p.ra_curve)
    if rf and p.rd_curve.active and p.rd_curve.length > 1e-3:
        smooth("root", p.rd_curve, fs[0])


@ob("bevel_undercut_root_fillet", funcs=[C + "apply_fillet"], sym=False, samples=1)
def finding(q, m):
    """a bevel gear with undercut and a root fillet"""
    g = m.wrapper.BevelGear(number_of_teeth=29, cone_angle=0.485, root_fillet=0.25, height=1.0, enable_undercut=True)
    fs = list(g.gearcore.curve_gen_at_z(0).tooth_curve.get_curves())
    q.ensure("root fillet fits the undercut", abs(fs[0].radius - 0.25) < 1e-4 and q.np.linalg.norm(fs[0](1) - fs[1](0)) < 1e-4 if isinstance(fs[0], m.curve.ArcCurve) else True)
