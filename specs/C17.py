"""C17 CAD output: locations, parts, edges and faces handed to the CAD kernel are those of
the gear as designed and placed."""
from engine.api import ob

B = "gggears_build123d."
W = "gggears_wrapper."


# ------------------------------------------------------------------ reading CAD objects
def frame(q, loc):
    """rotation matrix and position of a location"""
    if q.symbolic:
        return loc.R, loc.p
    t = loc.wrapped.Transformation()
    M = q.arr([[t.Value(i, j) for j in range(1, 5)] for i in range(1, 4)])
    return M[:, :3], M[:, 3]


def line_ends(q, e):
    """end points of a (possibly moved) straight edge"""
    if q.symbolic:
        (l,) = e.leaves()
        return l.at(l.data["points"][0]), l.at(l.data["points"][-1])
    es = e.edges()
    if len(es) != 1:
        q.unknown("not one edge")
    a, b = es[0].position_at(0), es[0].position_at(1)
    return q.arr([a.X, a.Y, a.Z]), q.arr([b.X, b.Y, b.Z])


def ends(q, e):
    if q.symbolic:
        (l,) = e.leaves()
        d = l.data
        if l.kind == "bezier":
            return l.at(d["points"][0]), l.at(d["points"][-1])
        if l.kind == "circle":
            return tuple(l.at([d["radius"] * q.np.cos(u), d["radius"] * q.np.sin(u), 0]) for u in (d["start"], d["end"]))
        q.unknown(l.kind)
    return line_ends(q, e)


def on_edge(q, n, e, p, tol=1e-6):
    """concrete only: p lies on the edge"""
    import build123d as bd
    q.ensure(n, e.distance_to(bd.Vertex(*[float(x) for x in p])) <= tol * (1 + max(abs(x) for x in p)))


def same_bezier(q, n, e, pts, ws):
    """the edge is the rational Bezier curve of these points and weights"""
    if q.symbolic:
        (l,) = e.leaves()
        if l.kind != "bezier":
            q.unknown(l.kind)
        q.ensure(n + " number of points", len(l.data["points"]) == len(pts))
        for i, (a, b) in enumerate(zip(l.data["points"], pts)):
            q.ensure_eq("%s point %d" % (n, i), l.at(a), b)
        for i, w in enumerate(l.data["weights"]):
            q.ensure_eq("%s weight %d" % (n, i), w * ws[0], ws[i] * l.data["weights"][0])
        return
    a, b = line_ends(q, e)
    q.ensure_eq(n + " start", a, pts[0], tol=1e-6)
    q.ensure_eq(n + " end", b, pts[-1], tol=1e-6)
    import numpy as np
    from math import comb
    d = len(pts) - 1
    for t in (0.2, 0.5, 0.9):
        bb = np.array([comb(d, i) * t ** i * (1 - t) ** (d - i) for i in range(d + 1)]) * np.array(ws, dtype=float)
        p = bb @ np.array(pts, dtype=float) / bb.sum()
        on_edge(q, "%s passes t=%s" % (n, t), e, p)


def transform(q, m, n=""):
    O, c, a, s = q.rot("O" + n), q.vec3("c" + n), q.real("a" + n), q.real("s" + n, lo=0.2, hi=5)
    return m.base.GearTransform(center=c, orientation=O, scale=s, angle=a)


def image(q, T, p):
    return T.scale * (T.orientation @ (q.rotz(T.angle) @ p)) + T.center


# ------------------------------------------------------------------ placement
@ob("location", funcs=[B + "transform2Location"])
def location(q, m):
    T = transform(q, m)
    R, p = frame(q, m.bd.transform2Location(T))
    q.ensure_eq("position", p, T.center, tol=1e-6)
    q.ensure_eq("orientation", R, T.orientation @ q.rotz(T.angle), tol=1e-6)


@ob("placed_part", funcs=[B + "apply_transform_part", B + "transform2Location", B + "nppoint2Vector", B + "np2v"])
def placed(q, m):
    """a part is scaled about the origin, turned and moved like any point of the gear"""
    T = transform(q, m)
    before = (T.center, T.orientation, T.scale, T.angle)
    a, b = q.vec3("p"), q.vec3("r")
    q.assume((a - b) @ (a - b) > 0.01)
    part = m.bd.bd.Edge.make_line(m.bd.np2v(a), m.bd.np2v(b))
    out = m.bd.apply_transform_part(part, T)
    for n, x, y in zip(("start", "end"), ends(q, out), (a, b)):
        q.ensure_eq(n, x, image(q, T, y), tol=1e-5)
    for n, x, y in zip(("start", "end"), ends(q, part), (a, b)):
        q.ensure_eq("part itself " + n, x, y, tol=1e-6)
    for n, x, y in zip(("center", "orientation", "scale", "angle"), (T.center, T.orientation, T.scale, T.angle), before):
        q.ensure_eq("placement stays " + n, x, y)


@ob("updated_part", funcs=[W + "InvoluteGear.update_part", W + "CycloidGear.update_part", W + "InvoluteGear.reset_location"])
def updated(q, m):
    """after moving the gear, its part is the solid of the gear at the new place, however
    often it was moved and updated before"""
    from types import SimpleNamespace
    cls = q.choice("kind", ["InvoluteGear", "CycloidGear"])
    z, mod = q.int("z", 6, 30), q.real("mod", lo=0.3, hi=4)
    g = getattr(m.wrapper, cls)(number_of_teeth=z, module=mod, height=q.real("h", lo=0.5, hi=4), center=q.vec3("c0"), angle=q.real("a0"))
    a, b = q.vec3("p"), q.vec3("r")
    q.assume((a - b) @ (a - b) > 0.01)
    part = m.bd.bd.Edge.make_line(m.bd.np2v(a), m.bd.np2v(b))
    first = q.choice("first", ["built", "new"])
    made = []

    def build(self=None, *x, **k):
        made.append(1)
        g.builder = SimpleNamespace(solid=part, part=part, part_transformed=part, gear=g.gearcore)
        return part

    q.stand(type(g), "build_part", build)
    if first == "built":
        g.build_part()
    g.update_part()
    q.ensure("built once", len(made) == 1)
    g.gearcore.transform.orientation = q.rot("O")
    g.center = q.vec3("c1")
    g.angle = q.real("a1")
    for k in range(2):
        out = g.update_part()
        for n, x, y in zip(("start", "end"), ends(q, out), (a, b)):
            q.ensure_eq("%s after update %d" % (n, k), x, image(q, g.gearcore.transform, y), tol=1e-5)
        for n, x, y in zip(("start", "end"), ends(q, g.builder.part_transformed), ends(q, out)):
            q.ensure_eq("kept part " + n, x, y, tol=1e-6)
    q.ensure("not built again", len(made) == 1)
    q.ensure_eq("scale is the module", g.gearcore.transform.scale, mod)
    if cls == "InvoluteGear":
        g.reset_location()
        for n, x, y in zip(("start", "end"), ends(q, g.update_part()), (a, b)):
            q.ensure_eq(n + " after reset", x, mod * y, tol=1e-5)


@ob("locations", funcs=[W + "GearInfoMixin." + n for n in ("center_location_at_z", "center_location_bottom", "center_location_middle", "center_location_top", "face_location_top", "face_location_bottom")], samples=20, seconds=60)
def locations(q, m):
    """locations offered for attaching things: at the slice centres (the rim circle's centre
    for the faces), turned with the gear and the slice's twist"""
    cone = q.bool("cone")
    z, mod, h, an = q.int("z", 8, 40), q.real("mod", lo=0.3, hi=4), q.real("h", lo=0.5, hi=3), q.real("an", lo=0, hi=1)
    hel = q.real("hel", lo=-0.4, hi=0.4)
    gam = q.real("gam", lo=0.2, hi=1.2) if cone else 0
    g = m.wrapper.InvoluteGear(number_of_teeth=z, module=mod, height=h, z_anchor=an, helix_angle=hel, cone_angle=2 * gam, center=q.vec3("c"), angle=q.real("a"))
    g.gearcore.transform.orientation = q.rot("O")
    T = g.gearcore.transform
    zs = g.gearcore.z_vals
    rc = q.vec3("rim")
    if q.symbolic:
        from types import SimpleNamespace
        q.stub(type(g), "radii_data_gen", lambda self, z: SimpleNamespace(r_o_curve=SimpleNamespace(center=rc + q.arr([0, 0, z]))))
    for n, loc, zz, face in (("bottom", g.center_location_bottom, zs[0], False), ("top", g.center_location_top, zs[-1], False),
                             ("middle", g.center_location_middle, (zs[0] + zs[-1]) / 2, False), ("any", g.center_location_at_z(q.real("zz", lo=0, hi=1)), None, False),
                             ("top face", g.face_location_top, zs[-1], True), ("bottom face", g.face_location_bottom, zs[0], True)):
        if zz is None:
            zz = q.real("zz", lo=0, hi=1)
        t = g.gearcore.shape_recipe(zz).transform
        R, p = frame(q, loc)
        q.ensure_eq(n + " orientation", R, T.orientation @ q.rotz(T.angle) @ t.orientation @ q.rotz(t.angle), tol=1e-6)
        q.ensure_eq(n + " position", p, image(q, T, t.center) if not face else g.radii_data_gen(zz).r_o_curve.center, tol=1e-6)


# ------------------------------------------------------------------ edges
def nurb(q, m, n, k=3, p0=None, p1=None):
    pts = [q.vec3("%s%d" % (n, i)) for i in range(k)]
    if p0 is not None:
        pts[0] = p0
    if p1 is not None:
        pts[-1] = p1
    ws = [q.real("%sw%d" % (n, i), lo=0.3, hi=2) for i in range(k)]
    for a, b in zip(pts, pts[1:]):
        q.assume((a - b) @ (a - b) > 0.01)
    c = m.curve.NurbCurve(q.arr(pts), q.arr(ws), active=True)
    return c, pts, ws


@ob("splines", funcs=[B + "gen_splines", B + "nppoint2Vector", B + "GearBuilder_old.gen_splines"], samples=20)
def splines(q, m):
    """one edge per active piece, with the piece's points and weights"""
    from specs.common import lengths
    lengths(q, m)
    a, pa, wa = nurb(q, m, "a", 3)
    b, pb, wb = nurb(q, m, "b", 4, p0=pa[-1])
    c, pc, wc = nurb(q, m, "d", 2, p0=pb[-1])
    e = m.bd.gen_splines(a)
    same_bezier(q, "single", e, pa, wa)
    off = q.choice("inactive", [None, 0, 1, 2])
    cs = [a, b, c]
    if off is not None:
        cs[off].active = False
    chain = m.curve.NURBSCurve(*cs) if q.bool("nurbs chain") else m.curve.CurveChain(*cs)
    es = m.bd.gen_splines(chain)
    want = [x for i, x in enumerate(((pa, wa), (pb, wb), (pc, wc))) if i != off]
    q.ensure("one edge per active piece", len(es) == len(want))
    for i, (e, (p, w)) in enumerate(zip(es, want)):
        same_bezier(q, "piece %d" % i, e, p, w)


@ob("arc_edge", funcs=[B + "arc_to_b123d", B + "curve_to_edges"])
def arc_edge(q, m):
    """an arc's edge covers exactly the (trimmed) arc: same ends, same circle, same side"""
    r, an = q.real("r", lo=0.2, hi=5), q.real("ang", lo=-6, hi=6)
    q.assume(q.np.abs(an) > 0.05)
    arc = m.curve.ArcCurve(radius=r, angle=an, center=q.vec3("c"), yaw=q.real("yaw"), pitch=q.real("pitch"), roll=q.real("roll"))
    s0, s1 = q.real("s0", lo=0, hi=0.45), q.real("s1", lo=0.55, hi=1)
    if q.bool("trimmed"):
        arc.set_start_and_end_on(s0, s1)
    q.assume(q.np.abs(an * (arc.t_1 - arc.t_0)) > 0.02)
    P0, P1, PM = arc(0), arc(1), arc(q.num("1/2"))
    e = m.bd.arc_to_b123d(arc) if q.bool("direct") else m.bd.curve_to_edges(arc)[0]
    a, b = ends(q, e)
    if q.symbolic:
        (l,) = e.leaves()
        d = l.data
        up = an > 0
        q.ensure_eq("start", a, P0 if up else P1)
        q.ensure_eq("end", b, P1 if up else P0)
        u = (d["start"] + d["end"]) / 2
        q.ensure_eq("middle", l.at([d["radius"] * q.np.cos(u), d["radius"] * q.np.sin(u), 0]), PM)
        q.ensure("forward", q.lt(d["start"], d["end"]))
        q.ensure("less than a turn", q.lt(d["end"] - d["start"], 2 * q.pi))
    else:
        if not an > 0:
            a, b = b, a
        q.ensure_eq("start", a, P0, tol=1e-5)
        q.ensure_eq("end", b, P1, tol=1e-5)
        on_edge(q, "middle on the edge", e, PM, tol=1e-5)
        q.ensure_eq("length", e.length, arc.length, tol=1e-5)


@ob("line_edge", funcs=[B + "line_to_b123d", B + "curve_to_edges", B + "np2v"])
def line_edge(q, m):
    a, b = q.vec3("a"), q.vec3("b")
    q.assume((a - b) @ (a - b) > 0.04)
    line = m.curve.LineCurve(a, b)
    if q.bool("trimmed"):
        line.set_start_and_end_on(q.real("s0", lo=-0.4, hi=0.3), q.real("s1", lo=0.6, hi=1.5))
    if q.bool("reversed"):
        line.reverse()
    P0, P1 = line(0), line(1)
    e = m.bd.line_to_b123d(line) if q.bool("direct") else m.bd.curve_to_edges(line)[0]
    x, y = ends(q, e)
    q.ensure_eq("start", x, P0, tol=1e-6)
    q.ensure_eq("end", y, P1, tol=1e-6)


def flatten(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flatten(y)]
    return [x]


@ob("curve_edges", funcs=[B + "curve_to_edges", B + "gen_splines"], samples=15, seconds=60)
def curve_edges(q, m):
    """a chain gives the edges of its active pieces in order; transformed curves give the
    edge of the transformed, trimmed curve"""
    from specs.common import lengths
    lengths(q, m)
    a, b, c = q.vec3("a"), q.vec3("b"), q.vec3("c")
    q.assume((a - b) @ (a - b) > 0.04)
    q.assume((c - b) @ (c - b) > 0.04)
    T = transform(q, m)
    l1, l2 = m.curve.LineCurve(a, b), m.curve.LineCurve(b, c)
    l3 = m.curve.TransformedCurve(T, m.curve.LineCurve(a, b))
    if q.bool("trimmed"):
        l3.set_start_and_end_on(q.real("s0", lo=0, hi=0.3), q.real("s1", lo=0.6, hi=1))
    off = q.choice("inactive", [None, 0, 1, 2])
    cs = [l1, l2, l3]
    want = [(x(0), x(1)) for x in cs]
    if off is not None:
        cs[off].active = False
        want.pop(off)
    es = flatten(m.bd.curve_to_edges(m.curve.CurveChain(*cs)))
    q.ensure("one edge per active piece", len(es) == len(want))
    for i, (e, (x, y)) in enumerate(zip(es, want)):
        p, r = ends(q, e)
        q.ensure_eq("edge %d start" % i, p, x, tol=1e-5)
        q.ensure_eq("edge %d end" % i, r, y, tol=1e-5)


# ------------------------------------------------------------------ boundary of all teeth
@ob("boundary", funcs=[B + "generate_boundary_edges", B + "gen_splines", W + "InvoluteGear.build_boundary_wire", W + "CycloidGear.build_boundary_wire"], samples=12, seconds=90)
def boundary(q, m):
    """the whole boundary is one tooth's outline repeated once per pitch about the gear's
    axis, placed like the gear; neither the profile nor the placement is changed"""
    from types import SimpleNamespace
    from specs.common import lengths
    lengths(q, m)
    N = q.choice("teeth", [3, 4])
    pitch = 2 * q.pi / N
    p0 = q.vec3("p0")
    q.assume(p0[0] * p0[0] + p0[1] * p0[1] > 0.1)
    a, pa, wa = nurb(q, m, "a", 3, p0=p0)
    b, pb, wb = nurb(q, m, "b", 2, p0=pa[-1], p1=q.rotz(pitch) @ p0)
    w = [wa, wb]
    wb[0] = wa[-1]
    wb[1] = wa[0]
    b.weights = q.arr(wb)
    prof = m.curve.NURBSCurve(a, b)
    ref = SimpleNamespace(pitch_angle=pitch)
    q.stand(m.bd, "gearprofile_to_nurb", lambda p, *x, **k: SimpleNamespace(profile=prof, pitch_angle=pitch), must=True)
    T = transform(q, m)
    before = (T.center, T.orientation, T.scale, T.angle)
    given = q.bool("placed")
    part = q.bool("part of the turn")
    how = q.choice("asked of", ["function", "InvoluteGear", "CycloidGear"])
    n = N
    if q.symbolic:  # closedness of a chain is decided in C04; two teeth of a turn do not close
        q.stub(m.curve.CurveChain, "is_closed", property(lambda self: not (part and how == "function")))
    if how == "function":
        kw = {}
        if part:
            n = 2
            kw["angle_range"] = 2 * pitch
        es = m.bd.generate_boundary_edges(ref, T, **kw) if given else m.bd.generate_boundary_edges(ref, **kw)
    else:
        g = getattr(m.wrapper, how)(number_of_teeth=12)
        g.gearcore.transform = T
        given = True
        asked = []
        q.stand(type(g.gearcore), "curve_gen_at_z", lambda self, z: (asked.append(z), ref)[1], must=True)
        q.stand(m.wrapper, "generate_boundary_edges", m.bd.generate_boundary_edges)
        got = []
        real = m.wrapper.bd.Wire
        q.stand(m.wrapper.bd, "Wire", lambda e, *x, **k: (got.append(e), SimpleNamespace(edges=e))[1], must=True)
        zr = q.real("zr", lo=0, hi=1)
        try:
            g.build_boundary_wire(zr)
        finally:
            pass
        es = got[0]
        q.ensure_eq("slice height", asked[0], g.gearcore.z_vals[0] + zr * (g.gearcore.z_vals[-1] - g.gearcore.z_vals[0]))
    q.ensure("number of edges", len(es) == 2 * n)
    for k in range(min(n, len(es) // 2)):
        for j, (p, ww) in enumerate(((pa, wa), (pb, wb))):
            R = q.rotz(k * pitch)
            pts = [R @ x for x in p]
            if given:
                pts = [image(q, T, x) for x in pts]
            same_bezier(q, "tooth %d piece %d" % (k, j), es[2 * k + j], pts, ww)
    for nm, x, y in zip(("center", "orientation", "scale", "angle"), (T.center, T.orientation, T.scale, T.angle), before):
        q.ensure_eq("placement stays " + nm, x, y)
    for nm, c, p in (("first", a, pa), ("second", b, pb)):
        q.ensure_eq("profile stays " + nm, c.points, q.arr(p))


@ob("boundary_teeth", funcs=[B + "generate_boundary_edges", B + "gen_splines"], sym=False, samples=25, num_seconds=15, sample_seconds=20)
def boundary_teeth(q, m):
    """no tooth is lost or doubled by rounding of the pitch (machine arithmetic: bounded)"""
    from types import SimpleNamespace
    import math
    fragile = [n for n in range(3, 131) if int(2 * math.pi / (2 * math.pi / n)) != n or math.ceil(2 * math.pi / (2 * math.pi / n)) != n]
    N = q.choice("teeth", fragile) if q.bool("fragile") and fragile else q.int("n", 3, 130)
    pitch = 2 * math.pi / N
    p0 = [5.0, 0.2, 0.3]
    a, pa, wa = nurb(q, m, "a", 2, p0=q.arr(p0), p1=q.rotz(pitch) @ q.arr(p0))
    a.weights = q.arr([1.0, 1.0])
    ref = SimpleNamespace(pitch_angle=pitch)
    q.stand(m.bd, "gearprofile_to_nurb", lambda p, *x, **k: SimpleNamespace(profile=m.curve.NURBSCurve(a), pitch_angle=pitch), must=True)
    es = m.bd.generate_boundary_edges(ref, transform(q, m))
    q.ensure("one outline per tooth", len(es) == N)


# ------------------------------------------------------------------ faces of the solid
def fake_builder(q, m, N, zs, inside=False, ho=None):
    from types import SimpleNamespace
    b = q.partial(m.bd.GearBuilder)
    tp = m.base.GearToothParam(N, inside_teeth=inside)
    b.gear = SimpleNamespace(tooth_param=tp, z_vals=zs, cone=m.base.ConicData(cone_angle=0, base_radius=1),
                             shape_recipe=SimpleNamespace(limits=m.base.ToothLimitParam(h_o=ho) if ho is not None else None))
    return b


def grid(q, n, k):
    return [[q.vec3("%s%d%d" % (n, i, j)) for j in range(k)] for i in range(2)]


@ob("side_faces", funcs=[B + "GearBuilder.gen_side_surfaces", B + "nppoint2Vector", "gggears_convert.NurbSurfaceData.get_patches"], samples=10, seconds=60)
def side_faces(q, m):
    """one face per tooth, section and piece of the outline (the three pieces along the rim
    left out), each turned by its tooth's multiple of the pitch"""
    import math
    N = q.choice("teeth", [2, 3])
    sections = q.choice("sections", [1, 2])
    b = fake_builder(q, m, N, q.arr([0, 1, 2][: sections + 1]))
    # two flank pieces (2 and 3 points) and three rim pieces of two points
    knots = [0, 1, 3, 4, 5, 6]
    data = []
    for s in range(sections):
        rows = [[q.arr([1 + 0.3 * j, (j * j % 3) * 0.4 + 0.2 * i, i + s]) + 0.05 * q.vec3("p%d%d%d" % (s, i, j)) for j in range(7)] for i in range(2)]
        ws = [[q.real("w%d%d%d" % (s, i, j), lo=0.5, hi=1.5) for j in range(7)] for i in range(2)]
        data.append((rows, ws))
    b.side_surf_data = [m.convert.NurbSurfaceData(points=q.arr(r), weights=q.arr(w), knots=knots) for r, w in data]
    fs = b.gen_side_surfaces()
    q.ensure("number of faces", len(fs) == N * sections * 2)
    used = set()
    for j in range(N):
        R = q.rotz(2 * q.pi * j / N)
        for s, (rows, ws) in enumerate(data):
            for lo, hi in ((0, 1), (1, 3)):
                want = [[R @ p for p in r[lo:hi + 1]] for r in rows]
                w = [r[lo:hi + 1] for r in ws]
                n = "tooth %d section %d piece %d" % (j, s, lo)
                if q.symbolic:
                    mid = q.approx(want[0][0])
                    best = min((i for i in range(len(fs)) if i not in used and len(fs[i].leaves()[0].data["points"][0]) == hi - lo + 1),
                               key=lambda i: float(abs(q.approx(fs[i].leaves()[0].at(fs[i].leaves()[0].data["points"][0][0])) - mid).max()), default=None)
                    if best is None:
                        q.ensure(n + " present", False)
                        continue
                    used.add(best)
                    (l,) = fs[best].leaves()
                    d = l.data
                    for u in range(2):
                        for v in range(hi - lo + 1):
                            q.ensure_eq("%s point %d %d" % (n, u, v), l.at(d["points"][u][v]), want[u][v])
                            q.ensure_eq("%s weight %d %d" % (n, u, v), d["weights"][u][v] * w[0][0], w[u][v] * d["weights"][0][0])
                else:
                    import build123d as bd
                    import numpy as np
                    for u in (0, 0.3, 1):
                        for v in (0, 0.4, 1):
                            bu = np.array([1 - u, u])
                            dg = hi - lo
                            bv = np.array([math.comb(dg, i) * v ** i * (1 - v) ** (dg - i) for i in range(dg + 1)])
                            W = np.outer(bu, bv) * np.array(w)
                            p = np.einsum("ij,ijk->k", W, np.array(want)) / W.sum()
                            q.ensure(n + " surface", min(f.distance_to(bd.Vertex(*p)) for f in fs) < 1e-5)


@ob("rim_face", funcs=[B + "GearBuilder.gen_outside_ring"])
def rim_face(q, m):
    """the outside of a ring is the cylinder at the rim radius between bottom and top"""
    N = q.int("z", 10, 60)
    ho = q.real("ho", lo=-4, hi=-1)
    z0, h = q.real("z0", lo=-2, hi=2), q.real("h", lo=0.3, hi=4)
    b = fake_builder(q, m, N, [z0, z0 + h], inside=True, ho=ho)
    f = b.gen_outside_ring()
    r = N / 2 - ho
    if q.symbolic:
        (l,) = f.leaves()
        if l.kind != "sweep":
            q.unknown(l.kind)
        (pr,), (pa,) = l.data["profile"].leaves(), l.data["path"].leaves()
        pts = [pr.at(p) for p in pr.data["points"]]
        for n, p, z in zip(("bottom", "top"), (pts[0], pts[-1]), (z0, z0 + h)):
            q.ensure_eq(n + " height", p[2], z)
            q.ensure_eq(n + " radius", p[0] * p[0] + p[1] * p[1], r * r)
        q.ensure_eq("radius", pa.data["radius"], r)
    else:
        bb = f.bounding_box()
        q.ensure_eq("radius", bb.max.X, r, tol=1e-4)
        q.ensure_eq("bottom", bb.min.Z, z0, tol=1e-4)
        q.ensure_eq("top", bb.max.Z, z0 + h, tol=1e-4)
        q.ensure_eq("area", f.area, 2 * q.pi * r * h, tol=1e-5)


@ob("cover_face", funcs=[B + "GearBuilder.generate_cover", B + "gen_splines", "curve.NURBSCurve.from_curve_chain"], samples=8, seconds=60)
def cover(q, m):
    """bottom and top faces of cylindrical gears are bounded by the slice's outline repeated
    for every tooth, and for rings by the rim circle at the slice's height"""
    from types import SimpleNamespace
    from specs.common import lengths
    lengths(q, m)
    N = q.choice("teeth", [3, 4])
    inside = q.bool("ring")
    ho = -1 - q.real("ho", lo=0, hi=1)
    zc = q.real("zc", lo=-2, hi=2)
    pitch = 2 * q.pi / N
    b = fake_builder(q, m, N, [0, 1], inside=inside, ho=ho)
    r = q.real("r", lo=0.6, hi=0.9)
    p0 = q.arr([r, 0, zc])
    pm = q.rotz(pitch / 2) @ q.arr([r * q.real("k", lo=0.6, hi=0.9), 0, zc])
    p1 = q.rotz(pitch) @ p0
    one = q.arr([1, 1])
    a = m.curve.NurbCurve(q.arr([p0, pm]), one)
    c = m.curve.NurbCurve(q.arr([pm, p1]), one)
    cs = [a, c]
    if q.bool("inactive piece"):
        cs.insert(1, m.curve.NurbCurve(q.arr([pm, pm]), one, active=False))
    if q.symbolic:
        q.stub(m.curve.CurveChain, "is_closed", property(lambda self: False))
    prof = m.curve.NURBSCurve(*cs)
    stack = SimpleNamespace(profile=prof, pitch_angle=pitch)
    f = b.generate_cover(stack, SimpleNamespace(transform=m.base.GearTransform(center=q.arr([0, 0, zc]))))
    if q.symbolic:
        (l,) = f.leaves()
        if l.kind != "face":
            q.unknown(l.kind)
        es = [e for x in (l.data["inner"] if inside else l.data["outer"]) for e in x.leaves()]
        q.ensure("number of edges", len(es) == 2 * N)
        for j in range(N):
            R = q.rotz(j * pitch)
            for i, (x, y) in enumerate(((p0, pm), (pm, p1))):
                if 2 * j + i < len(es):
                    same_bezier(q, "tooth %d edge %d" % (j, i), es[2 * j + i], [R @ x, R @ y], [1, 1])
        if inside:
            o = [e for x in l.data["outer"] for e in x.leaves()]
            q.ensure("one rim circle", len(o) == 1 and o[0].kind == "circle")
            q.ensure_eq("rim radius", o[0].data["radius"], q.val(N) / 2 - ho)
            q.ensure_eq("rim centre", o[0].at([0, 0, 0]), q.arr([0, 0, zc]))
            q.ensure_eq("rim axis", o[0].A @ q.arr([0, 0, 1]), q.arr([0, 0, 1]))
        else:
            q.ensure("no holes", not l.data["inner"])
    else:
        import numpy as np
        tri = N * abs(np.cross(p0, pm)[2] + np.cross(pm, p1)[2]) / 2
        q.ensure_eq("area", f.area, tri if not inside else np.pi * (N / 2 - ho) ** 2 - tri, tol=1e-5)
        bb = f.bounding_box()
        q.ensure_eq("height", [bb.min.Z, bb.max.Z], [zc, zc], tol=1e-4)


# ------------------------------------------------------------------ slices to surfaces
@ob("sections", funcs=["gggears_convert.GearToNurbs." + n for n in ("__init__", "generate_gear_stacks", "generate_nurbs", "generate_surface_points_sides")], samples=10, seconds=60)
def sections(q, m):
    """each section's surface starts and ends with the outlines of the slices at its ends;
    the slices fitted in between are evenly spread over the section"""
    from types import SimpleNamespace
    from specs.common import lengths
    lengths(q, m)
    nv = q.choice("vertical points", [2, 3, 4])
    ns = q.choice("sections", [1, 2])
    zs = [q.real("z0", lo=-2, hi=0), q.real("z1", lo=0.5, hi=2), q.real("z2", lo=2.5, hi=4)][: ns + 1]
    cone = object()
    base = [q.vec3("p%d" % i) for i in range(4)]
    sl = [q.vec3("d%d" % i) for i in range(4)]
    hz = []

    def pts(z):
        return [p + z * d for p, d in zip(base, sl)]

    def nurbs(p, n_points=None, oversamp_ratio=None, **k):
        hz.append(n_points)
        x = pts(p.z)
        one = q.arr([1, 1])
        w = 2 + p.z * p.z
        cs = [m.curve.NurbCurve(q.arr(x[:3]), q.arr([1, w, 1])), m.curve.NurbCurve(q.arr([x[2], x[2]]), one, active=False),
              m.curve.NurbCurve(q.arr(x[2:]), one)]
        return SimpleNamespace(profile_closed=m.curve.NURBSCurve(*cs))

    gear = SimpleNamespace(z_vals=q.arr(zs), curve_gen_at_z=lambda z: SimpleNamespace(z=z), shape_recipe=lambda z: SimpleNamespace(cone=cone))
    q.stand(m.core.GearRefProfileExtended, "from_refprofile", classmethod(lambda cls, p, c=None, *x, **k: p), must=True)
    q.stand(m.convert, "gearprofile_to_nurb", nurbs, must=True)
    targets = []

    def fit(self, target_points, n_points_vert=4, *a, **k):
        targets.append(target_points)
        n = target_points.shape[1]
        mid = [[q.arr([0, 0, 0, 1]) for _ in range(n)] for _ in range(n_points_vert - 2)]
        P = q.arr([list(target_points[0])] + mid + [list(target_points[-1])])
        return None, P[:, :, :3], P[:, :, 3]

    q.stand(m.convert.GearToNurbs, "solve_surface_fast", fit)
    q.stand(m.convert.GearToNurbs, "solve_surface", lambda self, *a, **k: fit(self, *a, **{x: y for x, y in k.items() if x in ("target_points", "n_points_vert")}) + (None,))
    g = m.convert.GearToNurbs(gear, n_points_hz=5, n_points_vert=nv, oversampling_ratio=3)
    q.ensure("one surface per section", len(g.side_surf_data) == ns)
    for k in range(ns):
        d = g.side_surf_data[k]
        q.ensure("rows of section %d" % k, d.points.shape[0] == nv and d.weights.shape[0] == nv)
        for n, row, z in (("bottom", 0, zs[k]), ("top", nv - 1, zs[k + 1])):
            q.ensure_eq("section %d %s outline" % (k, n), d.points[row], q.arr(pts(z)))
            q.ensure_eq("section %d %s weights" % (k, n), d.weights[row], q.arr([1, 2 + z * z, 1, 1]))
        q.ensure("section %d pieces" % k, [int(x) for x in d.knots] == [0, 2, 3])
        if nv > 2 and len(targets) > 2 * k:
            t = targets[2 * k]
            o = t.shape[0]
            q.ensure("enough slices", o > nv)
            for i in range(o):
                z = zs[k] + (zs[k + 1] - zs[k]) * q.num("%d/%d" % (i, o - 1))
                q.ensure_eq("section %d slice %d" % (k, i), t[i, :, :3], q.arr(pts(z)))
    q.ensure("points per piece", all(x == 5 for x in hz))


@ob("enough_sections", funcs=[W + "InvoluteGear.build_part", W + "CycloidGear.build_part", W + "HelicalRingGear.build_part"], samples=30)
def enough(q, m):
    """the builder gets the gear itself; twisted or crowned gears get curved sides; a number
    of points asked for is used; the part returned is the builder's"""
    from types import SimpleNamespace
    kind = q.choice("kind", ["InvoluteGear", "HelicalGear", "HelicalRingGear", "CycloidGear", "BevelGear"])
    hel = q.real("hel", lo=-0.6, hi=0.6) if q.bool("helical") else 0
    crown = 0.1 if kind in ("InvoluteGear", "CycloidGear") and q.bool("crowned") else 0
    kw = dict(number_of_teeth=q.choice("z", [12, 31]), height=q.real("h", lo=0.5, hi=4), helix_angle=hel)
    if crown:
        kw["crowning"] = q.real("cr", lo=1, hi=100)
    g = getattr(m.wrapper, kind)(**kw)
    got = []
    part = object()

    class FakeBuilder:
        def __init__(self, gear, n_points_hz=4, n_points_vert=4, oversampling_ratio=3, **k):
            got.append((gear, n_points_hz, n_points_vert))
            self.part_transformed = part

    q.stand(m.wrapper, "GearBuilder", FakeBuilder, must=True)
    ask = q.choice("asked", [None, 3, 6])
    out = g.build_part() if ask is None else g.build_part(n_vert=ask)
    q.ensure("built once", len(got) == 1)
    q.ensure("the gear itself", got[0][0] is g.gearcore)
    q.ensure("the part returned", out is part)
    q.ensure("at least two", bool(got[0][2] >= 2))
    if ask is not None:
        q.ensure("number asked for", got[0][2] == ask)
    elif crown or (hel != 0 and kind != "InvoluteGear") or (kind == "InvoluteGear" and hel != 0):
        q.ensure("curved sides", bool(got[0][2] >= 3))


@ob("real_parts", funcs=[B + "GearBuilder.__init__", B + "GearBuilder.gen_ref_solid", B + "GearBuilder.gen_side_surfaces", B + "GearBuilder.generate_cover", B + "GearBuilder.gen_outside_ring", W + "InvoluteGear.build_part", W + "CycloidGear.build_part", W + "HelicalRingGear.build_part", "gggears_convert.GearToNurbs.__init__"], sym=False, samples=6, num_seconds=60, sample_seconds=100)
def real_parts(q, m):
    """solids of random placed gears: flanks of random teeth at random heights lie on the
    surface, material is between the flanks (outside them for rings) and between bottom and
    top, nowhere else; after a move the updated part follows"""
    import numpy as np
    import build123d as bd
    kind = q.choice("kind", ["SpurGear", "SpurGear", "HelicalGear", "SpurRingGear", "HelicalRingGear", "BevelGear", "CycloidGear", "CycloidRing", "HelicalGear", "CycloidCone"])
    mod = q.real("mod", lo=0.4, hi=3)
    ring = "Ring" in kind
    kw = dict(number_of_teeth=q.int("z", 18, 24) if ring else q.int("z", 9, 16), module=mod, height=mod * q.real("h", lo=1, hi=2), center=q.vec3("c", scale=3.0), angle=q.real("a"))
    kw["z_anchor"] = q.real("an", lo=0, hi=1)
    if "Helical" in kind:
        kw["helix_angle"] = q.real("hel", lo=-0.4, hi=0.4)
        if q.bool("herringbone"):
            kw["herringbone"] = True
    if kind == "BevelGear":
        kw.update(cone_angle=q.real("cone", lo=0.8, hi=1.6), helix_angle=0.0)
    if kind in ("SpurGear", "CycloidGear") and q.bool("crowned"):
        kw["crowning"] = q.real("crown", lo=20, hi=150)
    cls = kind
    if kind == "CycloidRing":
        cls, kw["inside_teeth"] = "CycloidGear", True
    if kind == "CycloidCone":
        cls, kw["cone_angle"] = "CycloidGear", q.real("cone", lo=0.8, hi=1.4)
    g = getattr(m.wrapper, cls)(**kw)
    part = g.build_part()
    q.ensure("one solid", len(part.solids()) == 1 and part.volume > 0)

    def look(part, tag):
        so = part.solids()[0]
        sh = so.shells()[0]
        core = g.gearcore
        T = core.transform
        z0, z1 = core.z_vals[0], core.z_vals[-1]
        for k, ratio in enumerate((q.real("r0", lo=0.03, hi=0.97), q.real("r1", lo=0.03, hi=0.97), 0.03, 0.97, -0.03, 1.03)):
            pr = core.curve_gen_at_z(z0 + ratio * (z1 - z0))
            j = q.int("tooth%d" % k, 0, 40) % core.tooth_param.num_teeth_act
            a = pr.tooth_curve(q.real("s%d" % k, lo=0.15, hi=0.85))
            mid = np.array([np.hypot(a[0], a[1]), 0, a[2]])  # same radius, middle of the tooth

            def img(x, d=0):
                return image(q, T, q.rotz((j + d) * pr.pitch_angle) @ image(q, pr.transform, x))

            n = "%s tooth %d at %.2f" % (tag, j, ratio)
            inside = so.is_inside(bd.Vector(*img(mid, 0.5 if ring else 0)), 1e-6 * mod)
            if 0 < ratio < 1:
                q.ensure(n + " flank on the surface", sh.distance_to(bd.Vertex(*img(a))) <= 0.006 * mod)
                q.ensure(n + " material", inside)
                q.ensure(n + " gap", not so.is_inside(bd.Vector(*img(mid, 0 if ring else 0.5) ), 1e-6 * mod) or not q.holds(gap_clear(a, pr)))
            else:
                q.ensure(n + " nothing beyond the faces", not inside)

    def gap_clear(a, pr):
        """the flank point's radius is well above the root: the gap there is open"""
        r = np.hypot(a[0], a[1])
        lo, hi = sorted((np.hypot(*pr.tooth_curve(0)[:2]), np.hypot(*pr.tooth_curve(1)[:2])))
        return lo + 0.1 * (hi - lo) < r < hi - 0.1 * (hi - lo)

    look(part, "built")
    g.gearcore.transform.orientation = q.rot("O")
    g.center = q.vec3("c2", scale=3.0)
    g.angle = q.real("a2")
    look(g.update_part(), "moved")


@ob("blank", funcs=[B + "GearBuilder.gen_ref_solid"], sym=False, samples=12, num_seconds=40, sample_seconds=20)
def blank(q, m):
    """the blank of a conical gear is what lies between the spheres of the bottom and the top
    slice: the slices are in it from the rim to beyond the tip, nothing below or above is;
    the hub of an outside gear is closed by the discs of the two rims"""
    import numpy as np
    import build123d as bd
    inside = q.bool("inside")
    mod = q.real("mod", lo=0.4, hi=3)
    kw = dict(number_of_teeth=q.int("z", 14, 40), module=mod, height=mod * q.real("h", lo=1, hi=2.5), cone_angle=2 * q.real("gam", lo=0.4, hi=1.1), z_anchor=q.choice("an", [0, 0.5, 1, 0.3]), inside_teeth=inside, center=q.vec3("c"), angle=q.real("a"))
    cls = q.choice("kind", ["InvoluteGear", "CycloidGear"])
    core = getattr(m.wrapper, cls)(**kw).gearcore
    b = object.__new__(m.bd.GearBuilder)
    b.gear = core
    so = b.gen_ref_solid()
    if isinstance(so, (list, tuple, bd.ShapeList)):
        so = so[0]
    z0, z1 = core.z_vals[0], core.z_vals[-1]

    def isin(p):
        return so.is_inside(bd.Vector(*[float(x) for x in p]), 1e-6)

    def at(pr, r, ph):
        """the point of the slice's sphere at this radius, on the gear's side"""
        R = abs(kw["number_of_teeth"] / 2 / np.sin(kw["cone_angle"] / 2))
        cc = np.array([0, 0, R * np.cos(kw["cone_angle"] / 2)])
        x = np.array([r * np.cos(ph), r * np.sin(ph), 0])
        up = -np.sign(cc[2])
        x[2] = cc[2] + up * np.sqrt(R * R - r * r)
        return image(q, pr.transform, x)

    for k, rho in enumerate((q.real("r0", lo=0.03, hi=0.97), q.real("r1", lo=0.03, hi=0.97), 0.03, 0.97, -0.03, 1.03)):
        pr = core.curve_gen_at_z(z0 + rho * (z1 - z0))
        ro, ra = pr.ro_curve.radius, pr.ra_curve.radius
        ph, u = q.real("ph%d" % k, lo=-3, hi=3), q.real("u%d" % k, lo=0.1, hi=0.95)
        got = isin(at(pr, ro + u * (ra - ro), ph))
        q.ensure("slice %.2f" % rho, got == (0 < rho < 1))
    if inside:
        for k, rho in enumerate((0.05, 0.5, 0.95)):
            pr = core.curve_gen_at_z(z0 + rho * (z1 - z0))
            q.ensure("beyond the rim at %.2f" % rho, not isin(at(pr, 1.02 * pr.ro_curve.radius, q.real("pi%d" % k, lo=-3, hi=3))))
            q.ensure("at the rim at %.2f" % rho, isin(at(pr, 0.99 * pr.ro_curve.radius, q.real("pj%d" % k, lo=-3, hi=3))))
        return
    ph = q.real("ph", lo=-3, hi=3)
    d = np.array([np.cos(ph), np.sin(ph), 0])
    for n, z, up in (("bottom", z0, 1), ("top", z1, -1)):
        pr = core.curve_gen_at_z(z)
        r, zz = pr.ro_curve.radius * pr.transform.scale, pr.transform(pr.ro_curve.center)[2]
        h = 0.01 * (z1 - z0) * up
        for f in (0.2, 0.95):
            q.ensure("hub %s %.2f" % (n, f), isin([f * r * d[0], f * r * d[1], zz + h]))
        q.ensure("closed " + n, not isin([0.9 * r * d[0], 0.9 * r * d[1], zz - h]))


@ob("plain_parts", funcs=[B + "GearBuilder.__init__", B + "GearBuilder.gen_side_surfaces", B + "GearBuilder.generate_cover", B + "GearBuilder.gen_outside_ring"], sym=False, samples=5, num_seconds=40, sample_seconds=60)
def plain_parts(q, m):
    """everyday gears do build: one valid solid, from face to face, of the gear's size"""
    import numpy as np
    kind = q.choice("kind", ["SpurGear", "SpurRingGear", "CycloidGear", "HelicalGear", "HelicalRingGear"])
    mod, z = q.choice("mod", [0.5, 1.0, 2.0]), q.int("z", 20, 24) if "Ring" in kind else q.int("z", 12, 16)
    h, an = mod * q.choice("h", [1.0, 1.5]), q.choice("an", [0, 0.5, 1])
    kw = {"helix_angle": q.choice("hel", [0.2, -0.3]), "herringbone": q.bool("herringbone")} if "Helical" in kind else {}
    g = getattr(m.wrapper, kind)(number_of_teeth=z, module=mod, height=h, z_anchor=an, **kw)
    part = g.build_part()
    q.ensure("one solid", len(part.solids()) == 1)
    so = part.solids()[0]
    q.ensure("valid", bool(so.is_valid if isinstance(so.is_valid, bool) else so.is_valid()))
    bb = part.bounding_box(optimal=False)
    q.ensure_eq("bottom", bb.min.Z, -an * h, tol=1e-3 * mod)
    q.ensure_eq("top", bb.max.Z, (1 - an) * h, tol=1e-3 * mod)
    r = abs(float(g.rp))
    lo, hi = (r * r, (r + 2.2 * mod) ** 2 - (r - 1.1 * mod) ** 2) if "Ring" in kind else (((r - 1.5 * mod) ** 2), (r + 1.1 * mod) ** 2)
    if "Ring" in kind:
        lo = 0.2 * hi
    q.ensure("volume", np.pi * h * lo < part.volume < np.pi * h * hi)


@ob("twisted_parts", funcs=[W + "InvoluteGear.build_part", W + "CycloidGear.build_part", W + "HelicalRingGear.build_part"], sym=False, samples=3, num_seconds=40, sample_seconds=60)
def twisted(q, m):
    """strongly twisted gears: the flanks of the part follow the twist"""
    import build123d as bd
    kind = q.choice("kind", ["HelicalGear", "CycloidGear", "HelicalGear", "HelicalRingGear"])
    mod = q.real("mod", lo=0.5, hi=2)
    ring = "Ring" in kind
    z = q.int("z", 18, 20) if ring else q.int("z", 8, 10)
    twist, hel = q.real("twist", lo=1, hi=2.2), q.choice("side", [-1, 1]) * q.real("hel", lo=0.5, hi=0.8)
    kw = dict(number_of_teeth=z, module=mod, height=mod * twist * z / 2 / abs(q.np.tan(hel)), helix_angle=hel, z_anchor=q.choice("an", [0, 0.5]))
    g = getattr(m.wrapper, kind)(**kw)
    so = g.build_part().solids()[0].shells()[0]
    core = g.gearcore
    for i in range(9):
        pr = core.curve_gen_at_z(core.z_vals[0] + (i + 0.5) / 9 * (core.z_vals[-1] - core.z_vals[0]))
        x = image(q, core.transform, image(q, pr.transform, pr.tooth_curve(q.real("s%d" % i, lo=0.2, hi=0.8))))
        q.ensure("flank %d" % i, so.distance_to(bd.Vertex(*[float(v) for v in x])) <= 0.004 * mod)
