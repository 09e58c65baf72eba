"""C15 frame conditions: queries, builds, meshing and copying change only what they are asked to."""
from engine.api import ob

W = "gggears_wrapper."
C = "gggears_core."
KINDS = ["SpurGear", "HelicalGear", "BevelGear", "CycloidGear", "SpurRingGear"]


# ------------------------------------------------------------------ what can be seen of a gear
def vals(o, names):
    return [(n, getattr(o, n)) for n in names if hasattr(o, n)]


def looks(q, g, zs, angles=True):
    """everything that determines the shape and place of a gear, values copied"""
    core = getattr(g, "gearcore", g)
    out = [("placement " + n, v) for n, v in vals(core.transform, ("center", "orientation", "scale", "angle"))]
    out += [("module", core.module)] + [("z %d" % i, z) for i, z in enumerate(core.z_vals)]
    out += vals(core.tooth_param, ("num_teeth", "num_cutout_teeth", "inside_teeth"))
    if hasattr(g, "inputparam"):
        out += [("input " + n, v) for n, v in vars(g.inputparam).items()]
    for i, z in enumerate(zs):
        r = core.shape_recipe(z)
        for part, names in (("transform", ("center", "orientation", "scale", "angle")), ("cone", ("cone_angle", "base_radius") if angles else ("base_radius",)), ("limits", ("h_a", "h_d", "h_o")),
                            ("fillet", ("tip_fillet", "root_fillet", "tip_reduction")),
                            ("tooth_generator", ("pitch_radius", "cone_angle", "pitch_intersect_angle", "pressure_angle", "rc_in_coeff", "rc_out_coeff", "pitch_angle"))):
            out += [("slice %d %s %s" % (i, part, n), v) for n, v in vals(getattr(r, part), names)]
        out.append(("slice %d pitch" % i, r.pitch_angle))
    return [(n, v * 1 if hasattr(v, "shape") else v) for n, v in out]


def same(q, name, a, b, but=()):
    a, b = dict(a), dict(b)
    for n in a:
        if any(n.startswith(x) for x in but):
            continue
        if n not in b:
            q.ensure(name + ": " + n + " is there", False)
        elif isinstance(a[n], (bool, str, type(None))):
            q.ensure(name + ": " + n, a[n] is b[n] or bool(a[n] == b[n]))
        else:
            q.ensure_eq(name + ": " + n, b[n], a[n], tol=1e-12)


def apart(q, name, a, b):
    """moving one in place cannot move the other"""
    import numpy as np
    for n, x in a:
        for k, y in b:
            q.ensure("%s: %s and %s" % (name, n, k), not np.shares_memory(x, y))


def place(g):
    core = getattr(g, "gearcore", g)
    return [(n, getattr(core.transform, n)) for n in ("center", "orientation")]


def constants(m):
    return [(n, getattr(m.defs, n)) for n in ("ORIGIN", "UP", "DOWN", "LEFT", "RIGHT", "OUT", "IN", "UNIT3X3")]


def kept(q, m, before):
    for (n, a), b in zip(constants(m), before):
        q.ensure_eq("constant " + n, a, b)


def make(q, m, n, kind, **more):
    kw = dict(number_of_teeth=q.int(n + "z", 10, 50), module=q.real(n + "m", lo=0.3, hi=4), height=q.real(n + "h", lo=0.3, hi=2), **more)
    if kind in ("SpurRingGear",):
        kw["number_of_teeth"] = q.int(n + "z", 60, 90)
    if kind == "HelicalGear":
        kw["helix_angle"] = q.real(n + "b", lo=-0.5, hi=0.5)
        q.nonneg_hint(q.np.cos(kw["helix_angle"]))
    if kind == "BevelGear":
        kw["cone_angle"] = q.real(n + "ca", lo=0.4, hi=2)
        kw["helix_angle"] = 0
    if kind != "BevelGear":
        kw["crowning"] = q.real(n + "cr", lo=0, hi=50)
    return getattr(m.wrapper, kind)(**kw)


def turn(q, g, n):
    t = g.gearcore.transform
    t.orientation = q.rot(n + "R")
    t.center = q.vec3(n + "c")
    t.angle = q.real(n + "a")


def bases(q, m):
    """base circle of a tooth (proved in C09; reading it changes nothing)"""
    if q.symbolic:
        q.stub(m.gearteeth.InvoluteTooth, "get_base_radius", lambda self: self.pitch_radius * q.np.cos(self.pressure_angle))
        q.stub(m.gearteeth.InvoluteTooth, "get_base_angle", lambda self: -self.pitch_intersect_angle)


# ------------------------------------------------------------------ queries
class Profile:
    """a slice outline, as far as the reports use it"""


def arcs(q, m, core):
    def gen(self, z):
        p = Profile()
        for n, r in (("ra", 1), ("rd", 2), ("ro", 3)):
            setattr(p, n + "_curve", m.curve.ArcCurve(radius=q.num(str(r + 1)), center=q.arr([0, 0, q.num("1/%d" % (r + 1))]), angle=q.num("1/2")))
        p.transform = self.shape_recipe(z).transform
        return p

    q.stand(type(core), "curve_gen_at_z", gen)


@ob("queries", funcs=[W + "GearInfoMixin.*", W + "InvoluteGear.circle_involute_base", C + "Gear.cone_at_z", C + "Gear.sphere_data_at_z"], samples=25, seconds=90)
def queries(q, m):
    """asking a gear for anything it reports leaves it as it was"""
    kind = q.choice("kind", KINDS)
    g = make(q, m, "g", kind)
    turn(q, g, "t")
    z = q.real("z", lo=-0.2, hi=0.2)
    arcs(q, m, g.gearcore)
    bases(q, m)
    zs = [g.gearcore.z_vals[0], z]
    consts = [a * 1 for n, a in constants(m)]
    before = looks(q, g, zs)
    asked = 0
    for n in sorted(dir(type(g))):
        if n.startswith("_") or not isinstance(getattr(type(g), n), property):
            continue
        try:
            getattr(g, n)
            asked += 1
        except (ValueError, AttributeError, ZeroDivisionError):  # some reports do not exist for some gears
            pass
    g.center_transform_at_z(z), g.center_point_at_z(z), g.center_location_at_z(z), g.radii_data_gen(z), g.p2z(z)
    if g.cone_angle != 0:
        g.cone_angles_at_z(z)
    g.gearcore.cone_at_z(z), g.gearcore.rp, g.gearcore.pitch_angle
    q.ensure("reports", asked > 20)
    same(q, "asked", before, looks(q, g, zs))
    kept(q, m, consts)


@ob("line_of_action", funcs=[W + "LineOfAction.LOA_gen"], samples=15, seconds=60)
def loa(q, m):
    """the line of action of two gears leaves both"""
    ga, gb = m.wrapper.SpurGear(number_of_teeth=12), m.wrapper.SpurGear(number_of_teeth=20)
    R = q.rot("R")
    c = q.vec3("c")
    for g, d in ((ga, 0), (gb, 17)):
        g.gearcore.transform.orientation = R
        g.gearcore.transform.center = c + R @ q.arr([d, 0, 0])
        g.gearcore.transform.angle = q.real("a%d" % d)
    bases(q, m)
    b = [looks(q, g, [0]) for g in (ga, gb)]
    m.wrapper.LineOfAction(ga, gb).LOA_gen()
    for n, g, x in zip(("first", "second"), (ga, gb), b):
        same(q, n, x, looks(q, g, [0]))


# ------------------------------------------------------------------ meshing
@ob("meshing", funcs=[W + "InvoluteGear.mesh_to", W + "HelicalGear.mesh_to", W + "CycloidGear.mesh_to", C + "Gear.mesh_to"], samples=25, seconds=120, paths=400)
def meshing(q, m):
    """meshing moves only the gear it is asked to move, and changes only its place; nothing is
    shared afterwards"""
    kind = q.choice("kind", ["SpurGear", "HelicalGear", "CycloidGear", "core", "ring", "BevelGear"])
    first = "SpurRingGear" if kind == "ring" else "SpurGear" if kind == "core" else kind
    g, o = make(q, m, "g", first), make(q, m, "o", "SpurGear" if kind == "ring" else first)
    turn(q, o, "t")
    bases(q, m)
    if q.symbolic:  # what mesh distance and angle are is decided elsewhere
        k = [0]

        def some(*a, **kw):
            k[0] += 1
            return q.real("some%d" % k[0], lo=1, hi=9)

        for n in ("calc_involute_mesh_distance", "calc_mesh_angle"):
            for mod in (m.wrapper, m.core):
                q.stub(mod, n, some)
        if kind == "BevelGear":
            for mod in (m.wrapper, m.core):
                q.stub(mod, "calc_bevel_gear_placement_vector", lambda *a, **kw: q.vec3("v0"))
                q.stub(mod, "calc_mesh_orientation", lambda *a, **kw: q.rot("or"))
    zg, zo = [g.gearcore.z_vals[0], q.num("1/10")], [o.gearcore.z_vals[0], q.num("1/10")]
    d = q.unit3("d")
    dk, consts = d * 1, [a * 1 for n, a in constants(m)]
    bg, bo = looks(q, g, zg), looks(q, o, zo)
    if kind == "core":
        g.gearcore.mesh_to(o.gearcore, d)
    else:
        g.mesh_to(o, target_dir=d)
    same(q, "other", bo, looks(q, o, zo))
    same(q, "moved", bg, looks(q, g, zg), but=("placement center", "placement orientation", "placement angle"))
    q.ensure_eq("direction", d, dk)
    kept(q, m, consts)
    apart(q, "gears", place(g), place(o))
    apart(q, "direction", place(g), [("direction", d)])
    apart(q, "constants", place(g), constants(m))


# ------------------------------------------------------------------ separate gears
@ob("separate", funcs=[W + k + ".__init__" for k in KINDS] + [W + "InvoluteGear.calc_params", W + "CycloidGear.calc_params", W + "InvoluteGear.reset_location", W + "GearInfoMixin.center", C + "Gear.center"], samples=30, seconds=90)
def separate(q, m):
    """gears made from the same defaults or the same arrays do not share their place, however
    they are moved; moving a gear changes neither the arrays given nor the library's constants"""
    ka, kb = q.choice("first", KINDS), q.choice("second", ["SpurGear", "CycloidGear"])
    given = q.choice("centre", ["default", "same array", "constant"])
    c = q.vec3("c") if given == "same array" else m.defs.RIGHT
    more = {} if given == "default" else dict(center=c)
    consts = [a * 1 for n, a in constants(m)]
    ck = c * 1
    a, b = make(q, m, "a", ka, **more), make(q, m, "b", kb, **more)
    apart(q, "new gears", place(a), place(b))
    apart(q, "new gear and constants", place(a), constants(m) + [("given centre", c)])
    bb = looks(q, b, [q.num("1/10")])
    v = q.vec3("v")
    w = q.vec3("w")
    wk = w * 1
    start = ck if given != "default" else q.arr([0, 0, 0])
    how = q.choice("moved by", ["in place", "set", "core", "set constant"])
    if how == "in place":
        a.center += v
        q.ensure_eq("moved", a.center, start + v)
    elif how == "set":
        a.center = w
        a.center += v
        q.ensure_eq("moved", a.center, wk + v)
    elif how == "core":
        a.gearcore.center = w
        a.gearcore.center += v
        q.ensure_eq("moved", a.center, wk + v)
    else:
        a.center = m.defs.UP
        a.center += v
        q.ensure_eq("moved", a.center, consts[1] + v)
    a.angle = q.real("turn")
    q.ensure_eq("given vector", w, wk)
    same(q, "the other gear", bb, looks(q, b, [q.num("1/10")]))
    q.ensure_eq("given centre", c, ck)
    kept(q, m, consts)
    if hasattr(a, "reset_location"):
        a.reset_location()
        q.ensure_eq("reset centre", a.center, q.arr([0, 0, 0]))
        q.ensure_eq("reset angle", a.angle, 0)
        q.ensure_eq("reset orientation", a.gearcore.transform.orientation, q.np.eye(3))
        apart(q, "reset gear and constants", place(a), constants(m))
        a.center += v
        a.gearcore.transform.orientation[0] = a.gearcore.transform.orientation[0] * 2
        kept(q, m, consts)
    same(q, "the other gear", bb, looks(q, b, [q.num("1/10")]))


@ob("racks", funcs=[W + "InvoluteRack.__init__", W + "InvoluteRack.mesh_to", W + "HelicalRack.__init__"], samples=20)
def racks(q, m):
    """racks too: neither defaults nor given arrays nor the gear are shared or changed"""
    kind = q.choice("kind", ["InvoluteRack", "HelicalRack"])
    g = make(q, m, "g", "SpurGear")
    turn(q, g, "t")
    consts = [a * 1 for n, a in constants(m)]
    a, b = getattr(m.wrapper, kind)(), getattr(m.wrapper, kind)()
    mine = lambda r: [("position", r.position), ("orientation", r.orientation)]
    apart(q, "new racks", mine(a), mine(b) + constants(m))
    v = q.vec3("v")
    a.position += v
    q.ensure_eq("other rack", b.position, q.arr([0, 0, 0]))
    kept(q, m, consts)
    if q.symbolic:
        q.stub(m.wrapper, "angle_of_vector_in_xy", lambda v: q.real("dir", lo=-3, hi=3))
        q.stub(m.wrapper, "normalize_vector", lambda v: q.unit3("n"))
    before = looks(q, g, [q.num("1/10")])
    a.mesh_to(g)
    same(q, "gear", before, looks(q, g, [q.num("1/10")]))
    apart(q, "rack and gear", mine(a), place(g) + constants(m))
    kept(q, m, consts)


# ------------------------------------------------------------------ copies
@ob("copies", funcs=[W + "InvoluteGear.copy", W + "CycloidGear.copy", C + "Gear.copy", W + "InvoluteGear.calc_params", W + "CycloidGear.calc_params", W + "HelicalGear.__init__"], samples=30, seconds=90)
def copies(q, m):
    """a copy is the same gear in the same place, and from then on neither follows the other:
    not when moved, and not when its inputs are changed and it is set up again"""
    kind = q.choice("kind", KINDS)
    g = make(q, m, "g", kind)
    turn(q, g, "t")
    z = q.real("z", lo=-0.3, hi=0.3)
    zs = [g.gearcore.z_vals[0], z]
    b = looks(q, g, zs)
    c = g.copy()
    same(q, "copy", b, looks(q, c, zs))
    apart(q, "copy", place(g), place(c))
    touched, still = (g, c) if q.bool("change the original") else (c, g)
    touched.center += q.vec3("v")
    touched.angle = q.real("turned")
    same(q, "moved", b, looks(q, still, zs))
    ip = touched.inputparam
    ip.number_of_teeth = q.int("z2", 10, 50)
    ip.height = q.real("h2", lo=0.3, hi=2)
    ip.crowning = q.real("cr2", lo=0, hi=50)
    ip.module = q.real("m2", lo=0.3, hi=4)
    ip.backlash = q.real("bl2", lo=0, hi=0.1)
    ip.z_anchor = q.real("an2", lo=0, hi=1)
    same(q, "inputs changed", b, looks(q, still, zs))
    touched.calc_params()
    same(q, "set up again", b, looks(q, still, zs))
    k = still.gearcore.copy()
    same(q, "core copy", [x for x in b if not x[0].startswith("input")], looks(q, k, zs))
    k.center += q.vec3("v3")
    k.z_vals[0] = k.z_vals[0] - 1
    same(q, "core moved", b, looks(q, still, zs))


# ------------------------------------------------------------------ parts given to gears
@ob("given_parts", funcs=[C + "Gear.__init__", C + "default_gear_recipe", C + "gear_recipe_from_curve", C + "Gear.swap_tooth_generator"], samples=25, seconds=60)
def given_parts(q, m):
    """gears made with the same tooth generator, cone, tooth data or heights stay independent,
    and what was given stays as it was"""
    al, ca = q.real("alpha", lo=0.2, hi=0.45), q.real("cone", lo=0.3, hi=1.2)
    tg = m.gearteeth.InvoluteTooth(pressure_angle=al)
    keep = [(n, v) for n, v in vars(tg).items() if not hasattr(v, "__dict__") and not callable(v)]
    cone = m.base.ConicData(cone_angle=ca if q.bool("conical") else 0)
    ck = cone.base_radius
    zv = q.arr([0, q.real("h", lo=0.3, hi=2)])
    za, zb = q.int("za", 8, 40), q.int("zb", 8, 40)
    how = q.choice("how", ["gear", "default recipe", "curve recipe", "swapped"])
    tp = m.base.GearToothParam(za)
    probe = q.num("1/10")

    def build(n):
        tp = m.base.GearToothParam(n)
        if how == "gear":
            return m.core.Gear(z_vals=zv, tooth_param=tp, tooth_generator=tg, cone=cone)
        if how == "default recipe":
            return m.core.Gear(z_vals=zv, tooth_param=tp, shape_recipe=m.core.default_gear_recipe(tp, tg, cone.cone_angle))
        if how == "curve recipe":
            line = m.curve.LineCurve(p0=q.arr([n / q.num("2"), 0, 0]), p1=q.arr([n / q.num("2"), 0, 1]))
            return m.core.Gear(z_vals=zv, tooth_param=tp, shape_recipe=m.core.gear_recipe_from_curve(tp, tg, line))
        g = m.core.Gear(z_vals=zv, tooth_param=tp)
        g.swap_tooth_generator(tg)
        return g

    a = build(za)
    before = looks(q, a, [0], angles=not q.symbolic)
    q.ensure_eq("its own radius", a.shape_recipe(0).tooth_generator.pitch_radius, za / q.num("2"))
    b = build(zb)
    q.ensure_eq("second radius", b.shape_recipe(0).tooth_generator.pitch_radius, zb / q.num("2"))
    same(q, "first gear", before, looks(q, a, [0], angles=not q.symbolic))
    for n, v in keep:
        q.ensure_eq("generator keeps " + n, getattr(tg, n), v) if v is not None and not isinstance(v, (str, bool)) else q.ensure("generator keeps " + n, getattr(tg, n) is v)
    q.ensure_eq("cone keeps its radius", cone.base_radius, ck)
    b.z_vals[0] = b.z_vals[0] - 1
    b.transform.center += q.vec3("v")
    same(q, "first gear after moving the second", before, looks(q, a, [0], angles=not q.symbolic))
    q.ensure_eq("heights given", zv[0], 0)
    # the owner of the heights goes on using them
    def shape():
        r = a.shape_recipe(probe)
        return [("size", r.transform.scale), ("place", r.transform.center), ("heights", a.z_vals)]

    held = [(n, v * 1) for n, v in shape()]
    zv[1] = zv[1] + q.pos("longer")
    same(q, "first gear after changing the heights given", held, shape())


# ------------------------------------------------------------------ building
class Stop(RuntimeError):
    pass


@ob("failed_build", funcs=["gggears_build123d.GearBuilder.__init__"], samples=20)
def failed(q, m):
    """a part that cannot be built leaves the gear as it was, wherever building stops"""
    kind = q.choice("kind", KINDS)
    g = make(q, m, "g", kind)
    turn(q, g, "t")
    z = q.num("1/10")
    where = q.choice("stops in", ["slices", "sides"])

    def start(self, gear=None, *a, **k):
        if where == "slices":
            raise Stop()
        self.gear = gear
        self.nurb_profile_stacks, self.gear_stacks = [[None]], [[None]]

    def stop(self, *a, **k):
        raise Stop()

    q.stand(m.convert.GearToNurbs, "__init__", start, must=True)
    q.stand(m.bd.GearBuilder, "gen_side_surfaces", stop)
    q.stand(m.bd.GearBuilder, "generate_cover", stop)
    before = looks(q, g, [z])
    n = q.choice("asked twice", [1, 2])
    for i in range(n):
        try:
            m.bd.GearBuilder(g.gearcore)
            q.unknown("did not stop")
        except Stop:
            pass
    same(q, "gear", before, looks(q, g, [z]))


@ob("builds", funcs=["gggears_build123d.GearBuilder.__init__", "gggears_build123d.generate_boundary_edges", W + "InvoluteGear.build_part", W + "CycloidGear.build_part", W + "InvoluteGear.build_boundary_wire",
                     W + "InvoluteGear.update_part", C + "generate_reference_profile"], sym=False, samples=5, num_seconds=50, sample_seconds=70)
def builds(q, m):
    """real builds of parts, wires and outlines: the gear stays, and building again gives the
    same (bounded)"""
    kind = q.choice("kind", ["BevelGear", "SpurGear", "HelicalGear", "CycloidGear", "SpurRingGear"])
    kw = dict(number_of_teeth=q.int("z", 18, 24) if "Ring" in kind else q.int("z", 9, 14), module=q.real("m", lo=0.5, hi=2), height=q.real("h", lo=0.5, hi=2))
    if kind == "BevelGear":
        kw.update(cone_angle=q.real("cone", lo=0.8, hi=1.6), helix_angle=0.0)
    if kind == "HelicalGear":
        kw["helix_angle"] = q.real("b", lo=-0.3, hi=0.3)
    g = getattr(m.wrapper, kind)(**kw)
    turn(q, g, "t")
    zs = [0, 0.1]
    consts = [a * 1 for n, a in constants(m)]
    before = looks(q, g, zs)
    out0 = [g.gearcore.curve_gen_at_z(z).profile(0.37) for z in zs]
    p = g.build_part()
    v = p.volume
    w = g.build_boundary_wire(0.5).length
    same(q, "built", before, looks(q, g, zs))
    kept(q, m, consts)
    q.ensure_eq("outline again", out0, [g.gearcore.curve_gen_at_z(z).profile(0.37) for z in zs])
    g.update_part()
    q.ensure_eq("wire again", g.build_boundary_wire(0.5).length, w, tol=1e-6)
    if kind in ("SpurGear", "BevelGear"):
        q.ensure_eq("part again", g.build_part().volume, v, tol=1e-6)
    same(q, "built again", before, looks(q, g, zs))
