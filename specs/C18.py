"""C18 racks: shape, size and placement of straight racks, and how they sit on a gear."""
from engine.api import ob

W = "gggears_wrapper."
BUILD = [W + "InvoluteRack.__init__", W + "InvoluteRack._build_ref_tooth_face", W + "InvoluteRack.build_part"]
HBUILD = [W + "HelicalRack.__init__", W + "HelicalRack.build_part", W + "InvoluteRack._build_ref_tooth_face"]


# ------------------------------------------------------------------ reading shapes
def segments(q, shape):
    """straight pieces (pairs of points) of the outline of a face"""
    if not q.symbolic:
        out = []
        for e in shape.edges():
            a, b = e.position_at(0), e.position_at(1)
            out.append((q.arr([a.X, a.Y, a.Z]), q.arr([b.X, b.Y, b.Z])))
        return out
    out = []
    for l in shape.leaves():
        if l.kind != "face":
            q.unknown(l.kind)
        for o in l.data["outer"]:
            for w in o.leaves():
                if "points" not in w.data or (w.kind == "bezier" and len(w.data["points"]) != 2):
                    q.unknown(w.kind)
                ps = [l.at(w.at(p)) for p in w.data["points"]]
                out += list(zip(ps, ps[1:]))
    return out


def dist2(q, a, b):
    return sum((q.approx(x) - q.approx(y)) ** 2 for x, y in zip(a, b))


def corners(m, q, r, back):
    """the trapezoid tooth on its strip of the bar, in multiples of the module"""
    ha, hd, t, b = r["ha"], r["hd"], q.np.tan(r["alpha"]), r["backlash"]
    half = lambda x: q.pi / 4 - x * t - b
    up = [(ha, half(ha)), (-hd, half(-hd)), (-hd, q.pi / 2), (back, q.pi / 2)]
    return [q.arr([x, y, 0]) for x, y in up] + [q.arr([x, -y, 0]) for x, y in up] + [q.arr([ha, 0, 0])]


def is_outline(q, n, segs, cs):
    """the segments form the closed outline through the corners (last one may be skipped)"""
    count = [0] * len(cs)
    for i, s in enumerate(segs):
        for j, p in enumerate(s):
            k = min(range(len(cs)), key=lambda k: dist2(q, p, cs[k]))
            count[k] += 1
            q.ensure_eq("%s piece %d end %d" % (n, i, j), p, cs[k], tol=1e-6)
    q.ensure(n + " closed", all(c == 2 for c in count[:8]) and count[8] in (0, 2))


def given(q, helical=False):
    r = dict(N=q.choice("teeth", [1, 2, 3, 4]), h=q.real("h", lo=0.3, hi=5), alpha=q.real("alpha", lo=0.1, hi=0.45), ha=q.real("ha", lo=0.3, hi=1.3),
             hd=q.real("hd", lo=0.5, hi=1.5), backlash=q.real("backlash", lo=0, hi=0.15), mod=q.real("mod", lo=0.3, hi=4), beta=q.real("beta", lo=-0.7, hi=0.7),
             offset=q.real("offset", lo=-2, hi=2), pos=q.vec3("pos"), R=q.rot("R"))
    q.nonneg_hint(q.np.cos(r["alpha"]))
    q.nonneg_hint(q.np.cos(r["beta"]))
    return r


def rack(q, m, r, helical=False, herringbone=False):
    kw = dict(number_of_teeth=r["N"], height=r["h"], position=r["pos"], offset=r["offset"], orientation=r["R"], pressure_angle=r["alpha"],
              addendum_coefficient=r["ha"], dedendum_coefficient=r["hd"], backlash=r["backlash"], module=r["mod"])
    if helical:
        return m.wrapper.HelicalRack(helix_angle=r["beta"], herringbone=herringbone, **kw)
    return m.wrapper.InvoluteRack(beta_angle=r["beta"], **kw)


@ob("tooth", funcs=BUILD[:2], samples=20)
def tooth(q, m):
    """one tooth: flanks at the pressure angle, quarter pitch from the middle on the rack line
    less the backlash, from addendum to dedendum, symmetric, on a bar of one pitch"""
    r = given(q)
    segs = segments(q, rack(q, m, r)._build_ref_tooth_face())
    back = min((p[0] for s in segs for p in s), key=q.approx)
    q.ensure("material behind the teeth", q.lt(back, -r["hd"]))
    is_outline(q, "tooth", segs, corners(m, q, r, back))


@ob("helical_tooth", funcs=HBUILD, samples=20)
def helical_tooth(q, m):
    """inputs of a helical rack are those of the section normal to its teeth: depth, pitch
    and pressure angle measured across the teeth are the ones asked for"""
    r = given(q)
    k = rack(q, m, r, helical=True)
    segs = segments(q, k._build_ref_tooth_face())
    c = q.np.cos(r["beta"])
    s = dict(r, ha=r["ha"] * c, hd=r["hd"] * c)
    s["alpha"] = k.pressure_angle
    q.ensure_eq("pressure angle across the teeth", q.np.tan(k.pressure_angle) * c, q.np.tan(r["alpha"]))
    back = min((p[0] for g in segs for p in g), key=q.approx)
    q.ensure("material behind the teeth", q.lt(back, -s["hd"]))
    is_outline(q, "tooth", segs, corners(m, q, s, back))
    q.ensure_eq("depth above the line", s["ha"] * k.module, r["ha"] * r["mod"])
    q.ensure_eq("pitch across the teeth", k.module * c, r["mod"])


# ------------------------------------------------------------------ the part
def teeth_at(N):
    """tooth numbers relative to the reference tooth; even racks are shifted upwards"""
    lo = -(N - 1) // 2 if N % 2 else -(N // 2 - 1)
    return list(range(lo, lo + N))


def check_part(q, m, part, face, r, mod, herringbone):
    R, pos = r["R"], r["pos"]
    tb = q.np.tan(r["beta"])
    segs = segments(q, face)
    back = min((p[0] for s in segs for p in s), key=q.approx)
    ks = teeth_at(r["N"])

    def world(p, z=0, slide=0):
        y = p[1] + (r["offset"]) * q.pi
        return R @ q.arr([mod * p[0], mod * y + slide, p[2] * mod + z]) + pos

    if q.symbolic:
        ls = part.leaves()
        if any(l.kind != "extrude" for l in ls):
            q.unknown("not extrusions")
        h = r["h"]
        layers = [(0, 0, h, -h * tb)] if not herringbone else [(0, 0, h / 2, -h / 2 * tb), (h / 2, -h / 2 * tb, h / 2, h / 2 * tb)]
        want = [(k, lay) for k in ks for lay in layers]
        q.ensure("one prism per tooth and layer", len(ls) == len(want))
        todo = list(want)
        for i, l in enumerate(ls):
            f = l.data["face"].mapped(l.A, l.b)
            got = segments(q, f)
            mid = [sum(q.approx(p[j]) for s in got for p in s) / (2 * len(got)) for j in range(3)]

            def expect(k, lay):
                return [tuple(world(q.arr([p[0], p[1] + k * q.pi, 0]), lay[0], lay[1]) for p in s) for s in segs]

            def off(w):
                e = expect(*w)
                c = [sum(q.approx(p[j]) for s in e for p in s) / (2 * len(e)) for j in range(3)]
                return sum((x - y) ** 2 for x, y in zip(c, mid))

            w = min(todo, key=off)
            todo.remove(w)
            n = "tooth %d layer %d" % (w[0], layers.index(w[1]))
            e = expect(*w)
            # prisms stand on their lower face; some may be given upside down
            d = l.A @ l.data["dir"]
            q.ensure(n + " number of pieces", len(got) == len(e))
            for j, s in enumerate(got):
                u = min(e, key=lambda u: min(dist2(q, s[0], u[0]) + dist2(q, s[1], u[1]), dist2(q, s[0], u[1]) + dist2(q, s[1], u[0])))
                if dist2(q, s[0], u[0]) > dist2(q, s[0], u[1]):
                    u = (u[1], u[0])
                q.ensure_eq("%s piece %d start" % (n, j), s[0], u[0])
                q.ensure_eq("%s piece %d end" % (n, j), s[1], u[1])
            q.ensure_eq(n + " sweep", d, R @ q.arr([0, w[1][3], w[1][2]]))
        return
    import build123d as bd
    import numpy as np
    so = part.solids()
    if len(so) != 1:
        q.unknown("not one solid")
    so = so[0]
    ha, hd = r["ha"], r["hd"]
    t = np.tan(r["alpha"])
    s = dict(r)

    def inside(k, x, y, f):
        """point of tooth k at depth x, y from its middle, at fraction f of the height"""
        z = f * r["h"]
        g = min(f, 1 - f) if herringbone else f
        p = world(q.arr([x, y + k * np.pi, 0]), z, -g * r["h"] * tb)
        return so.is_inside(bd.Vector(*p), 1e-7)

    for k in ks + [ks[0] - 1, ks[-1] + 1]:
        have = k in ks
        for f in (0.02, 0.37, 0.5, 0.66, 0.98):
            for x in (0.97 * ha, 0.3 * ha, -0.5 * hd, -0.97 * hd):
                half = np.pi / 4 - x * t - r["backlash"]
                if half < 0.02 or half > np.pi / 2 - 0.02:
                    continue
                n = "tooth %d height %.2f depth %.2f" % (k, f, x)
                for sg in (-1, 1):
                    q.ensure(n + " within the flank", inside(k, x, sg * (half - 0.01), f) == have)
                    q.ensure(n + " beyond the flank", not inside(k, x, sg * (half + 0.01), f))
            q.ensure("tooth %d bar" % k, inside(k, -hd - 0.03, 1.55, f) == have and inside(k, -hd - 0.03, -1.55, f) == have)
            q.ensure("tooth %d above the tip" % k, not inside(k, ha + 0.01, 0, f))
        for f in (-0.02, 1.02):
            q.ensure("tooth %d beyond the height" % k, not inside(k, 0, 0, f))


@ob("part", funcs=BUILD, samples=10, seconds=90)
def part(q, m):
    """the rack part: the tooth repeated every pitch with one on the reference point (shifted by
    the offset in teeth), swept over the height along the slant, scaled, turned and placed"""
    r = given(q)
    k = rack(q, m, r)
    p = k.build_part()
    check_part(q, m, p, k._build_ref_tooth_face(), r, r["mod"], False)


@ob("helical_part", funcs=HBUILD, samples=14, seconds=120)
def helical_part(q, m):
    """the same for helical racks, whose halves are mirrored when herringbone"""
    r = given(q)
    hb = q.bool("herringbone")
    k = rack(q, m, r, True, hb)
    p = k.build_part()
    c = q.np.cos(r["beta"])
    s = dict(r, ha=r["ha"] * c, hd=r["hd"] * c, alpha=k.pressure_angle)
    check_part(q, m, p, k._build_ref_tooth_face(), s, r["mod"] / c, hb)


# ------------------------------------------------------------------ on a gear
def gear(q, m, kind="InvoluteGear", **kw):
    """a gear whose placement sees the world direction Rw*x at azimuth f, elevation e"""
    f, e, s = q.angle("f"), q.real("e", lo=-1.5, hi=1.5), q.angle("s")
    q.nonneg_hint(q.np.cos(e))
    q.angle_hint(f)
    Rw = q.rot("w")
    R = Rw @ q.axrot("x", s) @ (q.rotz(f) @ q.axrot("y", -e)).T
    g = getattr(m.wrapper, kind)(center=q.vec3("c"), angle=q.real("ga"), **kw)
    g.gearcore.transform.orientation = R
    d = q.real("reach", lo=0.2, hi=3)
    return g, d * (Rw @ q.arr([1, 0, 0])), f, R


@ob("mesh", funcs=[W + "InvoluteRack.mesh_to"], samples=40, seconds=90)
def mesh(q, m):
    """a rack put on a gear lies on its (shifted) pitch circle in the asked direction, teeth
    towards the gear and across its axis, a tooth in a gap, moved by whole teeth if asked;
    the gear stays"""
    kind = q.choice("kind", ["InvoluteGear", "HelicalGear"])
    kw = dict(number_of_teeth=q.int("z", 8, 60), module=q.real("mod", lo=0.3, hi=4), profile_shift=q.real("shift", lo=-0.3, hi=0.6))
    if kind == "HelicalGear":
        kw["helix_angle"] = q.real("hel", lo=-0.6, hi=0.6)
        q.nonneg_hint(q.np.cos(kw["helix_angle"]))
    g, v, f, R = gear(q, m, kind, **kw)
    T = g.gearcore.transform
    keep = (T.center * 1, T.orientation * 1, T.scale, T.angle)
    off = q.int("teeth moved", -3, 3)
    if kind == "HelicalGear":
        k = m.wrapper.HelicalRack(number_of_teeth=5, module=kw["module"], helix_angle=kw["helix_angle"], position=q.vec3("p"), offset=q.real("o"))
    else:
        k = m.wrapper.InvoluteRack(number_of_teeth=5, module=kw["module"], position=q.vec3("p"), offset=q.real("o"))
    how = q.choice("offset given", [False, True])
    k.mesh_to(g, target_dir=v, offset=off) if how else k.mesh_to(g, target_dir=v)
    u = R @ q.arr([q.np.cos(f), q.np.sin(f), 0])
    ct = kw["module"] / q.np.cos(kw["helix_angle"]) if kind == "HelicalGear" else kw["module"]
    q.ensure_eq("on the shifted pitch circle", k.position, keep[0] + u * (ct * kw["number_of_teeth"] / 2 + kw["profile_shift"] * kw["module"]), tol=1e-7)
    q.ensure_eq("teeth towards the gear", k.orientation[:, 0], -u, tol=1e-7)
    q.ensure_eq("axis of the gear", k.orientation[:, 2], R[:, 2], tol=1e-7)
    q.ensure_eq("right handed", k.orientation[:, 1], -(R @ q.arr([-q.np.sin(f), q.np.cos(f), 0])), tol=1e-7)
    # the reference tooth of the rack is offset pitches along its y, which is backwards around the gear
    pitch = 2 * q.pi / kw["number_of_teeth"]
    q.ensure_int("tooth in a gap", (f - T.angle) / pitch - k.offset - q.num("1/2"), 1e-6)
    rest = k.offset - (off if how else 0)
    q.ensure("nearest tooth", q.le(q.np.abs(rest), q.num("1/2")) if q.symbolic else abs(rest) <= 0.5 + 1e-9)
    q.ensure_eq("same pitch", k.module * q.pi, pitch * ct * kw["number_of_teeth"] / 2, tol=1e-9)
    for n, a, b in zip(("center", "orientation", "scale", "angle"), (T.center, T.orientation, T.scale, T.angle), keep):
        q.ensure_eq("gear stays " + n, a, b)


@ob("same_section", funcs=HBUILD[:1] + [W + "HelicalGear.__init__"], samples=30)
def same_section(q, m):
    """a helical rack has the transverse pitch, pressure angle and depths of the helical gear
    of the same inputs"""
    r = given(q)
    hel = r["beta"]
    k = rack(q, m, r, True)
    g = m.wrapper.HelicalGear(number_of_teeth=12, module=r["mod"], pressure_angle=r["alpha"], helix_angle=hel, addendum_coefficient=r["ha"], dedendum_coefficient=r["hd"])
    q.ensure_eq("module", k.module, g.gearcore.module if hasattr(g.gearcore, "module") else g.inputparam.module)
    q.ensure_eq("pressure angle", q.np.tan(k.pressure_angle), q.np.tan(g.inputparam.pressure_angle))
    q.ensure_eq("addendum", k.addendum_coefficient, g.inputparam.addendum_coefficient)
    q.ensure_eq("dedendum", k.dedendum_coefficient, g.inputparam.dedendum_coefficient)


@ob("contact", funcs=[W + "InvoluteRack.mesh_to", W + "HelicalRack.__init__"], sym=False, samples=12, num_seconds=30, sample_seconds=40)
def contact(q, m):
    """flanks of a real gear and its rack touch without cutting into each other in every
    position (bounded)"""
    import numpy as np
    kind = q.choice("kind", ["SpurGear", "HelicalGear"])
    mod, z, al = q.real("mod", lo=0.5, hi=3), q.int("z", 17, 40), q.real("alpha", lo=0.3, hi=0.42)
    kw = dict(module=mod, pressure_angle=al)
    gk = dict(kw, number_of_teeth=z, profile_shift=q.real("shift", lo=0, hi=0.4), angle=q.real("a"))
    rk = dict(kw, number_of_teeth=7)
    if kind == "HelicalGear":
        gk["helix_angle"] = rk["helix_angle"] = q.real("hel", lo=-0.5, hi=0.5)
    g = getattr(m.wrapper, kind)(**gk)
    g.gearcore.transform.orientation = q.rot("R")
    k = getattr(m.wrapper, "HelicalRack" if kind == "HelicalGear" else "InvoluteRack")(**rk)
    k.mesh_to(g, target_dir=q.unit3("d"))
    pr = g.gearcore.curve_gen_at_z(0)
    T = g.gearcore.transform
    O = np.array(k.orientation)
    t = np.tan(k.pressure_angle)
    gaps = []
    for j in range(z):
        for s in np.linspace(0, 1, 41):
            a = pr.tooth_curve(s)
            for sg in (1, -1):
                p = np.array([a[0], sg * a[1], a[2]])
                p = q.rotz(j * pr.pitch_angle) @ (pr.transform.scale * (pr.transform.orientation @ (q.rotz(pr.transform.angle) @ p)) + pr.transform.center)
                p = T.scale * (T.orientation @ (q.rotz(T.angle) @ p)) + T.center
                x, y, zz = O.T @ (p - k.position) / k.module
                y -= k.offset * np.pi
                y -= np.pi * np.round(y / np.pi)
                if -k.dedendum_coefficient < x < k.addendum_coefficient:
                    gaps.append((abs(y) - (np.pi / 4 - x * t)) * np.cos(k.pressure_angle))
    q.ensure("no cut", min(gaps) > -1e-4)
    q.ensure("contact", min(gaps) < 0.01)


@ob("fillets", funcs=BUILD, sym=False, samples=12, num_seconds=20, sample_seconds=30)
def fillets(q, m):
    """rounded tips and roots: arcs of the radius asked for replace just the corners, on both
    flanks alike (bounded)"""
    import numpy as np
    import build123d as bd
    r = given(q)
    ft, fr = q.choice("tip", [0.0, 0.08, 0.15]), q.choice("root", [0.0, 0.1, 0.2])
    al, ha, hd, b = r["alpha"], r["ha"], r["hd"], r["backlash"]
    t = np.tan(al)
    half = lambda x: np.pi / 4 - x * t - b
    # room for the arcs
    q.assume(half(ha) > 0.2 and np.pi / 2 - half(-hd) > 0.25 and ha > 0.5 and hd > 0.5)
    k = m.wrapper.InvoluteRack(number_of_teeth=3, pressure_angle=al, addendum_coefficient=ha, dedendum_coefficient=hd, backlash=b, tip_fillet=ft, root_fillet=fr)
    try:
        f = k._build_ref_tooth_face().faces()
        ok = len(f) == 1
    except Exception as e:  # the CAD kernel may refuse a fillet
        q.unknown(str(e))
    q.ensure("one face", ok)
    # a sharp corner with turning angle 90 deg - alpha; what an arc of radius R takes away
    turn = np.pi / 2 - al
    cut = lambda R: R * R * (np.tan(turn / 2) - turn / 2)
    bar = min(p.position_at(0).X for p in f[0].edges())
    area = (half(ha) + half(-hd)) * (ha + hd) + np.pi * (-hd - bar) - 2 * cut(ft) + 2 * cut(fr)
    q.ensure_eq("area", f[0].area, area, tol=1e-6)
    for x in (ha - 0.02 - ft * 1.0, 0, -hd + 0.02 + fr * 1.0):
        for s in (1, -1):
            q.ensure("flank in", f[0].is_inside(bd.Vector(x, s * (half(x) - 0.004), 0)))
            q.ensure("flank out", not f[0].is_inside(bd.Vector(x, s * (half(x) + 0.004), 0)))
