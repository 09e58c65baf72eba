"""C02 coordinate conversions are mutually inverse."""
from engine.api import ob

FG = "function_generators."


@ob("cyl_there_back", funcs=[FG + "xyz_to_cylindrical", FG + "cylindrical_to_xyz"])
def cyl1(q, m):
    v, w, c = q.vec3("v"), q.vec3("w"), q.vec3("c")
    q.ensure_eq("single", m.fg.cylindrical_to_xyz(m.fg.xyz_to_cylindrical(v, center=c), center=c), v)
    rows = q.np.stack([v, w])
    r = m.fg.xyz_to_cylindrical(rows, center=c)
    q.ensure_eq("row0", r[0], m.fg.xyz_to_cylindrical(v, center=c))
    q.ensure_eq("row1", r[1], m.fg.xyz_to_cylindrical(w, center=c))
    b = m.fg.cylindrical_to_xyz(r, center=c)
    q.ensure_eq("rows_back", b, rows)


@ob("cyl_back_there", funcs=[FG + "xyz_to_cylindrical", FG + "cylindrical_to_xyz"])
def cyl2(q, m):
    c = q.vec3("c")
    r, phi, z = q.pos("r"), q.real("phi", -q.pi, q.pi, False, True), q.real("z")
    if q.symbolic:
        q.nonneg_hint(r)
        q.angle_hint(phi)
    else:
        q.assume(abs(phi) < 3.1415)
    s = q.arr([r, phi, z])
    q.ensure_eq("id", m.fg.xyz_to_cylindrical(m.fg.cylindrical_to_xyz(s, center=c), center=c), s)
    x = m.fg.cylindrical_to_xyz(s, center=c)
    q.ensure_eq("def", x, c + q.arr([r * q.np.cos(phi), r * q.np.sin(phi), z]))


@ob("sph_there_back", funcs=[FG + "xyz_to_spherical", FG + "spherical_to_xyz"])
def sph1(q, m):
    v, w, c = q.vec3("v"), q.vec3("w"), q.vec3("c")
    q.assume(q.np.linalg.norm(v - c) > 0)
    q.assume(q.np.linalg.norm(w - c) > 0)
    s = m.fg.xyz_to_spherical(v, center=c)
    q.ensure_eq("single", m.fg.spherical_to_xyz(s, center=c), v, tol=1e-6)
    q.ensure_eq("radius", s[0] * s[0], (v - c) @ (v - c))
    rows = q.np.stack([v, w])
    r = m.fg.xyz_to_spherical(rows, center=c)
    q.ensure_eq("row1", r[1], m.fg.xyz_to_spherical(w, center=c))
    q.ensure_eq("rows_back", m.fg.spherical_to_xyz(r, center=c), rows, tol=1e-6)


@ob("sph_back_there", funcs=[FG + "xyz_to_spherical", FG + "spherical_to_xyz"])
def sph2(q, m):
    c = q.vec3("c")
    r, phi, th = q.pos("r"), q.real("phi", -q.pi, q.pi, False, True), q.real("th", 0, q.pi)
    if q.symbolic:
        q.nonneg_hint(r)
        q.nonneg_hint(q.np.sin(th))
        q.angle_hint(phi)
        q.angle_hint(th)
    else:
        q.assume(abs(phi) < 3.1415 and 1e-3 < th < 3.140)
    s = q.arr([r, phi, th])
    q.ensure_eq("id", m.fg.xyz_to_spherical(m.fg.spherical_to_xyz(s, center=c), center=c), s, tol=1e-6)
    x = m.fg.spherical_to_xyz(s, center=c)
    q.ensure_eq("def", x, c + r * q.arr([q.np.sin(th) * q.np.cos(phi), q.np.sin(th) * q.np.sin(phi), q.np.cos(th)]))


def cone(q):
    k = q.choice("kind", ["flat", "out", "in"])
    if k == "flat":
        return 0
    g = q.real("gamma", 0, q.pi / 2)
    if not q.symbolic:
        q.assume(0.05 < g < 1.5)
    return 2 * g if k == "out" else -2 * g


@ob("gear_polar_there_back", funcs=["gggears_core.GearPolarTransform.polar_transform", "gggears_core.GearPolarTransform.inverse_polar_transform"])
def pol1(q, m):
    ca = cone(q)
    rb = q.pos("rb")
    if q.symbolic:
        q.nonneg_hint(rb)
    pt = m.core.GearPolarTransform(cone_angle=ca, base_radius=rb)
    v, w = q.vec3("v"), q.vec3("w")
    if not (isinstance(ca, int) and ca == 0):
        q.assume(q.np.linalg.norm(v - pt.center) > 0)
        q.assume(q.np.linalg.norm(w - pt.center) > 0)
    q.ensure_eq("single", pt.inv(pt(v)), v, tol=1e-6)
    rows = q.np.stack([v, w])
    r = pt(rows)
    q.ensure_eq("row0", r[0], pt(v), tol=1e-6)
    q.ensure_eq("row1", r[1], pt(w), tol=1e-6)
    q.ensure_eq("rows_back", pt.inv(r), rows, tol=1e-6)


@ob("gear_polar_back_there", funcs=["gggears_core.GearPolarTransform.polar_transform", "gggears_core.GearPolarTransform.inverse_polar_transform"])
def pol2(q, m):
    ca = cone(q)
    rb = q.pos("rb")
    if q.symbolic:
        q.nonneg_hint(rb)
    pt = m.core.GearPolarTransform(cone_angle=ca, base_radius=rb)
    phi = q.real("phi", -q.pi, q.pi, False, True)
    if not q.symbolic:
        q.assume(abs(phi) < 3.1415)
    if isinstance(ca, int) and ca == 0:
        out, h = q.pos("out"), q.real("h")
        if q.symbolic:
            q.nonneg_hint(out)
            q.angle_hint(phi)
    else:
        th = q.real("th", 0, q.pi)
        rad = q.pos("rad")
        if q.symbolic:
            q.nonneg_hint(rad)
            q.nonneg_hint(q.np.sin(th))
            q.nonneg_hint(rad * q.np.sin(th))
            q.angle_hint(phi)
            q.angle_hint(th)
        else:
            q.assume(1e-3 < th < 3.140)
        out = (q.pi / 2 - th) * pt.R
        h = pt.R - rad
    s = q.arr([out, phi, h])
    q.ensure_eq("id", pt(pt.inv(s)), s, tol=1e-6)


@ob("gear_polar_meaning", funcs=["gggears_core.GearPolarTransform.polar_transform", "gggears_base_classes.ConicData.center", "gggears_base_classes.ConicData.spherical_radius"])
def pol3(q, m):
    """a point of the base circle has height 0 and the azimuth of the point; moving it
    along the axis-to-point meridian changes only the 'out' coordinate"""
    ca = cone(q)
    rb = q.pos("rb")
    if q.symbolic:
        q.nonneg_hint(rb)
    pt = m.core.GearPolarTransform(cone_angle=ca, base_radius=rb)
    phi = q.real("phi", -q.pi, q.pi, False, True)
    if q.symbolic:
        q.angle_hint(phi)
    else:
        q.assume(abs(phi) < 3.1415)
    p = q.arr([rb * q.np.cos(phi), rb * q.np.sin(phi), 0])
    s = pt(p)
    q.ensure_eq("azimuth", s[1], phi, tol=1e-6)
    q.ensure_eq("height", s[2], 0, tol=1e-6)
    if isinstance(ca, int) and ca == 0:
        q.ensure_eq("out", s[0], rb)
    else:
        d = p - pt.center
        q.ensure_eq("sphere", d @ d, pt.R * pt.R)


@ob("vector_angles", funcs=[FG + "angle_between_vectors", FG + "project_vector_to_plane", FG + "angle_of_vector_in_xy", FG + "rotate_vector"])
def vang(q, m):
    a, b = q.vec3("a"), q.vec3("b")
    n = q.unit3("n")
    pr = m.fg.project_vector_to_plane(a, n)
    q.ensure_eq("in_plane", pr @ n, 0)
    q.ensure_eq("residual", q.np.cross(a - pr, n), q.arr([0, 0, 0]))
    th = q.real("th")
    r = m.fg.rotate_vector(a, th)
    q.ensure_eq("rot", r, q.rotz(th) @ a)
    q.assume(q.np.linalg.norm(a) > 0)
    q.assume(q.np.linalg.norm(b) > 0)
    ang = m.fg.angle_between_vectors(a, b)
    q.ensure_eq("cosine", q.np.cos(ang) * q.np.linalg.norm(a) * q.np.linalg.norm(b), a @ b)
    q.ensure("range", q.le(0, ang))


@ob("vector_plane_angle", funcs=[FG + "angle_between_vector_and_plane"])
def vpl(q, m):
    r = q.pos("r")
    th, ph = q.real("th", -q.pi / 2, q.pi / 2), q.real("ph", -q.pi, q.pi)
    if q.symbolic:
        q.nonneg_hint(r * q.np.cos(th))
        q.nonneg_hint(r)
    R = q.rot("R")
    v = R @ (r * q.arr([q.np.cos(th) * q.np.cos(ph), q.np.cos(th) * q.np.sin(ph), q.np.sin(th)]))
    n = R @ q.arr([0, 0, 1])
    a = m.fg.angle_between_vector_and_plane(v, n)
    q.ensure_eq("angle", a, abs(th))
