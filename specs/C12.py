"""C12 design helpers: bevel cone angles from tooth counts, backlash from centre distance, nominal centre distance."""
from engine.api import ob

G = "gearmath."


@ob("cone_angles", funcs=[G + "cone_angle_from_teeth"])
def cone_angles(q, m):
    z1, z2 = q.int("z1", 1, 200), q.int("z2", 1, 200)
    S = q.real("S", lo=0, hi=q.pi)
    r = m.gearmath.cone_angle_from_teeth(z1, z2, S)
    g1, g2 = r[0] / 2, r[1] / 2
    q.ensure_eq("sum", g1 + g2, S)
    q.ensure_eq("ratio", q.np.sin(g1) * z2, q.np.sin(g2) * z1)
    q.ensure("first positive", q.le(0, g1))
    q.ensure("first below", q.le(g1, q.pi))


@ob("cone_angles_swap", funcs=[G + "cone_angle_from_teeth"])
def cone_swap(q, m):
    z1, z2 = q.int("z1", 1, 200), q.int("z2", 1, 200)
    S = q.real("S", lo=0, hi=q.pi)
    a = m.gearmath.cone_angle_from_teeth(z1, z2, S) / 2
    b = m.gearmath.cone_angle_from_teeth(z2, z1, S) / 2
    q.ensure_angle_eq("swapped", a[0], b[1])
    q.ensure_angle_eq("swapped2", a[1], b[0])


@ob("cone_default", funcs=[G + "cone_angle_from_teeth"])
def cone_default(q, m):
    z1, z2 = q.int("z1", 1, 200), q.int("z2", 1, 200)
    a = m.gearmath.cone_angle_from_teeth(z1, z2) / 2
    q.ensure_eq("right angle", a[0] + a[1], q.pi / 2)
    q.ensure_eq("tan", q.np.sin(a[0]) * z2, q.np.cos(a[0]) * z1)


def base(q):
    al = q.real("al", lo=0, hi=q.pi / 2)
    r1, r2 = q.pos("r1"), q.pos("r2")
    b1, b2 = q.real("b1", lo=0, hi=2), q.real("b2", lo=0, hi=2)
    p2 = q.real("p2", lo=0, hi=2)
    return al, r1, r2, b1, b2, p2


@ob("backlash_external", funcs=[G + "backlash_from_ax_distance"])
def backlash_external(q, m):
    """thickness of both teeth plus backlash equals the pitch, measured on the line of action"""
    al, r1, r2, b1, b2, p2 = base(q)
    inv = q.np.tan(al) - al
    D = (r1 + r2) / q.np.cos(al)
    j = m.gearmath.backlash_from_ax_distance(D, r1, r2, b1, b2, p2)
    q.ensure_eq("law", r1 * (b1 - inv) + r2 * (b2 - inv), r2 * p2 / 2 - j / 2, tol=1e-6)


@ob("backlash_ring", funcs=[G + "backlash_from_ax_distance"])
def backlash_ring(q, m):
    al, r1, r2, b1, b2, p2 = base(q)
    first = q.bool("ring first")
    d1, d2 = r1 * b1, r2 * b2
    if first:
        q.assume(r1 > r2)
        q.assume(d1 > d2)
        gap, dr = d1 - d2, r1 - r2
    else:
        q.assume(r2 > r1)
        q.assume(d2 > d1)
        gap, dr = d2 - d1, r2 - r1
    inv = q.np.tan(al) - al
    D = dr / q.np.cos(al)
    j = m.gearmath.backlash_from_ax_distance(D, r1, r2, b1, b2, p2, inside_ring=True)
    q.ensure_eq("law", gap - dr * inv, j / 2, tol=1e-6)


@ob("backlash_round_trip", funcs=[G + "backlash_from_ax_distance", G + "calc_involute_mesh_distance"])
def round_trip(q, m):
    """distance for a backlash -> backlash at that distance"""
    q.solver_ok(-q.pi / 2, q.pi / 2, "(-pi/2, pi/2)")
    al = q.real("al", lo=0.1, hi=0.7)
    r1, r2 = q.real("r1", lo=1, hi=50), q.real("r2", lo=1, hi=50)
    b1, b2, p2 = q.real("b1", lo=0, hi=1), q.real("b2", lo=0, hi=1), q.real("p2", lo=0.05, hi=1)
    j = q.real("j", lo=0, hi=1, lo_in=True)
    ring = q.choice("ring", [0, 1, 2])
    if ring == 0:
        I = (r1 * b1 - r2 * (p2 / 2 - b2) + j / 2) / (r1 + r2)
    elif ring == 1:
        q.assume(r1 > r2)
        q.assume(r1 * b1 > r2 * b2)
        I = (r1 * b1 - r2 * b2 - j / 2) / (r1 - r2)
    else:
        q.assume(r2 > r1)
        q.assume(r2 * b2 > r1 * b1)
        I = (r2 * b2 - r1 * b1 - j / 2) / (r2 - r1)
    q.assume(I > 0.001)
    q.assume(I < 0.3)
    D = m.gearmath.calc_involute_mesh_distance(r1, r2, b1, b2, p2, inside_ring=ring > 0, backlash=j)
    back = m.gearmath.backlash_from_ax_distance(D, r1, r2, b1, b2, p2, inside_ring=ring > 0)
    if q.symbolic:
        # the centre distance carries the operating angle without its sign
        I2 = I * 2 * (r1 + r2 if ring == 0 else r1 - r2 if ring == 1 else r2 - r1)
        dd = (back - j) * (1 if ring == 0 else -1)
        q.ensure_eq("same up to the sign of the operating angle", dd * (dd + 2 * I2), 0)
    else:
        q.ensure_eq("same", back, j, tol=1e-5)


@ob("nominal", funcs=[G + "calc_nominal_mesh_distance"])
def nominal(q, m):
    r1, r2, x1, x2, mod = q.pos("r1"), q.pos("r2"), q.real("x1"), q.real("x2"), q.pos("m")
    case = q.choice("case", [0, 1, 2])
    D = m.gearmath.calc_nominal_mesh_distance(r1, r2, x1, x2, mod, case == 1, case == 2)
    s1, s2 = (-1 if case == 2 else 1), (-1 if case == 1 else 1)
    q.ensure_eq("distance", D, s1 * (r1 + x1 * mod) + s2 * (r2 + x2 * mod))
