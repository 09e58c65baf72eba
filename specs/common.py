"""pieces of specification shared by several properties: arbitrary curves and callee contracts"""


# ------------------------------------------------------------------ arbitrary pieces
def through(q, m, name, u0, p0, u1, p1, t0=None, t1=None, n=2, mid=None):
    """any curve that passes p0 at parameter u0 and p1 at u1 (and mid at 1/2 between 0 and 1)"""
    g = q.fn3(name + ".f")

    def f(u):
        if mid is not None:
            return (p0 * (1 - u) + p1 * u) * (1 - 2 * u) * (1 - 2 * u) + mid * 4 * u * (1 - u) + u * (1 - u) * (1 - 2 * u) * g(u)
        return (p0 * (u1 - u) + p1 * (u - u0)) / (u1 - u0) + (u - u0) * (u - u1) * g(u)

    return m.curve.Curve(f, t0=u0 if t0 is None else t0, t1=u1 if t1 is None else t1, lenght_approx_ndiv=n)


def lengths(q, m):
    """Curve.update_lengths by its contract (proved in C03), for curves of positive length;
    between its ends the parameter runs evenly"""
    k = [0]

    def upd(self):
        k[0] += 1
        self.length = q.real("len%d" % k[0], lo=0)
        self.t2s_lookup = {"t": q.arr([self.t_0, self.t_1]), "s": q.arr([0, 1])}

    q.stand(m.curve.Curve, "update_lengths", upd)


def polar(q, r, a, z):
    return q.arr([r * q.np.cos(a), r * q.np.sin(a), z])


def mirror(q, p):
    return q.arr([p[0], -p[1], p[2]])


def arc_contract(q, m):
    """ArcCurve.from_2_point_center by its contract (proved in C05): needs ends at equal
    distance from the centre, gives a curve between them"""
    k = [0]

    def make(cls, p0=None, p1=None, center=None, revolutions=0, active=True):
        k[0] += 1
        d0, d1 = p0 - center, p1 - center
        q.ensure_eq("equal distance %d" % k[0], q.np.dot(d0, d0), q.np.dot(d1, d1))
        mid = None
        if all(q.holds(q.eq(a, b)) for a, b in ((p0[0], p1[0]), (p0[1], -p1[1]), (p0[2], p1[2]), (center[1], 0), (center[2], p0[2]), (center[0], 0))):
            mid = q.arr([q.np.linalg.norm(d0), 0, center[2]])  # its middle, by symmetry
        c = through(q, m, "arc%d" % k[0], q.num("0"), p0, q.num("1"), p1, mid=mid)
        c.center, c.radius, c.active, c.is_arc = center, q.np.linalg.norm(d0), active, True
        return c

    q.stand(m.curve.ArcCurve, "from_2_point_center", classmethod(make))


def sol(x, success):
    return type("Sol", (), {"x": x, "success": success})()
