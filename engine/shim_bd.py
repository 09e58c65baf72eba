"""The part of build123d that gggears uses, as contracts over exact geometry.

Assumed of the CAD kernel (each statement is sampled against the real library by the
concrete runs of the same harnesses):
  Vector/Location/Pos/Rotation/Plane are the rigid motions build123d documents (Euler
  angles in degrees, extrinsic ZYX = Rx(c) Ry(b) Rz(a), intrinsic XYZ = Rx(a) Ry(b) Rz(c));
  translate/scale/rotate/mirror/moved of a shape map its points, scale about the position of
  the shape's location (which follows its motions; a new or fused shape has it at the origin);
  lines, circles, Bezier edges and faces are those of the points, radii, weights given;
  extrude sweeps the face along the direction; fuse, +, Wire, Shell collect their parts.
A shape is a leaf with a point map, or a collection of shapes; operations whose result is
not determined by these statements give an opaque shape that no obligation can use."""
import types
import numpy as np
from . import terms as T
from .terms import S, lift, Unsupported
from . import shim_numpy as sn
from .shim_numpy import sym

MOD = types.ModuleType("build123d")
ZERO3 = None


def I3():
    return sym([[1, 0, 0], [0, 1, 0], [0, 0, 1]])


def V0():
    return sym([0, 0, 0])


def v3(p):
    if isinstance(p, Vector):
        return sym([p.X, p.Y, p.Z])
    if isinstance(p, (tuple, list, np.ndarray)):
        a = sym(p)
        if a.shape == (3,):
            return a
    raise Unsupported("not a point: %r" % (type(p),))


def deg(a):
    return lift(a) * (T.PI / 180)


class Vector:
    def __init__(self, *a):
        if len(a) == 1:
            a = v3(a[0])
        self.X, self.Y, self.Z = [lift(x) for x in (list(a) + [0] * (3 - len(a)))]

    def __iter__(self):
        return iter((self.X, self.Y, self.Z))


class Ordering:
    def __init__(self, cls, name):
        self.seq = name if cls == "I" else name.lower()


class Intrinsic:
    XYZ = Ordering("I", "XYZ")
    ZYX = Ordering("I", "ZYX")


class Extrinsic:
    XYZ = Ordering("E", "XYZ")
    ZYX = Ordering("E", "ZYX")


def euler(angles, ordering):
    from .shim_scipy import Rotation as R
    return R.from_euler((ordering or Intrinsic.XYZ).seq, [lift(a) for a in angles], degrees=True).as_matrix()


class Location:
    def __init__(self, pos=None, angles=None, ordering=None):
        self.p = V0() if pos is None else v3(pos)
        self.R = I3() if angles is None else euler(angles, ordering)

    @classmethod
    def make(cls, R, p):
        l = Location()
        l.R, l.p = R, p
        return l

    def __mul__(self, o):
        if isinstance(o, Location):
            return Location.make(self.R @ o.R, self.R @ o.p + self.p)
        if isinstance(o, Shape):
            return o.mapped(self.R, self.p)
        if isinstance(o, (LocList, list)):
            return LocList([self * x for x in o])
        raise Unsupported("Location * %s" % type(o).__name__)

    def inverse(self):
        return Location.make(self.R.T, -(self.R.T @ self.p))

    @property
    def position(self):
        return Vector(self.p)

    @position.setter
    def position(self, v):
        self.p = v3(v)


class LocList(list):
    def __mul__(self, o):
        return [l * o for l in self]


def Pos(*a, **k):
    if k:
        a = [k.get(x, 0) for x in "XYZ"]
    return Location(Vector(*a))


def Rotation(*a, X=0, Y=0, Z=0, ordering=None):
    if a:
        X, Y, Z = list(a[0]) if len(a) == 1 else a
    return Location(V0(), (X, Y, Z), ordering)


Rot = Rotation


def GridLocations(xs, ys, nx, ny, align=None):
    if align is not None:
        raise Unsupported("align")
    n, m = int_of(nx), int_of(ny)
    h = T.const(1) / 2
    out = [Location(sym([lift(xs) * (i - h * (n - 1)), lift(ys) * (j - h * (m - 1)), 0])) for i in range(n) for j in range(m)]
    return LocList(out)


def int_of(n):
    if isinstance(n, S):
        v = T.get_ctx().const_of(n)
        if v is None:
            raise Unsupported("symbolic count")
        n = v
    return int(n)


class AxisT:
    def __init__(self, name):
        self.name = name


class Axis:
    X, Y, Z = AxisT("x"), AxisT("y"), AxisT("z")


class Plane:
    def __init__(self, loc=None, **k):
        if not isinstance(loc, Location) or k:
            raise Unsupported("Plane")
        self.loc = loc

    def offset(self, d):
        return Plane(Location.make(self.loc.R, self.loc.p + self.loc.R @ sym([0, 0, lift(d)])))


Plane.XY = Plane(Location())
Plane.XZ = Plane(Location.make(sym([[1, 0, 0], [0, 0, -1], [0, 1, 0]]), V0()))


class Keep:
    ALL, TOP, BOTTOM, BOTH, INSIDE, OUTSIDE = "ALL", "TOP", "BOTTOM", "BOTH", "INSIDE", "OUTSIDE"


class ShapeList(list):
    def sort_by(self, axis=None, reverse=False):
        raise Unsupported("sort_by")

    def sort_by_distance(self, *a, **k):
        raise Unsupported("sort_by_distance")


class Shape:
    """leaf: kind, data, point map p -> A p + b; or collection: parts"""

    def __init__(self, *a, **k):
        self.kind, self.data, self.A, self.b, self.parts = "set", {}, I3(), V0(), []
        for x in a:
            self.parts.extend(flat(x))
        if len(a) == 1 and isinstance(a[0], Shape):
            self.origin = a[0].where()
        if k:
            raise Unsupported("%s(%s)" % (type(self).__name__, ",".join(k)))

    @classmethod
    def leaf(cls, kind, **data):
        s = Shape.__new__(cls)
        s.kind, s.data, s.A, s.b, s.parts = kind, data, I3(), V0(), []
        return s

    @classmethod
    def collect(cls, xs):
        s = Shape.__new__(cls)
        s.kind, s.data, s.A, s.b, s.parts = "set", {}, I3(), V0(), list(xs)
        return s

    def where(self):
        """position of the shape's location"""
        return self.__dict__.get("origin", V0())

    def mapped(self, A, b):
        s = Shape.__new__(type(self))
        s.origin = A @ self.where() + b
        s.kind, s.data, s.parts = self.kind, self.data, [p.mapped(A, b) for p in self.parts]
        s.A, s.b = A @ self.A, A @ self.b + b
        return s

    def leaves(self):
        if self.kind == "set":
            return [l for p in self.parts for l in p.leaves()]
        return [self]

    def at(self, p):
        return self.A @ v3(p) + self.b

    # ---- rigid motions and scaling
    def translate(self, v):
        return self.mapped(I3(), v3(v))

    def scale(self, f):
        o = self.where()
        return self.mapped(I3() * lift(f), o - o * lift(f))

    def rotate(self, axis, angle):
        from .shim_scipy import axis_rot
        return self.mapped(axis_rot(axis.name, deg(angle)), V0())

    def mirror(self, plane=None):
        plane = plane or Plane.XY
        R, p = plane.loc.R, plane.loc.p
        M = R @ sym([[1, 0, 0], [0, 1, 0], [0, 0, -1]]) @ R.T
        return self.mapped(M, p - M @ p)

    def moved(self, loc):
        return loc * self

    def located(self, loc):
        raise Unsupported("located")

    # ---- collections
    def __add__(self, o):
        return type(self).collect(flat(self) + flat(o))

    def __radd__(self, o):
        return type(self).collect(flat(o) + flat(self))

    def fuse(self, *o, **k):
        return type(self).collect([x for y in (self,) + o for x in flat(y)])

    def clean(self):
        return self

    def fix(self):
        return self

    def is_valid(self):
        return True

    # ---- not determined here
    def opaque(self, op):
        return type(self).leaf("opaque", op=op)

    def __sub__(self, o):
        return self.opaque("-")

    def intersect(self, *o):
        return self.opaque("intersect")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (type(self).__name__, n))


def flat(x):
    if isinstance(x, Shape):
        return [x] if x.kind != "set" else list(x.parts)
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    raise Unsupported("not a shape: %s" % type(x).__name__)


class Edge(Shape):
    @staticmethod
    def make_line(a, b):
        return Edge.leaf("bezier", points=[v3(a), v3(b)], weights=[T.ONE, T.ONE])

    @staticmethod
    def make_bezier(*pts, weights=None):
        if weights is not None and len(weights) != len(pts):
            raise ValueError("weights")
        return Edge.leaf("bezier", points=[v3(p) for p in pts], weights=[T.ONE] * len(pts) if weights is None else [lift(w) for w in weights])

    @staticmethod
    def make_circle(radius, plane=None, start_angle=360, end_angle=360, **k):
        if k:
            raise Unsupported("make_circle")
        plane = plane or Plane.XY
        e = Edge.leaf("circle", radius=lift(radius), start=deg(start_angle), end=deg(end_angle))
        return e.mapped(plane.loc.R, plane.loc.p)


class Wire(Shape):
    pass


class Polyline(Wire):
    def __new__(cls, *pts):
        return Polyline.leaf("polyline", points=[v3(p) for p in pts])

    def __init__(self, *a):
        pass

    def vertices(self):
        raise Unsupported("vertices")


class Line(Wire):
    def __new__(cls, *pts):
        if len(pts) == 1:
            pts = pts[0]
        return Line.leaf("polyline", points=[v3(p) for p in pts])

    def __init__(self, *a):
        pass


class Face(Shape):
    def __init__(self, *a, inner_wires=None):
        Shape.__init__(self)
        f = Face.leaf("face", outer=flat(list(a)), inner=flat(list(inner_wires or [])))
        self.__dict__.update(f.__dict__)

    @staticmethod
    def make_bezier_surface(points, weights=None):
        return Face.leaf("bezier_surface", points=[[v3(p) for p in r] for r in points], weights=None if weights is None else [[lift(w) for w in r] for r in weights])

    @staticmethod
    def sweep(profile=None, path=None, **k):
        if k:
            raise Unsupported("sweep")
        return Face.leaf("sweep", profile=profile, path=path)


def make_face(edges):
    return Face.leaf("face", outer=flat(edges), inner=[])


class Shell(Shape):
    pass


class Solid(Shape):
    @staticmethod
    def extrude(obj, direction):
        return Solid.collect([Solid.leaf("extrude", face=f, dir=v3(direction)) for f in flat(obj)])

    def faces(self):
        ls = self.leaves()
        if not ls or any(l.kind != "extrude" for l in ls):
            raise Unsupported("faces")
        return ExtrudedFaces(ls)


class ExtrudedFaces(ShapeList):
    """faces of a prism; only the one highest (or lowest) in z is determined"""

    def __init__(self, ls):
        list.__init__(self)
        self.ls = ls

    def sort_by(self, axis=None, reverse=False):
        if axis is not Axis.Z or reverse:
            raise Unsupported("sort_by")
        return self

    def __getitem__(self, i):
        if i not in (-1, 0):
            raise Unsupported("face index")
        out = []
        for l in self.ls:
            d = l.A @ l.data["dir"]
            up = bool(d[2] > 0)
            f = l.data["face"].mapped(l.A, l.b)
            out.append(f.mapped(I3(), d) if up == (i == -1) else f)
        return Face.collect(out)


def extrude(to_extrude=None, amount=None, dir=None, **k):
    if k or dir is None or amount is None:
        raise Unsupported("extrude")
    d = v3(dir)
    n = T.sqrt(lift(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]))
    return Part.collect(flat(Solid.extrude(to_extrude, d / n * lift(amount))))


def fillet(objects=None, radius=None):
    raise Unsupported("fillet")


class Compound(Shape):
    pass


class Part(Compound):
    pass


class BasePartObject(Part):
    pass


class Sketch(Compound):
    pass


for _c in (Vector, Location, Plane, Axis, Keep, Intrinsic, Extrinsic, Shape, Edge, Wire, Polyline, Line, Face, Shell, Solid, Compound, Part,
           BasePartObject, Sketch, ShapeList):
    setattr(MOD, _c.__name__, _c)
for _f in (Pos, Rotation, Rot, GridLocations, make_face, extrude, fillet):
    setattr(MOD, _f.__name__, _f)
MOD.Rot = Rotation
Solid.faces = Solid.__dict__["faces"]


def _ga(n):
    if n.startswith("__"):
        raise AttributeError(n)

    class Missing(Shape):
        def __init__(self, *a, **k):
            raise Unsupported("build123d." + n)

    Missing.__name__ = n
    setattr(MOD, n, Missing)
    return Missing


MOD.__dict__["__getattr__"] = _ga
