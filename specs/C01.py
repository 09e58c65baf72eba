"""C01 rigid/scaled transforms form a group action on points."""
from engine.api import ob


def mk(q, cls, n, gear=False):
    kw = dict(center=q.vec3(n + ".c"), orientation=q.rot(n + ".R"), scale=q.pos(n + ".s"))
    if gear:
        kw["angle"] = q.real(n + ".a")
    return cls(**kw)


def action(q, t, p, gear=False):
    """reference: scale * R * Rz(angle) * p + c"""
    M = t.orientation
    if gear:
        M = M @ q.rotz(t.angle)
    return (M @ p) * t.scale + t.center


@ob("apply", funcs=["gggears_base_classes.apply_transform", "gggears_base_classes.Transform.__call__"])
def apply_(q, m):
    t = mk(q, m.base.Transform, "t")
    p, p2 = q.vec3("p"), q.vec3("p2")
    q.ensure_eq("value", t(p), action(q, t, p))
    q.ensure_eq("mul", t * p, action(q, t, p))
    st = t(q.np.stack([p, p2]))
    q.ensure_eq("row0", st[0], action(q, t, p))
    q.ensure_eq("row1", st[1], action(q, t, p2))


@ob("apply_gear", funcs=["gggears_base_classes.apply_gear_transform", "gggears_base_classes.GearTransform.__call__"])
def apply_gear(q, m):
    t = mk(q, m.base.GearTransform, "t", True)
    p, p2 = q.vec3("p"), q.vec3("p2")
    q.ensure_eq("value", t(p), action(q, t, p, True))
    q.ensure_eq("mul", t * p, action(q, t, p, True))
    st = t(q.np.stack([p, p2]))
    q.ensure_eq("row1", st[1], action(q, t, p2, True))


for cn in ("TransformData", "Transform"):

    @ob("compose_" + cn, funcs=[f"gggears_base_classes.{cn}.__mul__"])
    def compose(q, m, cn=cn):
        cls = getattr(m.base, cn)
        a, b = mk(q, cls, "a"), mk(q, cls, "b")
        p = q.vec3("p")
        q.ensure_eq("action", (a * b) * p, action(q, a, action(q, b, p)))

    @ob("inverse_" + cn, funcs=[f"gggears_base_classes.{cn}.invert"])
    def inverse(q, m, cn=cn):
        cls = getattr(m.base, cn)
        a = mk(q, cls, "a")
        p = q.vec3("p")
        q.ensure_eq("left", a.invert() * (a * p), p)
        q.ensure_eq("right", a * (a.invert() * p), p)

    @ob("affine_" + cn, funcs=["gggears_base_classes.TransformData.affine_matrix"])
    def affine(q, m, cn=cn):
        cls = getattr(m.base, cn)
        a = mk(q, cls, "a")
        p = q.vec3("p")
        h = a.affine_matrix @ q.np.concatenate([p, q.arr([1])])
        q.ensure_eq("point", h[:3], action(q, a, p))
        q.ensure_eq("w", h[3], 1)


for cn in ("GearTransformData", "GearTransform"):

    @ob("compose_" + cn, funcs=[f"gggears_base_classes.{cn}.__mul__"])
    def gcompose(q, m, cn=cn):
        cls = getattr(m.base, cn)
        a, b = mk(q, cls, "a", True), mk(q, cls, "b", True)
        p = q.vec3("p")
        q.ensure_eq("action", (a * b) * p, action(q, a, action(q, b, p, True), True))
        q.ensure_eq("angle", (a * b).angle, a.angle + b.angle)

    @ob("inverse_" + cn, funcs=[f"gggears_base_classes.{cn}.invert"])
    def ginverse(q, m, cn=cn):
        cls = getattr(m.base, cn)
        a = mk(q, cls, "a", True)
        p = q.vec3("p")
        q.ensure_eq("left", a.invert() * (a * p), p)
        q.ensure_eq("right", a * (a.invert() * p), p)

    @ob("affine_" + cn, funcs=["gggears_base_classes.GearTransformData.affine_matrix"])
    def gaffine(q, m, cn=cn):
        cls = getattr(m.base, cn)
        a = mk(q, cls, "a", True)
        p = q.vec3("p")
        h = a.affine_matrix @ q.np.concatenate([p, q.arr([1])])
        q.ensure_eq("point", h[:3], action(q, a, p, True))


@ob("axes", funcs=["gggears_base_classes.TransformData.x_axis", "gggears_base_classes.TransformData.y_axis", "gggears_base_classes.TransformData.z_axis"])
def axes(q, m):
    a = mk(q, m.base.GearTransform, "a", True)
    q.ensure_eq("x", a.x_axis, a.orientation @ q.arr([1, 0, 0]))
    q.ensure_eq("y", a.y_axis, a.orientation @ q.arr([0, 1, 0]))
    q.ensure_eq("z", a.z_axis, a.orientation @ q.arr([0, 0, 1]))
