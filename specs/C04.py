"""C04 curve chains behave as one curve."""
from engine.api import ob

CH = "curve.CurveChain."


def poly(q, m, n=3, act=None):
    """an arbitrary polyline of n pieces (each a straight curve), no zero-length piece"""
    P = [q.vec3(f"p{k}") for k in range(n + 1)]
    act = act or [True] * n
    cs = []
    L = []
    for k in range(n):
        d = q.np.linalg.norm(P[k + 1] - P[k])
        q.assume(d > (0 if q.symbolic else 1e-3))
        cs.append(m.curve.LineCurve(P[k], P[k + 1], active=act[k]))
        L.append(d)
    return P, L, m.curve.CurveChain(*cs)


@ob("ends_length", funcs=[CH + "__init__", CH + "__call__", CH + "length", CH + "length_array", CH + "curve_list_eval"])
def ends(q, m):
    n = q.choice("n", [1, 2, 3])
    P, L, c = poly(q, m, n)
    q.ensure_eq("start", c(0), P[0])
    q.ensure_eq("end", c(1), P[n])
    q.ensure_eq("length", c.length, sum(L))
    q.ensure("n", len(c) == n)
    q.ensure("n2", c.num_curves == n)


@ob("proportional", funcs=[CH + "get_s_index", CH + "get_length_portions", CH + "curve_list_eval"], seconds=60)
def prop(q, m):
    """the point at s is the point after travelling s*length along the pieces"""
    n = q.choice("n", [2, 3])
    P, L, c = poly(q, m, n)
    tot = sum(L)
    k = q.choice("piece", list(range(n)))
    u = q.real("u", 0, 1, False, True)
    acc = sum(L[:k]) + u * L[k]
    i, si = c.get_s_index(acc / tot)
    q.ensure("index", i == k)
    q.ensure_eq("local", si, u)
    q.ensure_eq("point", c(acc / tot), P[k] + u * (P[k + 1] - P[k]))
    a, b = c.get_t_for_index(k)
    q.ensure_eq("lo", a * tot, sum(L[:k]))
    q.ensure_eq("hi", b * tot, sum(L[: k + 1]))


@ob("arrays", funcs=[CH + "__call__"], seconds=60)
def arrays(q, m):
    P, L, c = poly(q, m, 2)
    a, b = q.real("a", 0, 1, True, True), q.real("b", 0, 1, True, True)
    r = c(q.arr([a, b]))
    q.ensure_eq("row0", r[0], c(a))
    q.ensure_eq("row1", r[1], c(b))


@ob("inactive", funcs=[CH + "get_s_index", CH + "idx_active_min", CH + "idx_active_max", CH + "length_array", CH + "active", CH + "active_list"], seconds=60)
def inactive(q, m):
    """inactive pieces contribute no length and are never evaluated"""
    act = q.choice("act", [[0, 1, 1], [1, 0, 1], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 0]])
    act = [bool(a) for a in act]
    P, L, c = poly(q, m, 3, act)
    on = [k for k in range(3) if act[k]]
    q.ensure_eq("length", c.length, sum(L[k] for k in on))
    q.ensure_eq("start", c(0), P[on[0]])
    q.ensure_eq("end", c(1), P[on[-1] + 1])
    q.ensure("min", c.idx_active_min == on[0])
    q.ensure("max", c.idx_active_max == on[-1])
    q.ensure("active", c.active and c.active_list == act)
    s = q.real("s", 0, 1, True, True)
    i, si = c.get_s_index(s)
    q.ensure("hits_active", act[i])
    q.ensure("local", q.le(0, si))
    q.ensure("local2", q.le(si, 1))
    lo, hi = c.get_t_for_index(i)
    q.ensure_eq("inverse", lo + si * (hi - lo), s)
    c.del_inactive_curves()
    q.ensure("deleted", len(c) == len(on))
    q.ensure_eq("deleted_start", c(0), P[on[0]])
    d = m.curve.CurveChain(m.curve.LineCurve(P[0], P[1], active=False))
    q.ensure("inactive_chain", not d.active)
    c.active = False
    q.ensure("switched_off", not c.active)


def trimop(c, how, a, b, keep):
    if how == "start":
        c.set_start_on(a, preserve_inactive_curves=keep)
    elif how == "end":
        c.set_end_on(b, preserve_inactive_curves=keep)
    else:
        c.set_start_and_end_on(a, b, preserve_inactive_curves=keep)


for how in ("start", "end", "both"):

    @ob("trim_" + how, funcs=[CH + {"start": "set_start_on", "end": "set_end_on", "both": "set_start_and_end_on"}[how]], paths=600, seconds=80)
    def trim(q, m, how=how):
        P, L, c = poly(q, m, 2)
        a, b = q.real("a", 0, 1, False, False), q.real("b", 0, 1, False, False)
        q.assume(a < b)
        keep = q.bool("keep")
        o = c.copy()
        # cut points strictly inside a piece
        tot = L[0] + L[1]
        for x in (a, b):
            q.assume(abs(x * tot - L[0]) > (0 if q.symbolic else 1e-4))
        pa, pb = o(a), o(b)
        trimop(c, how, a, b, keep)
        lo, hi = (a if how != "end" else 0), (b if how != "start" else 1)
        if keep:
            q.ensure("pieces_kept", len(c) == 2)
        q.ensure_eq("start", c(0), pa if how != "end" else P[0])
        q.ensure_eq("end", c(1), pb if how != "start" else P[2])
        q.ensure_eq("length", c.length, (hi - lo) * tot)


@ob("trim_everywhere", funcs=[CH + "set_start_and_end_on"], paths=900, seconds=90)
def trimu(q, m):
    """every point of the trimmed chain is the corresponding point of the original"""
    P, L, c = poly(q, m, 2)
    a, b = q.real("a", 0, 1), q.real("b", 0, 1)
    q.assume(a < b)
    u = q.real("u", 0, 1)
    if not q.symbolic:
        q.assume(b - a > 1e-3)
    o = c.copy()
    tot = L[0] + L[1]
    for x in (a, b, a + u * (b - a)):
        q.assume(abs(x * tot - L[0]) > (0 if q.symbolic else 1e-4))
    c.set_start_and_end_on(a, b)
    q.ensure_eq("point", c(u), o(a + u * (b - a)))


@ob("cut", funcs=[CH + "cut", "curve.Curve.copy"], paths=600, seconds=60)
def cut(q, m):
    P, L, c = poly(q, m, 2)
    s = q.real("s", 0, 1)
    tot = L[0] + L[1]
    q.assume(abs(s * tot - L[0]) > (0 if q.symbolic else 1e-4))
    keep = q.bool("keep")
    p = c(s)
    a, b = c.cut(s, preserve_inactive_curves=keep)
    q.ensure_eq("a0", a(0), P[0])
    q.ensure_eq("a1", a(1), p)
    q.ensure_eq("b0", b(0), p)
    q.ensure_eq("b1", b(1), P[2])
    q.ensure_eq("lengths", a.length + b.length, tot)
    q.ensure_eq("frame", c(s), p)
    q.ensure_eq("frame_length", c.length, tot)
    q.ensure("frame_pieces", len(c) == 2 and c.curves[0].active and c.curves[1].active)


@ob("reverse", funcs=[CH + "reverse"], paths=600, seconds=60)
def reverse(q, m):
    n = q.choice("n", [2, 3])
    P, L, c = poly(q, m, n)
    o = c.copy()
    s = q.real("s", 0, 1, True, True)
    r = c.reverse()
    q.ensure("returns_chain", r is c)
    q.ensure_eq("point", c(s), o(1 - s))
    q.ensure_eq("length", c.length, o.length)
    q.ensure_eq("first", c.curves[0](0), P[n])
    q.ensure("continuous", c.is_continuous)


@ob("nested", funcs=[CH + "get_curves", CH + "length"], paths=600)
def nested(q, m):
    """a chain of chains is the flattened chain"""
    P, L, flat = poly(q, m, 3)
    a, b, d = [m.curve.LineCurve(P[k], P[k + 1]) for k in range(3)]
    how = q.choice("how", [0, 1, 2])
    C = m.curve.CurveChain
    n = [C(C(a, b), d), C(a, C(b, d)), C(C(a), C(C(b), d))][how]
    q.ensure("flat", [id(x) for x in n.get_curves()] == [id(x) for x in (a, b, d)])
    q.ensure_eq("length", n.length, flat.length)
    q.ensure_eq("start", n(0), P[0])
    q.ensure_eq("end", n(1), P[3])


@ob("nested_eval", funcs=[CH + "get_s_index", CH + "curve_list_eval"], paths=600, seconds=60)
def nested2(q, m):
    P, L, flat = poly(q, m, 3)
    a, b, d = [m.curve.LineCurve(P[k], P[k + 1]) for k in range(3)]
    C = m.curve.CurveChain
    n = C(C(a, b), d)
    s = q.real("s", 0, 1, True, True)
    q.ensure_eq("point", n(s), flat(s))


@ob("editing", funcs=[CH + "append", CH + "extend", CH + "insert", CH + "pop", CH + "clear", CH + "__getitem__", CH + "__setitem__", CH + "__delitem__", CH + "__iter__", CH + "__len__"])
def editing(q, m):
    P = [q.vec3(f"p{k}") for k in range(4)]
    a, b, d, e = [m.curve.LineCurve(P[k], P[(k + 1) % 4]) for k in range(4)]
    c = m.curve.CurveChain(a)

    def ids():
        return [id(x) for x in c]

    c.append(b)
    q.ensure("append", ids() == [id(a), id(b)])
    c.extend([d])
    q.ensure("extend", ids() == [id(a), id(b), id(d)])
    c.insert(1, e)
    q.ensure("insert", ids() == [id(a), id(e), id(b), id(d)])
    q.ensure_eq("length", c.length, a.length + b.length + d.length + e.length)
    x = c.pop(1)
    q.ensure("pop", x is e and ids() == [id(a), id(b), id(d)])
    y = c.pop()
    q.ensure("pop_last", y is d and ids() == [id(a), id(b)])
    c[0] = e
    q.ensure("set", c[0] is e and c[1] is b and len(c) == 2)
    del c[0]
    q.ensure("del", ids() == [id(b)])
    c.clear()
    q.ensure("clear", len(c) == 0)


@ob("continuity", funcs=[CH + "continuity_list", CH + "is_continuous", CH + "is_closed"], paths=600)
def cont(q, m):
    D = m.defs.DELTA / 100
    P = [q.vec3(f"p{k}") for k in range(3)]
    gap = q.choice("gap", ["none", "joint"])
    close = q.bool("close")
    g = q.pos("g")
    q.assume(g > D)
    q0 = P[1] + (q.arr([g, 0, 0]) if gap == "joint" else 0)
    end = P[0] if close else P[0] + q.arr([0, g, 0])
    for x, y in ((P[0], P[1]), (q0, P[2]), (P[2], end)):
        q.assume(q.np.linalg.norm(x - y) > (0 if q.symbolic else 1e-3))
    L = m.curve.LineCurve
    c = m.curve.CurveChain(L(P[0], P[1]), L(q0, P[2]), L(P[2], end))
    q.ensure("list", [bool(x) for x in c.continuity_list] == [gap == "none", True, close])
    q.ensure("continuous", bool(c.is_continuous) == (gap == "none"))
    q.ensure("closed", bool(c.is_closed) == (close and gap == "none"))
    c2 = m.curve.CurveChain(L(P[0], P[1]), L(q0, P[2], active=False), L(P[2], end))
    q.ensure("inactive_counts_as_continuous", bool(c2.is_continuous))


@ob("lerp", funcs=[CH + "get_curves"])
def lerp(q, m):
    """a disabled piece is bridged by a straight piece between its neighbours"""
    P = [q.vec3(f"p{k}") for k in range(4)]
    L = m.curve.LineCurve
    a, b, d = L(P[0], P[1]), L(q.vec3("x"), q.vec3("y"), active=False), L(P[2], P[3])
    out = m.curve.CurveChain(a, b, d).get_curves(lerp_inactive=True)
    q.ensure("n", len(out) == 3 and out[0] is a and out[2] is d)
    q.ensure_eq("from", out[1](0), P[1])
    q.ensure_eq("to", out[1](1), P[2])
    q.ensure("still_inactive", not out[1].active)
