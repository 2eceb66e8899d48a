from spec import *


def mesh(S):
    nnode, nelem = S.size("nnode"), S.size("nelem", 0)
    return S.arr("coor", "R", (nnode, 2)), S.arr("conn", "I", (nelem, 3), (0, nnode)), nelem


def turn(x, n):
    """(p0 - p1) x (p2 - p1): minus twice the area of a counter-clockwise triangle"""
    p = [[x[m, i] for i in range(2)] for m in n]
    v = [sub(p[0][i], p[1][i]) for i in range(2)]
    w = [sub(p[2][i], p[1][i]) for i in range(2)]
    return sub(mul(v[0], w[1]), mul(w[0], v[1]))


def sign(k):
    return ite(lt(k, ZERO), num(-1), ONE)


@contract("getOrientation")
def _(S):
    x, c, nelem = mesh(S)
    r = S.call("get", x, c)
    S.shape("shape", r, (nelem,))
    e = S.index("e", nelem)
    k = turn(x, [c[e, m] for m in range(3)])
    S.eq("sign of the signed area", r[(e,)], sign(k))
    # twice the signed area (counter-clockwise: positive) is the sum over the edges
    n = [c[e, m] for m in range(3)]
    area = rsum(sub(mul(x[n[a], 0], x[n[(a + 1) % 3], 1]), mul(x[n[(a + 1) % 3], 0], x[n[a], 1])) for a in range(3))
    S.eq("counter-clockwise is negative", k, neg(area))


def corrected(S, x, c, nelem, r, val, o, geometric=True):
    S.shape("shape", r, (nelem, 3))
    e = S.index("e!%s" % o, nelem)
    old, new = [c[e, m] for m in range(3)], [r[e, m] for m in range(3)]
    S.eq("the first node stays", new[0], old[0])
    S.holds("the same nodes", lor(land(eq(new[1], old[1]), eq(new[2], old[2])), land(eq(new[1], old[2]), eq(new[2], old[1]))))
    with S.scope(eq(val(e), num(o))):
        for m in range(3):
            S.eq("unchanged if it has that orientation (node %d)" % m, new[m], old[m])
    with S.scope(eq(val(e), num(-o))):
        S.eq("swapped otherwise (node 1)", new[1], old[2])
        S.eq("swapped otherwise (node 2)", new[2], old[1])
    if geometric:
        k = turn(x, old)
        for s in (1, -1):
            with S.scope(gt(scale(s, k), ZERO)):
                S.holds("the signed area has the sign (from %d)" % s, gt(scale(o, turn(x, new)), ZERO))


for o in (-1, 1, None):
    @contract("setOrientation %s" % (o if o else "default"))
    def _(S, o=o):
        x, c, nelem = mesh(S)
        r = S.call("set_default", x, c) if o is None else S.call("set", x, c, num(o))
        corrected(S, x, c, nelem, r, lambda e: sign(turn(x, [c[e, m] for m in range(3)])), o or -1)

    @contract("setOrientation from known orientation %s" % (o if o else "default"))
    def _(S, o=o):
        x, c, nelem = mesh(S)
        v = S.arr("val", "I", (nelem,), (-1, 2), fact=lambda ix, a: ne(a, ZERO))
        r = S.call("set_val_default", x, c, v) if o is None else S.call("set_val", x, c, v, num(o))
        corrected(S, x, c, nelem, r, lambda e: v[(e,)], o or -1, False)


@contract("regular meshes have the default orientation")
def _(S):
    n, h = [S.size("nelx"), S.size("nely")], S.real("h")
    S.assume(gt(h, ZERO))
    x, c = S.call("tri_coor", n[0], n[1], h), S.call("tri_conn", n[0], n[1], h)
    i, j = S.index("i", n[0]), S.index("j", n[1])
    for t in range(2):
        e = add(scale(2, add(mul(j, n[0]), i)), num(t))
        S.holds("element %d" % t, lt(turn(x, [c[e, m] for m in range(3)]), ZERO))
