from spec import *
BUDGET = 300
BOUNDED = "FineLayer2Regular (ragged lists) is decided by the bounded evaluation only: every fine-layer element clipped against the regular elements."
EXPLANATION = "RefineRegular for all meshes and factors; the fields for every map in which each fine element is in exactly one coarse element, which is proved of the map. Positions in units of elements."


def make(S):
    X, Y, nx, ny = S.size("nelx", 1), S.size("nely", 1), S.size("nx", 1), S.size("ny", 1)
    r = S.call("refine", S.call("regular", X, Y, S.real("h")), nx, ny)
    return X, Y, nx, ny, r


@contract("RefineRegular: meshes and map")
def _(S):
    X, Y, nx, ny, r = make(S)
    for nm, v in (("nx", nx), ("ny", ny), ("coarse_nelx", X), ("coarse_nely", Y), ("coarse_h", sym("h", "R")), ("fine_nelx", mul(nx, X)), ("fine_nely", mul(ny, Y)), ("fine_nelem", mul(nx, X, ny, Y) if False else mul(mul(nx, X), mul(ny, Y)))):
        S.eq(nm, S.call(nm, r), v)
    i, j, a, b = S.index("i", Y), S.index("j", X), S.index("a", ny), S.index("b", nx)
    for f in ("map", "getMap"):
        m = S.call(f, r)
        S.shape("%s: shape" % f, m, (mul(X, Y), mul(nx, ny)))
        g = S.call("fine_grid", r)
        S.eq("%s: fine elements inside a coarse element" % f, m[add(mul(i, X), j), add(mul(a, nx), b)], add(mul(add(mul(i, ny), a), mul(nx, X)), add(mul(j, nx), b)))
        S.eq("%s: same as the grid of the fine mesh" % f, m[add(mul(i, X), j), add(mul(a, nx), b)], g[add(mul(i, ny), a), add(mul(j, nx), b)])


def fine(i, j, a, b, X, nx, ny):
    return add(mul(add(mul(i, ny), a), mul(nx, X)), add(mul(j, nx), b))


@contract("RefineRegular: every fine element is in exactly one coarse element")
def _(S):
    X, Y, nx, ny, r = make(S)
    m = S.call("map", r)
    f = S.index("f", mul(mul(nx, X), mul(ny, Y)))
    row, col = div(f, mul(nx, X)), mod(f, mul(nx, X))
    i, j, a, b = div(row, ny), div(col, nx), mod(row, ny), mod(col, nx)
    S.lemma("row of the fine element", land(ge(row, ZERO), lt(row, mul(ny, Y))))
    S.lemma("coarse row", land(ge(i, ZERO), lt(i, Y)))
    S.lemma("coarse column", land(ge(j, ZERO), lt(j, X)))
    S.eq("every fine element is in a coarse element", m[add(mul(i, X), j), add(mul(a, nx), b)], f)


@contract("RefineRegular: no fine element is in two coarse elements")
def _(S):
    X, Y, nx, ny, r = make(S)
    m = S.call("map", r)
    i, j, a, b = S.index("i", Y), S.index("j", X), S.index("a", ny), S.index("b", nx)
    f = m[add(mul(i, X), j), add(mul(a, nx), b)]
    row, col = add(mul(i, ny), a), add(mul(j, nx), b)
    S.eq("row of the fine element", div(f, mul(nx, X)), row)
    S.eq("column of the fine element", mod(f, mul(nx, X)), col)
    S.eq("coarse row", div(row, ny), i)
    S.eq("coarse column", div(col, nx), j)
    S.eq("row inside the coarse element", mod(row, ny), a)
    S.eq("column inside the coarse element", mod(col, nx), b)


def state(S):
    """arbitrary map in which every fine element is in exactly one coarse element (the two contracts above)"""
    X, Y, nx, ny, r = make(S)
    nc, n = mul(X, Y), mul(nx, ny)
    nf = mul(mul(nx, X), mul(ny, Y))
    ce, cc = lambda f: app("coarse_of", "I", f), lambda f: app("place_of", "I", f)
    m = S.arr("map", "I", (nc, n), (0, nf), fact=lambda ix, v: imp(S.inrange(ix, (nc, n)), land(eq(ce(v), ix[0]), eq(cc(v), ix[1]))))
    S.put(r, "m_coarse2fine", m.arr)
    return nc, n, nf, r, m


for rank in (1, 2, 3):
    @contract("RefineRegular: fields of rank %d" % rank)
    def _(S, rank=rank):
        nc, n, nf, r, m = state(S)
        tail = [S.size("t%d" % k, 1) for k in range(rank - 1)]
        q = tuple(S.index("q%d" % k, t) for k, t in enumerate(tail))
        e, p = S.index("e", nc), S.index("p", n)
        c, w, d = S.arr("coarse", "R", (nc, *tail)), S.arr("w", "R", (nf, *tail)), S.arr("fine", "R", (nf, *tail))
        t = S.call("fine%d" % rank, r, c)
        S.shape("mapToFine: shape", t, d.shape)
        S.eq("mapToFine", t[(m[e, p],) + q], c[(e,) + q])
        a = S.call("mean%d" % rank, r, d)
        S.shape("meanToCoarse: shape", a, c.shape)
        S.eq("meanToCoarse", mul(n, a[(e,) + q]), Sum(S, (n,), lambda u: d[(m[e, u],) + q]))
        # any field that has on every fine element the value of its coarse element (as the result of mapToFine, by its contract)
        T_ = ArrSym("mapped", rank, "R")
        M = m.arr.node.A
        t = S.lam((nf, *tail), "R", lambda x: c[(x[0].a[1],) + tuple(x[1:])] if x[0].op == "read" and x[0].a[0] is M else read(T_, *x))
        z = S.call("mean%d" % rank, r, t)
        S.eq("mapping to fine and averaging back is the identity", z[(e,) + q], c[(e,) + q])
        v = S.call("average%d" % rank, r, d, w)
        S.shape("averageToCoarse: shape", v, c.shape)
        sw = Sum(S, (n,), lambda u: w[(m[e, u],) + q])
        with S.scope(ne(sw, ZERO)):
            S.eq("averageToCoarse", mul(sw, v[(e,) + q]), Sum(S, (n,), lambda u: mul(w[(m[e, u],) + q], d[(m[e, u],) + q])))
            z = S.call("average%d" % rank, r, t, w)
            S.eq("mapping to fine and taking the weighted average is the identity", z[(e,) + q], c[(e,) + q])
