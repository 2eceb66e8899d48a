from spec import *

EXPLANATION = "Measures of quadrilateral meshes (the only element type that they accept); all numbers of nodes and elements."


def mesh(S, nelem=None):
    nnode, nelem = S.size("nnode"), S.size("nelem", 1)
    return nnode, nelem, S.arr("coor", "R", (nnode, 2)), S.arr("conn", "I", (nelem, 4), (0, nnode))


for nd, nne, want in ((2, 3, 3), (2, 4, 4), (3, 8, 2)):
    @contract("element type %d-d, %d nodes" % (nd, nne))
    def _(S, nd=nd, nne=nne, want=want):
        nnode, nelem = S.size("nnode"), S.size("nelem", 0)
        r = S.call("element_type", S.arr("coor", "R", (nnode, nd)), S.arr("conn", "I", (nelem, nne), (0, nnode)))
        S.eq("type", r, t_({3: TRI3, 4: QUAD4, 2: HEX8}[want]))


UNKNOWN, QUAD4, HEX8, TRI3 = 0, 1, 2, 3

for f in ("centers", "centers_type"):
    @contract(f)
    def _(S, f=f):
        nnode, nelem, x, c = mesh(S)
        r = S.call(f, x, c)
        S.shape("shape", r, (nelem, 2))
        e = S.index("e", nelem)
        for i in range(2):
            S.eq("mean of the nodes, component %d" % i, scale(4, r[e, i]), rsum(x[c[e, m], i] for m in range(4)))

for f in ("edgesize", "edgesize_type"):
    @contract(f)
    def _(S, f=f):
        nnode, nelem, x, c = mesh(S)
        r = S.call(f, x, c)
        S.shape("shape", r, (nelem, 4))
        e = S.index("e", nelem)
        for m in range(4):
            d = [sub(x[c[e, (m + 1) % 4], i], x[c[e, m], i]) for i in range(2)]
            S.holds("edge %d: positive" % m, ge(r[e, m], ZERO))
            S.eq("edge %d: length" % m, mul(r[e, m], r[e, m]), add(mul(d[0], d[0]), mul(d[1], d[1])))


def jac(x, c, e, m):
    """area per node: determinant of the isoparametric map at node m"""
    a, b, d = c[e, m], c[e, (m + 1) % 4], c[e, (m + 3) % 4]
    u = [sub(x[b, i], x[a, i]) for i in range(2)]
    v = [sub(x[d, i], x[a, i]) for i in range(2)]
    return scale(Fraction(1, 4), sub(mul(u[0], v[1]), mul(u[1], v[0])))


def area(x, c, e):
    n = [c[e, m] for m in range(4)]
    return scale(Fraction(1, 2), rsum(sub(mul(x[n[m], 0], x[n[(m + 1) % 4], 1]), mul(x[n[(m + 1) % 4], 0], x[n[m], 1])) for m in range(4)))


for f in ("nodal_mass", "nodal_mass_type"):
    @contract(f)
    def _(S, f=f):
        nnode, nelem, x, c = mesh(S)
        r = S.call(f, x, c)
        S.shape("shape", r, (nnode, 2))
        n = S.index("n", nnode)
        for i in range(2):
            S.eq("volume of the elements at the node, component %d" % i, r[n, i],
                 rsum(Sum(S, (nelem,), lambda e, m=m: (eq(c[e, m], n), jac(x, c, e, m))) for m in range(4)))
        e = S.index("e", nelem)
        S.eq("fractions add up to the area of the element", rsum(jac(x, c, e, m) for m in range(4)), area(x, c, e))
        for i in range(2):
            S.eq("adds up to the volume of the mesh, component %d" % i, Sum(S, (nnode,), lambda k: r[k, i]), Sum(S, (nelem,), lambda k: area(x, c, k)))


@contract("average_axis_0")
def _(S):
    n, m = S.size("n"), S.size("m")
    x, w = S.arr("x", "R", (n, m)), S.arr("w", "R", (n, m))
    r = S.call("average", x, w)
    S.shape("shape", r, (m,))
    j = S.index("j", m)
    tot = Sum(S, (n,), lambda i: w[i, j])
    with S.scope(ne(tot, ZERO)):
        S.eq("weighted mean", mul(r[(j,)], tot), Sum(S, (n,), lambda i: mul(w[i, j], x[i, j])))


for f in ("cog", "cog_type"):
    @contract("center_of_gravity " + f)
    def _(S, f=f):
        nnode, nelem, x, c = mesh(S)
        w = S.arr("w", "R", (nnode, 2))

        def mass(it, fn, this, args):
            S.eq("mass of the same mesh (coor)", it.load(args[0]).read(S.index("n0", nnode), S.index("i0", num(2))), x[S.index("n0", nnode), S.index("i0", num(2))])
            S.eq("mass of the same mesh (conn)", it.load(args[1]).read(S.index("e0", nelem), S.index("m0", num(4))), c[S.index("e0", nelem), S.index("m0", num(4))])
            return w.arr

        S.it.contracts["GooseFEM::Mesh::nodal_mass"] = mass
        r = S.call(f, x, c)
        S.shape("shape", r, (2,))
        for j in range(2):
            tot = Sum(S, (nnode,), lambda i: w[i, j])
            with S.scope(ne(tot, ZERO)):
                S.eq("weighted mean, component %d" % j, mul(r[(num(j),)], tot), Sum(S, (nnode,), lambda i: mul(w[i, j], x[i, j])))
