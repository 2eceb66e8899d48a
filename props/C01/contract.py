from spec import *

TRUSTED = []


def setup(S):
    nelem, nne, nnode, ndim = S.size("nelem"), S.size("nne"), S.size("nnode"), S.size("ndim")
    conn = S.arr("conn", "I", (nelem, nne), rng=(0, nnode))
    dofs = S.arr("dofs", "I", (nnode, ndim), rng=(0, None))
    return nelem, nne, nnode, ndim, conn, dofs


def ndof_of(S, dofs):
    return add(S.amax(dofs), ONE)


def gather(fn, inplace):
    def f(S):
        nelem, nne, nnode, ndim, conn, dofs = setup(S)
        ndof = ndof_of(S, dofs)
        e, m, i, n = S.index("e", nelem), S.index("m", nne), S.index("i", ndim), S.index("n", nnode)
        if fn.endswith("dofval"):
            x = S.arr("x", "R", (ndof,))
            val = lambda n, i: x[dofs[n, i]]
        else:
            x = S.arr("x", "R", (nnode, ndim))
            val = lambda n, i: x[n, i]
        elem = "Element" in fn
        shape = (nelem, nne, ndim) if elem else (nnode, ndim)
        r = S.run(fn, inplace, (conn, dofs, x), shape)
        S.shape("shape", r, shape)
        if elem:
            S.eq("value", r[e, m, i], val(conn[e, m], i))
        else:
            S.eq("value", r[n, i], val(n, i))
    return f


for fn in ("Node_dofval", "Element_dofval", "Element_nodevec"):
    contract("As" + fn, tier="quick")(gather("As" + fn, False))
    contract("as" + fn, tier="quick")(gather("as" + fn, True))


def scatter(fn, inplace):
    def f(S):
        nelem, nne, nnode, ndim, conn, dofs = setup(S)
        ndof = ndof_of(S, dofs)
        e, m, i, n = S.index("e", nelem), S.index("m", nne), S.index("i", ndim), S.index("n", nnode)
        todof = "Dofs" in fn
        fromelem = fn.endswith("elemvec")
        # consistent data: there is a function y of the DOF (node, i) that gives all the values
        if todof:
            y = S.arr("y", "R", (ndof,))
            Y = lambda n, i: y[dofs[n, i]]
        else:
            y = S.arr("y", "R", (nnode, ndim))
            Y = lambda n, i: y[n, i]
        if fromelem:
            x = S.arr("x", "R", (nelem, nne, ndim), fact=lambda q, v: imp(S.inrange(q, (nelem, nne, ndim)), eq(v, Y(conn[q[0], q[1]], q[2]))))
        else:
            x = S.arr("x", "R", (nnode, ndim), fact=lambda q, v: imp(S.inrange(q, (nnode, ndim)), eq(v, Y(q[0], q[1]))))
        shape = (ndof,) if todof else (nnode, ndim)
        r = S.run(fn, inplace, (conn, dofs, x), shape)
        S.shape("shape", r, shape)
        node = conn[e, m] if fromelem else n
        if todof:
            S.eq("value", r[dofs[node, i]], y[dofs[node, i]])
            d = S.index("d", ndof)
            a, b, c = fresh("a"), fresh("b"), fresh("c")
            if fromelem:
                nobody = forall((a, b, c), imp(S.inrange((a, b, c), (nelem, nne, ndim)), ne(dofs[conn[a, b], c], d)))
            else:
                nobody = forall((a, c), imp(S.inrange((a, c), (nnode, ndim)), ne(dofs[a, c], d)))
            with S.scope(nobody):
                S.eq("unreferenced", r[d], ZERO)
        else:
            S.eq("value", r[node, i], y[node, i])
            a, b = fresh("a"), fresh("b")
            nobody = forall((a, b), imp(S.inrange((a, b), (nelem, nne)), ne(conn[a, b], n)))
            with S.scope(nobody):
                S.eq("unreferenced", r[n, i], ZERO)
    return f


for fn in ("Dofs_nodevec", "Dofs_elemvec", "Node_elemvec"):
    contract("As" + fn, tier="quick")(scatter("As" + fn, False))
    contract("as" + fn, tier="quick")(scatter("as" + fn, True))


@contract("Copy")
def _(S):
    nelem, nne, nnode, ndim, conn, dofs = setup(S)
    n, i = S.index("n", nnode), S.index("i", ndim)
    a = S.arr("a", "R", (nnode, ndim))
    b = S.arr("b", "R", (nnode, ndim))
    r = S.call("Copy", conn, dofs, a, b)
    S.shape("shape", r, (nnode, ndim))
    S.eq("value", r[n, i], a[n, i])
    r = S.run("copy", True, (conn, dofs, a), (nnode, ndim))
    S.eq("in-place value", r[n, i], a[n, i])


@contract("asElementVector")
def _(S):
    nelem, nne, nnode, ndim, conn, dofs = setup(S)
    e, m, i = S.index("e", nelem), S.index("m", nne), S.index("i", ndim)
    a = S.arr("a", "R", (nnode, ndim))
    r = S.call("asElementVector", conn, a)
    S.shape("shape", r, (nelem, nne, ndim))
    S.eq("value", r[e, m, i], a[conn[e, m], i])


@contract("round trips")
def _(S):
    nelem, nne, nnode, ndim, conn, dofs = setup(S)
    ndof = ndof_of(S, dofs)
    e, m, i, n = S.index("e", nelem), S.index("m", nne), S.index("i", ndim), S.index("n", nnode)
    x = S.arr("x", "R", (ndof,))
    r = S.call("dofs_node_dofs", conn, dofs, x)
    S.eq("dofs-node-dofs", r[dofs[n, i]], x[dofs[n, i]])
    r = S.call("dofs_elem_dofs", conn, dofs, x)
    S.eq("dofs-elem-dofs", r[dofs[conn[e, m], i]], x[dofs[conn[e, m], i]])
    y = S.arr("y", "R", (ndof,))
    z = S.arr("z", "R", (nnode, ndim), fact=lambda q, v: imp(S.inrange(q, (nnode, ndim)), eq(v, y[dofs[q[0], q[1]]])))
    r = S.call("node_dofs_node", conn, dofs, z)
    S.eq("node-dofs-node", r[n, i], z[n, i])
    w = S.arr("w", "R", (nnode, ndim))
    r = S.call("node_elem_node", conn, dofs, w)
    S.eq("node-elem-node", r[conn[e, m], i], w[conn[e, m], i])
