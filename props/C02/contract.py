from spec import *


def setup(S):
    nelem, nne, nnode, ndim = S.size("nelem"), S.size("nne"), S.size("nnode"), S.size("ndim")
    conn = S.arr("conn", "I", (nelem, nne), rng=(0, nnode))
    dofs = S.arr("dofs", "I", (nnode, ndim), rng=(0, None))
    return nelem, nne, nnode, ndim, conn, dofs


def spec_fn(S, fn, nelem, nne, nnode, ndim, conn, dofs):
    ndof = add(S.amax(dofs), ONE)
    el = lambda x, d: Sum(S, (nelem, nne, ndim), lambda e, m, i: (eq(dofs[conn[e, m], i], d), x[e, m, i]))
    if fn == "Dofs_nodevec":
        return (nnode, ndim), (ndof,), lambda x, d: Sum(S, (nnode, ndim), lambda m, i: (eq(dofs[m, i], d), x[m, i]))
    if fn == "Dofs_elemvec":
        return (nelem, nne, ndim), (ndof,), el
    return (nelem, nne, ndim), (nnode, ndim), lambda x, n, i: el(x, dofs[n, i])


def mk(fn, inplace):
    def f(S):
        a = setup(S)
        conn, dofs = a[4:]
        xs, rs, sp = spec_fn(S, fn, *a)
        x = S.arr("x", "R", xs)
        r = S.run(("assemble" if inplace else "Assemble") + fn, inplace, (conn, dofs, x), rs)
        S.shape("shape", r, rs)
        q = [S.index("q%d" % i, n) for i, n in enumerate(rs)]
        S.eq("value is the sum of all contributions", r[tuple(q)], sp(x, *q))
        # nothing refers to the DOF: zero
        vs = [fresh("v") for _ in xs]
        d = q[0] if fn.startswith("Dofs") else dofs[q[0], q[1]]
        tgt = dofs[vs[0], vs[1]] if fn == "Dofs_nodevec" else dofs[conn[vs[0], vs[1]], vs[2]]
        with S.scope(forall(vs, imp(S.inrange(vs, xs), ne(tgt, d)))):
            S.eq("zero where nothing refers to", r[tuple(q)], ZERO)
    return f


for fn in ("Dofs_nodevec", "Dofs_elemvec", "Node_elemvec"):
    contract("Assemble" + fn)(mk(fn, False))
    contract("assemble" + fn)(mk(fn, True))


def lemmas(fn):
    def f(S):
        a = setup(S)
        nelem, nne, nnode, ndim, conn, dofs = a
        xs, rs, sp = spec_fn(S, fn, *a)
        x, y = S.arr("x", "R", xs), S.arr("y", "R", xs)
        al, be = S.real("alpha"), S.real("beta")
        z = S.lam(xs, "R", lambda q: add(mul(al, x[q]), mul(be, y[q])))
        rx, ry, rz = [S.call("Assemble" + fn, conn, dofs, v) for v in (x, y, z)]
        q = tuple(S.index("q%d" % i, n) for i, n in enumerate(rs))
        S.eq("linear", rz[q], add(mul(al, rx[q]), mul(be, ry[q])))
        if fn.startswith("Dofs"):
            S.eq("total is conserved", Sum(S, rs, lambda d: rx[d]), Sum(S, xs, lambda *q: x[q]))
            g = S.arr("g", "R", rs)
            ga = (lambda *q: g[dofs[q[0], q[1]]]) if fn == "Dofs_nodevec" else (lambda *q: g[dofs[conn[q[0], q[1]], q[2]]])
            S.eq("adjoint of the gather", Sum(S, rs, lambda d: mul(g[d], rx[d])), Sum(S, xs, lambda *q: mul(ga(*q), x[q])))
        else:
            rd = S.call("AssembleDofs_elemvec", conn, dofs, x)
            S.eq("value of the DOF", rx[q], rd[dofs[q]])
    return f


for fn in ("Dofs_nodevec", "Dofs_elemvec", "Node_elemvec"):
    contract("lemmas " + fn)(lemmas(fn))


@contract("assembleNodeVector")
def _(S):
    nelem, nne, nnode, ndim = S.size("nelem"), S.size("nne"), S.size("nnode"), S.size("ndim")
    conn = S.arr("conn", "I", (nelem, nne), rng=(0, None))
    x = S.arr("x", "R", (nelem, nne, ndim))
    nn = add(S.amax(conn), ONE)
    n, i = S.index("n", nn), S.index("i", ndim)
    r = S.call("assembleNodeVector", conn, x)
    S.shape("shape", r, (nn, ndim))
    S.eq("value", r[n, i], Sum(S, (nelem, nne), lambda e, m: (eq(conn[e, m], n), x[e, m, i])))
