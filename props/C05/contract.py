from spec import *


class P:
    def __init__(self, S, havoc=True):
        self.S = S
        self.nelem, self.nne, self.nnode, self.ndim = S.size("nelem"), S.size("nne"), S.size("nnode"), S.size("ndim")
        self.conn = S.arr("conn", "I", (self.nelem, self.nne), rng=(0, self.nnode))
        self.dofs = S.arr("dofs", "I", (self.nnode, self.ndim), rng=(0, None))
        self.ndof = add(S.amax(self.dofs), ONE)
        self.A = S.call("make", self.conn, self.dofs)
        # an arbitrary matrix: whatever was assembled, set or added before
        if havoc:
            S.havoc(self.A)
        self.r, self.c = S.index("r", self.ndof), S.index("c", self.ndof)

    def elemmat(self, name):
        k = mul(self.nne, self.ndim)
        return self.S.arr(name, "R", (self.nelem, k, k))

    def assembled(self, em, r, c):
        S = self.S

        def f(e, m, i, n, j):
            return (land(eq(self.dofs[self.conn[e, m], i], r), eq(self.dofs[self.conn[e, n], j], c)),
                    em[e, add(mul(m, self.ndim), i), add(mul(n, self.ndim), j)])

        return Sum(S, (self.nelem, self.nne, self.ndim, self.nne, self.ndim), f)

    def block(self):
        S = self.S
        nr, nc = S.size("nr"), S.size("nc")
        rows, cols = S.arr("rows", "I", (nr,), rng=(0, self.ndof)), S.arr("cols", "I", (nc,), rng=(0, self.ndof))
        m = S.arr("m", "R", (nr, nc))
        return (rows, cols, m), lambda r, c: Sum(S, (nr, nc), lambda i, j: (land(eq(rows[i], r), eq(cols[j], c)), m[i, j]))


def image(S, p, name, expected):
    """all representations of the matrix"""
    r, c = p.r, p.c
    S.eq(name + ": data", S.call("data", p.A)[r, c], expected)
    d = S.call("Todense", p.A)
    S.shape(name + ": shape of Todense", d, (p.ndof, p.ndof))
    S.eq(name + ": Todense", d[r, c], expected)


@contract("assemble")
def _(S):
    p = P(S)
    e1, e2 = p.elemmat("e1"), p.elemmat("e2")
    S.call("assemble", p.A, e1)
    image(S, p, "assemble", p.assembled(e1, p.r, p.c))
    S.havoc(p.A)
    S.call("assemble", p.A, e2)
    image(S, p, "assemble again", p.assembled(e2, p.r, p.c))


@contract("set")
def _(S):
    p = P(S)
    args, val = p.block()
    S.call("set", p.A, *args)
    image(S, p, "set", val(p.r, p.c))


@contract("add")
def _(S):
    p = P(S)
    args, val = p.block()
    old = S.call("data", p.A)[p.r, p.c]
    S.call("add", p.A, *args)
    image(S, p, "add", add(old, val(p.r, p.c)))


@contract("dense image and frame")
def _(S):
    p = P(S)
    old = S.call("data", p.A)[p.r, p.c]
    image(S, p, "any matrix", old)
    o = S.arr("out", "R", (p.ndof, p.ndof))
    c = S.it.new(o.arr, "out")
    S.call("todense", p.A, c)
    S.eq("todense", S.wrap(S.it.load(c))[p.r, p.c], old)
    S.eq("unchanged", S.call("data", p.A)[p.r, p.c], old)


@contract("dot, DOF-vector")
def _(S):
    p = P(S)
    D = S.call("data", p.A)
    x = S.arr("x", "R", (p.ndof,))
    e = Sum(S, (p.ndof,), lambda k: mul(D[p.r, k], x[k]))
    for inplace in (False, True):
        b = S.run("dot_dof" if inplace else "Dot_dof", inplace, (p.A, x), (p.ndof,))
        S.shape("shape %s" % inplace, b, (p.ndof,))
        S.eq("value, in-place=%s" % inplace, b[p.r], e)


@contract("dot, nodal vector")
def _(S):
    p = P(S)
    D = S.call("data", p.A)
    # DOF-values y, and the nodal vector with these values (zero for DOFs that are not in the DOF-table: such DOFs do not exist
    # in this contract: every DOF occurs at node wit_m(d), direction wit_i(d))
    y = S.arr("y", "R", (p.ndof,))
    d = fresh("d")
    a, b = app("wit_m", "I", d), app("wit_i", "I", d)
    S.forall_fact((d,), imp(land(ge(d, ZERO), lt(d, p.ndof)), land(S.inrange((a, b), (p.nnode, p.ndim)), eq(p.dofs[a, b], d))), ["*"])
    sh = (p.nnode, p.ndim)
    x = S.arr("x", "R", sh, fact=lambda q, v: imp(S.inrange(q, sh), eq(v, y[p.dofs[q[0], q[1]]])))
    n, i = S.index("n", p.nnode), S.index("i", p.ndim)
    e = Sum(S, (p.ndof,), lambda k: mul(D[p.dofs[n, i], k], y[k]))
    for inplace in (False, True):
        b = S.run("dot_node" if inplace else "Dot_node", inplace, (p.A, x), sh)
        S.shape("shape %s" % inplace, b, sh)
        S.eq("value, in-place=%s" % inplace, b[n, i], e)
