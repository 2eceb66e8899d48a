from spec import *


class P:
    def __init__(self, S, havoc=True):
        self.S = S
        self.nelem, self.nne, self.nnode, self.ndim = S.size("nelem"), S.size("nne"), S.size("nnode"), S.size("ndim")
        self.conn = S.arr("conn", "I", (self.nelem, self.nne), rng=(0, self.nnode))
        self.dofs = S.arr("dofs", "I", (self.nnode, self.ndim), rng=(0, None))
        self.ndof = add(S.amax(self.dofs), ONE)
        self.A = S.call("make", self.conn, self.dofs)
        if havoc:
            # any diagonal, whatever was done before (what is left of earlier factorisations: anything)
            S.havoc(self.A, types=(Arr,))
        self.d, self.e = S.index("d", self.ndof), S.index("e", self.ndof)
        self.n, self.i = S.index("n", self.nnode), S.index("i", self.ndim)
        self.sh = (self.nnode, self.ndim)

    def elemmat(self, name):
        k = mul(self.nne, self.ndim)
        return self.S.arr(name, "R", (self.nelem, k, k))

    def assembled(self, em, d):
        def f(e, m, i):
            k = add(mul(m, self.ndim), i)
            return eq(self.dofs[self.conn[e, m], i], d), em[e, k, k]

        return Sum(self.S, (self.nelem, self.nne, self.ndim), f)

    def data(self):
        return self.S.call("data", self.A)


def image(S, p, name, expected):
    D = p.data()
    S.shape(name + ": shape of data", D, (p.ndof,))
    S.eq(name + ": data", D[p.d], expected(p.d))
    o = S.arr("out", "R", (p.ndof, p.ndof))
    c = S.it.new(o.arr, "out")
    S.call("todense", p.A, c)
    for f, m in (("Todense", S.call("Todense", p.A)), ("todense", S.wrap(S.it.load(c)))):
        S.shape("%s: shape of %s" % (name, f), m, (p.ndof, p.ndof))
        S.eq("%s: %s on the diagonal" % (name, f), m[p.d, p.d], expected(p.d))
        with S.scope(ne(p.d, p.e)):
            S.eq("%s: %s off the diagonal" % (name, f), m[p.d, p.e], 0)


@contract("assemble")
def _(S):
    p = P(S)
    em = p.elemmat("em")
    S.call("assemble", p.A, em)
    image(S, p, "assemble", lambda d: p.assembled(em, d))


@contract("set")
def _(S):
    p = P(S)
    a = S.arr("a", "R", (p.ndof,))
    S.call("set", p.A, a)
    image(S, p, "set", lambda d: a[d])


@contract("product")
def _(S):
    p = P(S)
    D = p.data()
    x, X = S.arr("x", "R", (p.ndof,)), S.arr("X", "R", p.sh)
    for inplace in (False, True):
        b = S.run("dot_dof" if inplace else "Dot_dof", inplace, (p.A, x), (p.ndof,))
        S.shape("shape DOF %s" % inplace, b, (p.ndof,))
        S.eq("DOF-values, in-place=%s" % inplace, b[p.d], mul(D[p.d], x[p.d]))
        B = S.run("dot_node" if inplace else "Dot_node", inplace, (p.A, X), p.sh)
        S.shape("shape nodal %s" % inplace, B, p.sh)
        S.eq("nodal vector, in-place=%s" % inplace, B[p.n, p.i], mul(D[p.dofs[p.n, p.i]], X[p.n, p.i]))
    S.eq("unchanged", p.data()[p.d], D[p.d])


for op in ("assemble", "set"):
    @contract("solve after " + op)
    def _(S, op=op):
        p = P(S)
        for fn, inplace, dof in (("Solve_dof", False, True), ("solve_dof", True, True), ("Solve_node", False, False), ("solve_node", True, False)):
            S.call(op, p.A, p.elemmat("em_" + fn) if op == "assemble" else S.arr("a_" + fn, "R", (p.ndof,)))
            D = p.data()
            for rep in ("first", "second"):
                sh = (p.ndof,) if dof else p.sh
                b = S.arr("b_%s_%s" % (fn, rep), "R", sh)
                x = S.run(fn, inplace, (p.A, b), sh)
                S.shape("shape of %s, %s" % (fn, rep), x, sh)
                q = (p.d,) if dof else (p.n, p.i)
                a = D[p.d if dof else p.dofs[p.n, p.i]]
                with S.scope(ne(a, ZERO)):
                    S.eq("%s, %s" % (fn, rep), mul(a, x[q]), b[q])
                S.eq("data after %s, %s" % (fn, rep), p.data()[p.d], D[p.d])
