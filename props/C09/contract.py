from spec import *

EXPLANATION = "The partition (iiu ascending, iip as given) is stated as for C03; the allocating Solve leaves its prescribed entries unspecified (not initialised)."


class P:
    def __init__(self, S, havoc=True):
        self.S = S
        self.nelem, self.nne, self.nnode, self.ndim = S.size("nelem"), S.size("nne"), S.size("nnode"), S.size("ndim")
        self.np = S.size("np", 0)
        self.conn = S.arr("conn", "I", (self.nelem, self.nne), rng=(0, self.nnode))
        self.dofs = S.arr("dofs", "I", (self.nnode, self.ndim), rng=(0, None))
        self.ndof = add(S.amax(self.dofs), ONE)
        self.iip = S.arr("iip", "I", (self.np,), rng=(0, self.ndof))
        S.distinct(self.iip)
        self.sd = S.setdiff(self.dofs, self.iip)
        self.iiu = A(self.sd.R)
        self.nu = self.sd.L
        self.A = S.call("make", self.conn, self.dofs, self.iip)
        if havoc:
            S.havoc(self.A, types=(Arr,))
        self.u, self.q = S.index("u", self.nu), S.index("q", self.np)
        self.n, self.i = S.index("n", self.nnode), S.index("i", self.ndim)
        self.sh = (self.nnode, self.ndim)
        self.dof = self.dofs[self.n, self.i]

    def elemmat(self, name):
        k = mul(self.nne, self.ndim)
        return self.S.arr(name, "R", (self.nelem, k, k))

    def assembled(self, em, d):
        def f(e, m, i):
            k = add(mul(m, self.ndim), i)
            return eq(self.dofs[self.conn[e, m], i], d), em[e, k, k]

        return Sum(self.S, (self.nelem, self.nne, self.ndim), f)

    def get(self):
        return self.S.call("data_uu", self.A), self.S.call("data_pp", self.A)

    def vec(self, name, kind):
        return self.S.arr(name, "R", {"dof": (self.ndof,), "node": self.sh, "u": (self.nu,), "p": (self.np,)}[kind])


def out(S, fn, inplace, args, o):
    """call with the result in the last argument (content o before), or returned"""
    if not inplace:
        return S.call(fn, *args)
    c = S.it.new(o.arr, "o")
    S.call(fn, *args, c)
    return S.wrap(S.it.load(c))


def cases(S, p):
    """entry (n, i) is the k-th unknown or prescribed DOF"""
    with S.scope(eq(p.dof, p.iiu[p.u])):
        yield "unknown", 0, p.u
    with S.scope(eq(p.dof, p.iip[p.q])):
        yield "prescribed", 1, p.q


@contract("partition")
def _(S):
    p = P(S)
    S.eq("nnu", S.call("nnu", p.A), p.nu)
    S.eq("nnp", S.call("nnp", p.A), p.np)
    a, b = S.call("iiu", p.A), S.call("iip", p.A)
    S.shape("shape iiu", a, (p.nu,)), S.shape("shape iip", b, (p.np,))
    S.eq("iiu", a[p.u], p.iiu[p.u])
    S.eq("iip", b[p.q], p.iip[p.q])


def image(S, p, name, fu, fp):
    uu, pp = p.get()
    S.shape(name + ": shape of data_uu", uu, (p.nu,))
    S.shape(name + ": shape of data_pp", pp, (p.np,))
    S.eq(name + ": data_uu", uu[p.u], fu)
    S.eq(name + ": data_pp", pp[p.q], fp)
    D = S.call("data", p.A)
    S.shape(name + ": shape of data", D, (p.ndof,))
    S.eq(name + ": data of unknown", D[p.iiu[p.u]], fu)
    S.eq(name + ": data of prescribed", D[p.iip[p.q]], fp)
    o = S.arr("out", "R", (p.ndof, p.ndof))
    e = S.index("e", p.ndof)
    for f, m in (("Todense", S.call("Todense", p.A)), ("todense", out(S, "todense", True, (p.A,), o))):
        S.shape("%s: shape of %s" % (name, f), m, (p.ndof, p.ndof))
        S.eq("%s: %s unknown" % (name, f), m[p.iiu[p.u], p.iiu[p.u]], fu)
        S.eq("%s: %s prescribed" % (name, f), m[p.iip[p.q], p.iip[p.q]], fp)
        d = S.index("d", p.ndof)
        with S.scope(ne(d, e)):
            S.eq("%s: %s off the diagonal" % (name, f), m[d, e], 0)


@contract("assemble")
def _(S):
    p = P(S)
    em = p.elemmat("em")
    S.call("assemble", p.A, em)
    image(S, p, "assemble", p.assembled(em, p.iiu[p.u]), p.assembled(em, p.iip[p.q]))


@contract("set")
def _(S):
    p = P(S)
    a = p.vec("a", "dof")
    S.call("set", p.A, a)
    image(S, p, "set", a[p.iiu[p.u]], a[p.iip[p.q]])


@contract("product")
def _(S):
    p = P(S)
    B = p.get()
    for inplace in (False, True):
        w = "in-place=%s" % inplace
        x = p.vec("x", "dof")
        b = out(S, "dot_dof" if inplace else "Dot_dof", inplace, (p.A, x), p.vec("o1", "dof"))
        S.shape("shape DOF " + w, b, (p.ndof,))
        S.eq("DOF-values unknown, " + w, b[p.iiu[p.u]], mul(B[0][p.u], x[p.iiu[p.u]]))
        S.eq("DOF-values prescribed, " + w, b[p.iip[p.q]], mul(B[1][p.q], x[p.iip[p.q]]))
        X = p.vec("X", "node")
        b = out(S, "dot_node" if inplace else "Dot_node", inplace, (p.A, X), p.vec("o2", "node"))
        S.shape("shape nodal " + w, b, p.sh)
        for name, part, k in cases(S, p):
            S.eq("nodal vector %s, %s" % (name, w), b[p.n, p.i], mul(B[part][k], X[p.n, p.i]))
        xu, xp = p.vec("xu", "u"), p.vec("xp", "p")
        b = out(S, "dot_u" if inplace else "Dot_u", inplace, (p.A, xu, xp), p.vec("o3", "u"))
        S.shape("shape u " + w, b, (p.nu,))
        S.eq("unknown part, " + w, b[p.u], mul(B[0][p.u], xu[p.u]))
        b = out(S, "dot_p" if inplace else "Dot_p", inplace, (p.A, xu, xp), p.vec("o4", "p"))
        S.shape("shape p " + w, b, (p.np,))
        S.eq("prescribed part, " + w, b[p.q], mul(B[1][p.q], xp[p.q]))
    N = p.get()
    S.eq("unchanged uu", N[0][p.u], B[0][p.u])
    S.eq("unchanged pp", N[1][p.q], B[1][p.q])


@contract("reaction")
def _(S):
    p = P(S)
    B = p.get()
    for inplace in (False, True):
        w = "in-place=%s" % inplace
        x, b0 = p.vec("x", "dof"), p.vec("b0", "dof")
        b = out(S, "reaction_dof" if inplace else "Reaction_dof", inplace, (p.A, x) if inplace else (p.A, x, b0), b0)
        S.shape("shape DOF " + w, b, (p.ndof,))
        S.eq("DOF-values unknown untouched, " + w, b[p.iiu[p.u]], b0[p.iiu[p.u]])
        S.eq("DOF-values prescribed, " + w, b[p.iip[p.q]], mul(B[1][p.q], x[p.iip[p.q]]))
        X, B0 = p.vec("X", "node"), p.vec("B0", "node")
        b = out(S, "reaction_node" if inplace else "Reaction_node", inplace, (p.A, X) if inplace else (p.A, X, B0), B0)
        S.shape("shape nodal " + w, b, p.sh)
        for name, part, k in cases(S, p):
            S.eq("nodal vector %s, %s" % (name, w), b[p.n, p.i], mul(B[1][k], X[p.n, p.i]) if part else B0[p.n, p.i])
        xu, xp = p.vec("xu", "u"), p.vec("xp", "p")
        b = out(S, "reaction_p" if inplace else "Reaction_p", inplace, (p.A, xu, xp), p.vec("o4", "p"))
        S.shape("shape p " + w, b, (p.np,))
        S.eq("prescribed part, " + w, b[p.q], mul(B[1][p.q], xp[p.q]))


def solves(S, p, name):
    B = p.get()
    for fn, inplace in (("Solve_dof", False), ("solve_dof", True), ("Solve_node", False), ("solve_node", True), ("Solve_u", False), ("solve_u", True)):
        kind = fn[6:]
        b, x0 = p.vec("b_" + fn, kind), p.vec("x_" + fn, kind)
        args = (p.A, b) if kind != "u" else (p.A, b, p.vec("xp_" + fn, "p"))
        x = out(S, fn, inplace, args, x0)
        w = "%s: %s" % (name, fn)
        S.shape("shape " + w, x, b.shape)
        with S.scope(ne(B[0][p.u], ZERO)):
            if kind == "u":
                S.eq(w, mul(B[0][p.u], x[p.u]), b[p.u])
            elif kind == "dof":
                S.eq(w + " unknown", mul(B[0][p.u], x[p.iiu[p.u]]), b[p.iiu[p.u]])
            else:
                with S.scope(eq(p.dof, p.iiu[p.u])):
                    S.eq(w + " unknown", mul(B[0][p.u], x[p.n, p.i]), b[p.n, p.i])
        if kind == "dof" and inplace:
            S.eq(w + " prescribed untouched", x[p.iip[p.q]], x0[p.iip[p.q]])
        if kind == "node" and inplace:
            with S.scope(eq(p.dof, p.iip[p.q])):
                S.eq(w + " prescribed untouched", x[p.n, p.i], x0[p.n, p.i])
    N = p.get()
    S.eq("%s: unchanged uu" % name, N[0][p.u], B[0][p.u])
    S.eq("%s: unchanged pp" % name, N[1][p.q], B[1][p.q])


for op in ("assemble", "set"):
    @contract("solve after " + op)
    def _(S, op=op):
        p = P(S)
        for k in ("first", "second"):
            S.call(op, p.A, p.elemmat("em" + k) if op == "assemble" else p.vec("a" + k, "dof"))
            solves(S, p, k)
