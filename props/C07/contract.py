from spec import *

EXPLANATION = ("DOFs are numbered unknown, prescribed, dependent. The residual of the condensed system is stated with the nine blocks of the "
               "current matrix and the tying matrices; the assumed contract of the direct solver is only that A x = b for the matrix and "
               "right-hand side that the code hands to it.")


class P:
    def __init__(self, S, havoc=True, all_used=False):
        self.S = S
        self.nelem, self.nne, self.nnode, self.ndim = S.size("nelem"), S.size("nne"), S.size("nnode"), S.size("ndim")
        self.nu, self.np, self.nd = S.size("nu", 0), S.size("np", 0), S.size("nd", 0)
        self.ni = add(self.nu, self.np)
        self.ndof = add(self.ni, self.nd)
        self.conn = S.arr("conn", "I", (self.nelem, self.nne), rng=(0, self.nnode))
        self.dofs = S.arr("dofs", "I", (self.nnode, self.ndim), rng=(0, self.ndof))
        S.assume(eq(S.amax(self.dofs), sub(self.ndof, ONE)))
        self.Cdu, self.Cdp = S.sparse("Cdu", self.nd, self.nu), S.sparse("Cdp", self.nd, self.np)
        self.A = S.call("make", self.conn, self.dofs, self.Cdu, self.Cdp)
        if havoc:
            S.havoc(self.A, zero_only=True)
        self.len = {"u": self.nu, "p": self.np, "d": self.nd}
        self.off = {"u": ZERO, "p": self.nu, "d": self.ni}
        if all_used:
            d = fresh("d")
            a, b = app("wit_m", "I", d), app("wit_i", "I", d)
            used = imp(land(ge(d, ZERO), lt(d, self.ndof)), land(S.inrange((a, b), (self.nnode, self.ndim)), eq(self.dofs[a, b], d)))
            for k in "upd":
                S.forall_fact((d,), imp(land(ge(d, ZERO), lt(d, self.len[k])), subst(used, {d: add(self.off[k], d)})), ["*"])

    def elemmat(self, name):
        k = mul(self.nne, self.ndim)
        return self.S.arr(name, "R", (self.nelem, k, k))

    def assembled(self, em, r, c):
        def f(e, m, i, n, j):
            return (land(eq(self.dofs[self.conn[e, m], i], r), eq(self.dofs[self.conn[e, n], j], c)),
                    em[e, add(mul(m, self.ndim), i), add(mul(n, self.ndim), j)])

        return Sum(self.S, (self.nelem, self.nne, self.ndim, self.nne, self.ndim), f)

    def each(self):
        for a in "upd":
            for b in "upd":
                i, j = self.S.index("i_%s%s" % (a, b), self.len[a]), self.S.index("j_%s%s" % (a, b), self.len[b])
                yield a + b, i, j, add(self.off[a], i), add(self.off[b], j)

    def get(self):
        return {a + b: self.S.call(a + b, self.A) for a in "upd" for b in "upd"}


def check(S, p, name, expected):
    B = p.get()
    d = S.call("Todense", p.A)
    S.shape(name + ": shape of Todense", d, (p.ndof, p.ndof))
    for ab, i, j, r, c in p.each():
        e = expected(ab, i, j, r, c)
        S.shape("%s: shape of block %s" % (name, ab), B[ab], (p.len[ab[0]], p.len[ab[1]]))
        S.eq("%s: block %s" % (name, ab), B[ab][i, j], e)
        S.eq("%s: Todense in block %s" % (name, ab), d[r, c], e)


@contract("partition")
def _(S):
    p = P(S)
    for f, n in (("nnu", p.nu), ("nnp", p.np), ("nni", p.ni), ("nnd", p.nd)):
        S.eq(f, S.call(f, p.A), n)
    for f, n, off in (("iiu", p.nu, ZERO), ("iip", p.np, p.nu), ("iii", p.ni, ZERO), ("iid", p.nd, p.ni)):
        r = S.call(f, p.A)
        S.shape("shape " + f, r, (n,))
        k = S.index("k_" + f, n)
        S.eq(f, r[k], add(off, k))


@contract("assemble")
def _(S):
    p = P(S)
    em = p.elemmat("e1")
    S.call("assemble", p.A, em)
    check(S, p, "assemble", lambda ab, i, j, r, c: p.assembled(em, r, c))


@contract("dense image and frame")
def _(S):
    p = P(S)
    old = p.get()
    check(S, p, "any matrix", lambda ab, i, j, r, c: old[ab][i, j])
    o = S.arr("out", "R", (p.ndof, p.ndof))
    k = S.it.new(o.arr, "out")
    S.call("todense", p.A, k)
    d = S.wrap(S.it.load(k))
    new = p.get()
    for ab, i, j, r, c in p.each():
        S.eq("todense in block " + ab, d[r, c], old[ab][i, j])
        S.eq("block %s unchanged" % ab, new[ab][i, j], old[ab][i, j])


def residual(S, p, B, X, b, u):
    """projected residual on unknown u; X, b: functions of (part, index)"""
    def force(a, i):
        s = neg(b(a, i))
        for c in "upd":
            s = add(s, Sum(S, (p.len[c],), lambda k: mul(B[a + c][i, k], X(c, k))))
        return s

    return add(force("u", u), Sum(S, (p.nd,), lambda d: mul(p.Cdu[d, u], force("d", d))))


def tied(S, p, X, d):
    return add(Sum(S, (p.nu,), lambda k: mul(p.Cdu[d, k], X("u", k))), Sum(S, (p.np,), lambda k: mul(p.Cdp[d, k], X("p", k))))


@contract("solve, DOF-vector")
def _(S):
    p = P(S)
    b, x = S.arr("b", "R", (p.ndof,)), S.arr("x", "R", (p.ndof,))
    B = p.get()
    u, q, d = S.index("u", p.nu), S.index("q", p.np), S.index("d", p.nd)
    for inplace in (False, True):
        p.A = S.call("make", p.conn, p.dofs, p.Cdu, p.Cdp)
        S.havoc(p.A, zero_only=True)
        B = p.get()
        s = S.call("solver")
        if inplace:
            c = S.it.new(x.arr, "x")
            S.call("solve_dof", s, p.A, b, c)
            r = S.wrap(S.it.load(c))
        else:
            r = S.call("Solve_dof", s, p.A, b, x)
        S.shape("shape %s" % inplace, r, (p.ndof,))
        X = lambda a, k: r[add(p.off[a], k)]
        S.eq("prescribed untouched, in-place=%s" % inplace, X("p", q), x[add(p.nu, q)])
        S.eq("tying relation, in-place=%s" % inplace, X("d", d), tied(S, p, X, d))
        S.solved("projected residual vanishes, in-place=%s" % inplace, residual(S, p, B, X, lambda a, k: b[add(p.off[a], k)], u), u)
        N = p.get()
        for ab, i, j, _, _ in p.each():
            S.eq("block %s unchanged, in-place=%s" % (ab, inplace), N[ab][i, j], B[ab][i, j])


@contract("solve, nodal vector")
def _(S):
    p = P(S, all_used=True)
    yb, yx = S.arr("yb", "R", (p.ndof,)), S.arr("yx", "R", (p.ndof,))
    sh = (p.nnode, p.ndim)
    nodal = lambda name, y: S.arr(name, "R", sh, fact=lambda q, v: imp(S.inrange(q, sh), eq(v, y[p.dofs[q[0], q[1]]])))
    b, x = nodal("b", yb), nodal("x", yx)
    n, i = S.index("n", p.nnode), S.index("i", p.ndim)
    dof = p.dofs[n, i]
    u, d = S.index("u", p.nu), S.index("d", p.nd)
    for inplace in (False, True):
        p.A = S.call("make", p.conn, p.dofs, p.Cdu, p.Cdp)
        S.havoc(p.A, zero_only=True)
        B = p.get()
        s = S.call("solver")
        if inplace:
            c = S.it.new(x.arr, "x")
            S.call("solve_node", s, p.A, b, c)
            r = S.wrap(S.it.load(c))
        else:
            r = S.call("Solve_node", s, p.A, b, x)
        S.shape("shape %s" % inplace, r, sh)
        U = S.solution()
        # DOF-values of the solution
        X = lambda a, k: U(k) if a == "u" else yx[add(p.nu, k)] if a == "p" else tied(S, p, X, k)
        with S.scope(lt(dof, p.nu)):
            S.eq("unknown DOFs, in-place=%s" % inplace, r[n, i], X("u", dof))
        with S.scope(ge(dof, p.nu), lt(dof, p.ni)):
            S.eq("prescribed untouched, in-place=%s" % inplace, r[n, i], yx[dof])
        with S.scope(ge(dof, p.ni)):
            S.eq("tying relation, in-place=%s" % inplace, r[n, i], X("d", sub(dof, p.ni)))
        S.solved("projected residual vanishes, in-place=%s" % inplace, residual(S, p, B, X, lambda a, k: yb[add(p.off[a], k)], u), u)


@contract("solve, partitioned vectors")
def _(S):
    p = P(S)
    b = {"u": S.arr("bu", "R", (p.nu,)), "d": S.arr("bd", "R", (p.nd,))}
    xp = S.arr("xp", "R", (p.np,))
    u = S.index("u", p.nu)
    for inplace in (False, True):
        p.A = S.call("make", p.conn, p.dofs, p.Cdu, p.Cdp)
        S.havoc(p.A, zero_only=True)
        B = p.get()
        s = S.call("solver")
        r = S.run("solve_u" if inplace else "Solve_u", inplace, (s, p.A, b["u"], b["d"], xp), (p.nu,))
        S.shape("shape %s" % inplace, r, (p.nu,))
        X = lambda a, k: r[k] if a == "u" else xp[k] if a == "p" else tied(S, p, X, k)
        S.solved("projected residual vanishes, in-place=%s" % inplace, residual(S, p, B, X, lambda a, k: b[a][k], u), u)
