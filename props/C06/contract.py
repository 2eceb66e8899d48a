from spec import *

EXPLANATION = ("The partition (iiu ascending, iip as given, together all DOFs) is the one of C03; blocks, dense image and products are stated per block, "
               "so the full product is the sum over the unknown plus the sum over the prescribed DOFs.")


class P:
    def __init__(self, S, havoc=True, all_used=False):
        self.S = S
        self.nelem, self.nne, self.nnode, self.ndim = S.size("nelem"), S.size("nne"), S.size("nnode"), S.size("ndim")
        self.np = S.size("np", 0)
        self.conn = S.arr("conn", "I", (self.nelem, self.nne), rng=(0, self.nnode))
        self.dofs = S.arr("dofs", "I", (self.nnode, self.ndim), rng=(0, None))
        self.ndof = add(S.amax(self.dofs), ONE)
        self.iip = S.arr("iip", "I", (self.np,), rng=(0, self.ndof))
        self.inv = S.distinct(self.iip)
        self.sd = S.setdiff(self.dofs, self.iip)
        self.iiu = A(self.sd.R)
        self.nu = self.sd.L
        self.A = S.call("make", self.conn, self.dofs, self.iip)
        if havoc:
            S.havoc(self.A)
        # a DOF of either kind: (list, length, block letter)
        self.parts = {"u": (self.iiu, self.nu), "p": (self.iip, self.np)}
        if all_used:
            # every DOF occurs at node wit_m(d), direction wit_i(d)
            d = fresh("d")
            a, b = app("wit_m", "I", d), app("wit_i", "I", d)
            used = imp(land(ge(d, ZERO), lt(d, self.ndof)), land(S.inrange((a, b), (self.nnode, self.ndim)), eq(self.dofs[a, b], d)))
            S.forall_fact((d,), used, ["*"])
            for l, n in self.parts.values():
                S.forall_fact((d,), imp(land(ge(d, ZERO), lt(d, n)), subst(used, {d: l[d]})), ["*"])

    def elemmat(self, name):
        k = mul(self.nne, self.ndim)
        return self.S.arr(name, "R", (self.nelem, k, k))

    def assembled(self, em, r, c):
        def f(e, m, i, n, j):
            return (land(eq(self.dofs[self.conn[e, m], i], r), eq(self.dofs[self.conn[e, n], j], c)),
                    em[e, add(mul(m, self.ndim), i), add(mul(n, self.ndim), j)])

        return Sum(self.S, (self.nelem, self.nne, self.ndim, self.nne, self.ndim), f)

    def block(self):
        S = self.S
        nr, nc = S.size("nr"), S.size("nc")
        # rows and columns are DOFs that occur in the table
        occurs = lambda n: lambda q, d: imp(S.inrange(q, (n,)), land(S.inrange((app("wit_m", "I", d), app("wit_i", "I", d)), (self.nnode, self.ndim)),
                                                                  eq(self.dofs[app("wit_m", "I", d), app("wit_i", "I", d)], d)))
        rows, cols = S.arr("rows", "I", (nr,), rng=(0, self.ndof), fact=occurs(nr)), S.arr("cols", "I", (nc,), rng=(0, self.ndof), fact=occurs(nc))
        m = S.arr("m", "R", (nr, nc))
        return (rows, cols, m), lambda r, c: Sum(S, (nr, nc), lambda i, j: (land(eq(rows[i], r), eq(cols[j], c)), m[i, j]))

    def each(self):
        for a in "up":
            for b in "up":
                i, j = self.S.index("i_%s%s" % (a, b), self.parts[a][1]), self.S.index("j_%s%s" % (a, b), self.parts[b][1])
                yield a + b, i, j, self.parts[a][0][i], self.parts[b][0][j]

    def index(self, a, d):
        """position of DOF d in the list of part a"""
        return self.sd.pos(d) if a == "u" else self.inv(d)

    def isin(self, a, d):
        k = self.index(a, d)
        l, m = self.parts[a]
        return land(ge(k, ZERO), lt(k, m), eq(l[k], d), self.sd.isU(d) if a == "u" else lnot(self.sd.isU(d)))

    def get(self):
        return {ab: self.S.call(ab, self.A) for ab in ("uu", "up", "pu", "pp")}

    def product(self, a, r, x):
        """row r of part a of the matrix times x (DOF-values)"""
        B = self.get()
        s = ZERO
        for b in "up":
            s = add(s, Sum(self.S, (self.parts[b][1],), lambda k: mul(B[a + b][r, k], x(b, k))))
        return s


def check(S, p, name, expected):
    """all representations of the matrix"""
    B = p.get()
    d = S.call("Todense", p.A)
    S.shape(name + ": shape of Todense", d, (p.ndof, p.ndof))
    for ab, i, j, r, c in p.each():
        e = expected(ab, i, j, r, c)
        S.shape("%s: shape of block %s" % (name, ab), B[ab], (p.parts[ab[0]][1], p.parts[ab[1]][1]))
        S.eq("%s: block %s" % (name, ab), B[ab][i, j], e)
        S.eq("%s: Todense in block %s" % (name, ab), d[r, c], e)


@contract("partition")
def _(S):
    p = P(S)
    u, q = S.call("iiu", p.A), S.call("iip", p.A)
    k, j = S.index("k", p.nu), S.index("j", p.np)
    S.eq("nnu", S.call("nnu", p.A), p.nu)
    S.eq("nnp", S.call("nnp", p.A), p.np)
    S.shape("shape iiu", u, (p.nu,))
    S.shape("shape iip", q, (p.np,))
    S.eq("iiu", u[k], p.iiu[k])
    S.eq("iip", q[j], p.iip[j])


@contract("assemble")
def _(S):
    p = P(S)
    em = p.elemmat("e1")
    S.call("assemble", p.A, em)
    check(S, p, "assemble", lambda ab, i, j, r, c: p.assembled(em, r, c))


@contract("assemble again")
def _(S):
    p = P(S)
    e0, em = p.elemmat("e0"), p.elemmat("e1")
    S.call("assemble", p.A, e0)
    S.havoc(p.A)
    S.call("assemble", p.A, em)
    B = p.get()
    for ab, i, j, r, c in p.each():
        S.eq("assemble again: block %s" % ab, B[ab][i, j], p.assembled(em, r, c))


@contract("set")
def _(S):
    p = P(S)
    args, val = p.block()
    S.call("set", p.A, *args)
    check(S, p, "set", lambda ab, i, j, r, c: val(r, c))


@contract("add")
def _(S):
    p = P(S)
    args, val = p.block()
    old = p.get()
    S.call("add", p.A, *args)
    check(S, p, "add", lambda ab, i, j, r, c: add(old[ab][i, j], val(r, c)))


@contract("dense image and frame")
def _(S):
    p = P(S)
    old = p.get()
    check(S, p, "any matrix", lambda ab, i, j, r, c: old[ab][i, j])
    o = S.arr("out", "R", (p.ndof, p.ndof))
    k = S.it.new(o.arr, "out")
    S.call("todense", p.A, k)
    d = S.wrap(S.it.load(k))
    new = p.get()
    for ab, i, j, r, c in p.each():
        S.eq("todense in block " + ab, d[r, c], old[ab][i, j])
        S.eq("block %s unchanged" % ab, new[ab][i, j], old[ab][i, j])


@contract("dot, DOF-vector")
def _(S):
    p = P(S)
    x = S.arr("x", "R", (p.ndof,))
    for inplace in (False, True):
        b = S.run("dot_dof" if inplace else "Dot_dof", inplace, (p.A, x), (p.ndof,))
        S.shape("shape %s" % inplace, b, (p.ndof,))
        for a in "up":
            l, n = p.parts[a]
            i = S.index("i_" + a, n)
            S.eq("rows %s, in-place=%s" % (a, inplace), b[l[i]], p.product(a, i, lambda q, k: x[p.parts[q][0][k]]))


def nodal(S, p):
    """nodal vector with DOF-values y"""
    y = S.arr("y", "R", (p.ndof,))
    sh = (p.nnode, p.ndim)
    return y, S.arr("x", "R", sh, fact=lambda q, v: imp(S.inrange(q, sh), eq(v, y[p.dofs[q[0], q[1]]]))), sh


@contract("dot, nodal vector")
def _(S):
    p = P(S, all_used=True)
    y, x, sh = nodal(S, p)
    n, i = S.index("n", p.nnode), S.index("i", p.ndim)
    d = p.dofs[n, i]
    for inplace in (False, True):
        b = S.run("dot_node" if inplace else "Dot_node", inplace, (p.A, x), sh)
        S.shape("shape %s" % inplace, b, sh)
        for a in "up":
            with S.scope(p.isin(a, d)):
                S.eq("rows %s, in-place=%s" % (a, inplace), b[n, i], p.product(a, p.index(a, d), lambda q, j: y[p.parts[q][0][j]]))


@contract("reaction, DOF-vector")
def _(S):
    p = P(S)
    x, b0 = S.arr("x", "R", (p.ndof,)), S.arr("b", "R", (p.ndof,))
    i, j = S.index("i", p.np), S.index("j", p.nu)
    for inplace in (False, True):
        if inplace:
            c = S.it.new(b0.arr, "b")
            S.call("reaction_dof", p.A, x, c)
            b = S.wrap(S.it.load(c))
        else:
            b = S.call("Reaction_dof", p.A, x, b0)
        S.shape("shape %s" % inplace, b, (p.ndof,))
        S.eq("prescribed, in-place=%s" % inplace, b[p.iip[i]], p.product("p", i, lambda q, k: x[p.parts[q][0][k]]))
        S.eq("unknown untouched, in-place=%s" % inplace, b[p.iiu[j]], b0[p.iiu[j]])


@contract("reaction, nodal vector")
def _(S):
    p = P(S, all_used=True)
    y, x, sh = nodal(S, p)
    b0 = S.arr("b", "R", sh)
    n, i = S.index("n", p.nnode), S.index("i", p.ndim)
    d = p.dofs[n, i]
    for inplace in (False, True):
        if inplace:
            c = S.it.new(b0.arr, "b")
            S.call("reaction_node", p.A, x, c)
            b = S.wrap(S.it.load(c))
        else:
            b = S.call("Reaction_node", p.A, x, b0)
        S.shape("shape %s" % inplace, b, sh)
        with S.scope(p.isin("p", d)):
            S.eq("prescribed, in-place=%s" % inplace, b[n, i], p.product("p", p.index("p", d), lambda q, j: y[p.parts[q][0][j]]))
        with S.scope(p.isin("u", d)):
            S.eq("unknown untouched, in-place=%s" % inplace, b[n, i], b0[n, i])


@contract("reaction, prescribed part")
def _(S):
    p = P(S)
    x = {"u": S.arr("xu", "R", (p.nu,)), "p": S.arr("xp", "R", (p.np,))}
    k = S.index("k", p.np)
    for inplace in (False, True):
        b = S.run("reaction_p" if inplace else "Reaction_p", inplace, (p.A, x["u"], x["p"]), (p.np,))
        S.shape("shape %s" % inplace, b, (p.np,))
        S.eq("value, in-place=%s" % inplace, b[k], p.product("p", k, lambda q, j: x[q][j]))
