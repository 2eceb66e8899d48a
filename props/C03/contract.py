from spec import *


class P:
    """DOF-table, distinct prescribed DOFs (any order, possibly none)"""

    def __init__(self, S):
        self.nelem, self.nne, self.nnode, self.ndim = S.size("nelem"), S.size("nne"), S.size("nnode"), S.size("ndim")
        self.np = S.size("np", 0)
        self.conn = S.arr("conn", "I", (self.nelem, self.nne), rng=(0, self.nnode))
        self.dofs = S.arr("dofs", "I", (self.nnode, self.ndim), rng=(0, None))
        self.ndof = add(S.amax(self.dofs), ONE)
        self.iip = S.arr("iip", "I", (self.np,), rng=(0, self.ndof))
        self.inv = S.distinct(self.iip)
        self.args = (self.conn, self.dofs, self.iip)
        self.sd = S.setdiff(self.dofs, self.iip)
        self.iiu = A(self.sd.R)
        self.nu = self.sd.L
        self.n, self.i = S.index("n", self.nnode), S.index("i", self.ndim)
        self.e, self.m = S.index("e", self.nelem), S.index("m", self.nne)
        self.d = self.dofs[self.n, self.i]
        self.isu = self.sd.isU(self.d)
        self.S = S

    def inp(self, d):
        """membership of the prescribed list, by definition"""
        j = fresh("j")
        return exists((j,), land(ge(j, ZERO), lt(j, self.np), eq(self.iip[j], d)))


@contract("partition")
def _(S):
    p = P(S)
    u, q = S.call("iiu", *p.args), S.call("iip_", *p.args)
    k, j = S.index("k", p.nu), S.index("j", p.np)
    a, b = S.index("a", p.nu), S.index("b", p.nu)
    S.shape("nnu", u, (S.call("nnu", *p.args),))
    S.shape("nnp", q, (S.call("nnp", *p.args),))
    S.eq("nnp is the length of the list", S.call("nnp", *p.args), p.np)
    S.eq("iip keeps the order", q[j], p.iip[j])
    with S.scope(lt(a, b)):
        S.holds("iiu ascending", lt(u[a], u[b]))
    S.holds("iiu not prescribed", ne(u[k], p.iip[j]))
    x, y = fresh("x"), fresh("y")
    S.holds("iiu are DOFs", land(ge(u[k], ZERO), lt(u[k], p.ndof)))
    # every DOF of the table is unknown or prescribed
    k2 = p.sd.pos(p.d)
    S.holds("complete", lor(p.inp(p.d), land(ge(k2, ZERO), lt(k2, p.nu), eq(u[k2], p.d))),)


@contract("masks")
def _(S):
    p = P(S)
    u, q = S.call("dofs_is_u", *p.args), S.call("dofs_is_p", *p.args)
    S.shape("shape u", u, (p.nnode, p.ndim))
    S.shape("shape p", q, (p.nnode, p.ndim))
    j = S.index("j", p.np)
    with S.scope(p.isu):
        S.eq("u of unknown", u[p.n, p.i], TRUE)
        S.eq("p of unknown", q[p.n, p.i], FALSE)
    with S.scope(lnot(p.isu)):
        S.eq("u of prescribed", u[p.n, p.i], FALSE)
        S.eq("p of prescribed", q[p.n, p.i], TRUE)
    # isU is the definition
    with S.scope(eq(p.iip[j], p.d)):
        S.eq("prescribed", q[p.n, p.i], TRUE)
    k = S.index("k", p.nu)
    with S.scope(eq(p.iiu[k], p.d)):
        S.eq("unknown", u[p.n, p.i], TRUE)


def copy(which, inplace):
    def f(S):
        p = P(S)
        src, dst = S.arr("src", "R", (p.nnode, p.ndim)), S.arr("dst", "R", (p.nnode, p.ndim))
        if inplace:
            c = S.it.new(dst.arr, "dst")
            S.call("copy_" + which, *p.args, src, c)
            r = S.wrap(S.it.load(c))
        else:
            r = S.call("Copy_" + which, *p.args, src, dst)
        S.shape("shape", r, (p.nnode, p.ndim))
        sel = p.isu if which == "u" else lnot(p.isu)
        with S.scope(sel):
            S.eq("copied", r[p.n, p.i], src[p.n, p.i])
        with S.scope(lnot(sel)):
            S.eq("untouched", r[p.n, p.i], dst[p.n, p.i])
    return f


for w in "up":
    contract("Copy_" + w)(copy(w, False))
    contract("copy_" + w)(copy(w, True))


def extract(which, src, inplace):
    def f(S):
        p = P(S)
        fn = ("a" if inplace else "A") + "sDofs_%s_%s" % (which, src)
        n = p.nu if which == "u" else p.np
        ii = p.iiu if which == "u" else p.iip
        y = S.arr("y", "R", (p.ndof,))
        k = S.index("k", n)
        if src == "dofval":
            r = S.run(fn, inplace, p.args + (y,), (n,))
            S.shape("shape", r, (n,))
            S.eq("value", r[k], y[ii[k]])
            return
        if src == "nodevec":
            sh = (p.nnode, p.ndim)
            x = S.arr("x", "R", sh, fact=lambda q, v: imp(S.inrange(q, sh), eq(v, y[p.dofs[q[0], q[1]]])))
            node, i = p.n, p.i
        else:
            sh = (p.nelem, p.nne, p.ndim)
            x = S.arr("x", "R", sh, fact=lambda q, v: imp(S.inrange(q, sh), eq(v, y[p.dofs[p.conn[q[0], q[1]], q[2]]])))
            node, i = p.conn[p.e, p.m], p.i
        r = S.run(fn, inplace, p.args + (x,), (n,))
        S.shape("shape", r, (n,))
        # the entry of every DOF that is referred to
        d = p.dofs[node, i]
        with S.scope(eq(ii[k], d)):
            S.eq("value", r[k], y[d])
    return f


for w in "up":
    for s in ("dofval", "nodevec", "elemvec"):
        contract("AsDofs_%s_%s" % (w, s))(extract(w, s, False))
        contract("asDofs_%s_%s" % (w, s))(extract(w, s, True))


def combine(kind, inplace):
    def f(S):
        p = P(S)
        fn = {"d": "DofsFromParitioned", "n": "NodeFromPartitioned", "e": "ElementFromPartitioned"}[kind]
        if inplace:
            fn = fn[0].lower() + fn[1:]
        sh = {"d": (p.ndof,), "n": (p.nnode, p.ndim), "e": (p.nelem, p.nne, p.ndim)}[kind]
        u, q = S.arr("u", "R", (p.nu,)), S.arr("p", "R", (p.np,))
        r = S.run(fn, inplace, p.args + (u, q), sh)
        S.shape("shape", r, sh)
        k, j = S.index("k", p.nu), S.index("j", p.np)
        if kind == "d":
            S.eq("unknown", r[p.iiu[k]], u[k])
            S.eq("prescribed", r[p.iip[j]], q[j])
            return
        ix = (p.n, p.i) if kind == "n" else (p.e, p.m, p.i)
        d = p.d if kind == "n" else p.dofs[p.conn[p.e, p.m], p.i]
        with S.scope(eq(p.iiu[k], d)):
            S.eq("unknown", r[ix], u[k])
        with S.scope(eq(p.iip[j], d)):
            S.eq("prescribed", r[ix], q[j])
    return f


for k in "dne":
    contract("combine " + k)(combine(k, False))
    contract("combine in place " + k)(combine(k, True))
