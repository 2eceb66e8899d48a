from spec import *


class P:
    """DOFs numbered unknown, prescribed, dependent; every dependent DOF is in the DOF-table"""

    def __init__(self, S):
        self.nelem, self.nne, self.nnode, self.ndim = S.size("nelem"), S.size("nne"), S.size("nnode"), S.size("ndim")
        self.nu, self.np, self.nd = S.size("nu", 0), S.size("np", 0), S.size("nd", 0)
        self.ni = add(self.nu, self.np)
        n = add(self.ni, self.nd)
        self.conn = S.arr("conn", "I", (self.nelem, self.nne), rng=(0, self.nnode))
        self.dofs = S.arr("dofs", "I", (self.nnode, self.ndim), rng=(0, n))
        S.assume(eq(S.amax(self.dofs), sub(n, ONE)))
        self.Cdu, self.Cdp, self.Cdi = S.sparse("Cdu", self.nd, self.nu), S.sparse("Cdp", self.nd, self.np), S.sparse("Cdi", self.nd, self.ni)
        self.args = (self.conn, self.dofs, self.Cdu, self.Cdp, self.Cdi)
        self.n, self.i = S.index("n", self.nnode), S.index("i", self.ndim)

        # every dependent DOF occurs in the DOF-table: at node wit_m(j), direction wit_i(j)
        j = fresh("j")
        a, b = app("wit_m", "I", j), app("wit_i", "I", j)
        S.forall_fact((j,), imp(land(ge(j, ZERO), lt(j, self.nd)), land(S.inrange((a, b), (self.nnode, self.ndim)), eq(self.dofs[a, b], add(self.ni, j)))), ["*"])
        self.y = S.arr("y", "R", (n,))
        sh = (self.nnode, self.ndim)
        # nodal vector in which entries that share a DOF agree
        self.x = S.arr("x", "R", sh, fact=lambda q, v: imp(S.inrange(q, sh), eq(v, self.y[self.dofs[q[0], q[1]]])))


@contract("index lists")
def _(S):
    p = P(S)
    nu, np_, ni, nd = [S.call(f, *p.args) for f in ("nnu", "nnp", "nni", "nnd")]
    S.eq("nnu", nu, p.nu)
    S.eq("nnp", np_, p.np)
    S.eq("nni", ni, p.ni)
    S.eq("nnd", nd, p.nd)
    for f, n, off in (("iiu", p.nu, ZERO), ("iip", p.np, p.nu), ("iii", p.ni, ZERO), ("iid", p.nd, p.ni)):
        r = S.call(f, *p.args)
        S.shape("shape " + f, r, (n,))
        k = S.index("k_" + f, n)
        S.eq(f, r[k], add(off, k))


def reduced(S, p, d, tied):
    r = p.y[d]
    if tied:
        r = add(r, Sum(S, (p.nd,), lambda j: mul(p.Cdi[j, d], p.y[add(p.ni, j)])))
    return r


@contract("AsDofs_i")
def _(S):
    p = P(S)
    r = S.call("AsDofs_i", *p.args, p.x)
    S.shape("shape", r, (p.ni,))
    d = p.dofs[p.n, p.i]
    with S.scope(lt(d, p.ni)):
        S.eq("value", r[d], reduced(S, p, d, True))


@contract("asDofs_i")
def _(S):
    p = P(S)
    d = p.dofs[p.n, p.i]
    for tied in (True, False):
        o = S.arr("out", "R", (p.ni,))
        c = S.it.new(o.arr, "out")
        S.call("asDofs_i", *p.args, p.x, c, tied)
        r = S.wrap(S.it.load(c))
        with S.scope(lt(d, p.ni)):
            S.eq("value, apply_tyings=%s" % tied, r[d], reduced(S, p, d, tied))
    o = S.arr("out", "R", (p.ni,))
    c = S.it.new(o.arr, "out")
    S.call("asDofs_i_default", *p.args, p.x, c)
    r = S.wrap(S.it.load(c))
    with S.scope(lt(d, p.ni)):
        S.eq("value, default", r[d], reduced(S, p, d, True))


@contract("copy_p")
def _(S):
    p = P(S)
    for nm, n in (("ndof", add(p.ni, p.nd)), ("nni", p.ni)):
        src, dst = S.arr("src", "R", (n,)), S.arr("dst", "R", (n,))
        c = S.it.new(dst.arr, "dst")
        S.call("copy_p", *p.args, src, c)
        r = S.wrap(S.it.load(c))
        d = S.index("d_" + nm, n)
        pres = land(ge(d, p.nu), lt(d, p.ni))
        S.shape("shape " + nm, r, (n,))
        with S.scope(pres):
            S.eq("prescribed copied " + nm, r[d], src[d])
        with S.scope(lnot(pres)):
            S.eq("others untouched " + nm, r[d], dst[d])
