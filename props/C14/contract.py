from elements import *


def same(S, k, Q, F, nelem, nip):
    """all that the operators depend on (C12, C13): shape functions, gradients, volumes"""
    nne, nd = NNE[k], ND[k]
    e, q = S.index("e", nelem), S.index("q", nip)
    S.eq("nelem", S.call(k + "_nelem", Q), nelem)
    S.eq("nip", S.call(k + "_nip", Q), nip)
    a, b = S.call(k + "_dV", Q), S.call(k + "_dV", F)
    S.shape("shape of the volumes", a, (nelem, nip))
    S.eq("volumes", a[e, q], b[e, q])
    f = k + ("_B" if k == "a" else "_GradN")
    a, b = S.call(f, Q), S.call(f, F)
    sh = (nelem, nip, nne, 3, 3, 3) if k == "a" else (nelem, nip, nne, nd)
    S.shape("shape of the gradients", a, sh)
    import itertools
    for ix in itertools.product(*[range(n) for n in sh[2:]]):
        S.eq("gradients %s" % (ix,), a[(e, q) + ix], b[(e, q) + ix])
    u = S.arr("u", "R", (nelem, nne, nd))
    a, b = S.call(k + "_Interp", Q, u), S.call(k + "_Interp", F, u)
    for i in range(nd):
        S.eq("interpolation %d" % i, a[e, q, i], b[e, q, i])


def update(S, k, kind):
    S.modular_inv()
    nelem, nip = S.size("nelem"), S.size("nip")
    shape = (nelem, NNE[k], ND[k])
    if kind == "default":
        mk = lambda x: S.call(k + "_make", x)
        nip = 2 ** ND[k]
    else:
        xi, w = S.arr("xi", "R", (nip, ND[k])), S.arr("w", "R", (nip,))
        t = S.real("t")
        mk = (lambda x: S.call(k + "_thick", x, xi, w, t)) if kind == "thickness" else (lambda x: S.call(k + "_scheme", x, xi, w))
    Q = mk(S.arr("x0", "R", shape))
    # what an update may change has any content: the state after any number of updates
    S.evolve(Q, lambda n: S.call(k + "_update", Q, S.arr("x!%d" % n, "R", shape)))
    y, z = S.arr("y", "R", shape), S.arr("z", "R", shape)
    c = S.it.new(y.arr, "y")
    S.call(k + "_update_later", Q, c, z)
    same(S, k, Q, mk(y), nelem, nip)


def later(S, k):
    """later changes to the arrays given upon construction have no effect"""
    S.modular_inv()
    nelem, nip = S.size("nelem"), S.size("nip")
    shape = (nelem, NNE[k], ND[k])
    x, xi, w = S.arr("x", "R", shape), S.arr("xi", "R", (nip, ND[k])), S.arr("w", "R", (nip,))
    y, eta, v = S.arr("y", "R", shape), S.arr("eta", "R", (nip, ND[k])), S.arr("v", "R", (nip,))
    F = S.call(k + "_scheme", x, xi, w)
    Q = S.call(k + "_later", S.it.new(x.arr, "x"), S.it.new(xi.arr, "xi"), S.it.new(w.arr, "w"), y, eta, v)
    same(S, k, Q, F, nelem, nip)
    z = S.arr("z", "R", shape)
    S.call(k + "_update", Q, z)
    S.call(k + "_update", F, z)
    same(S, k, Q, F, nelem, nip)


for k in "qpah":
    for kind in ("scheme", "default") + (("thickness",) if k == "p" else ()):
        contract("%s update_x (%s)" % (NAME[k], kind))(lambda S, k=k, kind=kind: update(S, k, kind))
    contract("%s construction" % NAME[k])(lambda S, k=k: later(S, k))
