from spec import *
from elements import NNE, ND, TD, NAME

EXPLANATION = "Tensor ranks 0, 1, 2 and 4 (and 1, 2, 3 for shapes of given dimension); all other sizes are arbitrary."


def shape_of(S, f, *a):
    """a returned shape as a list of terms"""
    r = S.call(f, *a)
    n = cint(r.shape[0])
    if n is None:
        raise Unsup("rank of a shape")
    return [r[i] for i in range(n)]


def is_shape(S, name, s, want):
    S.holds(name + ": rank", TRUE if len(s) == len(want) else FALSE)
    for i, (x, y) in enumerate(zip(s, want)):
        S.eq("%s: dimension %d" % (name, i), x, t_(y))


def broadcast(S, name, r, a, shape, tail):
    S.shape(name + ": shape", r, list(shape) + list(tail))
    ix = [S.index("i%d!%s" % (i, name), n) for i, n in enumerate(list(shape) + list(tail))]
    S.eq(name + ": every component", r[tuple(ix)], a[tuple(ix[:len(shape)])])


RANK = {0: 0, 1: 1, 2: 2, 4: 4}
for k in RANK:
    for f in ("as", "xs"):
        @contract("AsTensor%s rank %d" % ("<rank>" if f == "as" else "", k))
        def _(S, k=k, f=f):
            sh = (S.size("nelem", 0), S.size("nip"))
            n = S.size("n", 0)
            a = S.arr("a", "R", sh)
            broadcast(S, "ret", S.call("%s%d" % (f, k), a, n), a, sh, [n] * k)

for f in ("list2", "arr2", "vec2"):
    @contract("AsTensor " + f)
    def _(S, f=f):
        sh = (S.size("nelem", 0), S.size("nip"))
        n, m = S.size("n"), S.size("m")
        a = S.arr("a", "R", sh)
        broadcast(S, "ret", S.call(f, a, n, m), a, sh, [n, m])


@contract("AsTensor of a list of scalars")
def _(S):
    sh = (S.size("nip", 0),)
    n, m = S.size("n"), S.size("m")
    a = S.arr("a", "R", sh)
    broadcast(S, "ret", S.call("scalar2", a, n, m), a, sh, [n, m])


def written(S, f, args, shape):
    o = S.arr("out", "R", shape)
    c = S.it.new(o.arr, "out")
    S.call(f, *(list(args) + [c]))
    return S.wrap(S.it.load(c))


for k in RANK:
    @contract("asTensor rank %d" % k)
    def _(S, k=k):
        sh = (S.size("nelem", 0), S.size("nip"))
        tail = [S.size("n%d" % i) for i in range(k)]
        a = S.arr("a", "R", sh)
        broadcast(S, "ret", written(S, "write%d" % (2 + k), [a], list(sh) + tail), a, sh, tail)

for d in (1, 2, 3):
    @contract("as3d of %d components" % d)
    def _(S, d=d):
        n = S.size("nnode", 0)
        a = S.arr("a", "R", (n, d))
        r = S.call("as3d", a)
        S.shape("shape", r, (n, 3))
        m = S.index("m", n)
        for i in range(3):
            S.eq("component %d" % i, r[m, i], a[m, i] if i < d else ZERO)


@contract("Vector: shapes and allocations")
def _(S):
    nnode, nelem, nne, ndim = S.size("nnode"), S.size("nelem", 0), S.size("nne"), S.size("ndim")
    conn = S.arr("conn", "I", (nelem, nne), (0, nnode))
    dofs = S.arr("dofs", "I", (nnode, ndim), (0, None))
    v = S.call("vector", conn, dofs)
    ndof = add(S.amax(dofs), ONE)
    for n, x in (("nelem", nelem), ("nne", nne), ("nnode", nnode), ("ndim", ndim), ("ndof", ndof)):
        S.eq(n, S.call("v_" + n, v), x)
    sh = {"dofval": (ndof,), "nodevec": (nnode, ndim), "elemvec": (nelem, nne, ndim), "elemmat": (nelem, mul(nne, ndim), mul(nne, ndim))}
    x = S.real("x")
    for n, w in sh.items():
        is_shape(S, "shape_" + n, shape_of(S, "v_" + n, v), w)
        S.shape("allocate_" + n, S.call("va_" + n, v), w)
        r = S.call("vf_" + n, v, x)
        S.shape("allocate_%s(val)" % n, r, w)
        S.eq("allocate_%s(val): every entry" % n, r[tuple(S.index("i%d!%s" % (i, n), m) for i, m in enumerate(w))], x)
    u, d = S.arr("u", "R", (nnode, ndim)), S.arr("d", "R", (ndof,))
    S.shape("AsDofs", S.call("v_AsDofs", v, u), shape_of(S, "v_dofval", v))
    S.shape("AsNode", S.call("v_AsNode", v, d), shape_of(S, "v_nodevec", v))
    S.shape("AsElement", S.call("v_AsElement", v, d), shape_of(S, "v_elemvec", v))


for k in NAME:
    def scheme(S, k=k):
        nelem, nip = S.size("nelem"), S.size("nip")
        S.modular_inv()
        x = S.arr("x", "R", (nelem, NNE[k], ND[k]))
        return nelem, nip, S.call(k + "_scheme", x, S.arr("xi", "R", (nip, ND[k])), S.arr("w", "R", (nip,)))

    def shapes(nelem, nip, k=k):
        nne, nd, td = NNE[k], ND[k], TD[k]
        return {"elemvec": (nelem, nne, nd), "elemmat": (nelem, nne * nd, nne * nd), "qscalar": (nelem, nip), "qtensor": (nelem, nip),
                "qvector": (nelem, nip, td), **{"qtensor%d" % r: (nelem, nip) + (td,) * r for r in RANK}, **{"xtensor%d" % r: (nelem, nip) + (td,) * r for r in RANK}}

    @contract(NAME[k] + ": shapes")
    def _(S, k=k, scheme=scheme, shapes=shapes):
        nelem, nip, Q = scheme(S)
        for n, x in (("nelem", nelem), ("nne", NNE[k]), ("ndim", ND[k]), ("tdim", TD[k]), ("nip", nip)):
            S.eq(n, S.call(k + "_" + n, Q), t_(x))
        for n, w in shapes(nelem, nip).items():
            is_shape(S, n, shape_of(S, k + "_" + n, Q), w)
        n = S.size("n", 0)
        for f, w in (("elemvec_n", (nelem, NNE[k], n)), ("qvector_n", (nelem, nip, n)), ("qtensor2_n", (nelem, nip, n, n)), ("qtensor3_n", (nelem, nip, n, n, n)),
                     ("xtensor1_n", (nelem, nip, n)), ("xtensor3_n", (nelem, nip, n, n, n))):
            is_shape(S, f, shape_of(S, k + "_" + f, Q, n), w)

    @contract(NAME[k] + ": allocations")
    def _(S, k=k, scheme=scheme, shapes=shapes):
        nelem, nip, Q = scheme(S)
        sh = shapes(nelem, nip)
        x, z = S.real("x"), S.int("z")
        for n in ("elemvec", "elemmat", "qscalar", "qtensor1", "qtensor2", "qtensor4", "xtensor1", "xtensor2"):
            S.shape(n, S.call("%sa_%s" % (k, n), Q), sh[n])
            for f, val in (("f", x), ("i", z)):
                if f == "i" and n not in ("elemvec", "qtensor2"):
                    continue
                r = S.call("%s%s_%s" % (k, f, n), Q, val)
                S.shape("%s(%s)" % (n, f), r, sh[n])
                S.eq("%s(%s): every entry" % (n, f), r[tuple(S.index("i%d!%s" % (i, n + f), t_(m)) for i, m in enumerate(sh[n]))], val)

    @contract(NAME[k] + ": broadcasts")
    def _(S, k=k, scheme=scheme, shapes=shapes):
        nelem, nip, Q = scheme(S)
        a = S.arr("a", "R", (nelem, nip))
        for r in (1, 2, 4):
            for f in ("as", "xs"):
                broadcast(S, "%s%d" % (f, r), S.call("%s_%s%d" % (k, f, r), Q, a), a, (nelem, nip), [num(TD[k])] * r)
        broadcast(S, "asTensor", written(S, k + "_write4", [Q, a], (nelem, nip, TD[k], TD[k])), a, (nelem, nip), [num(TD[k])] * 2)

    @contract(NAME[k] + ": shapes of the operators")
    def _(S, k=k, scheme=scheme, shapes=shapes):
        nelem, nip, Q = scheme(S)
        S.havoc(Q, types=(Arr,))
        get = lambda n, *a: shape_of(S, k + "_" + n, Q, *a)
        arr = lambda n, s: S.arr(n, "R", s)
        u = arr("u", get("elemvec"))
        S.shape("dV", S.call(k + "_dV", Q), get("qscalar"))
        S.shape("InterpQuad_vector", S.call(k + "_interp", Q, u), get("qvector_n", num(ND[k])))
        S.shape("GradN_vector", S.call(k + "_grad", Q, u), get("qtensor2"))
        S.shape("Int_N_vector_dV", S.call(k + "_intvec", Q, arr("v", get("qvector_n", num(ND[k])))), get("elemvec"))
        S.shape("Int_N_scalar_NT_dV", S.call(k + "_mass", Q, arr("s", get("qscalar"))), get("elemmat"))
        S.shape("Int_gradN_dot_tensor2_dV", S.call(k + "_force", Q, arr("t", get("qtensor2"))), get("elemvec"))
        S.shape("Int_gradN_dot_tensor4_dot_gradNT_dV", S.call(k + "_stiff", Q, arr("c", get("qtensor4"))), get("elemmat"))
