from elements import *


def run(S, p, name, inplace, arg, shape):
    f = name if not inplace else name[0].lower() + name[1:]
    r = S.run("%s_%s" % (p.k, f), inplace, [p.Q, arg], shape)
    S.shape("shape", r, shape)
    return r


def n_vector(S, k, inplace):
    p = Any(S, k).basis().volumes()
    n = S.size("ncomp")
    v = S.arr("v", "R", (p.nelem, p.nip, n))
    r = run(S, p, "Int_N_vector_dV", inplace, v, (p.nelem, p.nne, n))
    i = S.index("i", n)
    for m in range(p.nne):
        S.eq("node %d" % m, r[p.e, m, i], Sum(S, (p.nip,), lambda q: mul(mul(p.N(m, q=q), v[p.e, q, i]), p.dV(q=q))))


def n_scalar(S, k, inplace):
    p = Any(S, k).basis().volumes()
    v = S.arr("v", "R", (p.nelem, p.nip))
    w = p.nne * p.nd
    r = run(S, p, "Int_N_scalar_NT_dV", inplace, v, (p.nelem, w, w))
    for m in range(p.nne):
        for n in range(p.nne):
            for i in range(p.nd):
                for j in range(p.nd):
                    S.eq("(%d, %d) (%d, %d)" % (m, i, n, j), r[p.e, m * p.nd + i, n * p.nd + j],
                         ZERO if i != j else Sum(S, (p.nip,), lambda q: mul(mul(mul(p.N(m, q=q), v[p.e, q]), p.N(n, q=q)), p.dV(q=q))))


def tensor2(S, k, inplace):
    p = Any(S, k).gradients().volumes()
    s = S.arr("s", "R", (p.nelem, p.nip, p.td, p.td))
    r = run(S, p, "Int_gradN_dot_tensor2_dV", inplace, s, (p.nelem, p.nne, p.nd))
    for m in range(p.nne):
        for k_ in range(p.nd):
            S.eq("node %d, component %d" % (m, k_), r[p.e, m, k_],
                 Sum(S, (p.nip,), lambda q: mul(rsum(mul(p.B(m, i, j, k_, q=q), s[p.e, q, i, j]) for i in range(p.td) for j in range(p.td)), p.dV(q=q))))


def tensor4(S, k, inplace):
    p = Any(S, k).gradients().volumes()
    C = S.arr("C", "R", (p.nelem, p.nip, p.td, p.td, p.td, p.td))
    w = p.nne * p.nd
    r = run(S, p, "Int_gradN_dot_tensor4_dot_gradNT_dV", inplace, C, (p.nelem, w, w))
    T = range(p.td)
    for m in range(p.nne):
        for n in range(p.nne):
            for a in range(p.nd):
                for b in range(p.nd):
                    S.eq("(%d, %d) (%d, %d)" % (m, a, n, b), r[p.e, m * p.nd + a, n * p.nd + b],
                         Sum(S, (p.nip,), lambda q: mul(rsum(mul(mul(p.B(m, i, j, a, q=q), C[p.e, q, i, j, x, l]), p.B(n, l, x, b, q=q))
                                                             for i in T for j in T for x in T for l in T
                                                             if p.B(m, i, j, a) is not ZERO and p.B(n, l, x, b) is not ZERO), p.dV(q=q))))


def work(S, k):
    """internal force times displacement equals the volume sum of stress contracted with the displacement gradient"""
    p = Any(S, k).volumes()
    s = S.arr("s", "R", (p.nelem, p.nip, p.td, p.td))
    u = S.arr("u", "R", (p.nelem, p.nne, p.nd))
    f = S.call(k + "_Int_gradN_dot_tensor2_dV", p.Q, s)
    g = S.call(k + "_GradN_vector", p.Q, u)
    T = range(p.td)
    S.eq("virtual work", rsum(mul(f[p.e, m, i], u[p.e, m, i]) for m in range(p.nne) for i in range(p.nd)),
         Sum(S, (p.nip,), lambda q: mul(rsum(mul(s[p.e, q, i, j], g[p.e, q, i, j]) for i in T for j in T), p.dV(q=q))))


def work_n(S, k):
    """the integral of a vector is the transpose of interpolation"""
    p = Any(S, k).volumes()
    v = S.arr("v", "R", (p.nelem, p.nip, p.nd))
    u = S.arr("u", "R", (p.nelem, p.nne, p.nd))
    f = S.call(k + "_Int_N_vector_dV", p.Q, v)
    g = S.call(k + "_InterpQuad_vector", p.Q, u)
    S.eq("transpose of interpolation", rsum(mul(f[p.e, m, i], u[p.e, m, i]) for m in range(p.nne) for i in range(p.nd)),
         Sum(S, (p.nip,), lambda q: mul(rsum(mul(v[p.e, q, i], g[p.e, q, i]) for i in range(p.nd)), p.dV(q=q))))


def mass(S, k):
    """total mass: for arbitrary geometry and scheme the shape functions sum to one, so the entries of M sum to the mass per direction"""
    if k == "h":
        # modular: in terms of the sum of the shape functions, which is one (C11)
        p = Any(S, k).basis().volumes()
        rho = S.arr("rho", "R", (p.nelem, p.nip))
        M = S.call(k + "_Int_N_scalar_NT_dV", p.Q, rho)
        for i in range(p.nd):
            def f(q):
                n = rsum(p.N(m, q=q) for m in range(p.nne))
                return mul(mul(mul(n, n), rho[p.e, q]), p.dV(q=q))
            S.eq("total mass, direction %d" % i, rsum(M[p.e, m * p.nd + i, n * p.nd + i] for m in range(p.nne) for n in range(p.nne)), Sum(S, (p.nip,), f))
        return
    S.modular_inv()
    nne, nd = NNE[k], ND[k]
    nelem, nip = S.size("nelem"), S.size("nip")
    Q = S.call(k + "_scheme", S.arr("x", "R", (nelem, nne, nd)), S.arr("xi", "R", (nip, nd)), S.arr("w", "R", (nip,)))
    rho = S.arr("rho", "R", (nelem, nip))
    M = S.call(k + "_Int_N_scalar_NT_dV", Q, rho)
    v = S.call(k + "_dV", Q)
    e = S.index("e", nelem)
    for i in range(nd):
        S.eq("total mass, direction %d" % i, rsum(M[e, m * nd + i, n * nd + i] for m in range(nne) for n in range(nne)),
             Sum(S, (nip,), lambda q: mul(rho[e, q], v[e, q])))


def stiffness(S, k):
    """K u is the internal force of the stress C : grad u"""
    p = Any(S, k)
    C = S.arr("C", "R", (p.nelem, p.nip, p.td, p.td, p.td, p.td))
    u = S.arr("u", "R", (p.nelem, p.nne, p.nd))
    K = S.call(k + "_Int_gradN_dot_tensor4_dot_gradNT_dV", p.Q, C)
    g = S.call(k + "_GradN_vector", p.Q, u)
    T = range(p.td)
    st = [[(lambda e, q, i=i, j=j: rsum(mul(C[e, q, i, j, x, l], g[e, q, l, x]) for x in T for l in T)) for j in T] for i in T]

    def sig(z):
        e, q, i, j = z
        r = ZERO
        for a in T:
            for b in T:
                r = ite(land(eq(i, num(a)), eq(j, num(b))), st[a][b](e, q), r)
        return r

    f = S.call(k + "_Int_gradN_dot_tensor2_dV", p.Q, S.lam((p.nelem, p.nip, p.td, p.td), "R", sig))
    for m in range(p.nne):
        for a in range(p.nd):
            S.eq("K u (%d, %d)" % (m, a), rsum(mul(K[p.e, m * p.nd + a, n * p.nd + b], u[p.e, n, b]) for n in range(p.nne) for b in range(p.nd)), f[p.e, m, a])


for k in "qpah":
    for inplace in (False, True):
        sfx = " in place" * inplace
        contract("%s integral of vector%s" % (NAME[k], sfx))(lambda S, k=k, i=inplace: n_vector(S, k, i))
        contract("%s integral of scalar%s" % (NAME[k], sfx))(lambda S, k=k, i=inplace: n_scalar(S, k, i))
        contract("%s integral of tensor2%s" % (NAME[k], sfx))(lambda S, k=k, i=inplace: tensor2(S, k, i))
        contract("%s integral of tensor4%s" % (NAME[k], sfx))(lambda S, k=k, i=inplace: tensor4(S, k, i))
    contract("%s virtual work" % NAME[k])(lambda S, k=k: work(S, k))
    contract("%s transpose of interpolation" % NAME[k])(lambda S, k=k: work_n(S, k))
    contract("%s total mass" % NAME[k])(lambda S, k=k: mass(S, k))
    contract("%s stiffness" % NAME[k])(lambda S, k=k: stiffness(S, k))
