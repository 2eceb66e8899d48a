from elements import *


def interp(S, k, inplace):
    p = Any(S, k).basis()
    # any number of components, except for the plane class whose operator is specialised to two
    n = p.nd if k == "q" else S.size("ncomp")
    u = S.arr("u", "R", (p.nelem, p.nne, n))
    r = S.run(k + ("_interpQuad_vector" if inplace else "_InterpQuad_vector"), inplace, [p.Q, u], (p.nelem, p.nip, n))
    S.shape("shape", r, (p.nelem, p.nip, n))
    for i in (range(n) if k == "q" else [S.index("i", n)]):
        S.eq("component %s" % (i if k == "q" else "i"), r[p.e, p.q, i], rsum(mul(p.N(m), u[p.e, m, i]) for m in range(p.nne)))


def operator(S, k, name, inplace):
    p = Any(S, k).gradients()
    u = S.arr("u", "R", (p.nelem, p.nne, p.nd))
    f = name if not inplace else name[0].lower() + name[1:]
    r = S.run("%s_%s" % (k, f), inplace, [p.Q, u], (p.nelem, p.nip, p.td, p.td))
    S.shape("shape", r, (p.nelem, p.nip, p.td, p.td))
    for i in range(p.td):
        for j in range(p.td):
            g, gT = p.grad(u, i, j), p.grad(u, j, i)
            x = {"GradN_vector": g, "GradN_vector_T": gT, "SymGradN_vector": scale(Fraction(1, 2), add(g, gT))}[name]
            S.eq("component (%d, %d)" % (i, j), r[p.e, p.q, i, j], x)


for k in "qpah":
    for inplace in (False, True):
        contract("%s interpolation%s" % (NAME[k], " in place" * inplace))(lambda S, k=k, i=inplace: interp(S, k, i))
        for name in ("GradN_vector", "GradN_vector_T", "SymGradN_vector"):
            contract("%s %s%s" % (NAME[k], name, " in place" * inplace))(lambda S, k=k, n=name, i=inplace: operator(S, k, n, i))
