from spec import *

S4 = ((-1, -1), (1, -1), (1, 1), (-1, 1))
S8 = tuple(s + (-1,) for s in S4) + tuple(s + (1,) for s in S4)


def shapefun(S8, xi, m):
    """N_m(xi) = prod_k (1 + s_mk xi_k) / 2^d"""
    r = num(Fraction(1, len(S8)))
    for s, x in zip(S8[m], xi):
        r = mul(r, add(ONE, scale(s, x)))
    return r


def shapegrad(S8, xi, m, k):
    r = num(Fraction(S8[m][k], len(S8)))
    for j, (s, x) in enumerate(zip(S8[m], xi)):
        if j != k:
            r = mul(r, add(ONE, scale(s, x)))
    return r


def det(J):
    if len(J) == 2:
        return sub(mul(J[0][0], J[1][1]), mul(J[0][1], J[1][0]))
    r = ZERO
    for a, b, c, s in ((0, 1, 2, 1), (1, 2, 0, 1), (2, 0, 1, 1), (2, 1, 0, -1), (1, 0, 2, -1), (0, 2, 1, -1)):
        r = add(r, scale(s, mul(mul(J[0][a], J[1][b]), J[2][c])))
    return r


class E:
    """an element class on an arbitrary geometry with an arbitrary integration scheme"""

    def __init__(self, S, k, thick=False):
        S.modular_inv()
        self.S, self.k = S, k
        self.s = S8 if k == "h" else S4
        self.nne, self.nd = len(self.s), len(self.s[0])
        self.nelem, self.nip = S.size("nelem"), S.size("nip")
        self.x = S.arr("x", "R", (self.nelem, self.nne, self.nd))
        self.xi, self.w = S.arr("xi", "R", (self.nip, self.nd)), S.arr("w", "R", (self.nip,))
        self.t = S.real("t") if thick else ONE
        self.Q = S.call(k + ("_scheme_thick" if thick else "_scheme"), self.x, self.xi, self.w, *([self.t] if thick else []))
        self.e, self.q = S.index("e", self.nelem), S.index("q", self.nip)
        self.pt = [self.xi[self.q, i] for i in range(self.nd)]
        self.N = [shapefun(self.s, self.pt, m) for m in range(self.nne)]
        self.G = [[shapegrad(self.s, self.pt, m, i) for i in range(self.nd)] for m in range(self.nne)]
        self.X = [[self.x[self.e, m, i] for i in range(self.nd)] for m in range(self.nne)]
        self.J = [[rsum(mul(self.G[m][i], self.X[m][j]) for m in range(self.nne)) for j in range(self.nd)] for i in range(self.nd)]
        self.det = S.det(self.J)
        self.r = rsum(mul(self.N[m], self.X[m][1]) for m in range(self.nne))


for n in (2, 3):
    @contract("inverse %d" % n)
    def _(S, n=n):
        A, o = S.arr("A", "R", (n, n)), S.arr("o", "R", (n, n))
        c = S.it.new(o.arr, "o")
        d = S.call("inv%d" % n, A, c)
        I = S.wrap(S.it.load(c))
        S.shape("shape of the inverse", I, (n, n))
        S.eq("determinant", d, det([[A[i, j] for j in range(n)] for i in range(n)]))
        with S.scope(ne(d, ZERO)):
            for i in range(n):
                for j in range(n):
                    S.eq("inverse times matrix (%d, %d)" % (i, j), rsum(mul(I[i, k], A[k, j]) for k in range(n)), 1 if i == j else 0)


def volume(S, k, thick=False):
    p = E(S, k, thick)
    v = S.call(k + "_dV", p.Q)
    S.shape("shape of the volumes", v, (p.nelem, p.nip))
    ex = mul(p.w[p.q], p.det)
    if k == "a":
        ex = mul(ex, mul(scale(2, S.pi()), p.r))
    S.eq("volume: weight times Jacobian determinant" + (" times thickness" if thick else "") + (" times circumference" if k == "a" else ""),
         v[p.e, p.q], mul(ex, p.t))


for k in "qpah":
    contract("volume " + k)(lambda S, k=k: volume(S, k))
contract("volume p thickness")(lambda S: volume(S, "p", True))


def unity(S, k):
    p = E(S, k)
    u = S.arr("u", "R", (p.nelem, p.nne, p.nd))
    v = S.call(k + "_Interp", p.Q, u)
    S.shape("shape", v, (p.nelem, p.nip, p.nd))
    for i in range(p.nd):
        S.eq("shape functions, component %d" % i, v[p.e, p.q, i], rsum(mul(p.N[m], u[p.e, m, i]) for m in range(p.nne)))
    S.eq("the shape functions sum to one", rsum(p.N), 1)
    c = S.real("c")
    v = S.call(k + "_Interp", p.Q, S.lam((p.nelem, p.nne, p.nd), "R", lambda q: c))
    S.eq("a constant is interpolated exactly", v[p.e, p.q, 0], c)
    v = S.call(k + "_Interp", p.Q, p.x)


for k in "qpah":
    contract("shape functions " + k)(lambda S, k=k: unity(S, k))


def gradient(S, k, dN, p, nd, rng=None):
    """dN(m, i): sums to zero, reproduces linear fields"""
    with S.scope(ne(p.det, ZERO)):
        for i in (range(nd) if rng is None else rng):
            S.eq("gradients sum to zero, direction %d" % i, rsum(dN(m, i) for m in range(p.nne)), 0)
            for j in range(nd):
                # field x_j: with the above, every linear field
                S.eq("gradient %d of the linear field %d" % (i, j), rsum(mul(dN(m, i), p.X[m][j]) for m in range(p.nne)), 1 if i == j else 0,
                     rewrite=lambda d: sub(d, S.solve_inv(p.J, i, j)))


for k in "qph":
    for i in range(3 if k == "h" else 2):
        @contract("gradient %s %d" % (k, i))
        def _(S, k=k, i=i):
            p = E(S, k)
            g = S.call(k + "_GradN", p.Q)
            S.shape("shape of the gradients", g, (p.nelem, p.nip, p.nne, p.nd))
            gradient(S, k, lambda m, j: g[p.e, p.q, m, j], p, p.nd, (i,))


@contract("gradient a")
def _(S):
    p = E(S, "a")
    B = S.call("a_B", p.Q)
    S.shape("shape of B", B, (p.nelem, p.nip, 4, 3, 3, 3))
    # x_0 is the axial, x_1 the radial direction; (r, theta, z) = (0, 1, 2) in B
    gradient(S, "a", lambda m, i: B[p.e, p.q, m, *((2, 2, 2) if i == 0 else (0, 0, 0))], p, 2)
    for m in range(4):
        S.eq("B r z z (%d)" % m, B[p.e, p.q, m, 0, 2, 2], B[p.e, p.q, m, 0, 0, 0])
        S.eq("B z r r (%d)" % m, B[p.e, p.q, m, 2, 0, 0], B[p.e, p.q, m, 2, 2, 2])
        with S.scope(ne(p.r, ZERO)):
            S.eq("B hoop (%d)" % m, mul(B[p.e, p.q, m, 1, 1, 0], p.r), p.N[m])
        for i in range(3):
            for j in range(3):
                for l in range(3):
                    if (i, j, l) not in ((0, 0, 0), (0, 2, 2), (1, 1, 0), (2, 0, 0), (2, 2, 2)):
                        S.eq("B %d %d %d (%d)" % (i, j, l, m), B[p.e, p.q, m, i, j, l], 0)


@contract("default schemes")
def _(S):
    for nm, n, d, pos in (("gauss4", 4, 2, True), ("nodal4", 4, 2, False), ("mid4", 1, 2, None), ("gauss8", 8, 3, True), ("nodal8", 8, 3, False)):
        xi, w = S.call(nm + "_xi"), S.call(nm + "_w")
        s = S4 if d == 2 else S8
        S.eq(nm + ": nip", S.call(nm + "_nip"), n)
        S.shape(nm + ": xi", xi, (n, d))
        S.shape(nm + ": w", w, (n,))
        S.eq(nm + ": the weights sum to the volume of the isoparametric domain", rsum(w[q] for q in range(n)), 2 ** d)
        for q in range(n):
            for i in range(d):
                if pos is None:
                    S.eq("%s: xi(%d, %d)" % (nm, q, i), xi[q, i], 0)
                elif pos:
                    S.eq("%s: 3 xi(%d, %d)^2" % (nm, q, i), mul(num(3), mul(xi[q, i], xi[q, i])), 1)
                    S.holds("%s: sign of xi(%d, %d)" % (nm, q, i), ge(scale(s[q][i], xi[q, i]), ZERO))
                else:
                    S.eq("%s: xi(%d, %d)" % (nm, q, i), xi[q, i], s[q][i])


def affine(S, k):
    """default (Gauss) scheme: the volumes of a parallelogram (parallelepiped) sum to its exact volume"""
    s = S8 if k == "h" else S4
    nd = len(s[0])
    nelem = S.size("nelem")
    c, a = S.arr("c", "R", (nelem, nd)), S.arr("a", "R", (nelem, nd, nd))

    def pos(q):
        e, m, i = q
        r = c[e, i]
        for j in range(nd):
            on = lor(*[eq(m, num(n)) for n in range(len(s)) if s[n][j] > 0])
            r = add(r, ite(on, a[e, j, i], ZERO))
        return r

    Q = S.call(k + "_make", S.lam((nelem, len(s), nd), "R", pos))
    v = S.call(k + "_dV", Q)
    S.shape("shape of the volumes", v, (nelem, len(s)))
    e = S.index("e", nelem)
    D = det([[a[e, j, i] for i in range(nd)] for j in range(nd)])
    ex = D
    if k == "a":
        # Pappus: area times the circumference at the centroid
        ex = mul(ex, mul(scale(2, S.pi()), add(c[e, 1], scale(Fraction(1, 2), add(a[e, 0, 1], a[e, 1, 1])))))
    S.eq("exact volume of an affine element", rsum(v[e, q] for q in range(len(s))), ex)


for k in "qpah":
    contract("affine volume " + k)(lambda S, k=k: affine(S, k))


@contract("affine volume p thickness")
def _(S):
    nelem = S.size("nelem")
    x, t = S.arr("x", "R", (nelem, 4, 2)), S.real("t")
    v, o = S.call("p_dV", S.call("p_thick", x, t)), S.call("p_dV", S.call("p_make", x))
    e = S.index("e", nelem)
    for q in range(4):
        S.eq("thickness %d" % q, v[e, q], mul(t, o[e, q]))
