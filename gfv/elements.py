"""Specification of the element classes: q plane (2-d), p plane in 3-d tensor space, a axisymmetric, h hexahedron."""
from spec import *

NNE = {"q": 4, "p": 4, "a": 4, "h": 8}
ND = {"q": 2, "p": 2, "a": 2, "h": 3}
TD = {"q": 2, "p": 3, "a": 3, "h": 3}
NAME = {"q": "Quad4::Quadrature", "p": "Quad4::QuadraturePlanar", "a": "Quad4::QuadratureAxisymmetric", "h": "Hex8::Quadrature"}
# axisymmetric: tensor directions (r, theta, z) = (0, 1, 2); node directions (z, r) = (0, 1)
AXI = {(0, 0): (0, 1), (0, 2): (2, 0), (1, 1): (0, 1), (2, 0): (0, 1), (2, 2): (2, 0)}


class Any:
    """an element object with arbitrary content: all arrays of reals that it stores are replaced by arbitrary ones, so
    that the operators are specified in terms of what the object reports (shape functions, gradients, volumes)"""

    def __init__(self, S, k):
        self.S, self.k = S, k
        self.nne, self.nd, self.td = NNE[k], ND[k], TD[k]
        self.nelem, self.nip = S.size("nelem"), S.size("nip")
        S.modular_inv()
        x = S.arr("x", "R", (self.nelem, self.nne, self.nd))
        xi, w = S.arr("xi", "R", (self.nip, self.nd)), S.arr("w", "R", (self.nip,))
        self.Q = S.call(k + "_scheme", x, xi, w)
        if not S.havoc(self.Q, types=(Arr,)):
            raise Unsup("no content")
        self.e, self.q = S.index("e", self.nelem), S.index("q", self.nip)

    def basis(self):
        """the shape functions, from what is interpolated for a unit nodal value"""
        self._N = [self.S.call(self.k + "_InterpQuad_vector", self.Q, self.S.lam((self.nelem, self.nne, self.nd), "R", lambda z, m=m: ite(eq(z[1], num(m)), ONE, ZERO)))
                   for m in range(self.nne)]
        return self

    def N(self, m, e=None, q=None):
        return self._N[m][e or self.e, q or self.q, 0]

    def gradients(self):
        self._g = self.S.call(self.k + ("_B" if self.k == "a" else "_GradN"), self.Q)
        return self

    def volumes(self):
        self._v = self.S.call(self.k + "_dV", self.Q)
        return self

    def dV(self, e=None, q=None):
        return self._v[e or self.e, q or self.q]

    def B(self, m, i, j, k, e=None, q=None):
        """gradient(i, j) = sum_{m, k} B(m, i, j, k) u(m, k)"""
        e, q = e or self.e, q or self.q
        if self.k == "a":
            if (i, j) not in AXI or AXI[i, j][1] != k:
                return ZERO
            return self._g[e, q, m, i, j, AXI[i, j][0]]
        if i >= self.nd or j != k:
            return ZERO
        return self._g[e, q, m, i]

    def grad(self, u, i, j):
        return rsum(mul(self.B(m, i, j, k), u[self.e, m, k]) for m in range(self.nne) for k in range(self.nd) if self.B(m, i, j, k) is not ZERO)
