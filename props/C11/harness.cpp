#include <element.h>
using namespace gfvh;

template <class Q>
static void element(Case& c)
{
    using T = Traits<Q>;
    size_t nelem = c.i(1, 3);
    bool affine = c.coin(3);
    D3 x = geometry<Q>(c, nelem, affine);
    Scheme s = scheme<Q>(c, c.i(0, 3));
    double t = T::k == 'p' && c.coin() ? c.real(0.2, 3) : 1;
    c.input("thickness", t);
    size_t nip = s.w.size();
    auto quad = make<Q>(x, s, t);
    D2 dV = quad.dV();
    c.shape("dV", dV, std::vector<size_t>{nelem, nip});
    D3 u = xt::zeros<double>({nelem, T::nne, T::nd});
    c.randomreal(u);
    D3 ui = quad.InterpQuad_vector(u);
    D3 one = xt::ones<double>({nelem, T::nne, T::nd});
    D3 oi = quad.InterpQuad_vector(one);
    // gradients per direction: g(e, q, m, i)
    D4 g = xt::zeros<double>({nelem, nip, T::nne, T::nd});
    if constexpr (T::k == 'a') {
        D6 B = quad.B();
        c.shape("B", B, std::vector<size_t>{nelem, nip, 4, 3, 3, 3});
        for (size_t e = 0; e < nelem; ++e)
            for (size_t q = 0; q < nip; ++q) {
                Point<Q> p(x, e, s, q);
                for (size_t m = 0; m < 4; ++m) {
                    g(e, q, m, 0) = B(e, q, m, 2, 2, 2);
                    g(e, q, m, 1) = B(e, q, m, 0, 0, 0);
                    for (size_t i = 0; i < 3; ++i)
                        for (size_t j = 0; j < 3; ++j)
                            for (size_t k = 0; k < 3; ++k)
                                c.close("B", B(e, q, m, i, j, k), k == 1 ? 0 : p.B(m, i, j, k == 0 ? 1 : 0));
                }
            }
    }
    else {
        g = quad.GradN();
        c.shape("GradN", g, std::vector<size_t>{nelem, nip, T::nne, T::nd});
    }
    for (size_t e = 0; e < nelem; ++e) {
        double vol = 0;
        for (size_t q = 0; q < nip; ++q) {
            Point<Q> p(x, e, s, q, t);
            std::string at = " (e, q) = " + std::to_string(e) + ", " + std::to_string(q);
            c.close("volume" + at, dV(e, q), p.dV, 1e-9, 0);
            vol += dV(e, q);
            for (size_t i = 0; i < T::nd; ++i) {
                c.close("shape functions sum to one" + at, oi(e, q, i), 1);
                double v = 0, sum = 0;
                for (size_t m = 0; m < T::nne; ++m) {
                    v += p.N[m] * u(e, m, i);
                    sum += g(e, q, m, i);
                    c.close("gradient" + at, g(e, q, m, i), p.dN[m][i]);
                }
                c.close("interpolation" + at, ui(e, q, i), v);
                c.close("gradients sum to zero" + at, sum, 0);
                for (size_t j = 0; j < T::nd; ++j) {
                    double lin = 0;
                    for (size_t m = 0; m < T::nne; ++m)
                        lin += g(e, q, m, i) * x(e, m, j);
                    c.close("linear field" + at, lin, i == j ? 1 : 0, 1e-8);
                }
            }
        }
        if (affine && s.kind < 3) {
            // corner + edges: exact volume
            double F[3][3];
            size_t to[3] = {1, 3, 4};
            double D, rc = 0;
            for (size_t k = 0; k < T::nd; ++k)
                for (size_t i = 0; i < T::nd; ++i)
                    F[k][i] = x(e, to[k], i) - x(e, 0, i);
            for (size_t m = 0; m < T::nne; ++m)
                rc += x(e, m, 1) / (double)T::nne;
            if (T::nd == 2)
                D = F[0][0] * F[1][1] - F[0][1] * F[1][0];
            else
                D = F[0][0] * (F[1][1] * F[2][2] - F[1][2] * F[2][1]) - F[0][1] * (F[1][0] * F[2][2] - F[1][2] * F[2][0]) +
                    F[0][2] * (F[1][0] * F[2][1] - F[1][1] * F[2][0]);
            c.close("volumes of an affine element sum to its volume, element " + std::to_string(e), vol, D * t * (T::k == 'a' ? 2 * M_PI * rc : 1), 1e-9, 0);
        }
    }
}

template <size_t n>
static void inverse(Case& c)
{
    D2 A = xt::zeros<double>({n, n}), I = A;
    c.randomreal(A, -2, 2);
    c.poison(I);
    c.inputa("A", A);
    double d = GooseFEM::detail::tensor<n>::inv(A, I), D;
    if (n == 2)
        D = A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0);
    else
        D = A(0, 0) * (A(1, 1) * A(2, 2) - A(1, 2) * A(2, 1)) - A(0, 1) * (A(1, 0) * A(2, 2) - A(1, 2) * A(2, 0)) +
            A(0, 2) * (A(1, 0) * A(2, 1) - A(1, 1) * A(2, 0));
    c.close("determinant", d, D);
    if (std::abs(D) < 1e-2)
        return;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            double v = 0;
            for (size_t k = 0; k < n; ++k)
                v += I(i, k) * A(k, j);
            c.close("inverse", v, i == j ? 1 : 0, 1e-8);
        }
}

static void body(Case& c)
{
    size_t kind = c.i(0, 5);
    c.input("kind", kind);
    switch (kind) {
    case 0: return element<G4::Quadrature>(c);
    case 1: return element<G4::QuadraturePlanar>(c);
    case 2: return element<G4::QuadratureAxisymmetric>(c);
    case 3: return element<G8::Quadrature>(c);
    case 4: return inverse<2>(c);
    default: return inverse<3>(c);
    }
}
GFVH_MAIN(body, "random non-degenerate elements (affine or distorted, either orientation) for all element classes, default, nodal, mid-point and arbitrary schemes: shape functions, gradients, volumes against the textbook formulas; distinct by hash of all inputs")
