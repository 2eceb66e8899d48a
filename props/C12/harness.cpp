#include <element.h>
using namespace gfvh;

template <class El>
static void element(Case& c)
{
    using T = Traits<El>;
    size_t nelem = c.i(1, 3);
    D3 x = geometry<El>(c, nelem);
    Scheme s = scheme<El>(c, c.i(0, 3));
    double t = T::k == 'p' && c.coin() ? c.real(0.2, 3) : 1;
    size_t nip = s.w.size();
    El quad = make<El>(x, s, t);
    if (c.coin(4)) {
        x = geometry<El>(c, nelem);
        quad.update_x(x);
    }
    size_t n = T::k == 'q' ? 2 : c.i(1, 4);
    D3 v = xt::zeros<double>({nelem, T::nne, n});
    c.randomreal(v);
    c.inputa("v", v);
    D3 u = xt::zeros<double>({nelem, T::nne, T::nd});
    c.randomreal(u);
    c.inputa("u", u);
    D3 a = quad.InterpQuad_vector(v), b = xt::zeros<double>({nelem, nip, n});
    c.poison(b);
    quad.interpQuad_vector(v, b);
    D4 g = quad.GradN_vector(u), gT = quad.GradN_vector_T(u), gs = quad.SymGradN_vector(u);
    std::vector<size_t> sh{nelem, nip, T::td, T::td};
    c.shape("InterpQuad_vector", a, std::vector<size_t>{nelem, nip, n});
    c.shape("GradN_vector", g, sh);
    c.shape("GradN_vector_T", gT, sh);
    c.shape("SymGradN_vector", gs, sh);
    D4 h = xt::zeros<double>(sh), hT = h, hs = h;
    c.poison(h), c.poison(hT), c.poison(hs);
    quad.gradN_vector(u, h);
    quad.gradN_vector_T(u, hT);
    quad.symGradN_vector(u, hs);
    for (size_t e = 0; e < nelem; ++e)
        for (size_t q = 0; q < nip; ++q) {
            Point<El> p(x, e, s, q, t);
            std::string at = " (e, q) = " + std::to_string(e) + ", " + std::to_string(q);
            for (size_t i = 0; i < n; ++i) {
                double r = 0;
                for (size_t m = 0; m < T::nne; ++m)
                    r += p.N[m] * v(e, m, i);
                c.close("InterpQuad_vector" + at, a(e, q, i), r);
                c.close("interpQuad_vector" + at, b(e, q, i), r);
            }
            double G[3][3];
            for (size_t i = 0; i < T::td; ++i)
                for (size_t j = 0; j < T::td; ++j) {
                    G[i][j] = 0;
                    for (size_t m = 0; m < T::nne; ++m)
                        for (size_t k = 0; k < T::nd; ++k)
                            G[i][j] += p.B(m, i, j, k) * u(e, m, k);
                }
            for (size_t i = 0; i < T::td; ++i)
                for (size_t j = 0; j < T::td; ++j) {
                    c.close("GradN_vector" + at, g(e, q, i, j), G[i][j]);
                    c.close("gradN_vector" + at, h(e, q, i, j), G[i][j]);
                    c.close("GradN_vector_T" + at, gT(e, q, i, j), G[j][i]);
                    c.close("gradN_vector_T" + at, hT(e, q, i, j), G[j][i]);
                    c.close("SymGradN_vector" + at, gs(e, q, i, j), 0.5 * (G[i][j] + G[j][i]));
                    c.close("symGradN_vector" + at, hs(e, q, i, j), 0.5 * (G[i][j] + G[j][i]));
                }
        }
}

static void body(Case& c)
{
    size_t kind = c.i(0, 3);
    c.input("kind", kind);
    switch (kind) {
    case 0: return element<G4::Quadrature>(c);
    case 1: return element<G4::QuadraturePlanar>(c);
    case 2: return element<G4::QuadratureAxisymmetric>(c);
    default: return element<G8::Quadrature>(c);
    }
}
GFVH_MAIN(body, "random elements, schemes and nodal fields for all element classes, optionally after an update of the positions: interpolation and gradient operators, allocating and in-place on arbitrary content, against the textbook formulas; distinct by hash of all inputs")
