#include <element.h>
using namespace gfvh;

template <class El>
static void element(Case& c)
{
    using T = Traits<El>;
    size_t nelem = c.i(1, 2);
    D3 x = geometry<El>(c, nelem);
    Scheme s = scheme<El>(c, c.i(0, 3));
    double t = T::k == 'p' && c.coin() ? c.real(0.2, 3) : 1;
    c.input("thickness", t);
    size_t nip = s.w.size(), w = T::nne * T::nd;
    El quad = make<El>(x, s, t);
    size_t n = c.i(1, 4);
    D3 v = xt::zeros<double>({nelem, nip, n});
    D2 rho = xt::zeros<double>({nelem, nip});
    D4 sig = xt::zeros<double>({nelem, nip, T::td, T::td});
    D6 C = xt::zeros<double>({nelem, nip, T::td, T::td, T::td, T::td});
    D3 u = xt::zeros<double>({nelem, T::nne, T::nd});
    c.randomreal(v), c.randomreal(rho), c.randomreal(sig), c.randomreal(C), c.randomreal(u);
    c.inputa("rho", rho);
    c.inputa("sig", sig);
    std::vector<size_t> mat{nelem, w, w}, vec{nelem, T::nne, T::nd}, vecn{nelem, T::nne, n};
    D3 f = quad.Int_N_vector_dV(v), f2 = xt::zeros<double>(vecn);
    D3 M = quad.Int_N_scalar_NT_dV(rho), M2 = xt::zeros<double>(mat);
    D3 F = quad.Int_gradN_dot_tensor2_dV(sig), F2 = xt::zeros<double>(vec);
    D3 K = quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C), K2 = M2;
    c.shape("Int_N_vector_dV", f, vecn);
    c.shape("Int_N_scalar_NT_dV", M, mat);
    c.shape("Int_gradN_dot_tensor2_dV", F, vec);
    c.shape("Int_gradN_dot_tensor4_dot_gradNT_dV", K, mat);
    c.poison(f2), c.poison(M2), c.poison(F2), c.poison(K2);
    quad.int_N_vector_dV(v, f2);
    quad.int_N_scalar_NT_dV(rho, M2);
    quad.int_gradN_dot_tensor2_dV(sig, F2);
    quad.int_gradN_dot_tensor4_dot_gradNT_dV(C, K2);
    c.allclose("int_N_vector_dV", f2, f);
    c.allclose("int_N_scalar_NT_dV", M2, M);
    c.allclose("int_gradN_dot_tensor2_dV", F2, F);
    c.allclose("int_gradN_dot_tensor4_dot_gradNT_dV", K2, K);
    for (size_t e = 0; e < nelem; ++e) {
        std::vector<Point<El>> p;
        std::string at = " of element " + std::to_string(e);
        double scale = 0;
        for (size_t q = 0; q < nip; ++q) {
            p.emplace_back(x, e, s, q, t);
            scale = std::max(scale, std::abs(p[q].dV));
        }
        for (size_t m = 0; m < T::nne; ++m) {
            for (size_t i = 0; i < n; ++i) {
                double r = 0;
                for (size_t q = 0; q < nip; ++q)
                    r += p[q].N[m] * v(e, q, i) * p[q].dV;
                c.close("Int_N_vector_dV" + at, f(e, m, i), r, 1e-9, scale);
            }
            for (size_t k = 0; k < T::nd; ++k) {
                double r = 0;
                for (size_t q = 0; q < nip; ++q)
                    for (size_t i = 0; i < T::td; ++i)
                        for (size_t j = 0; j < T::td; ++j)
                            r += p[q].B(m, i, j, k) * sig(e, q, i, j) * p[q].dV;
                c.close("Int_gradN_dot_tensor2_dV" + at, F(e, m, k), r, 1e-8, scale);
            }
        }
        // one random entry per pair of nodes for the matrices
        for (size_t m = 0; m < T::nne; ++m)
            for (size_t l = 0; l < T::nne; ++l) {
                for (size_t i = 0; i < T::nd; ++i)
                    for (size_t j = 0; j < T::nd; ++j) {
                        double r = 0;
                        for (size_t q = 0; q < nip && i == j; ++q)
                            r += p[q].N[m] * rho(e, q) * p[q].N[l] * p[q].dV;
                        c.close("Int_N_scalar_NT_dV" + at, M(e, m * T::nd + i, l * T::nd + j), r, 1e-9, scale);
                    }
                size_t a = c.i(0, T::nd - 1), b = c.i(0, T::nd - 1);
                double r = 0;
                for (size_t q = 0; q < nip; ++q)
                    for (size_t i = 0; i < T::td; ++i)
                        for (size_t j = 0; j < T::td; ++j)
                            if (p[q].B(m, i, j, a) != 0)
                                for (size_t k = 0; k < T::td; ++k)
                                    for (size_t o = 0; o < T::td; ++o)
                                        r += p[q].B(m, i, j, a) * C(e, q, i, j, k, o) * p[q].B(l, o, k, b) * p[q].dV;
                c.close("Int_gradN_dot_tensor4_dot_gradNT_dV" + at, K(e, m * T::nd + a, l * T::nd + b), r, 1e-8, scale);
            }
    }
    // conjugate to the gradient operator
    D4 g = quad.GradN_vector(u);
    D2 dV = quad.dV();
    D4 st = xt::zeros<double>(sig.shape());
    for (size_t e = 0; e < nelem; ++e)
        for (size_t q = 0; q < nip; ++q)
            for (size_t i = 0; i < T::td; ++i)
                for (size_t j = 0; j < T::td; ++j)
                    for (size_t k = 0; k < T::td; ++k)
                        for (size_t l = 0; l < T::td; ++l)
                            st(e, q, i, j) += C(e, q, i, j, k, l) * g(e, q, l, k);
    D3 fi = quad.Int_gradN_dot_tensor2_dV(st);
    for (size_t e = 0; e < nelem; ++e) {
        double W = 0, V = 0, tot = 0, mass = 0, scale = 0;
        for (size_t m = 0; m < T::nne; ++m)
            for (size_t i = 0; i < T::nd; ++i) {
                W += F(e, m, i) * u(e, m, i);
                double r = 0;
                for (size_t l = 0; l < T::nne; ++l) {
                    if (i == 0)
                        tot += M(e, m * T::nd, l * T::nd);
                    for (size_t j = 0; j < T::nd; ++j)
                        r += K(e, m * T::nd + i, l * T::nd + j) * u(e, l, j);
                }
                c.close("stiffness times displacement", r, fi(e, m, i), 1e-8, 10);
            }
        for (size_t q = 0; q < nip; ++q) {
            mass += rho(e, q) * dV(e, q);
            for (size_t i = 0; i < T::td; ++i)
                for (size_t j = 0; j < T::td; ++j)
                    V += sig(e, q, i, j) * g(e, q, i, j) * dV(e, q), scale += std::abs(dV(e, q));
        }
        c.close("virtual work", W, V, 1e-9, scale);
        c.close("total mass", tot, mass, 1e-9, scale);
    }
}

static void body(Case& c)
{
    size_t kind = c.i(0, 3);
    c.input("kind", kind);
    switch (kind) {
    case 0: return element<G4::Quadrature>(c);
    case 1: return element<G4::QuadraturePlanar>(c);
    case 2: return element<G4::QuadratureAxisymmetric>(c);
    default: return element<G8::Quadrature>(c);
    }
}
GFVH_MAIN(body, "random elements, schemes and integrands for all element classes: integration operators, allocating and in-place on arbitrary content, against the textbook formulas, virtual work, total mass and stiffness times displacement; distinct by hash of all inputs")
