#include <element.h>
using namespace gfvh;

template <class El>
static void compare(Case& c, const std::string& at, const El& a, const El& b, size_t nelem, size_t nip)
{
    using T = Traits<El>;
    c.allclose("volumes" + at, a.dV(), b.dV(), 1e-12);
    if constexpr (T::k == 'a')
        c.allclose("B" + at, a.B(), b.B(), 1e-12);
    else
        c.allclose("GradN" + at, a.GradN(), b.GradN(), 1e-12);
    D3 u = xt::zeros<double>({nelem, T::nne, T::nd}), v = xt::zeros<double>({nelem, nip, T::nd});
    D2 r = xt::zeros<double>({nelem, nip});
    D4 s = xt::zeros<double>({nelem, nip, T::td, T::td});
    D6 C = xt::zeros<double>({nelem, nip, T::td, T::td, T::td, T::td});
    c.randomreal(u), c.randomreal(v), c.randomreal(r), c.randomreal(s), c.randomreal(C);
    c.allclose("InterpQuad_vector" + at, a.InterpQuad_vector(u), b.InterpQuad_vector(u));
    c.allclose("GradN_vector" + at, a.GradN_vector(u), b.GradN_vector(u));
    c.allclose("GradN_vector_T" + at, a.GradN_vector_T(u), b.GradN_vector_T(u));
    c.allclose("SymGradN_vector" + at, a.SymGradN_vector(u), b.SymGradN_vector(u));
    c.allclose("Int_N_vector_dV" + at, a.Int_N_vector_dV(v), b.Int_N_vector_dV(v));
    c.allclose("Int_N_scalar_NT_dV" + at, a.Int_N_scalar_NT_dV(r), b.Int_N_scalar_NT_dV(r));
    c.allclose("Int_gradN_dot_tensor2_dV" + at, a.Int_gradN_dot_tensor2_dV(s), b.Int_gradN_dot_tensor2_dV(s));
    c.allclose("Int_gradN_dot_tensor4_dot_gradNT_dV" + at, a.Int_gradN_dot_tensor4_dot_gradNT_dV(C), b.Int_gradN_dot_tensor4_dot_gradNT_dV(C));
}

template <class El>
static void element(Case& c)
{
    using T = Traits<El>;
    size_t nelem = c.i(1, 3);
    D3 x = geometry<El>(c, nelem);
    Scheme s = scheme<El>(c, c.i(0, 3));
    double t = T::k == 'p' && c.coin() ? c.real(0.2, 3) : 1;
    c.input("thickness", t);
    size_t nip = s.w.size();
    D3 x0 = x;
    Scheme s0 = s;
    El quad = make<El>(x0, s0, t);
    c.randomreal(x0, -9, 9), c.randomreal(s0.xi), c.randomreal(s0.w);
    compare(c, " after changing the arguments of the constructor", quad, make<El>(x, s, t), nelem, nip);
    El copy = quad;
    D3 first = x;
    size_t n = c.i(1, 4);
    for (size_t k = 0; k < n; ++k) {
        size_t how = c.i(0, 5);
        c.input("step", how);
        if (how == 0) {
            // the same positions
        }
        else if (how == 1) {
            // one element moves
            D3 y = geometry<El>(c, nelem);
            size_t e = c.i(0, nelem - 1);
            for (size_t m = 0; m < T::nne; ++m)
                for (size_t i = 0; i < T::nd; ++i)
                    x(e, m, i) = y(e, m, i);
        }
        else if (how == 2) {
            // a small change
            size_t e = c.i(0, nelem - 1), m = c.i(0, T::nne - 1);
            x(e, m, c.i(0, T::nd - 1)) += c.real(-1e-3, 1e-3);
        }
        else if (how == 3)
            x = first;
        else
            x = geometry<El>(c, nelem);
        D3 y = x;
        quad.update_x(y);
        c.randomreal(y, -9, 9);
        compare(c, " after " + std::to_string(k + 1) + " update(s)", quad, make<El>(x, s, t), nelem, nip);
    }
    compare(c, " of a copy that was not updated", copy, make<El>(first, s, t), nelem, nip);
}

static void body(Case& c)
{
    size_t kind = c.i(0, 3);
    c.input("kind", kind);
    switch (kind) {
    case 0: return element<G4::Quadrature>(c);
    case 1: return element<G4::QuadraturePlanar>(c);
    case 2: return element<G4::QuadratureAxisymmetric>(c);
    default: return element<G8::Quadrature>(c);
    }
}
GFVH_MAIN(body, "random sequences of 1 to 4 position updates of all element classes and schemes, all operators compared with those of a freshly constructed object after every step; distinct by hash of all inputs")
