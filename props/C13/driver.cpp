// Verification driver for C13: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using D3 = xt::xtensor<double, 3>;
using D4 = xt::xtensor<double, 4>;
using D6 = xt::xtensor<double, 6>;
using Quad = GooseFEM::Element::Quad4::Quadrature;
using P = GooseFEM::Element::Quad4::QuadraturePlanar;
using A = GooseFEM::Element::Quad4::QuadratureAxisymmetric;
using H = GooseFEM::Element::Hex8::Quadrature;

#define ENTRIES(k, E) \
    E k##_scheme(const D3& x, const D2& xi, const D1& w) { return E(x, xi, w); } \
    D3 k##_InterpQuad_vector(const E& q, const D3& u) { return q.InterpQuad_vector(u); } \
    D4 k##_GradN_vector(const E& q, const D3& u) { return q.GradN_vector(u); } \
    D2 k##_dV(const E& q) { return q.dV(); } \
    D3 k##_Int_N_vector_dV(const E& q, const D3& v) { return q.Int_N_vector_dV(v); } \
    void k##_int_N_vector_dV(const E& q, const D3& v, D3& r) { q.int_N_vector_dV(v, r); } \
    D3 k##_Int_N_scalar_NT_dV(const E& q, const D2& v) { return q.Int_N_scalar_NT_dV(v); } \
    void k##_int_N_scalar_NT_dV(const E& q, const D2& v, D3& r) { q.int_N_scalar_NT_dV(v, r); } \
    D3 k##_Int_gradN_dot_tensor2_dV(const E& q, const D4& v) { return q.Int_gradN_dot_tensor2_dV(v); } \
    void k##_int_gradN_dot_tensor2_dV(const E& q, const D4& v, D3& r) { q.int_gradN_dot_tensor2_dV(v, r); } \
    D3 k##_Int_gradN_dot_tensor4_dot_gradNT_dV(const E& q, const D6& v) { return q.Int_gradN_dot_tensor4_dot_gradNT_dV(v); } \
    void k##_int_gradN_dot_tensor4_dot_gradNT_dV(const E& q, const D6& v, D3& r) { q.int_gradN_dot_tensor4_dot_gradNT_dV(v, r); }

ENTRIES(q, Quad)
ENTRIES(p, P)
ENTRIES(a, A)
ENTRIES(h, H)
D4 q_GradN(const Quad& q) { return q.GradN(); }
D4 p_GradN(const P& q) { return q.GradN(); }
D4 h_GradN(const H& q) { return q.GradN(); }
D6 a_B(const A& q) { return q.B(); }
}
