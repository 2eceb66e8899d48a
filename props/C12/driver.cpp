// Verification driver for C12: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using D3 = xt::xtensor<double, 3>;
using D4 = xt::xtensor<double, 4>;
using D6 = xt::xtensor<double, 6>;
using Quad = GooseFEM::Element::Quad4::Quadrature;
using P = GooseFEM::Element::Quad4::QuadraturePlanar;
using A = GooseFEM::Element::Quad4::QuadratureAxisymmetric;
using H = GooseFEM::Element::Hex8::Quadrature;

#define ENTRIES(k, E) \
    E k##_scheme(const D3& x, const D2& xi, const D1& w) { return E(x, xi, w); } \
    D3 k##_InterpQuad_vector(const E& q, const D3& u) { return q.InterpQuad_vector(u); } \
    void k##_interpQuad_vector(const E& q, const D3& u, D3& r) { q.interpQuad_vector(u, r); } \
    D4 k##_GradN_vector(const E& q, const D3& u) { return q.GradN_vector(u); } \
    void k##_gradN_vector(const E& q, const D3& u, D4& r) { q.gradN_vector(u, r); } \
    D4 k##_GradN_vector_T(const E& q, const D3& u) { return q.GradN_vector_T(u); } \
    void k##_gradN_vector_T(const E& q, const D3& u, D4& r) { q.gradN_vector_T(u, r); } \
    D4 k##_SymGradN_vector(const E& q, const D3& u) { return q.SymGradN_vector(u); } \
    void k##_symGradN_vector(const E& q, const D3& u, D4& r) { q.symGradN_vector(u, r); }

ENTRIES(q, Quad)
ENTRIES(p, P)
ENTRIES(a, A)
ENTRIES(h, H)
D4 q_GradN(const Quad& q) { return q.GradN(); }
D4 p_GradN(const P& q) { return q.GradN(); }
D4 h_GradN(const H& q) { return q.GradN(); }
D6 a_B(const A& q) { return q.B(); }
}
