// Verification driver for C14: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using D3 = xt::xtensor<double, 3>;
using D4 = xt::xtensor<double, 4>;
using D6 = xt::xtensor<double, 6>;
using Quad = GooseFEM::Element::Quad4::Quadrature;
using P = GooseFEM::Element::Quad4::QuadraturePlanar;
using A = GooseFEM::Element::Quad4::QuadratureAxisymmetric;
using H = GooseFEM::Element::Hex8::Quadrature;

#define ENTRIES(k, E) \
    E k##_make(const D3& x) { return E(x); } \
    E k##_scheme(const D3& x, const D2& xi, const D1& w) { return E(x, xi, w); } \
    E k##_later(D3& x, D2& xi, D1& w, const D3& y, const D2& eta, const D1& v) \
    { \
        E ret(x, xi, w); \
        x = y; \
        xi = eta; \
        w = v; \
        return ret; \
    } \
    void k##_update(E& q, const D3& x) { q.update_x(x); } \
    void k##_update_later(E& q, D3& x, const D3& y) \
    { \
        q.update_x(x); \
        x = y; \
    } \
    D3 k##_Interp(const E& q, const D3& u) { return q.InterpQuad_vector(u); } \
    D2 k##_dV(const E& q) { return q.dV(); } \
    size_t k##_nip(const E& q) { return q.nip(); } \
    size_t k##_nelem(const E& q) { return q.nelem(); }

ENTRIES(q, Quad)
ENTRIES(p, P)
ENTRIES(a, A)
ENTRIES(h, H)
P p_thick(const D3& x, const D2& xi, const D1& w, double t) { return P(x, xi, w, t); }
D4 q_GradN(const Quad& q) { return q.GradN(); }
D4 p_GradN(const P& q) { return q.GradN(); }
D4 h_GradN(const H& q) { return q.GradN(); }
D6 a_B(const A& q) { return q.B(); }
}
