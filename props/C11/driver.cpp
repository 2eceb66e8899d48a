// Verification driver for C11: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using D3 = xt::xtensor<double, 3>;
using D4 = xt::xtensor<double, 4>;
using D6 = xt::xtensor<double, 6>;
using Quad = GooseFEM::Element::Quad4::Quadrature;
using P = GooseFEM::Element::Quad4::QuadraturePlanar;
using A = GooseFEM::Element::Quad4::QuadratureAxisymmetric;
using H = GooseFEM::Element::Hex8::Quadrature;
namespace G4 = GooseFEM::Element::Quad4;
namespace G8 = GooseFEM::Element::Hex8;

Quad q_make(const D3& x) { return Quad(x); }
Quad q_scheme(const D3& x, const D2& xi, const D1& w) { return Quad(x, xi, w); }
P p_make(const D3& x) { return P(x); }
P p_thick(const D3& x, double t) { return P(x, t); }
P p_scheme(const D3& x, const D2& xi, const D1& w) { return P(x, xi, w); }
P p_scheme_thick(const D3& x, const D2& xi, const D1& w, double t) { return P(x, xi, w, t); }
A a_make(const D3& x) { return A(x); }
A a_scheme(const D3& x, const D2& xi, const D1& w) { return A(x, xi, w); }
H h_make(const D3& x) { return H(x); }
H h_scheme(const D3& x, const D2& xi, const D1& w) { return H(x, xi, w); }

D4 q_GradN(const Quad& q) { return q.GradN(); }
D4 p_GradN(const P& q) { return q.GradN(); }
D4 h_GradN(const H& q) { return q.GradN(); }
D6 a_B(const A& q) { return q.B(); }
D2 q_dV(const Quad& q) { return q.dV(); }
D2 p_dV(const P& q) { return q.dV(); }
D2 a_dV(const A& q) { return q.dV(); }
D2 h_dV(const H& q) { return q.dV(); }
D3 q_Interp(const Quad& q, const D3& u) { return q.InterpQuad_vector(u); }
D3 p_Interp(const P& q, const D3& u) { return q.InterpQuad_vector(u); }
D3 a_Interp(const A& q, const D3& u) { return q.InterpQuad_vector(u); }
D3 h_Interp(const H& q, const D3& u) { return q.InterpQuad_vector(u); }

double inv2(const D2& A, D2& Ainv) { return GooseFEM::detail::tensor<2>::inv(A, Ainv); }
double inv3(const D2& A, D2& Ainv) { return GooseFEM::detail::tensor<3>::inv(A, Ainv); }

D2 gauss4_xi() { return G4::Gauss::xi(); }
D1 gauss4_w() { return G4::Gauss::w(); }
size_t gauss4_nip() { return G4::Gauss::nip(); }
D2 nodal4_xi() { return G4::Nodal::xi(); }
D1 nodal4_w() { return G4::Nodal::w(); }
size_t nodal4_nip() { return G4::Nodal::nip(); }
D2 mid4_xi() { return G4::MidPoint::xi(); }
D1 mid4_w() { return G4::MidPoint::w(); }
size_t mid4_nip() { return G4::MidPoint::nip(); }
D2 gauss8_xi() { return G8::Gauss::xi(); }
D1 gauss8_w() { return G8::Gauss::w(); }
size_t gauss8_nip() { return G8::Gauss::nip(); }
D2 nodal8_xi() { return G8::Nodal::xi(); }
D1 nodal8_w() { return G8::Nodal::w(); }
size_t nodal8_nip() { return G8::Nodal::nip(); }
}
