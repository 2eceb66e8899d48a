// Verification driver for C26: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using U2 = xt::xtensor<size_t, 2>;
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using D3 = xt::xtensor<double, 3>;
using D4 = xt::xtensor<double, 4>;
using D6 = xt::xtensor<double, 6>;
using I3 = xt::xtensor<int, 3>;
using I4 = xt::xtensor<int, 4>;
using X = xt::xarray<double>;
using S1 = std::array<size_t, 1>;
using S2 = std::array<size_t, 2>;
using S3 = std::array<size_t, 3>;
using S4 = std::array<size_t, 4>;
using S5 = std::array<size_t, 5>;
using S6 = std::array<size_t, 6>;
using V = std::vector<size_t>;

// broadcast
D2 as0(const D2& a, size_t n) { return GooseFEM::AsTensor<0>(a, n); }
D3 as1(const D2& a, size_t n) { return GooseFEM::AsTensor<1>(a, n); }
D4 as2(const D2& a, size_t n) { return GooseFEM::AsTensor<2>(a, n); }
D6 as4(const D2& a, size_t n) { return GooseFEM::AsTensor<4>(a, n); }
X xs0(const D2& a, size_t n) { return GooseFEM::AsTensor(0, a, n); }
X xs1(const D2& a, size_t n) { return GooseFEM::AsTensor(1, a, n); }
X xs2(const D2& a, size_t n) { return GooseFEM::AsTensor(2, a, n); }
X xs4(const D2& a, size_t n) { return GooseFEM::AsTensor(4, a, n); }
D4 list2(const D2& a, size_t n, size_t m) { return GooseFEM::AsTensor(a, {n, m}); }
D4 arr2(const D2& a, size_t n, size_t m) { return GooseFEM::AsTensor(a, S2{n, m}); }
X vec2(const D2& a, size_t n, size_t m) { return GooseFEM::AsTensor(a, V{n, m}); }
D3 scalar2(const D1& a, size_t n, size_t m) { return GooseFEM::AsTensor(a, S2{n, m}); }
void write2(const D2& a, D2& r) { GooseFEM::asTensor(a, r); }
void write3(const D2& a, D3& r) { GooseFEM::asTensor(a, r); }
void write4(const D2& a, D4& r) { GooseFEM::asTensor(a, r); }
void write6(const D2& a, D6& r) { GooseFEM::asTensor(a, r); }
D2 as3d(const D2& a) { return GooseFEM::as3d(a); }

// vectors
GooseFEM::Vector vector(const U2& conn, const U2& dofs) { return GooseFEM::Vector(conn, dofs); }
S1 v_dofval(const GooseFEM::Vector& v) { return v.shape_dofval(); }
S2 v_nodevec(const GooseFEM::Vector& v) { return v.shape_nodevec(); }
S3 v_elemvec(const GooseFEM::Vector& v) { return v.shape_elemvec(); }
S3 v_elemmat(const GooseFEM::Vector& v) { return v.shape_elemmat(); }
D1 va_dofval(const GooseFEM::Vector& v) { return v.allocate_dofval(); }
D2 va_nodevec(const GooseFEM::Vector& v) { return v.allocate_nodevec(); }
D3 va_elemvec(const GooseFEM::Vector& v) { return v.allocate_elemvec(); }
D3 va_elemmat(const GooseFEM::Vector& v) { return v.allocate_elemmat(); }
D1 vf_dofval(const GooseFEM::Vector& v, double x) { return v.allocate_dofval(x); }
D2 vf_nodevec(const GooseFEM::Vector& v, double x) { return v.allocate_nodevec(x); }
D3 vf_elemvec(const GooseFEM::Vector& v, double x) { return v.allocate_elemvec(x); }
D3 vf_elemmat(const GooseFEM::Vector& v, double x) { return v.allocate_elemmat(x); }
D1 v_AsDofs(const GooseFEM::Vector& v, const D2& u) { return v.AsDofs(u); }
D2 v_AsNode(const GooseFEM::Vector& v, const D1& u) { return v.AsNode(u); }
D3 v_AsElement(const GooseFEM::Vector& v, const D1& u) { return v.AsElement(u); }
size_t v_nelem(const GooseFEM::Vector& v) { return v.nelem(); }
size_t v_nne(const GooseFEM::Vector& v) { return v.nne(); }
size_t v_nnode(const GooseFEM::Vector& v) { return v.nnode(); }
size_t v_ndim(const GooseFEM::Vector& v) { return v.ndim(); }
size_t v_ndof(const GooseFEM::Vector& v) { return v.ndof(); }

// elements
#define ENTRIES(k, E) \
    E k##_scheme(const D3& x, const D2& xi, const D1& w) { return E(x, xi, w); } \
    size_t k##_nelem(const E& q) { return q.nelem(); } \
    size_t k##_nne(const E& q) { return q.nne(); } \
    size_t k##_ndim(const E& q) { return q.ndim(); } \
    size_t k##_tdim(const E& q) { return q.tdim(); } \
    size_t k##_nip(const E& q) { return q.nip(); } \
    S3 k##_elemvec(const E& q) { return q.shape_elemvec(); } \
    S3 k##_elemvec_n(const E& q, size_t n) { return q.shape_elemvec(n); } \
    S3 k##_elemmat(const E& q) { return q.shape_elemmat(); } \
    S2 k##_qscalar(const E& q) { return q.shape_qscalar(); } \
    S3 k##_qvector(const E& q) { return q.shape_qvector(); } \
    S3 k##_qvector_n(const E& q, size_t n) { return q.shape_qvector(n); } \
    S2 k##_qtensor0(const E& q) { return q.shape_qtensor<0>(); } \
    S2 k##_qtensor(const E& q) { return q.shape_qtensor(); } \
    S3 k##_qtensor1(const E& q) { return q.shape_qtensor<1>(); } \
    S4 k##_qtensor2(const E& q) { return q.shape_qtensor<2>(); } \
    S6 k##_qtensor4(const E& q) { return q.shape_qtensor<4>(); } \
    V k##_xtensor0(const E& q) { return q.shape_qtensor(0); } \
    V k##_xtensor1(const E& q) { return q.shape_qtensor(1); } \
    V k##_xtensor2(const E& q) { return q.shape_qtensor(2); } \
    V k##_xtensor4(const E& q) { return q.shape_qtensor(4); } \
    S4 k##_qtensor2_n(const E& q, size_t n) { return q.shape_qtensor<2>(2, n); } \
    S5 k##_qtensor3_n(const E& q, size_t n) { return q.shape_qtensor<3>(3, n); } \
    V k##_xtensor1_n(const E& q, size_t n) { return q.shape_qtensor(1, n); } \
    V k##_xtensor3_n(const E& q, size_t n) { return q.shape_qtensor(3, n); } \
    D3 k##a_elemvec(const E& q) { return q.allocate_elemvec<double>(); } \
    D3 k##a_elemmat(const E& q) { return q.allocate_elemmat<double>(); } \
    D2 k##a_qscalar(const E& q) { return q.allocate_qscalar<double>(); } \
    D3 k##a_qtensor1(const E& q) { return q.allocate_qtensor<1, double>(); } \
    D4 k##a_qtensor2(const E& q) { return q.allocate_qtensor<2, double>(); } \
    D6 k##a_qtensor4(const E& q) { return q.allocate_qtensor<4, double>(); } \
    X k##a_xtensor1(const E& q) { return q.allocate_qtensor<double>(1); } \
    X k##a_xtensor2(const E& q) { return q.allocate_qtensor<double>(2); } \
    D3 k##f_elemvec(const E& q, double x) { return q.allocate_elemvec<double>(x); } \
    D3 k##f_elemmat(const E& q, double x) { return q.allocate_elemmat<double>(x); } \
    D2 k##f_qscalar(const E& q, double x) { return q.allocate_qscalar<double>(x); } \
    D3 k##f_qtensor1(const E& q, double x) { return q.allocate_qtensor<1, double>(x); } \
    D4 k##f_qtensor2(const E& q, double x) { return q.allocate_qtensor<2, double>(x); } \
    D6 k##f_qtensor4(const E& q, double x) { return q.allocate_qtensor<4, double>(x); } \
    X k##f_xtensor1(const E& q, double x) { return q.allocate_qtensor<double>(1, x); } \
    X k##f_xtensor2(const E& q, double x) { return q.allocate_qtensor<double>(2, x); } \
    I3 k##i_elemvec(const E& q, int x) { return q.allocate_elemvec<int>(x); } \
    I4 k##i_qtensor2(const E& q, int x) { return q.allocate_qtensor<2, int>(x); } \
    D3 k##_as1(const E& q, const D2& a) { return q.AsTensor<1>(a); } \
    D4 k##_as2(const E& q, const D2& a) { return q.AsTensor<2>(a); } \
    D6 k##_as4(const E& q, const D2& a) { return q.AsTensor<4>(a); } \
    X k##_xs1(const E& q, const D2& a) { return q.AsTensor(1, a); } \
    X k##_xs2(const E& q, const D2& a) { return q.AsTensor(2, a); } \
    X k##_xs4(const E& q, const D2& a) { return q.AsTensor(4, a); } \
    void k##_write4(const E& q, const D2& a, D4& r) { q.asTensor(a, r); } \
    D2 k##_dV(const E& q) { return q.dV(); } \
    D3 k##_interp(const E& q, const D3& u) { return q.InterpQuad_vector(u); } \
    D4 k##_grad(const E& q, const D3& u) { return q.GradN_vector(u); } \
    D3 k##_intvec(const E& q, const D3& u) { return q.Int_N_vector_dV(u); } \
    D3 k##_mass(const E& q, const D2& u) { return q.Int_N_scalar_NT_dV(u); } \
    D3 k##_force(const E& q, const D4& u) { return q.Int_gradN_dot_tensor2_dV(u); } \
    D3 k##_stiff(const E& q, const D6& u) { return q.Int_gradN_dot_tensor4_dot_gradNT_dV(u); }

ENTRIES(q, GooseFEM::Element::Quad4::Quadrature)
ENTRIES(p, GooseFEM::Element::Quad4::QuadraturePlanar)
ENTRIES(a, GooseFEM::Element::Quad4::QuadratureAxisymmetric)
ENTRIES(h, GooseFEM::Element::Hex8::Quadrature)
}
