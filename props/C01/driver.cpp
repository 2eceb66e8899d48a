// Verification driver for C01: the public entry points under contract.
#include <Eigen/Eigen>
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using U2 = xt::xtensor<size_t, 2>;
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using D3 = xt::xtensor<double, 3>;
using V = GooseFEM::Vector;

D2 AsNode_dofval(const U2& conn, const U2& dofs, const D1& x) { V v(conn, dofs); return v.AsNode(x); }
D2 AsNode_elemvec(const U2& conn, const U2& dofs, const D3& x) { V v(conn, dofs); return v.AsNode(x); }
D3 AsElement_dofval(const U2& conn, const U2& dofs, const D1& x) { V v(conn, dofs); return v.AsElement(x); }
D3 AsElement_nodevec(const U2& conn, const U2& dofs, const D2& x) { V v(conn, dofs); return v.AsElement(x); }
D1 AsDofs_nodevec(const U2& conn, const U2& dofs, const D2& x) { V v(conn, dofs); return v.AsDofs(x); }
D1 AsDofs_elemvec(const U2& conn, const U2& dofs, const D3& x) { V v(conn, dofs); return v.AsDofs(x); }
void asNode_dofval(const U2& conn, const U2& dofs, const D1& x, D2& r) { V v(conn, dofs); v.asNode(x, r); }
void asNode_elemvec(const U2& conn, const U2& dofs, const D3& x, D2& r) { V v(conn, dofs); v.asNode(x, r); }
void asElement_dofval(const U2& conn, const U2& dofs, const D1& x, D3& r) { V v(conn, dofs); v.asElement(x, r); }
void asElement_nodevec(const U2& conn, const U2& dofs, const D2& x, D3& r) { V v(conn, dofs); v.asElement(x, r); }
void asDofs_nodevec(const U2& conn, const U2& dofs, const D2& x, D1& r) { V v(conn, dofs); v.asDofs(x, r); }
void asDofs_elemvec(const U2& conn, const U2& dofs, const D3& x, D1& r) { V v(conn, dofs); v.asDofs(x, r); }
D2 Copy(const U2& conn, const U2& dofs, const D2& src, const D2& dest) { V v(conn, dofs); return v.Copy(src, dest); }
void copy(const U2& conn, const U2& dofs, const D2& src, D2& dest) { V v(conn, dofs); v.copy(src, dest); }
D3 asElementVector(const U2& conn, const D2& x) { return GooseFEM::Element::asElementVector(conn, x); }
// round trips
D2 node_dofs_node(const U2& conn, const U2& dofs, const D2& x) { V v(conn, dofs); return v.AsNode(v.AsDofs(x)); }
D1 dofs_node_dofs(const U2& conn, const U2& dofs, const D1& x) { V v(conn, dofs); return v.AsDofs(v.AsNode(x)); }
D2 node_elem_node(const U2& conn, const U2& dofs, const D2& x) { V v(conn, dofs); return v.AsNode(v.AsElement(x)); }
D1 dofs_elem_dofs(const U2& conn, const U2& dofs, const D1& x) { V v(conn, dofs); return v.AsDofs(v.AsElement(x)); }
}
