// Verification driver for C02: the public entry points under contract.
#include <Eigen/Eigen>
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using U2 = xt::xtensor<size_t, 2>;
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using D3 = xt::xtensor<double, 3>;
using V = GooseFEM::Vector;

D1 AssembleDofs_nodevec(const U2& conn, const U2& dofs, const D2& x) { V v(conn, dofs); return v.AssembleDofs(x); }
D1 AssembleDofs_elemvec(const U2& conn, const U2& dofs, const D3& x) { V v(conn, dofs); return v.AssembleDofs(x); }
D2 AssembleNode_elemvec(const U2& conn, const U2& dofs, const D3& x) { V v(conn, dofs); return v.AssembleNode(x); }
void assembleDofs_nodevec(const U2& conn, const U2& dofs, const D2& x, D1& r) { V v(conn, dofs); v.assembleDofs(x, r); }
void assembleDofs_elemvec(const U2& conn, const U2& dofs, const D3& x, D1& r) { V v(conn, dofs); v.assembleDofs(x, r); }
void assembleNode_elemvec(const U2& conn, const U2& dofs, const D3& x, D2& r) { V v(conn, dofs); v.assembleNode(x, r); }
D2 assembleNodeVector(const U2& conn, const D3& x) { return GooseFEM::Element::assembleNodeVector(conn, x); }
}
