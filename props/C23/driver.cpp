// Verification driver for C23: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using U1 = xt::xtensor<size_t, 1>;
using U2 = xt::xtensor<size_t, 2>;
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using Lists = std::vector<std::vector<size_t>>;
U1 coordination(const U2& conn) { return GooseFEM::Mesh::coordination(conn); }
Lists elem2node(const U2& conn, bool sorted) { return GooseFEM::Mesh::elem2node(conn, sorted); }
Lists elem2node_default(const U2& conn) { return GooseFEM::Mesh::elem2node(conn); }
Lists elem2node_tied(const U2& conn, const U2& dofs, bool sorted) { return GooseFEM::Mesh::elem2node(conn, dofs, sorted); }
Lists node2dof(const U2& dofs, bool sorted) { return GooseFEM::Mesh::node2dof(dofs, sorted); }
Lists node2dof_default(const U2& dofs) { return GooseFEM::Mesh::node2dof(dofs); }
Lists nodaltyings(const U2& dofs) { return GooseFEM::Mesh::nodaltyings(dofs); }
U1 elemmap2nodemap(const U1& m, const D2& coor, const U2& conn) { return GooseFEM::Mesh::elemmap2nodemap(m, coor, conn, GooseFEM::Mesh::ElementType::Quad4); }
U1 elemmap2nodemap_default(const U1& m, const D2& coor, const U2& conn) { return GooseFEM::Mesh::elemmap2nodemap(m, coor, conn); }
}
