// Verification driver for C28: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/MeshTri3.h>
namespace gfv {
using U2 = xt::xtensor<size_t, 2>;
using D2 = xt::xtensor<double, 2>;
using I1 = xt::xtensor<int, 1>;
I1 get(const D2& coor, const U2& conn) { return GooseFEM::Mesh::Tri3::getOrientation(coor, conn); }
U2 set(const D2& coor, const U2& conn, int o) { return GooseFEM::Mesh::Tri3::setOrientation(coor, conn, o); }
U2 set_default(const D2& coor, const U2& conn) { return GooseFEM::Mesh::Tri3::setOrientation(coor, conn); }
U2 set_val(const D2& coor, const U2& conn, const I1& val, int o) { return GooseFEM::Mesh::Tri3::setOrientation(coor, conn, val, o); }
U2 set_val_default(const D2& coor, const U2& conn, const I1& val) { return GooseFEM::Mesh::Tri3::setOrientation(coor, conn, val); }
U2 tri_conn(size_t nx, size_t ny, double h) { return GooseFEM::Mesh::Tri3::Regular(nx, ny, h).conn(); }
D2 tri_coor(size_t nx, size_t ny, double h) { return GooseFEM::Mesh::Tri3::Regular(nx, ny, h).coor(); }
}
