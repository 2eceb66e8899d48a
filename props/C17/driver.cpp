// Verification driver for C17: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/MeshHex8.h>
#include <GooseFEM/MeshTri3.h>
namespace gfv {
using U2 = xt::xtensor<size_t, 2>;
using Quad = GooseFEM::Mesh::Quad4::Regular;
using Tri = GooseFEM::Mesh::Tri3::Regular;
using Hex = GooseFEM::Mesh::Hex8::Regular;
Quad q_make(size_t nx, size_t ny, double h) { return Quad(nx, ny, h); }
Tri t_make(size_t nx, size_t ny, double h) { return Tri(nx, ny, h); }
Hex h_make(size_t nx, size_t ny, size_t nz, double h) { return Hex(nx, ny, nz, h); }
U2 q_periodic(const Quad& m) { return m.nodesPeriodic(); }
U2 t_periodic(const Tri& m) { return m.nodesPeriodic(); }
U2 h_periodic(const Hex& m) { return m.nodesPeriodic(); }
U2 q_dofs(const Quad& m) { return m.dofsPeriodic(); }
U2 t_dofs(const Tri& m) { return m.dofsPeriodic(); }
U2 h_dofs(const Hex& m) { return m.dofsPeriodic(); }
size_t q_origin(const Quad& m) { return m.nodesOrigin(); }
size_t t_origin(const Tri& m) { return m.nodesOrigin(); }
size_t h_origin(const Hex& m) { return m.nodesOrigin(); }
}
