// Verification driver for C15: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/MeshHex8.h>
#include <GooseFEM/MeshTri3.h>
namespace gfv {
using U1 = xt::xtensor<size_t, 1>;
using U2 = xt::xtensor<size_t, 2>;
using D2 = xt::xtensor<double, 2>;
using Quad = GooseFEM::Mesh::Quad4::Regular;
using Tri = GooseFEM::Mesh::Tri3::Regular;
using Hex = GooseFEM::Mesh::Hex8::Regular;

Quad q_make(size_t nx, size_t ny, double h) { return Quad(nx, ny, h); }
Tri t_make(size_t nx, size_t ny, double h) { return Tri(nx, ny, h); }
Hex h_make(size_t nx, size_t ny, size_t nz, double h) { return Hex(nx, ny, nz, h); }
Quad q_default(size_t nx, size_t ny) { return Quad(nx, ny); }
Tri t_default(size_t nx, size_t ny) { return Tri(nx, ny); }
Hex h_default(size_t nx, size_t ny, size_t nz) { return Hex(nx, ny, nz); }

#define ENTRIES(k, M) \
    D2 k##_coor(const M& m) { return m.coor(); } \
    U2 k##_conn(const M& m) { return m.conn(); } \
    U2 k##_dofs(const M& m) { return m.dofs(); } \
    size_t k##_nelem(const M& m) { return m.nelem(); } \
    size_t k##_nnode(const M& m) { return m.nnode(); } \
    size_t k##_nne(const M& m) { return m.nne(); } \
    size_t k##_ndim(const M& m) { return m.ndim(); } \
    size_t k##_nelx(const M& m) { return m.nelx(); } \
    size_t k##_nely(const M& m) { return m.nely(); } \
    double k##_h(const M& m) { return m.h(); } \
    bool k##_type(const M& m, int t) { return m.elementType() == static_cast<GooseFEM::Mesh::ElementType>(t); }

ENTRIES(q, Quad)
ENTRIES(t, Tri)
ENTRIES(h, Hex)
size_t h_nelz(const Hex& m) { return m.nelz(); }
U2 q_grid(const Quad& m) { return m.elementgrid(); }
U2 dofs(size_t nnode, size_t ndim) { return GooseFEM::Mesh::dofs(nnode, ndim); }
}
